//! Soundness against the library's own prover: a witness that breaks a gate,
//! a copy constraint or a lookup never yields an accepted proof.
use super::Cases;
use crate::breaks::*;
use crate::circ::*;
use crate::driver::{guarded, Case};
use crate::sess::{self, VF};
use crate::sym::SymF;
use zero_over_k::error::Error;

pub struct Bad(pub Circuit, pub Break);
impl Bad {
    fn body<F: VF>(&self) {
        let cr = &self.0;
        let lab = "no accepted proof for the broken witness";
        let (a, deltas) = broken::<F>(cr, &self.1);
        let mut ps = ProverSide::<F>::new(cr, &a);
        let proof = match guarded(|| sess::trusting(|| ps.prove())) {
            Ok(Ok(p)) => p,
            Ok(Err(_)) | Err(_) => {
                sym_trust_off();
                if matches!(self.1, Break::Copy(_)) {
                    // refused because the running product does not close
                    let r = sess::last_nonzero::<F>();
                    sess::must_reject(lab, false, "".into(), r, &deltas, &[]);
                    return;
                }
                sess::fact(lab, true, "prover refuses");
                return;
            }
        };
        let mut vs = sess::trusting(|| VerifierSide::<F>::new(cr, &a));
        let r = guarded(|| sess::trusting(|| vs.verify(proof)));
        sym_trust_off();
        match r {
            Ok(Ok(())) => sess::must_reject::<F>(lab, true, "accepted".into(), vec![], &deltas, &[]),
            Ok(Err(Error::QuotientNotZero)) if !matches!(self.1, Break::Lookup(_) | Break::LookupOf(..)) => {
                sess::must_reject(lab, false, "".into(), sess::last_nonzero::<F>(), &deltas, &[])
            }
            Ok(Err(_)) => sess::fact(lab, true, "rejected"),
            Err(e) => sess::fact("the verifier does not panic on it", false, e),
        }
    }
}
fn sym_trust_off() {
    crate::sym::with(|a| a.trust = false);
}
impl Case for Bad {
    fn id(&self) -> String {
        format!("{}/{:?}", self.0.name, self.1)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        if F::SYM {
            self.body::<F>()
        } else {
            sess::constants(|| self.body::<SymF>())
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Cases = vec![];
    let mut gates = vec![
        mul_full(8),
        arith_full(8),
        arith4_full(8),
        rotations(8),
        skip_rows(8, 1),
        skip_rows(8, 2),
        high_degree(4, 3),
        high_degree(4, 4),
        copy(4, 2, 2, 2),
        copy(4, 2, 3, 1),
        lookup(4, 2, 1, &[0, 1], 1),
        lookup(4, 2, 2, &[0, 1], 1),
        copy_lookup(4, 2),
    ];
    if thorough {
        gates.push(high_degree(8, 3));
        gates.push(mul_full(16));
        gates.push(skip_rows(16, 3));
        gates.push(copy(8, 5, 3, 2));
        gates.push(copy_lookup(8, 5));
    }
    let first = gates.len();
    gates.extend(manies());
    gates.extend(mixes(if thorough { 36 } else { 18 }, 8));
    gates.extend(mixes(if thorough { 12 } else { 3 }, 16));
    for (i, c) in gates.into_iter().enumerate() {
        for k in 0..c.solve.len() {
            v.push(Box::new(Bad(c.clone(), Break::Gate(k))));
        }
        for k in 0..c.cycles.len() {
            v.push(Box::new(Bad(c.clone(), Break::Copy(k))));
        }
        if i >= first {
            for (l, k) in c.lookups.iter().enumerate() {
                if matches!(k.exprs[0], G::Q(..)) {
                    for r in 0..c.u {
                        v.push(Box::new(Bad(c.clone(), Break::LookupOf(l, r))));
                    }
                }
            }
        } else if !c.lookups.is_empty() {
            for r in 0..c.u {
                v.push(Box::new(Bad(c.clone(), Break::Lookup(r))));
            }
        }
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "A satisfying sample assignment is broken by symbolic amounts and taken through the real prover and verifier with symbolic challenges; the solver shows that no non-zero breakage makes the verifier's identity vanish (gates), or that the compared quantity is not identically zero (copies, lookups).",
    functions: &["Indexer::index", "TurboPlonk::{prove,verify}", "PIOPforPolyIdentity::*", "PermutationArgument::*", "LookupArgument::*"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns", "12 circuits (n<=8; 16 thorough), every solved column (gates), every copy cycle, every usable row of a lookup", "base assignment: one seeded sample; perturbations and challenges symbolic"],
    assumptions: &[],
};
