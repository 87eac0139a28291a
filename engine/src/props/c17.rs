//! A proof is good only for the statement (public inputs, circuit) it was
//! made for.
use crate::attack::*;
use super::Cases;
use crate::circ::*;
use crate::driver::Case;
use crate::sess::{self, VF};
use crate::sym::SymF;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
    /// public input cells
    Public,
    /// fixed columns / selectors
    Fixed,
    Table,
}
pub struct Other(pub Circuit, pub What);
impl Other {
    fn kind(&self) -> K {
        match self.1 {
            What::Public => K::I,
            What::Fixed => K::X,
            What::Table => K::T,
        }
    }
    fn body<F: VF>(&self) {
        let symbolic = sess::with(|s| s.symbolic);
        let lab = format!("{:?} changed: rejected", self.1);
        let (a, p) = match sample_proof::<F>(&self.0, F::zero()) {
            Ok(x) => x,
            Err(e) => {
                sess::fact("an honest proof can be made", false, e);
                return;
            }
        };
        let l0 = sess::with(|s| s.fs_log.len());
        let base = sess::trusting(|| run(&self.0, &a, p.clone()));
        let l1 = sess::with(|s| s.fs_log.len());
        sess::fact("the proof is accepted for its own statement", matches!(base, Run::Accept), "");
        let k = self.kind();
        let mut b = a.clone();
        let mut deltas = vec![];
        for col in self.0.linear_columns(k) {
            for row in 0..self.0.n {
                let d = format!("d_{}", cell_name(k, col, row));
                *b.cells.get_mut(&(k, col, row)).unwrap() += F::var(&d);
                deltas.push(d);
            }
        }
        if deltas.is_empty() {
            return;
        }
        let r = sess::trusting(|| run(&self.0, &b, p));
        if !symbolic {
            sess::fact(&lab, !matches!(r, Run::Accept), "the proof is accepted for another statement");
            return;
        }
        let l2 = sess::with(|s| s.fs_log.len());
        // public inputs may be picked by the prover as late as the transcript
        // allows; the circuit is fixed beforehand
        let mut vary = sess::dependent((l0, l1), (l1, l2));
        if k != K::I {
            vary = sess::with(|s| s.fs_log[l1..l2].iter().map(|e| e.challenge.clone()).collect());
        } else if vary.is_empty() {
            vary.push("none".into());
        }
        match r {
            Run::Accept => sess::must_reject::<F>(&lab, true, "accepted".into(), vec![], &deltas, &vary),
            Run::Identity(x) => {
                sess::must_reject(&lab, false, "".into(), x.into_iter().collect(), &deltas, &vary)
            }
            Run::Opening => {
                let m = sess::with(|s| s.last_check_main);
                let res: Vec<F> = sess::last_check::<F>().into_iter().take(m).collect();
                sess::must_reject(&lab, false, "".into(), res, &deltas, &vary);
            }
            Run::Other(e) => sess::fact(&lab, false, e),
        }
    }
}
impl Case for Other {
    fn id(&self) -> String {
        format!("{:?}/{}", self.1, self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        if F::SYM {
            self.body::<F>()
        } else {
            sess::constants(|| self.body::<SymF>())
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut cs = vec![
        mul_full(8),
        rotations(8),
        arith_full(4),
        high_degree(4, 3),
        copy(4, 2, 2, 2),
        lookup(4, 2, 2, &[0, 1], 1),
        copy_lookup(4, 2),
    ];
    if thorough {
        cs.push(arith4_full(8));
        cs.push(copy(8, 5, 3, 2));
        cs.push(lookup(8, 5, 1, &[0, 1, 1, 2, 0], 1));
        cs.push(mul_full(16));
    }
    cs.extend(manies());
    cs.extend(mixes(if thorough { 24 } else { 12 }, 8));
    cs.extend(mixes(if thorough { 6 } else { 2 }, 16));
    let mut v: Cases = vec![];
    for c in cs {
        if c.cols(K::I) > 0 {
            v.push(Box::new(crate::binding::Binding(c.clone(), None)));
        }
        for w in [What::Public, What::Fixed, What::Table] {
            let o = Other(c.clone(), w);
            if !c.linear_columns(o.kind()).is_empty() {
                v.push(Box::new(o));
            }
        }
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "The real prover makes a proof for sample cells; the real verifier is executed on it for public inputs (or fixed / table columns) shifted by independent symbolic amounts.  The solver shows that no non-zero shift passes when only the challenges whose transcript contains the changed public input are drawn afresh.  Separately, every public input is shown to influence every challenge.",
    functions: &["TurboPlonk::{prove,verify}", "InstanceVerifierOracle::query", "Multiopen::verify"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns (columns some gate reads linearly)", "circuits of n<=8 (16 thorough)", "every public input / fixed / table cell moved independently", "base proof from one seeded assignment"],
    assumptions: &["The circuit (fixed columns, tables, permutation) is chosen before the challenges."],
};
