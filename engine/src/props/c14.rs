//! No component of a proof can be changed: claimed evaluations, commitments,
//! batch-opening messages.
use super::Cases;
use crate::circ::*;
use crate::driver::Case;
use crate::attack::*;
use crate::binding::Binding;
use crate::forge::*;
use crate::sess::{self, VF};
use crate::sym::SymF;

pub struct Tamper(pub Circuit, pub Part);

impl Tamper {
    fn shifted<F: VF>(&self, p: &Proof<F>) -> Proof<F> {
        let mut q = p.clone();
        for (n, x) in part(&mut q, self.1) {
            *x += F::var(&format!("d_{}", n));
        }
        q
    }
    /// concrete run for a given perturbation.  Changed evaluations go with a
    /// false statement, bent just so far that the combined identity holds
    fn concrete<F: VF>(&self, lab: &str) {
        let at = |e: F| -> Option<Run<F>> {
            let (a, p) = sample_proof::<F>(&self.0, e).ok()?;
            Some(run(&self.0, &a, self.shifted(&p)))
        };
        let mut e = F::zero();
        if self.1 == Part::Evals {
            let val = |e: F| match at(e) {
                Some(Run::Identity(Some(r))) => r,
                _ => F::zero(),
            };
            let (y0, y1) = (val(F::zero()), val(F::one()));
            if y0 == y1 {
                return;
            }
            e = y0 / (y0 - y1);
        }
        let r = at(e);
        sess::fact(lab, !matches!(r, Some(Run::Accept)), "a changed proof is accepted");
    }
    fn body<F: VF>(&self) {
        let what = format!("{:?} changed", self.1);
        let lab = format!("{}: rejected", what);
        let symbolic = sess::with(|s| s.symbolic);
        if !symbolic {
            return self.concrete::<F>(&lab);
        }
        let (a, mut p) = match sample_proof::<F>(&self.0, F::zero()) {
            Ok(x) => x,
            Err(e) => {
                sess::fact("an honest proof can be made", false, e);
                return;
            }
        };
        let l0 = sess::with(|s| s.fs_log.len());
        let base = sess::trusting(|| run(&self.0, &a, p.clone()));
        sess::fact("the untouched proof is accepted", matches!(base, Run::Accept), "");
        let l1 = sess::with(|s| s.fs_log.len());
        let names: Vec<String> = part(&mut p, self.1).iter().map(|x| x.0.clone()).collect();
        if names.is_empty() {
            return;
        }
        let deltas: Vec<String> = names.iter().map(|n| format!("d_{}", n)).collect();
        let q = self.shifted(&p);
        let mut r = sess::trusting(|| run(&self.0, &a, q.clone()));
        let mut l2 = sess::with(|s| s.fs_log.len());
        let (mut m0, mut m1) = (l1, l2);
        let mut extra = vec![];
        if let Run::Identity(Some(x)) = r {
            if self.1 == Part::Evals {
                // whatever the evaluations, suppose they satisfy the identity
                sess::assume_zero(&x);
                m0 = l2;
                r = sess::trusting(|| run(&self.0, &a, q));
                l2 = sess::with(|s| s.fs_log.len());
                m1 = l2;
            } else {
                extra.push(x);
            }
        }
        let mut vary = sess::dependent((l0, l1), (m0, m1));
        if vary.is_empty() {
            vary.push("none".into());
        }
        match r {
            Run::Accept => sess::must_reject::<F>(&lab, true, "accepted".into(), vec![], &deltas, &vary),
            Run::Opening => {
                let m = sess::with(|s| s.last_check_main);
                let res: Vec<F> = sess::last_check::<F>().into_iter().take(m).collect();
                sess::must_reject(&lab, false, "".into(), res, &deltas, &vary);
            }
            Run::Identity(_) => sess::must_reject(&lab, false, "".into(), extra, &deltas, &vary),
            Run::Other(e) => sess::fact(&lab, false, e),
        }
    }
}
impl Case for Tamper {
    fn id(&self) -> String {
        format!("{:?}/{}", self.1, self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        if F::SYM {
            self.body::<F>()
        } else {
            sess::constants(|| self.body::<SymF>())
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    use Part::*;
    let mut cs = vec![
        rotations(8),
        arith_full(4),
        skip_rows(8, 2),
        copy(4, 2, 3, 2),
        copy(4, 2, 3, 1),
        lookup(4, 2, 1, &[0, 1], 1),
        lookup(4, 2, 2, &[0, 1], 1),
        copy_lookup(4, 2),
    ];
    if thorough {
        cs.push(high_degree(8, 3));
        cs.push(copy(8, 5, 4, 2));
        cs.push(lookup(8, 4, 3, &[0, 1, 1, 3], 1));
        cs.push(lookup(4, 2, 1, &[0, 1], 2));
        cs.push(copy_lookup(8, 5));
    }
    cs.extend(manies());
    cs.extend(mixes(if thorough { 24 } else { 8 }, 8));
    let mut v: Cases = vec![];
    for c in cs {
        for p in [Evals, Wit, Lookup, LookupZ, Z, Quotient, QEvals, FCommit, Opening] {
            if matches!(p, Lookup | LookupZ) && c.lookups.is_empty() || p == Z && c.permuted().is_empty() {
                continue;
            }
            v.push(Box::new(Tamper(c.clone(), p)));
            if p != Opening {
                v.push(Box::new(Binding(c.clone(), Some(p))));
            }
        }
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "The real prover makes a proof on sample cells with symbolic challenges; every value of one part of it is perturbed by an independent symbolic amount and the real verifier is executed.  The solver shows that no non-zero perturbation makes the compared quantities vanish, when only the challenges whose transcript contains the changed message are drawn afresh.  Separately, every element of each message is shown to influence every challenge that has to come after it.",
    functions: &["TurboPlonk::{prove,verify}", "Multiopen::{prove,verify}", "transcript absorption order"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns", "8 circuits quick, 13 thorough (n<=8)", "every scalar of the perturbed part moved independently; parts perturbed one at a time", "base proof from one seeded assignment; verdict over all perturbations, challenges varied over seeded samples with Bezout/kernels certificates"],
    assumptions: &["Evaluations: the combined identity is supposed to hold for the perturbed values (over-approximation of the adversary)."],
};
