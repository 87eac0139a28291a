//! Every challenge depends on every message element that precedes it.
use super::Cases;
use crate::attack::*;
use crate::circ::*;
use crate::driver::{guarded, Case};
use crate::binding::*;
use crate::sess::{self, VF};

/// prover and verifier draw the same challenges
pub struct Agree(pub Circuit);
impl Case for Agree {
    fn id(&self) -> String {
        format!("agree/{}", self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        let a = sess::concretely(|| self.0.fill::<F>());
        let l0 = sess::with(|s| s.fs_log.len());
        let r = guarded(|| sess::trusting(|| ProverSide::<F>::new(&self.0, &a).prove()));
        let p = match r {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => return sess::fact("an honest proof can be made", false, format!("{:?}", e)),
            Err(e) => return sess::fact("an honest proof can be made", false, e),
        };
        let l1 = sess::with(|s| s.fs_log.len());
        let r = guarded(|| sess::trusting(|| VerifierSide::<F>::new(&self.0, &a).verify(p)));
        crate::sym::with(|a| a.trust = false);
        sess::fact("the verifier accepts", matches!(r, Ok(Ok(()))), "");
        let (x, y) = sess::with(|s| (s.fs_log[l0..l1].to_vec(), s.fs_log[l1..].to_vec()));
        sess::fact("as many challenges on both sides", x.len() == y.len(), format!("{} / {}", x.len(), y.len()));
        for (k, (p, q)) in x.iter().zip(&y).enumerate() {
            let l = format!("challenge {} is the same on both sides", k);
            match differences::<F>(p, q) {
                None => sess::fact(&l, false, "different messages"),
                Some(d) => {
                    sess::fact(&l, true, "");
                    for x in d {
                        sess::goal_eq(&l, x, F::zero());
                    }
                }
            }
        }
        // no challenge is used twice
        for (k, p) in x.iter().enumerate() {
            let l = format!("challenge {} is a draw of its own", k);
            let again = x[..k].iter().any(|q| q.draw == p.draw && q.history == p.history);
            sess::fact(&l, !again, "same transcript state as an earlier challenge");
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    use Part::*;
    let mut cs = vec![rotations(8), mul_full(4), copy(4, 2, 3, 2), copy(4, 2, 3, 1), lookup(4, 2, 2, &[0, 1], 1), lookup(4, 2, 1, &[0, 1], 2), copy_lookup(4, 2)];
    if thorough {
        cs.extend(vec![high_degree(8, 3), copy(8, 5, 4, 2), lookup(8, 4, 3, &[0, 1, 1, 3], 1), copy_lookup(8, 5), copy(4, 2, 5, 1)]);
    }
    cs.extend(manies());
    cs.extend(mixes(if thorough { 24 } else { 12 }, 8));
    let mut v: Cases = vec![];
    for c in cs {
        v.push(Box::new(Agree(c.clone())));
        v.push(Box::new(Binding(c.clone(), None)));
        for p in [Wit, Lookup, LookupZ, Z, Quotient, Evals, FCommit, QEvals] {
            if matches!(p, Lookup | LookupZ) && c.lookups.is_empty() || p == Z && c.permuted().is_empty() {
                continue;
            }
            v.push(Box::new(Binding(c.clone(), Some(p))));
        }
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "Real prover and verifier are executed over a transcript that records every absorbed element as a symbolic term.  Every element of one message (and of the public inputs) is moved by a free amount; the solver shows that no non-zero movement leaves the material absorbed before any later challenge unchanged.  For honest proofs both sides' transcripts are compared challenge by challenge.",
    functions: &["TurboPlonk::{prove,verify}", "Multiopen::{prove,verify}", "transcript absorption order"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns", "circuits with n<=8, up to 5 copied columns, up to two lookups of up to three columns", "all movements of all elements of one message at a time"],
    assumptions: &["the transcript's hash is injective (the shipped transcript is executed over an ideal injective hash and expander)", "commitment encodings are injective"],
};
