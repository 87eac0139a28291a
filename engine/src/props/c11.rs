//! Using the same objects again: a further proof, or a further check, comes
//! out as it would with fresh objects.
use super::Cases;
use crate::attack::*;
use crate::circ::*;
use crate::driver::{guarded, Case};
use crate::forge::lists;
use crate::sess::{self, VF};
use crate::sym::SymF;
use ark_ff::Zero;
use zero_over_k::error::Error;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    /// the honest proof of the k-th assignment
    Honest(usize),
    /// the same with one part moved by symbolic amounts
    Changed(usize, Part),
    /// the proof of the k-th assignment against public inputs of the other one
    Foreign(usize),
}
/// what a verifier run came to
struct Seen<F> {
    kind: String,
    compared: Vec<F>,
}
fn seen<F: VF>(r: Result<(), PErr<F>>, n0: usize) -> Seen<F> {
    match r {
        Ok(()) => Seen { kind: "accepted".into(), compared: vec![] },
        Err(Error::QuotientNotZero) => Seen { kind: "identity".into(), compared: sess::last_nonzero::<F>() },
        Err(_) if sess::with(|s| s.checks.len()) > n0 => {
            Seen { kind: "opening".into(), compared: sess::last_check::<F>() }
        }
        Err(e) => Seen { kind: format!("{:?}", e), compared: vec![] },
    }
}
/// n-th assignment: different sample values for every column
fn assignment<F: VF>(cr: &Circuit, k: usize) -> Assign<F> {
    let old = sess::with(|s| std::mem::replace(&mut s.salt, 0));
    sess::with(|s| s.salt = old + k as u64);
    let a = sess::concretely(|| cr.fill::<F>());
    sess::with(|s| s.salt = old);
    a
}
fn with_public<F: VF>(cr: &Circuit, own: &Assign<F>, public: &Assign<F>) -> Assign<F> {
    let mut a = own.clone();
    for (k, v) in public.cells.iter() {
        if k.0 == K::I && k.1 < cr.inst {
            a.cells.insert(*k, *v);
        }
    }
    a
}
pub struct Checks(pub Circuit, pub Vec<Step>);
impl Checks {
    fn body<F: VF>(&self) {
        let cr = &self.0;
        let mut asg = vec![];
        let mut proofs = vec![];
        for k in 0..2 {
            let a = share_circuit(cr, assignment::<F>(cr, k), asg.first());
            let mut ps = ProverSide::<F>::new(cr, &a);
            match guarded(|| sess::trusting(|| ps.prove())) {
                Ok(Ok(p)) => proofs.push(p),
                _ => {
                    sess::fact("an honest proof can be made", false, "");
                    return;
                }
            }
            asg.push(a);
        }
        let mut todo = vec![];
        for s in self.1.iter() {
            let (k, mut p, foreign) = match s {
                Step::Honest(k) => (*k, proofs[*k].clone(), false),
                Step::Changed(k, w) => {
                    let mut p = proofs[*k].clone();
                    for (n, x) in part(&mut p, *w) {
                        *x += F::var(&format!("d_{}", n));
                    }
                    (*k, p, false)
                }
                Step::Foreign(k) => (*k, proofs[*k].clone(), true),
            };
            let _ = &mut p;
            let pub_ = if foreign { &asg[1 - k] } else { &asg[k] };
            todo.push((with_public(cr, &asg[k], pub_), p));
        }
        let mut fresh = vec![];
        for (a, p) in todo.iter() {
            let mut vs = VerifierSide::<F>::new(cr, a);
            let n0 = sess::with(|s| s.checks.len());
            match guarded(|| sess::trusting(|| vs.verify(p.clone()))) {
                Ok(r) => fresh.push(seen::<F>(r, n0)),
                Err(e) => fresh.push(Seen { kind: format!("panic {}", e), compared: vec![] }),
            }
        }
        for (s, f) in self.1.iter().zip(fresh.iter()) {
            if let Step::Honest(_) = s {
                sess::fact("an honest proof is accepted by fresh objects", f.kind == "accepted", f.kind.clone());
            }
        }
        let mut vs = VerifierSide::<F>::new(cr, &todo[0].0);
        let mut n0 = 0;
        let mut again: Vec<Seen<F>> = vec![];
        let ps: Vec<Proof<F>> = todo.iter().map(|x| x.1.clone()).collect();
        let r = guarded(|| {
            sess::trusting(|| {
                vs.verify_many(
                    ps,
                    |k, vs| {
                        // the public inputs of this step; everything else stays
                        let new = VerifierSide::<F>::new(cr, &todo[k].0);
                        vs.i = new.i;
                    },
                    |_, r| {
                        again.push(seen::<F>(r, n0));
                        n0 = sess::with(|s| s.checks.len());
                    },
                )
            })
        });
        if let Err(e) = r {
            sess::with(|s| s.by_draw = None);
            again.push(Seen { kind: format!("panic {}", e), compared: vec![] });
        }
        for (k, f) in fresh.iter().enumerate() {
            let lab = format!("check {} comes out as with fresh objects", k);
            match again.get(k) {
                None => sess::fact(&lab, false, "not reached"),
                Some(g) => {
                    sess::fact(&lab, g.kind == f.kind, format!("{} instead of {}", g.kind, f.kind));
                    if g.kind == f.kind {
                        sess::fact(&lab, g.compared.len() == f.compared.len(), "compares other quantities");
                        for (x, y) in g.compared.iter().zip(f.compared.iter()) {
                            sess::goal_eq(&lab, *x, *y);
                        }
                    }
                }
            }
        }
    }
}
/// the circuit's own columns must be the same for all assignments
fn share_circuit<F: VF>(cr: &Circuit, a: Assign<F>, first: Option<&Assign<F>>) -> Assign<F> {
    let first = match first {
        None => return a,
        Some(f) => f,
    };
    let mut over = std::collections::BTreeMap::new();
    for (k, v) in first.cells.iter() {
        if matches!(k.0, K::X | K::T) {
            over.insert(*k, *v);
        }
    }
    let old = sess::with(|s| s.salt);
    sess::with(|s| s.salt = old + 1);
    let r = sess::concretely(|| cr.fill_over(&over));
    sess::with(|s| s.salt = old);
    r
}
impl Case for Checks {
    fn id(&self) -> String {
        let s: Vec<String> = self.1.iter().map(|x| format!("{:?}", x)).collect();
        format!("verify {}/{}", s.join(" "), self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        if F::SYM {
            self.body::<F>()
        } else {
            sess::constants(|| self.body::<SymF>())
        }
    }
}
/// proofs made one after the other with the same prover objects; `swap`: the
/// k-th proof is for the k-th assignment instead of always the same one
pub struct Proofs(pub Circuit, pub usize, pub bool);
impl Proofs {
    fn body<F: VF>(&self) {
        let cr = &self.0;
        let mut asg: Vec<Assign<F>> = vec![];
        for k in 0..self.1 {
            let a = if k == 0 {
                assignment::<F>(cr, 0)
            } else if self.2 {
                share_circuit(cr, assignment::<F>(cr, 1), asg.first())
            } else {
                asg[0].clone()
            };
            asg.push(a);
        }
        let mut ps = ProverSide::<F>::new(cr, &asg[0]);
        let swap = self.2;
        let again = guarded(|| {
            sess::trusting(|| {
                ps.prove_many(self.1, |k, s| {
                    if swap && k > 0 {
                        let new = ProverSide::<F>::new(cr, &asg[k]);
                        s.w = new.w;
                        s.i = new.i;
                    }
                })
            })
        });
        let again = match again {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => return sess::fact("every proof is made", false, format!("{:?}", e)),
            Err(e) => return sess::fact("every proof is made", false, e),
        };
        for k in 0..self.1 {
            let mut fresh = ProverSide::<F>::new(cr, &asg[k]);
            let mut n = 0;
            // the same randomness as the k-th run
            let f = guarded(|| sess::trusting(|| fresh.prove_from(k)));
            let f = match f {
                Ok(Ok(p)) => p,
                _ => return sess::fact("a fresh prover succeeds", false, ""),
            };
            let lab = format!("proof {} is the one fresh objects make", k);
            let (mut x, mut y) = (again[k].clone(), f);
            for w in [Part::Wit, Part::Lookup, Part::Z, Part::LookupZ, Part::Quotient, Part::FCommit, Part::QEvals, Part::Opening] {
                let (a, b) = (part(&mut x, w), part(&mut y, w));
                sess::fact(&lab, a.len() == b.len(), format!("{:?}: different shape", w));
                for ((_, u), (_, v)) in a.into_iter().zip(b) {
                    n += 1;
                    sess::goal_eq(&lab, *u, *v);
                }
            }
            for ((_, u), (pool, v)) in lists(&mut x).into_iter().zip(lists(&mut y)) {
                sess::fact(&lab, u.len() == v.len(), format!("{:?}: different shape", pool));
                for (u, v) in u.into_iter().zip(v) {
                    n += 1;
                    sess::goal_eq(&lab, *u, *v);
                }
            }
            sess::fact(&lab, n > 0, "nothing to compare");
        }
    }
}
impl Case for Proofs {
    fn id(&self) -> String {
        format!("prove x{}{}/{}", self.1, if self.2 { " other witness" } else { "" }, self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        if F::SYM {
            self.body::<F>()
        } else {
            sess::constants(|| self.body::<SymF>())
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    use Part::*;
    let mut cs = vec![rotations(8), arith_full(4), skip_rows(8, 2), copy(4, 2, 3, 1), lookup(4, 2, 2, &[0, 1], 1), copy_lookup(4, 2)];
    if thorough {
        cs.push(high_degree(8, 3));
        cs.push(copy(8, 5, 4, 2));
        cs.push(lookup(4, 2, 1, &[0, 1], 2));
        cs.push(copy_lookup(8, 5));
    }
    cs.extend(manies());
    cs.extend(mixes(if thorough { 24 } else { 6 }, 8));
    let mut v: Cases = vec![];
    for c in cs {
        v.push(Box::new(Proofs(c.clone(), 2, false)));
        v.push(Box::new(Proofs(c.clone(), 3, true)));
        use Step::*;
        v.push(Box::new(Checks(c.clone(), vec![Honest(0), Honest(0), Honest(1), Honest(0)])));
        if c.inst > 0 {
            v.push(Box::new(Checks(c.clone(), vec![Honest(0), Foreign(0), Honest(1), Foreign(1), Honest(0)])));
        }
        for w in [Evals, Wit, Lookup, LookupZ, Z, Quotient, QEvals, FCommit, Opening] {
            if matches!(w, Lookup | LookupZ) && c.lookups.is_empty() || w == Z && c.permuted().is_empty() {
                continue;
            }
            v.push(Box::new(Checks(c.clone(), vec![Honest(0), Changed(0, w), Honest(0), Changed(1, w), Honest(1)])));
            v.push(Box::new(Checks(c.clone(), vec![Changed(0, w), Honest(0), Changed(0, w), Honest(1)])));
        }
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "Sequences of proofs and of checks (honest, with one part moved by symbolic amounts, against other public inputs) are run through the real prover and verifier with the same keys, preprocessed input and oracles, and each one again with fresh objects; challenges, randomness and perturbations are symbolic.  Verdicts must agree and the compared quantities, or all elements of the proofs, are shown equal.",
    functions: &["TurboPlonk::{prove,verify}", "WitnessVerifierOracle", "FixedVerifierOracle", "InstanceVerifierOracle", "WitnessProverOracle::compute_extended_evals"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns", "6 circuits of n<=8 (10 thorough), up to 3 proofs / 5 checks in a row", "assignments: two seeded samples"],
    assumptions: &[],
};
