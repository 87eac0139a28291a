//! A proof from which something is missing is refused, whatever the rest of
//! it says and whatever the challenges are.
use super::Cases;
use crate::attack::*;
use crate::breaks::*;
use crate::circ::*;
use crate::driver::{guarded, Case};
use crate::sess::{self, VF};
use crate::sym::SymF;
use ark_ff::Zero;
use zero_over_k::error::Error;
use zero_over_k::oracles::traits::ConcreteOracle;
use zero_over_k::oracles::witness::WitnessProverOracle;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum List {
    WitComms,
    WitEvals,
    FixedEvals,
    TableEvals,
    PermEvals,
    LookupComms,
    LookupEvals,
    LookupZComms,
    LookupZEvals,
    ZComms,
    ZEvals,
    QEvals,
    /// commitments and evaluations of the lookups together
    Lookups,
    /// running products of the copy constraints, with their evaluations
    Copies,
}
pub const LISTS: [List; 14] = {
    use List::*;
    [
        WitComms, WitEvals, FixedEvals, TableEvals, PermEvals, LookupComms, LookupEvals, LookupZComms,
        LookupZEvals, ZComms, ZEvals, QEvals, Lookups, Copies,
    ]
};
/// which elements go
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
    Last,
    All,
}
fn cut<T>(v: &mut Vec<T>, c: Cut, per: usize) -> bool {
    let n0 = v.len();
    match c {
        Cut::Last => v.truncate(n0.saturating_sub(per)),
        Cut::All => v.clear(),
    }
    v.len() != n0
}
pub fn drop_from<F: VF>(p: &mut Proof<F>, l: List, c: Cut) -> bool {
    match l {
        List::WitComms => cut(&mut p.witness_commitments, c, 1),
        List::WitEvals => cut(&mut p.witness_evals, c, 1),
        List::FixedEvals => cut(&mut p.fixed_oracle_evals, c, 1),
        List::TableEvals => cut(&mut p.table_oracle_evals, c, 1),
        List::PermEvals => cut(&mut p.permutation_oracle_evals, c, 1),
        List::LookupComms => cut(&mut p.lookup_commitments, c, 1),
        List::LookupEvals => cut(&mut p.lookup_evals, c, 1),
        List::LookupZComms => cut(&mut p.lookup_z_commitments, c, 1),
        List::LookupZEvals => cut(&mut p.lookup_z_evals, c, 1),
        List::ZComms => cut(&mut p.z_commitments, c, 1),
        List::ZEvals => cut(&mut p.z_evals, c, 1),
        List::QEvals => cut(&mut p.multiopen_proof.q_evals, c, 1),
        List::Lookups => {
            cut(&mut p.lookup_commitments, c, 2)
                | cut(&mut p.lookup_evals, c, 3)
                | cut(&mut p.lookup_z_commitments, c, 1)
                | cut(&mut p.lookup_z_evals, c, 2)
        }
        List::Copies => {
            // the last product is opened at two points, the others at three
            let k = p.z_commitments.len();
            let e = p.z_evals.len();
            let r = cut(&mut p.z_commitments, c, 1) | cut(&mut p.z_evals, c, if k == 1 { e } else { 2 });
            r
        }
    }
}
/// an honest proof, cut; optionally given to objects that have already
/// checked the honest one
pub struct Cutting(pub Circuit, pub List, pub Cut, pub bool);

#[derive(Debug)]
enum Out {
    Accept,
    Refused(String),
}
fn verdict<F: VF>(vs: &mut VerifierSide<F>, p: &mut Proof<F>) -> Out {
    // the rest of the proof is up to the adversary: whatever is compared
    // with zero is supposed to be zero; natively the values are adapted
    for _ in 0..8 {
        let n0 = sess::with(|s| s.checks.len());
        let r = guarded(|| sess::trusting(|| sess::with_draws(&[], || vs.verify(p.clone()))));
        sess::with(|s| s.by_draw = None);
        let sym = sess::with(|s| s.symbolic);
        match r {
            Ok(Ok(())) => return Out::Accept,
            Ok(Err(Error::QuotientNotZero)) => {
                let x = match sess::last_nonzero::<F>().first() {
                    Some(x) => *x,
                    None => return Out::Refused("identity".into()),
                };
                if sym {
                    sess::assume_zero(&x);
                } else {
                    // bend the first quotient evaluation
                    match p.quotient_chunks_evals.first_mut() {
                        Some(e) => *e += F::one(),
                        None => return Out::Refused("identity, no quotient".into()),
                    }
                    let _ = guarded(|| sess::trusting(|| sess::with_draws(&[], || vs.verify(p.clone()))));
                    sess::with(|s| s.by_draw = None);
                    let y = sess::last_nonzero::<F>().first().copied().unwrap_or(F::zero());
                    if x == y {
                        return Out::Refused("identity does not depend on the quotient".into());
                    }
                    p.quotient_chunks_evals[0] += -F::one() + x / (x - y);
                }
            }
            Ok(Err(e)) => {
                if sess::with(|s| s.checks.len()) == n0 {
                    return Out::Refused(format!("{:?}", e));
                }
                let m = sess::with(|s| s.last_check_main);
                let res = sess::last_check::<F>();
                if sym {
                    let mut any = false;
                    for x in res.iter().filter(|x| !x.is_zero()) {
                        sess::assume_zero(x);
                        any = true;
                    }
                    if !any {
                        return Out::Refused(format!("{:?}", e));
                    }
                } else {
                    let f = &mut p.multiopen_proof.f_commit;
                    while f.p.len() < m {
                        f.p.push(F::zero());
                    }
                    while f.r.len() < res.len() - m {
                        f.r.push(F::zero());
                    }
                    for (i, x) in res.iter().enumerate() {
                        if i < m {
                            f.p[i] -= *x;
                        } else {
                            f.r[i - m] -= *x;
                        }
                    }
                }
            }
            Err(e) => return Out::Refused(format!("panic: {}", e)),
        }
    }
    Out::Refused("no fixed point".into())
}
impl Cutting {
    fn body<F: VF>(&self) {
        let lab = format!("{:?} ({:?}) missing: refused", self.1, self.2);
        let (a, p) = match sample_proof::<F>(&self.0, F::zero()) {
            Ok(x) => x,
            Err(e) => {
                sess::fact("an honest proof can be made", false, e);
                return;
            }
        };
        let mut vs = VerifierSide::<F>::new(&self.0, &a);
        if self.3 {
            let r = guarded(|| sess::trusting(|| sess::with_draws(&[], || vs.verify(p.clone()))));
            sess::with(|s| s.by_draw = None);
            sess::fact("the untouched proof is accepted", matches!(r, Ok(Ok(()))), "");
        }
        let mut q = p;
        if !drop_from(&mut q, self.1, self.2) {
            return;
        }
        let r = verdict(&mut vs, &mut q);
        sess::fact(&lab, !matches!(r, Out::Accept), "a proof with a part missing is accepted");
    }
}
impl Case for Cutting {
    fn id(&self) -> String {
        format!("{:?}/{:?}{}/{}", self.1, self.2, if self.3 { "/reused" } else { "" }, self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        if F::SYM {
            self.body::<F>()
        } else {
            sess::constants(|| self.body::<SymF>())
        }
    }
}
/// a prover that simply leaves constraints out, on a witness that breaks them
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Skip {
    /// all copy constraints / those of the last columns
    Copies(usize),
    /// lookups beyond the first k
    Lookups(usize),
}
pub struct Weak(pub Circuit, pub Skip, pub Break);
impl Weak {
    fn body<F: VF>(&self) {
        let cr = &self.0;
        let lab = "no accepted proof for the broken witness";
        let (a, deltas) = broken::<F>(cr, &self.2);
        let mut ps = ProverSide::<F>::new(cr, &a);
        match self.1 {
            Skip::Copies(keep) => {
                for (n, c) in cr.permuted().into_iter().enumerate() {
                    if n >= keep {
                        let o = &ps.w[c];
                        let rots = o.get_queried_rotations().clone();
                        let evals: Vec<F> = (0..cr.n).map(|r| a.cells[&(K::W, c, r)]).collect();
                        let mut o = WitnessProverOracle::new(cr.wlabel(c), interp(&ps.domain, &evals), &evals, false);
                        for r in rots {
                            o.register_rotation(r);
                        }
                        ps.w[c] = o;
                    }
                }
            }
            Skip::Lookups(keep) => ps.lus.truncate(keep),
        }
        let p = match guarded(|| sess::trusting(|| sess::with_draws(&[], || ps.prove()))) {
            Ok(Ok(p)) => p,
            _ => {
                sess::with(|s| s.by_draw = None);
                return;
            }
        };
        sess::with(|s| s.by_draw = None);
        let mut vs = VerifierSide::<F>::new(cr, &a);
        let r = guarded(|| sess::trusting(|| sess::with_draws(&[], || vs.verify(p.clone()))));
        sess::with(|s| s.by_draw = None);
        crate::sym::with(|a| a.trust = false);
        match r {
            Ok(Ok(())) => sess::must_reject::<F>(lab, true, "accepted".into(), vec![], &deltas, &[]),
            Ok(Err(Error::QuotientNotZero)) if matches!(self.2, Break::Copy(_)) => {
                sess::must_reject(lab, false, "".into(), sess::last_nonzero::<F>(), &deltas, &[])
            }
            Ok(Err(e)) => sess::fact(lab, true, format!("{:?}", e)),
            Err(e) => sess::fact(lab, true, e),
        }
    }
}
impl Case for Weak {
    fn id(&self) -> String {
        format!("skip {:?}/{:?}/{}", self.1, self.2, self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        if F::SYM {
            self.body::<F>()
        } else {
            sess::constants(|| self.body::<SymF>())
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut cs = vec![
        rotations(8),
        arith_full(4),
        copy(4, 2, 2, 2),
        copy(4, 2, 3, 1),
        lookup(4, 2, 1, &[0, 1], 1),
        lookup(4, 2, 1, &[0, 1], 2),
        copy_lookup(4, 2),
    ];
    if thorough {
        cs.push(skip_rows(8, 2));
        cs.push(high_degree(8, 3));
        cs.push(copy(8, 5, 4, 2));
        cs.push(lookup(8, 4, 3, &[0, 1, 1, 3], 1));
        cs.push(copy_lookup(8, 5));
    }
    cs.extend(manies());
    cs.extend(mixes(if thorough { 24 } else { 6 }, 8));
    let mut v: Cases = vec![];
    for c in cs {
        for l in LISTS {
            if !c.lookups.is_empty() || !matches!(l, List::LookupComms | List::LookupEvals | List::LookupZComms | List::LookupZEvals | List::Lookups | List::TableEvals) {
                if !c.permuted().is_empty() || !matches!(l, List::ZComms | List::ZEvals | List::PermEvals | List::Copies) {
                    for k in [Cut::Last, Cut::All] {
                        for reused in [false, true] {
                            v.push(Box::new(Cutting(c.clone(), l, k, reused)));
                        }
                    }
                }
            }
        }
        if !c.permuted().is_empty() {
            for k in 0..c.permuted().len() {
                for b in 0..c.cycles.len() {
                    v.push(Box::new(Weak(c.clone(), Skip::Copies(k), Break::Copy(b))));
                }
            }
        }
        for k in 0..c.lookups.len() {
            v.push(Box::new(Weak(c.clone(), Skip::Lookups(k), Break::Lookup(0))));
        }
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "An element (or all elements) of each list of an honest proof is left out and the real verifier is executed on the rest, for fresh objects and for objects that have checked the complete proof before.  Challenges are symbolic and every quantity the verifier compares is supposed to be whatever the adversary needs; no path may end in acceptance.  Also, the real prover is run without the copy constraints or lookups it is meant to enforce, on witnesses that break them by symbolic amounts.",
    functions: &["TurboPlonk::{prove,verify}", "Multiopen::verify", "WitnessVerifierOracle::{register_commitment,get_commitment}"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns", "7 circuits of n<=8 (12 thorough); last element or the whole of each of 14 lists", "base proof from one seeded assignment; challenges symbolic"],
    assumptions: &["Quotient pieces are not counted: leaving some out only restricts the prover."],
};
