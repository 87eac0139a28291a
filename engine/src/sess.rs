//! Per-thread session shared by the harness (generic over the field) and the
//! environment stubs.  The same harness code runs with `F = SymF` (symbolic)
//! and with `F = Fr` (native replay of a solver model).
use crate::sym::{self, SymF};
use ark_bls12_381::Fr;
use ark_ff::{BigInteger256, PrimeField, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug)]
pub enum GoalKind {
    /// term must be the zero polynomial (symbolic run)
    ZeroTerm(u32),
    /// the two terms must be equal (symbolic run)
    EqTerm(u32, u32),
    /// native value must be zero (replay run); bool = holds
    ZeroVal(bool),
    /// plain fact about the run
    Fact(bool),
    /// for every non-zero value of the perturbations there are challenges for
    /// which one of the residues is non-zero (symbolic run)
    Reject { residues: Vec<u32>, deltas: Vec<String>, vary: Vec<String>, aux: Vec<String> },
}
#[derive(Clone, Debug)]
pub struct Goal {
    pub label: String,
    pub kind: GoalKind,
    pub detail: String,
}
#[derive(Clone, Debug)]
pub struct FsEvent {
    pub challenge: String,
    /// absorbed messages so far (raw bytes of every absorb call) and the
    /// number of draws since the last absorb
    pub history: Vec<Vec<u8>>,
    pub draw: usize,
}
#[derive(Default)]
pub struct Sess {
    pub symbolic: bool,
    pub seed: u64,
    pub assign: BTreeMap<String, Fr>,
    pub goals: Vec<Goal>,
    pub fs_index: HashMap<Vec<u8>, usize>,
    pub fs_log: Vec<FsEvent>,
    /// transcript hash: input -> output, output -> chain of messages
    pub digest_ids: HashMap<Vec<u8>, [u8; 32]>,
    pub digest_hist: HashMap<Vec<u8>, Vec<Vec<u8>>>,
    pub rnd: usize,
    /// digest of an encoded commitment -> (coefficients, blinding) encodings
    pub comm_tokens: HashMap<[u8; 32], Vec<[u8; 32]>>,
    pub commits: Vec<(String, usize, Option<usize>)>,
    pub opens: usize,
    pub checks: Vec<bool>,
    /// residues compared by the most recent opening check
    pub last_check_sym: Vec<u32>,
    pub last_check_fr: Vec<Fr>,
    /// point of the most recent opening check
    pub last_point_sym: Option<u32>,
    pub last_point_fr: Option<Fr>,
    /// how many of them belong to the polynomial (the rest: blinding)
    pub last_check_main: usize,
    pub notes: BTreeMap<String, u64>,
    pub functions: std::collections::BTreeSet<String>,
    pub vars_seen: BTreeMap<String, ()>,
    /// when set, variables and challenges are fixed sample values
    pub concrete: bool,
    pub salt: u64,
    /// when set, only these variables are free, the rest are sample values
    pub keep: Option<Vec<String>>,
    /// challenges forced to a value
    pub force: BTreeMap<String, Fr>,
    /// when set, the k-th draw of the transcript is the variable ch_d<k>,
    /// whatever was absorbed (harnesses that look at one equation in isolation)
    pub by_draw: Option<usize>,
}
thread_local! { pub static SESS: RefCell<Sess> = RefCell::new(Sess::default()); }
pub fn with<R>(f: impl FnOnce(&mut Sess) -> R) -> R {
    SESS.with(|s| f(&mut s.borrow_mut()))
}

/// Value of variable `name` in its wire encoding (Montgomery limbs), making it
/// known to the arena in a symbolic run.
pub fn var_limbs(name: &str) -> [u64; 4] {
    if let Some(v) = fixed_value(name) {
        return v.0 .0;
    }
    let symbolic = with(|s| {
        s.vars_seen.insert(name.to_string(), ());
        s.symbolic
    });
    if symbolic {
        sym::with(|a| {
            let id = a.var(name);
            a.register_fp(id);
            let v: Fr = a.fp[id as usize];
            v.0 .0
        })
    } else {
        let v = native_value(name);
        v.0 .0
    }
}
/// value of a variable that is not free at the moment
pub fn fixed_value(name: &str) -> Option<Fr> {
    with(|s| match s.force.get(name) {
        Some(v) => Some(*v),
        None if s.concrete => Some(concrete_value(name, s.seed ^ (s.salt << 32))),
        None => match &s.keep {
            Some(k) if !k.iter().any(|x| x == name) => Some(concrete_value(name, s.seed)),
            _ => None,
        },
    })
}
/// run `f` with only the variables `names` free
pub fn keeping<T>(names: &[String], f: impl FnOnce() -> T) -> T {
    with(|s| s.keep = Some(names.to_vec()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    with(|s| s.keep = None);
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}
pub fn concrete_value(name: &str, seed: u64) -> Fr {
    sym::var_value(name, seed ^ 0x5a5a_0000)
}
/// run `f` with every variable fixed to a sample value
pub fn concretely<T>(f: impl FnOnce() -> T) -> T {
    with(|s| s.concrete = true);
    let r = f();
    with(|s| s.concrete = false);
    r
}
/// run `f` with the transcript's k-th draw named ch_d<k>; some of them forced
pub fn with_draws<T>(force: &[(usize, Fr)], f: impl FnOnce() -> T) -> T {
    with(|s| {
        s.by_draw = Some(0);
        s.force.clear();
        for (k, v) in force {
            s.force.insert(format!("ch_d{}", k), *v);
        }
    });
    let r = f();
    with(|s| {
        s.by_draw = None;
        s.force.clear();
    });
    r
}
/// treat the term as zero wherever it is compared (symbolic runs)
pub fn assume_zero<F: VF>(x: &F) {
    use std::any::Any;
    if let Some(v) = (x as &dyn Any).downcast_ref::<SymF>() {
        sym::with(|a| {
            a.assume.insert(v.0);
            let n = a.scale(v.0, -<Fr as ark_ff::One>::one());
            a.assume.insert(n);
        });
    }
}
pub fn native_value(name: &str) -> Fr {
    if let Some(v) = fixed_value(name) {
        return v;
    }
    with(|s| match s.assign.get(name) {
        Some(v) => *v,
        None => sym::var_value(name, s.seed),
    })
}

pub trait VF: PrimeField + ark_ff::SquareRootField {
    const SYM: bool;
    fn var(name: &str) -> Self;
    fn goal_zero(label: &str, x: Self);
    /// value used to steer (fingerprint / actual value)
    fn peek(&self) -> Fr;
    fn of(c: Fr) -> Self;
}
impl VF for SymF {
    const SYM: bool = true;
    fn var(name: &str) -> Self {
        if let Some(v) = fixed_value(name) {
            return SymF::konst(v);
        }
        if !with(|s| s.symbolic) {
            return SymF::konst(native_value(name));
        }
        with(|s| s.vars_seen.insert(name.to_string(), ()));
        SymF(sym::with(|a| a.var(name)))
    }
    fn goal_zero(label: &str, x: Self) {
        if !with(|s| s.symbolic) {
            return Fr::goal_zero(label, x.fpv());
        }
        with(|s| {
            s.goals.push(Goal {
                label: label.into(),
                kind: GoalKind::ZeroTerm(x.0),
                detail: String::new(),
            })
        });
    }
    fn peek(&self) -> Fr {
        self.fpv()
    }
    fn of(c: Fr) -> Self {
        SymF::konst(c)
    }
}
impl VF for Fr {
    const SYM: bool = false;
    fn var(name: &str) -> Self {
        native_value(name)
    }
    fn goal_zero(label: &str, x: Self) {
        with(|s| {
            s.goals.push(Goal {
                label: label.into(),
                kind: GoalKind::ZeroVal(x.is_zero()),
                detail: format!("residue {}", x),
            })
        });
    }
    fn peek(&self) -> Fr {
        *self
    }
    fn of(c: Fr) -> Self {
        c
    }
}
pub fn goal_eq<F: VF>(label: &str, a: F, b: F) {
    use std::any::Any;
    match ((&a as &dyn Any).downcast_ref::<SymF>(), (&b as &dyn Any).downcast_ref::<SymF>()) {
        (Some(_), Some(_)) if !with(|s| s.symbolic) => F::goal_zero(label, a - b),
        (Some(x), Some(y)) => with(|s| {
            s.goals.push(Goal {
                label: label.into(),
                kind: GoalKind::EqTerm(x.0, y.0),
                detail: String::new(),
            })
        }),
        _ => F::goal_zero(label, a - b),
    }
}
pub fn fact(label: &str, ok: bool, detail: impl Into<String>) {
    with(|s| {
        s.goals.push(Goal {
            label: label.into(),
            kind: GoalKind::Fact(ok),
            detail: detail.into(),
        })
    });
}
/// The verifier must reject every non-zero choice of the perturbation
/// variables `deltas` (up to the challenge-dependent exceptions of a random
/// check).  `accepted`: what the run at hand did; `residues`: the quantities
/// it compared with zero; `vary`: challenges drawn after the perturbation was
/// chosen (empty: all of them).
pub fn must_reject<F: VF>(label: &str, accepted: bool, detail: String, residues: Vec<F>, deltas: &[String], vary: &[String]) {
    must_reject_whatever(label, accepted, detail, residues, deltas, vary, &[])
}
/// the same, whatever values the unknowns `aux` take
pub fn must_reject_whatever<F: VF>(
    label: &str,
    accepted: bool,
    detail: String,
    residues: Vec<F>,
    deltas: &[String],
    vary: &[String],
    aux: &[String],
) {
    use std::any::Any;
    fact(label, !accepted, detail);
    if F::SYM && !accepted && with(|s| s.symbolic) {
        let r: Vec<u32> = residues
            .iter()
            .map(|x| (x as &dyn Any).downcast_ref::<SymF>().unwrap().0)
            .collect();
        with(|s| {
            s.goals.push(Goal {
                label: label.into(),
                kind: GoalKind::Reject { residues: r, deltas: deltas.to_vec(), vary: vary.to_vec(), aux: aux.to_vec() },
                detail: String::new(),
            })
        });
    }
}
pub fn covers(f: &str) {
    with(|s| {
        s.functions.insert(f.to_string());
    });
}
pub fn note(k: &str, n: u64) {
    with(|s| *s.notes.entry(k.to_string()).or_insert(0) += n);
}
pub fn vars<F: VF>(prefix: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| F::var(&format!("{}{}", prefix, i))).collect()
}
#[allow(dead_code)]
pub fn limbs_of(x: &BigInteger256) -> [u64; 4] {
    x.0
}

/// the last term a branch found to be (generically) different from zero
pub fn last_nonzero<F: VF>() -> Vec<F> {
    use std::any::Any;
    if !F::SYM {
        return vec![];
    }
    let i = sym::with(|a| a.last_generic);
    i.map(|i| *(&SymF(i) as &dyn Any).downcast_ref::<F>().unwrap()).into_iter().collect()
}
pub fn record_check<F: PrimeField>(res: &[F], point: &F, main: usize, ok: bool) {
    use std::any::Any;
    with(|s| {
        s.last_point_sym = (point as &dyn Any).downcast_ref::<SymF>().map(|v| v.0);
        s.last_point_fr = (point as &dyn Any).downcast_ref::<Fr>().copied();
        s.checks.push(ok);
        s.last_check_main = main;
        s.last_check_sym.clear();
        s.last_check_fr.clear();
        for x in res {
            if let Some(v) = (x as &dyn Any).downcast_ref::<SymF>() {
                s.last_check_sym.push(v.0);
            }
            if let Some(v) = (x as &dyn Any).downcast_ref::<Fr>() {
                s.last_check_fr.push(*v);
            }
        }
    });
}
/// residues of the most recent opening check
pub fn last_check<F: VF>() -> Vec<F> {
    use std::any::Any;
    let (a, b) = with(|s| (s.last_check_sym.clone(), s.last_check_fr.clone()));
    let mut out = vec![];
    for i in a {
        out.push(*(&SymF(i) as &dyn Any).downcast_ref::<F>().unwrap());
    }
    for v in b {
        out.push(*(&v as &dyn Any).downcast_ref::<F>().unwrap());
    }
    out
}

/// point of the most recent opening check
pub fn last_point<F: VF>() -> F {
    use std::any::Any;
    let (a, b) = with(|s| (s.last_point_sym, s.last_point_fr));
    match (a, b) {
        (Some(i), _) => *(&SymF(i) as &dyn Any).downcast_ref::<F>().unwrap(),
        (_, Some(v)) => *(&v as &dyn Any).downcast_ref::<F>().unwrap(),
        _ => panic!("no opening was checked"),
    }
}

/// tell the engine that `x` may be treated as an atom
pub fn atom<F: PrimeField>(x: &F, class: &str) {
    use std::any::Any;
    if let Some(v) = (x as &dyn Any).downcast_ref::<SymF>() {
        sym::with(|a| {
            if !a.trust {
                a.mark_opaque(v.0, class)
            }
        });
    }
}

/// run `f` over the symbolic field type with every value a constant (a plain
/// concrete execution in which compared quantities can be inspected)
pub fn constants<T>(f: impl FnOnce() -> T) -> T {
    let old = sym::ARENA.with(|a| std::mem::replace(&mut *a.borrow_mut(), sym::Arena::new()));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    sym::ARENA.with(|a| *a.borrow_mut() = old);
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// equalities that hold on the sample are taken as given inside `f`
pub fn trusting<T>(f: impl FnOnce() -> T) -> T {
    sym::with(|a| a.trust = true);
    let r = f();
    sym::with(|a| a.trust = false);
    r
}
/// draws whose transcript differs between two verifier runs
pub fn dependent(first: (usize, usize), second: (usize, usize)) -> Vec<String> {
    with(|s| {
        let (x, y) = (&s.fs_log[first.0..first.1], &s.fs_log[second.0..second.1]);
        y.iter()
            .enumerate()
            .filter(|(i, e)| x.get(*i).map_or(true, |o| o.history != e.history))
            .map(|(_, e)| e.challenge.clone())
            .collect()
    })
}
/// every value is randomness of the source `prefix`, each used once
pub fn goal_fresh<F: VF>(label: &str, prefix: &str, xs: &[F]) {
    let cand: Vec<F> = (0..4 * xs.len() + 16).map(|i| F::var(&format!("rnd_{}{}", prefix, i))).collect();
    let mut used = std::collections::BTreeSet::new();
    for x in xs {
        match cand.iter().position(|c| c.peek() == x.peek()) {
            Some(i) if used.insert(i) => goal_eq(label, *x, cand[i]),
            _ => fact(label, false, "not fresh randomness"),
        }
    }
}
