//! Emission of obligations as SMT-LIB (QF_NIA over the integers, identity
//! modulo the real 255-bit scalar field order) and the solver portfolio.
use crate::sym::{Arena, Id, Node};
use ark_bls12_381::Fr;
use ark_ff::{Field, FpParameters, One, PrimeField, Zero};
use num_bigint::BigUint;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn modulus() -> BigUint {
    <<Fr as PrimeField>::Params as FpParameters>::MODULUS.into()
}
fn lit(c: Fr) -> String {
    let p = modulus();
    let v: BigUint = c.into_repr().into();
    if &v + &v > p {
        format!("(- {})", p - v)
    } else {
        v.to_string()
    }
}

/// numerator / denominator form: value = num / prod den
pub struct Frac {
    memo: HashMap<Id, (Id, BTreeMap<Id, i32>)>,
}
impl Frac {
    pub fn new() -> Self {
        Frac { memo: HashMap::new() }
    }
    fn powi(a: &mut Arena, x: Id, e: i32) -> Id {
        let mut r = a.konst(Fr::one());
        for _ in 0..e {
            r = a.mul(r, x);
        }
        r
    }
    pub fn go(&mut self, a: &mut Arena, i: Id) -> (Id, BTreeMap<Id, i32>) {
        if let Some(r) = self.memo.get(&i) {
            return r.clone();
        }
        let r = match a.nodes[i as usize].clone() {
            Node::Const(_) | Node::Var(_) => (i, BTreeMap::new()),
            Node::Prod(f) => {
                let mut num = a.konst(Fr::one());
                let mut den: BTreeMap<Id, i32> = BTreeMap::new();
                for (x, e) in f {
                    let (nx, dx) = self.go(a, x);
                    if e > 0 {
                        let p = Self::powi(a, nx, e);
                        num = a.mul(num, p);
                        for (d, k) in dx {
                            *den.entry(d).or_insert(0) += k * e;
                        }
                    } else {
                        let (c, fx) = a.factors(nx);
                        let mut ci = Fr::one();
                        for _ in 0..-e {
                            ci *= c.inverse().unwrap();
                        }
                        num = a.scale(num, ci);
                        for (d, k) in fx {
                            *den.entry(d).or_insert(0) += k * -e;
                        }
                        for (d, k) in dx {
                            let p = Self::powi(a, d, k * -e);
                            num = a.mul(num, p);
                        }
                    }
                }
                (num, den)
            }
            Node::Sum(t, c) => {
                let parts: Vec<_> =
                    t.iter().map(|(x, k)| (self.go(a, *x), *k)).collect();
                let mut lcm: BTreeMap<Id, i32> = BTreeMap::new();
                for ((_, d), _) in parts.iter() {
                    for (x, k) in d {
                        let e = lcm.entry(*x).or_insert(0);
                        *e = (*e).max(*k);
                    }
                }
                let mut num = a.konst(Fr::zero());
                let mut add = |a: &mut Arena, n: Id, d: &BTreeMap<Id, i32>, k: Fr| {
                    let mut m = n;
                    for (x, e) in lcm.iter() {
                        let miss = e - d.get(x).copied().unwrap_or(0);
                        let p = Self::powi(a, *x, miss);
                        m = a.mul(m, p);
                    }
                    let m = a.scale(m, k);
                    num = a.add(num, m);
                };
                for ((n, d), k) in parts.iter() {
                    add(a, *n, d, *k);
                }
                if !c.is_zero() {
                    let one = a.konst(Fr::one());
                    add(a, one, &BTreeMap::new(), c);
                }
                (num, lcm)
            }
        };
        self.memo.insert(i, r.clone());
        r
    }
}

/// SMT text claiming `root != 0 (mod p)`; `pins` fixes variables to values.
pub struct Query {
    pub text: String,
    pub nodes: usize,
}
pub fn emit(a: &Arena, root: Id, pins: Option<&dyn Fn(&str) -> Fr>) -> Query {
    emit_any(a, &[root], pins)
}
/// satisfiable iff some root can be non-zero
pub fn emit_any(a: &Arena, roots: &[Id], pins: Option<&dyn Fn(&str) -> Fr>) -> Query {
    let (mut s, nodes) = definitions(a, roots, pins, false);
    s.push_str("(assert (or false");
    for r in roots {
        s.push_str(&format!(" (not (= 0 (mod n{} {})))", r, modulus()));
    }
    s.push_str("))\n(check-sat)\n");
    Query { text: s, nodes }
}
/// satisfiable iff some pair can differ; inverses are unconstrained symbols
pub fn emit_equal(a: &Arena, pairs: &[(Id, Id)]) -> Query {
    let roots: Vec<Id> = pairs.iter().flat_map(|(x, y)| [*x, *y]).collect();
    let (mut s, nodes) = definitions(a, &roots, None, true);
    s.push_str("(assert (or false");
    for (x, y) in pairs {
        s.push_str(&format!(" (not (= 0 (mod (- n{} n{}) {})))", x, y, modulus()));
    }
    s.push_str("))\n(check-sat)\n");
    Query { text: s, nodes }
}
fn definitions(a: &Arena, roots: &[Id], pins: Option<&dyn Fn(&str) -> Fr>, inv: bool) -> (String, usize) {
    let mut order = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut stack: Vec<(Id, bool)> = roots.iter().map(|r| (*r, false)).collect();
    while let Some((i, done)) = stack.pop() {
        if done {
            order.push(i);
            continue;
        }
        if !seen.insert(i) {
            continue;
        }
        stack.push((i, true));
        match &a.nodes[i as usize] {
            Node::Sum(t, _) => stack.extend(t.iter().map(|x| (x.0, false))),
            Node::Prod(f) => stack.extend(f.iter().map(|x| (x.0, false))),
            _ => {}
        }
    }
    let mut s = String::new();
    s.push_str("(set-logic QF_NIA)\n");
    let mut inverses = std::collections::HashSet::new();
    for i in order.iter() {
        match &a.nodes[*i as usize] {
            Node::Const(c) => {
                s.push_str(&format!("(define-fun n{} () Int {})\n", i, lit(*c)))
            }
            Node::Var(v) => {
                let name = &a.vars[*v as usize];
                s.push_str(&format!("(declare-const n{} Int) ; {}\n", i, name));
                if let Some(f) = pins {
                    s.push_str(&format!("(assert (= n{} {}))\n", i, lit(f(name))));
                }
            }
            Node::Sum(t, c) => {
                s.push_str(&format!("(define-fun n{} () Int (+ {}", i, lit(*c)));
                for (x, k) in t {
                    if k.is_one() {
                        s.push_str(&format!(" n{}", x));
                    } else {
                        s.push_str(&format!(" (* {} n{})", lit(*k), x));
                    }
                }
                s.push_str("))\n");
            }
            Node::Prod(f) => {
                if inv {
                    for (x, e) in f {
                        if *e < 0 && inverses.insert(*x) {
                            s.push_str(&format!("(declare-const v{} Int)\n", x));
                        }
                    }
                }
                s.push_str(&format!("(define-fun n{} () Int (*", i));
                let mut n = 0;
                for (x, e) in f {
                    assert!(inv || *e > 0, "negative exponent in emission");
                    for _ in 0..e.abs() {
                        s.push_str(&format!(" {}{}", if *e < 0 { "v" } else { "n" }, x));
                        n += 1;
                    }
                }
                if n < 2 {
                    s.push_str(" 1");
                }
                s.push_str("))\n");
            }
        }
    }
    (s, order.len())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Unsat,
    Sat,
    Unknown,
}
struct Sem {
    n: Mutex<usize>,
    c: Condvar,
}
static SEM: Sem = Sem { n: Mutex::new(8), c: Condvar::new() };
pub static SOLVER_MS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn run_solver(cmd: &[&str], text: &str, limit: Duration) -> Verdict {
    {
        let mut g = SEM.n.lock().unwrap();
        while *g == 0 {
            g = SEM.c.wait(g).unwrap();
        }
        *g -= 1;
    }
    let t0 = Instant::now();
    let r = run_solver_inner(cmd, text, limit);
    SOLVER_MS.fetch_add(
        t0.elapsed().as_millis() as u64,
        std::sync::atomic::Ordering::Relaxed,
    );
    *SEM.n.lock().unwrap() += 1;
    SEM.c.notify_one();
    r
}
fn run_solver_inner(cmd: &[&str], text: &str, limit: Duration) -> Verdict {
    let mut ch = match Command::new("timeout")
        .arg("-s")
        .arg("KILL")
        .arg(format!("{}", limit.as_secs().max(1)))
        .args(cmd)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(_) => return Verdict::Unknown,
    };
    let mut si = ch.stdin.take().unwrap();
    let t = text.to_string();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(t.as_bytes());
    });
    let out = ch.wait_with_output();
    let _ = h.join();
    let out = match out {
        Ok(o) => o,
        Err(_) => return Verdict::Unknown,
    };
    let o = String::from_utf8_lossy(&out.stdout);
    let e = String::from_utf8_lossy(&out.stderr);
    if o.contains("(error") || e.contains("(error") {
        return Verdict::Unknown;
    }
    match o.lines().map(|l| l.trim()).find(|l| ["sat", "unsat", "unknown"].contains(l)) {
        Some("unsat") => Verdict::Unsat,
        Some("sat") => Verdict::Sat,
        _ => Verdict::Unknown,
    }
}
pub const CVC5: &[&str] = &["cvc5", "--lang=smt2"];
pub const Z3: &[&str] = &["z3-new", "-in", "-smt2"];

/// Confirm a concrete counterexample (all variables pinned): z3 first.
pub fn confirm(text: &str, limit: Duration) -> (Verdict, &'static str, u128) {
    let t0 = Instant::now();
    let v = run_solver(Z3, text, limit);
    if v != Verdict::Unknown {
        return (v, "z3", t0.elapsed().as_millis());
    }
    let v = run_solver(CVC5, text, limit);
    (v, "cvc5", t0.elapsed().as_millis())
}
/// Decide one identity: portfolio of cvc5 then z3.
pub fn decide(text: &str, limit: Duration) -> (Verdict, &'static str, u128) {
    let t0 = Instant::now();
    let v = run_solver(CVC5, text, limit);
    if v != Verdict::Unknown {
        return (v, "cvc5", t0.elapsed().as_millis());
    }
    let v = run_solver(Z3, text, limit);
    (v, "z3", t0.elapsed().as_millis())
}

// ------------------------------------------------------ exact case splitting
/// Upper bound on the degree of `root` in variable term `v`.
pub fn degree_in(a: &Arena, root: Id, v: Id) -> usize {
    fn go(a: &Arena, i: Id, v: Id, memo: &mut HashMap<Id, usize>) -> usize {
        if let Some(d) = memo.get(&i) {
            return *d;
        }
        let d = match &a.nodes[i as usize] {
            Node::Const(_) => 0,
            Node::Var(_) => (i == v) as usize,
            Node::Sum(t, _) => t.iter().map(|x| go(a, x.0, v, memo)).max().unwrap_or(0),
            Node::Prod(f) => f.iter().map(|x| go(a, x.0, v, memo) * x.1 as usize).sum(),
        };
        memo.insert(i, d);
        d
    }
    go(a, root, v, &mut HashMap::new())
}
/// All variables below `root` with an upper bound of their degree.
pub fn var_degrees(a: &Arena, root: Id) -> BTreeMap<Id, usize> {
    let mut memo: HashMap<Id, BTreeMap<Id, usize>> = HashMap::new();
    fn go(a: &Arena, i: Id, memo: &mut HashMap<Id, BTreeMap<Id, usize>>) {
        if memo.contains_key(&i) {
            return;
        }
        let mut out = BTreeMap::new();
        match &a.nodes[i as usize] {
            Node::Const(_) => {}
            Node::Var(_) => {
                out.insert(i, 1);
            }
            Node::Sum(t, _) => {
                for (x, _) in t {
                    go(a, *x, memo);
                    for (k, d) in memo[x].iter() {
                        let e = out.entry(*k).or_insert(0);
                        *e = (*e).max(*d);
                    }
                }
            }
            Node::Prod(f) => {
                for (x, e) in f {
                    go(a, *x, memo);
                    for (k, d) in memo[x].iter() {
                        *out.entry(*k).or_insert(0) += d * *e as usize;
                    }
                }
            }
        }
        memo.insert(i, out);
    }
    go(a, root, &mut memo);
    memo.remove(&root).unwrap()
}
/// Number of products an expansion of `root` generates (saturating).
pub fn expansion(a: &Arena, root: Id) -> f64 {
    fn go(a: &Arena, i: Id, memo: &mut HashMap<Id, f64>) -> f64 {
        if let Some(d) = memo.get(&i) {
            return *d;
        }
        let d = match &a.nodes[i as usize] {
            Node::Const(_) | Node::Var(_) => 1.0,
            Node::Sum(t, c) => {
                t.iter().map(|x| go(a, x.0, memo)).sum::<f64>()
                    + if c.is_zero() { 0.0 } else { 1.0 }
            }
            Node::Prod(f) => f.iter().map(|x| go(a, x.0, memo).powi(x.1)).product(),
        };
        memo.insert(i, d);
        d
    }
    go(a, root, &mut HashMap::new())
}
pub fn substitute_all(a: &mut Arena, root: Id, vals: &HashMap<Id, Fr>) -> Id {
    fn go(a: &mut Arena, i: Id, vals: &HashMap<Id, Fr>, memo: &mut HashMap<Id, Id>) -> Id {
        if let Some(d) = memo.get(&i) {
            return *d;
        }
        let d = match a.nodes[i as usize].clone() {
            Node::Const(_) => i,
            Node::Var(_) => match vals.get(&i) {
                Some(c) => a.konst(*c),
                None => i,
            },
            Node::Sum(t, k) => {
                let parts: Vec<(Id, Fr)> =
                    t.into_iter().map(|(x, q)| (go(a, x, vals, memo), q)).collect();
                a.lin_comb(&parts, k)
            }
            Node::Prod(f) => {
                let mut acc = a.konst(Fr::one());
                for (x, e) in f {
                    let y = go(a, x, vals, memo);
                    let y = a.powi(y, e as u32);
                    acc = a.mul(acc, y);
                    if acc == 0 {
                        break;
                    }
                }
                acc
            }
        };
        memo.insert(i, d);
        d
    }
    go(a, root, vals, &mut HashMap::new())
}
pub fn leaf_expansion() -> f64 {
    static L: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *L.get_or_init(|| {
        std::env::var("ZOKV_LEAF").ok().and_then(|s| s.parse().ok()).unwrap_or(60000.0)
    })
}
fn is_challenge(a: &Arena, v: Id) -> bool {
    match &a.nodes[v as usize] {
        Node::Var(n) => a.vars[*n as usize].starts_with("ch"),
        _ => false,
    }
}
/// Upper bound on the joint degree of `root` in all variables but challenges.
pub fn cell_degree(a: &Arena, root: Id) -> usize {
    fn go(a: &Arena, i: Id, memo: &mut HashMap<Id, usize>) -> usize {
        if let Some(d) = memo.get(&i) {
            return *d;
        }
        let d = match &a.nodes[i as usize] {
            Node::Const(_) => 0,
            Node::Var(_) => !is_challenge(a, i) as usize,
            Node::Sum(t, _) => t.iter().map(|x| go(a, x.0, memo)).max().unwrap_or(0),
            Node::Prod(f) => f.iter().map(|x| go(a, x.0, memo) * x.1 as usize).sum(),
        };
        memo.insert(i, d);
        d
    }
    go(a, root, &mut HashMap::new())
}
/// Replace every variable of `zero` by 0 (and `one` by 1).
fn set_vars(a: &mut Arena, root: Id, vals: &HashMap<Id, Fr>) -> Id {
    substitute_all(a, root, vals)
}
/// Reduce `root == 0 for all values` to leaves small enough for the solver.
/// Both reductions are exact:
///  * a term of joint degree <= 1 in a set of variables is zero iff it is zero
///    with all of them 0 and with each one of them 1 and the others 0;
///  * a univariate polynomial of degree <= d with d+1 roots is zero.
pub fn split(a: &mut Arena, root: Id, leaves: &mut Vec<Id>, splits: &mut usize) {
    if let Some(_) = a.as_const(root) {
        leaves.push(root);
        return;
    }
    let e = expansion(a, root);
    if e <= leaf_expansion() || leaves.len() > 4000 {
        leaves.push(root);
        return;
    }
    let vd = var_degrees(a, root);
    let cells: Vec<Id> = vd.keys().copied().filter(|v| !is_challenge(a, *v)).collect();
    if cells.len() > 1 && cell_degree(a, root) == 1 {
        *splits += 1;
        for k in 0..=cells.len() {
            let mut m: HashMap<Id, Fr> = cells.iter().map(|v| (*v, Fr::zero())).collect();
            if k < cells.len() {
                m.insert(cells[k], Fr::one());
            }
            let r = set_vars(a, root, &m);
            split(a, r, leaves, splits);
        }
        return;
    }
    // challenges first (their powers fill the term with products), by degree
    let pick = vd
        .iter()
        .map(|(v, d)| (is_challenge(a, *v), *d, std::cmp::Reverse(*v)))
        .max()
        .unwrap();
    let v = (pick.2).0;
    let d = pick.1;
    *splits += 1;
    for k in 0..=d {
        let m: HashMap<Id, Fr> = [(v, Fr::from((k + 2) as u64))].into_iter().collect();
        let r = substitute_all(a, root, &m);
        split(a, r, leaves, splits);
    }
}

/// Rebuild `root` with atoms (see `Arena::opaque`) replaced by fresh variables,
/// except those of the classes in `expand`.
pub fn abstracted(a: &mut Arena, root: Id, expand: &dyn Fn(&str) -> bool) -> (Id, std::collections::BTreeSet<String>) {
    let table = std::mem::take(&mut a.opaque);
    let mut used = std::collections::BTreeSet::new();
    fn go(
        a: &mut Arena,
        i: Id,
        table: &BTreeMap<Id, String>,
        expand: &dyn Fn(&str) -> bool,
        used: &mut std::collections::BTreeSet<String>,
        memo: &mut HashMap<Id, Id>,
    ) -> Id {
        if let Some(d) = memo.get(&i) {
            return *d;
        }
        let mut cut = None;
        if let Some(cl) = table.get(&i) {
            if !expand(cl) {
                used.insert(cl.clone());
                cut = Some(format!("cut{}", i));
            }
        }
        let d = match (cut, a.nodes[i as usize].clone()) {
            (Some(n), _) => a.var(&n),
            (_, Node::Const(_)) | (_, Node::Var(_)) => i,
            (_, Node::Sum(t, k)) => {
                let mut acc = a.konst(k);
                for (x, q) in t {
                    let y = go(a, x, table, expand, used, memo);
                    let y = a.scale(y, q);
                    acc = a.add(acc, y);
                }
                acc
            }
            (_, Node::Prod(f)) => {
                let mut acc = a.konst(Fr::one());
                for (x, e) in f {
                    let y = go(a, x, table, expand, used, memo);
                    let y = if e < 0 { a.inv(y) } else { y };
                    for _ in 0..e.unsigned_abs() {
                        acc = a.mul(acc, y);
                    }
                }
                acc
            }
        };
        memo.insert(i, d);
        d
    }
    let r = go(a, root, &table, expand, &mut used, &mut HashMap::new());
    a.opaque = table;
    (r, used)
}
/// A coarse abstraction under which the term still looks like zero: classes
/// of atoms are given up one after another, keeping the definitions of those
/// the identity depends on.
pub fn coarsest(a: &mut Arena, root: Id) -> Id {
    let (r, used) = abstracted(a, root, &|_| false);
    if used.is_empty() || a.fp[r as usize].is_zero() {
        return r;
    }
    let classes: std::collections::BTreeSet<String> = a.opaque.values().cloned().collect();
    let mut keep: std::collections::BTreeSet<String> = classes.clone();
    let mut best = None;
    for c in classes.iter() {
        let mut k = keep.clone();
        k.remove(c);
        let (r, _) = abstracted(a, root, &|x| k.contains(x));
        if a.fp[r as usize].is_zero() {
            keep = k;
            best = Some(r);
        }
    }
    match best {
        Some(r) => r,
        None => abstracted(a, root, &|_| true).0,
    }
}
