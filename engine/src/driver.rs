//! Path exploration, obligation discharge, native replay, evidence.
use crate::sess::{self, Goal, GoalKind, VF};
use crate::smt::{self, Verdict};
use crate::sym::{self, Arena, SymF};
use ark_bls12_381::Fr;
use ark_ff::{One, Zero};
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// One harness.  `run` is executed symbolically (SymF) and natively (Fr).
pub trait Case: Send + Sync {
    fn id(&self) -> String;
    fn run<F: VF>(&self);
    /// how many degenerate-input paths (one linear equality each) to add
    fn flip_budget(&self, thorough: bool) -> usize {
        if thorough {
            24
        } else {
            6
        }
    }
    fn bound(&self) -> String {
        String::new()
    }
    /// a harness that explores its paths itself
    fn special(&self, _cfg: &Cfg) -> Option<Report> {
        None
    }
}
pub trait DynCase: Send + Sync {
    fn id(&self) -> String;
    fn run_sym(&self);
    fn run_fr(&self);
    fn flip_budget(&self, thorough: bool) -> usize;
    fn bound(&self) -> String;
    fn special(&self, cfg: &Cfg) -> Option<Report>;
}
impl<T: Case> DynCase for T {
    fn id(&self) -> String {
        Case::id(self)
    }
    fn run_sym(&self) {
        self.run::<SymF>()
    }
    fn run_fr(&self) {
        self.run::<Fr>()
    }
    fn flip_budget(&self, t: bool) -> usize {
        Case::flip_budget(self, t)
    }
    fn bound(&self) -> String {
        Case::bound(self)
    }
    fn special(&self, cfg: &Cfg) -> Option<Report> {
        Case::special(self, cfg)
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
}
/// run real code that may panic
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

type Subst = BTreeMap<String, (Vec<(String, Fr)>, Fr)>;

#[derive(Clone, Debug)]
pub struct Failure {
    pub case: String,
    pub label: String,
    pub detail: String,
    pub assign: BTreeMap<String, Fr>,
    pub reproduced: bool,
    pub solver: String,
}
#[derive(Default)]
pub struct Report {
    pub paths: usize,
    pub terms: u64,
    pub ops: u64,
    pub goals: usize,
    pub branch_obl: usize,
    pub rewritten: usize,
    pub rewritten_leaves: usize,
    pub splits: usize,
    pub queries: usize,
    pub solved: usize,
    pub facts: usize,
    pub solver_ms: u128,
    pub max_ms: u128,
    pub max_nodes: usize,
    pub by_solver: BTreeMap<String, usize>,
    pub generic_branches: usize,
    pub unexplored: usize,
    pub inverted: usize,
    pub concretised: usize,
    pub inconclusive: Vec<String>,
    pub failures: Vec<Failure>,
    pub functions: BTreeSet<String>,
    pub samples: Vec<String>,
    pub bounds: BTreeSet<String>,
    pub vars: usize,
    pub cases: usize,
    pub notes: BTreeMap<String, u64>,
    pub fs_log: usize,
}
impl Report {
    pub fn merge(&mut self, o: Report) {
        self.paths += o.paths;
        self.terms += o.terms;
        self.ops += o.ops;
        self.goals += o.goals;
        self.branch_obl += o.branch_obl;
        self.rewritten += o.rewritten;
        self.rewritten_leaves += o.rewritten_leaves;
        self.splits += o.splits;
        self.queries += o.queries;
        self.solved += o.solved;
        self.facts += o.facts;
        self.solver_ms += o.solver_ms;
        self.max_ms = self.max_ms.max(o.max_ms);
        self.max_nodes = self.max_nodes.max(o.max_nodes);
        for (k, v) in o.by_solver {
            *self.by_solver.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_insert(0) += v;
        }
        self.generic_branches += o.generic_branches;
        self.unexplored += o.unexplored;
        self.inverted += o.inverted;
        self.concretised += o.concretised;
        self.inconclusive.extend(o.inconclusive);
        self.failures.extend(o.failures);
        self.functions.extend(o.functions);
        if self.samples.len() < 12 {
            self.samples.extend(o.samples.into_iter().take(2));
        }
        self.bounds.extend(o.bounds);
        self.vars += o.vars;
        self.cases += o.cases;
    }
}

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Instant,
    pub query_limit: Duration,
    pub verbose: bool,
    /// for a case that already produced a failure stop exploring further paths
    pub stop_on_failure: bool,
}

pub fn reset_sym(seed: u64, subst: &Subst) {
    sym::ARENA.with(|a| {
        let mut n = Arena::new();
        n.seed = seed;
        n.subst = subst.clone();
        *a.borrow_mut() = n;
    });
    sess::with(|s| {
        *s = sess::Sess::default();
        s.symbolic = true;
        s.seed = seed;
    });
}
fn reset_fr(seed: u64, assign: &BTreeMap<String, Fr>) {
    sess::with(|s| {
        *s = sess::Sess::default();
        s.symbolic = false;
        s.seed = seed;
        s.assign = assign.clone();
    });
}

/// Native run with the given assignment; returns failing labels.
pub fn replay(
    c: &dyn DynCase,
    seed: u64,
    assign: &BTreeMap<String, Fr>,
) -> Vec<(String, String)> {
    reset_fr(seed, assign);
    let r = guarded(|| c.run_fr());
    let mut out: Vec<(String, String)> = sess::with(|s| {
        s.goals
            .iter()
            .filter_map(|g| match g.kind {
                GoalKind::ZeroVal(true) | GoalKind::Fact(true) => None,
                _ => Some((g.label.clone(), g.detail.clone())),
            })
            .collect()
    });
    if let Err(m) = r {
        out.push(("panic".into(), m));
    }
    out
}

struct Pending {
    label: String,
    nodes: usize,
    branch: bool,
    /// solver queries whose conjunction is the obligation
    leaves: usize,
}
struct Leaf {
    pend: usize,
    est: f64,
    text: String,
}

fn discharge(text: &str, lim: Duration) -> (Verdict, &'static str, u128) {
    smt::decide(text, lim)
}

fn run_path(c: &dyn DynCase, cfg: &Cfg, subst: &Subst, rep: &mut Report) -> Vec<Subst> {
    reset_sym(cfg.seed, subst);
    let r = guarded(|| c.run_sym());
    rep.paths += 1;
    let (goals, functions, notes, nfs) = sess::with(|s| {
        (
            std::mem::take(&mut s.goals),
            std::mem::take(&mut s.functions),
            std::mem::take(&mut s.notes),
            s.fs_log.len(),
        )
    });
    rep.functions.extend(functions);
    rep.fs_log += nfs;
    for (k, v) in notes {
        *rep.notes.entry(k).or_insert(0) += v;
    }
    let mut goals: Vec<Goal> = goals;
    if let Err(m) = r {
        goals.push(Goal { label: "panic".into(), kind: GoalKind::Fact(false), detail: m });
    }
    let assign: BTreeMap<String, Fr> = sym::with(|a| {
        let ids: Vec<_> = a.var_ids.iter().map(|(k, v)| (k.clone(), *v)).collect();
        ids.into_iter().map(|(k, v)| (k, a.fp[v as usize])).collect()
    });
    let mut pend: Vec<Pending> = vec![];
    let mut leaves: Vec<Leaf> = vec![];
    let mut cands: Vec<(Goal, Option<String>)> = vec![];
    let mut diseqs: Vec<u32> = vec![];
    let mut kernels: Vec<(Goal, Vec<(String, Fr)>)> = vec![];
    let mut next: Vec<Subst> = vec![];
    sym::with(|a| {
        rep.terms += a.nodes.len() as u64;
        rep.ops += a.ops;
        rep.generic_branches += a.branch_generic;
        rep.inverted += a.inverted.len();
        rep.concretised += a.concretised;
        rep.vars += a.vars.len();
        diseqs = a.flip_seen.keys().copied().collect();
        diseqs.sort();
        let pins = |n: &str| assign[n];
        let mut fr = smt::Frac::new();
        let mut same: Vec<(String, u32, u32)> = vec![];
        let obl = a.obligations.clone();
        let mut items: Vec<(String, u32, bool, Option<Goal>)> = obl
            .into_iter()
            .map(|(l, i)| (l, i, true, None))
            .collect();
        for g in goals.iter() {
            match g.kind {
                GoalKind::ZeroTerm(i) => {
                    items.push((g.label.clone(), i, false, Some(g.clone())))
                }
                GoalKind::EqTerm(x, y) => {
                    let m = a.scale(y, -Fr::one());
                    let i = a.add(x, m);
                    if a.as_const(i).map_or(false, |c| c.is_zero()) {
                        same.push((g.label.clone(), x, y));
                        rep.goals += 1;
                    } else {
                        items.push((g.label.clone(), i, false, Some(g.clone())))
                    }
                }
                GoalKind::Fact(ok) => {
                    rep.facts += 1;
                    if !ok {
                        cands.push((g.clone(), None));
                    }
                }
                GoalKind::ZeroVal(_) => unreachable!(),
                GoalKind::Reject { ref residues, ref deltas, ref vary, ref aux } => {
                    rep.goals += 1;
                    match reject_identities(a, residues, deltas, vary, aux, cfg.seed) {
                        Ok(text) => {
                            leaves.push(Leaf { pend: pend.len(), est: 0.0, text });
                            pend.push(Pending { label: g.label.clone(), nodes: residues.len(), branch: false, leaves: 1 });
                        }
                        Err(Some(ker)) => kernels.push((g.clone(), ker)),
                        Err(None) => rep
                            .inconclusive
                            .push(format!("{}/{}: residues not linear in the perturbation", c.id(), g.label)),
                    }
                }
            }
        }
        // both sides normalise to the same term: confirmed in batches
        let mut done = HashSet::new();
        same.retain(|(_, x, y)| done.insert((*x, *y)));
        rep.rewritten += same.len();
        for ch in same.chunks(64) {
            let q = smt::emit_equal(a, &ch.iter().map(|(_, x, y)| (*x, *y)).collect::<Vec<_>>());
            leaves.push(Leaf { pend: pend.len(), est: 0.0, text: q.text });
            pend.push(Pending { label: format!("{} and {} more", ch[0].0, ch.len() - 1), nodes: q.nodes, branch: false, leaves: 1 });
        }
        let mut seen = HashSet::new();
        for (label, i, branch, g) in items {
            if branch {
                rep.branch_obl += 1
            } else {
                rep.goals += 1
            }
            if let Some(v) = a.as_const(i) {
                if v.is_zero() {
                    rep.rewritten += 1;
                } else {
                    cands.push((
                        g.unwrap(),
                        Some(format!(
                            "(set-logic QF_NIA)\n(assert (not (= 0 (mod {} {}))))\n(check-sat)\n",
                            { let b: num_bigint::BigUint = ark_ff::PrimeField::into_repr(&v).into(); b },
                            smt::modulus()
                        )),
                    ));
                }
                continue;
            }
            if a.fp[i as usize].is_zero() {
                let i = smt::coarsest(a, i);
                let (n, _) = fr.go(a, i);
                if a.as_const(n).map_or(false, |c| c.is_zero()) {
                    rep.rewritten += 1;
                    continue;
                }
                if !seen.insert(n) {
                    rep.solved += 1; // same term already queued
                    continue;
                }
                let mut ls = vec![];
                let mut sp = 0;
                if cfg.verbose && std::env::var("ZOKV_DBG").is_ok() {
                    let vd: Vec<(String, usize)> = smt::var_degrees(a, n)
                        .into_iter()
                        .map(|(v, d)| (match &a.nodes[v as usize] { sym::Node::Var(x) => a.vars[*x as usize].clone(), _ => String::new() }, d))
                        .collect();
                    eprintln!("DBG est={} celldeg={} {:?}", smt::expansion(a, n), smt::cell_degree(a, n), vd);
                }
                smt::split(a, n, &mut ls, &mut sp);
                rep.splits += sp;
                let mut nodes = 0;
                let mut cnt = 0;
                let mut dead = false;
                let mut group: Vec<u32> = vec![];
                let mut gest = 0.0;
                let mut flush = |a: &Arena, group: &mut Vec<u32>, gest: &mut f64| {
                    if !group.is_empty() {
                        let q = smt::emit_any(a, group, None);
                        nodes = nodes.max(q.nodes);
                        cnt += 1;
                        leaves.push(Leaf { pend: pend.len(), est: *gest, text: q.text });
                    }
                    group.clear();
                    *gest = 0.0;
                };
                let mut dup = HashSet::new();
                for l in ls {
                    if let Some(v) = a.as_const(l) {
                        if v.is_zero() {
                            rep.rewritten_leaves += 1;
                        } else {
                            dead = true;
                        }
                        continue;
                    }
                    if !dup.insert(l) {
                        continue;
                    }
                    let e = smt::expansion(a, l);
                    if gest + e > smt::leaf_expansion() || group.len() >= 48 {
                        flush(a, &mut group, &mut gest);
                    }
                    group.push(l);
                    gest += e;
                }
                flush(a, &mut group, &mut gest);
                drop(flush);
                rep.max_nodes = rep.max_nodes.max(nodes);
                if dead {
                    rep.inconclusive.push(format!(
                        "{}/{}: refuted by a split constant although the fingerprint is zero",
                        c.id(),
                        label
                    ));
                }
                pend.push(Pending { label, nodes, branch, leaves: cnt });
            } else {
                let (n, _) = fr.go(a, i);
                let q = smt::emit(a, n, Some(&pins));
                cands.push((g.unwrap(), Some(q.text)));
            }
        }
        // alternative paths: one more linear equality each
        for (v, rhs) in a.flips.iter() {
            let mut s = subst.clone();
            if s.contains_key(v) {
                continue;
            }
            // close the substitution: apply it inside existing right-hand sides
            let mut ok = true;
            for (n, _) in rhs.0.iter() {
                if s.contains_key(n) {
                    ok = false;
                }
            }
            for (_, (t, k)) in s.iter_mut() {
                if let Some(p) = t.iter().position(|(n, _)| n == v) {
                    let m = t[p].1;
                    t.remove(p);
                    *k += m * rhs.1;
                    for (n, c) in rhs.0.iter() {
                        match t.iter_mut().find(|(x, _)| x == n) {
                            Some(e) => e.1 += m * c,
                            None => t.push((n.clone(), m * c)),
                        }
                    }
                }
            }
            if !ok {
                continue;
            }
            s.insert(v.clone(), rhs.clone());
            next.push(s);
        }
    });
    // solve
    let lim = cfg.query_limit;
    let results: Mutex<Vec<(usize, Verdict, &'static str, u128)>> = Mutex::new(vec![]);
    let idx = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..leaves.len().min(8) {
            sc.spawn(|| loop {
                let i = idx.fetch_add(1, Ordering::SeqCst);
                if i >= leaves.len() {
                    break;
                }
                let now = Instant::now();
                if now >= cfg.deadline {
                    results.lock().unwrap().push((i, Verdict::Unknown, "deadline", 0));
                    continue;
                }
                let l = lim.min(cfg.deadline - now);
                let (v, s, ms) = discharge(&leaves[i].text, l);
                if cfg.verbose && ms > 500 {
                    eprintln!("    slow leaf est={} {}ms {:?}", leaves[i].est, ms, v);
                }
                results.lock().unwrap().push((i, v, s, ms));
            });
        }
    });
    let mut outcome: Vec<(Verdict, &'static str, u128)> =
        pend.iter().map(|_| (Verdict::Unsat, "-", 0)).collect();
    for (i, v, s, ms) in results.into_inner().unwrap() {
        rep.solver_ms += ms;
        rep.max_ms = rep.max_ms.max(ms);
        rep.queries += 1;
        *rep.by_solver.entry(s.to_string()).or_insert(0) += 1;
        let o = &mut outcome[leaves[i].pend];
        o.2 += ms;
        if o.0 == Verdict::Unsat {
            o.0 = v;
            o.1 = s;
        }
    }
    for (p, (v, s, ms)) in pend.iter().zip(outcome) {
        if cfg.verbose {
            eprintln!(
                "  [{}] {} nodes={} leaves={} {:?} {} {}ms",
                c.id(), p.label, p.nodes, p.leaves, v, s, ms
            );
        }
        match v {
            Verdict::Unsat => {
                rep.solved += 1;
                if rep.samples.len() < 3 && !p.branch {
                    rep.samples.push(format!(
                        "{}: goal '{}' ({} queries of up to {} terms): unsat by {} in {} ms",
                        c.id(), p.label, p.leaves, p.nodes, s, ms
                    ));
                }
            }
            Verdict::Sat => rep.inconclusive.push(format!(
                "{}/{}: solver disagrees with the fingerprint (sat)",
                c.id(),
                p.label
            )),
            Verdict::Unknown => rep
                .inconclusive
                .push(format!("{}/{}: undecided ({} terms)", c.id(), p.label, p.nodes)),
        }
    }
    // a perturbation in the kernel of the check for every sampled challenge:
    // replay it against the real code
    for (g, ker) in kernels {
        let mut asg = assign.clone();
        let mut text = String::from("(set-logic QF_NIA)\n");
        let mut alts = vec![];
        for (i, (n, v)) in ker.iter().enumerate() {
            asg.insert(n.clone(), *v);
            let b: num_bigint::BigUint = ark_ff::PrimeField::into_repr(v).into();
            text.push_str(&format!("(declare-const d{} Int)\n(assert (= d{} {}))\n", i, i, b));
            alts.push(format!("(not (= 0 (mod d{} {})))", i, smt::modulus()));
        }
        text.push_str(&format!("(assert (or {}))\n(check-sat)\n", alts.join(" ")));
        let (v, s, ms) = smt::confirm(&text, Duration::from_secs(60));
        rep.solver_ms += ms;
        let native = replay(c, cfg.seed, &asg);
        let hit = native.iter().find(|(l, _)| *l == g.label);
        if v == Verdict::Sat {
            rep.failures.push(Failure {
                case: c.id(),
                label: g.label.clone(),
                detail: format!("perturbation passes for all sampled challenges{}", match hit { Some((_, d)) => format!(" | native: {}", d), None => String::new() }),
                assign: asg,
                reproduced: hit.is_some(),
                solver: s.to_string(),
            });
        }
    }
    // candidate violations: solver model, then native replay
    if !cands.is_empty() {
        let native = replay(c, cfg.seed, &assign);
        let mut done = HashSet::new();
        for (g, q) in cands {
            if !done.insert(g.label.clone()) {
                continue;
            }
            let text = match q {
                Some(t) => t,
                None => {
                    // feasibility of the path: all generic branch conditions
                    reset_feasibility(c, cfg, subst, &assign)
                }
            };
            let (v, s, ms) = smt::confirm(&text, Duration::from_secs(60));
            rep.solver_ms += ms;
            if v != Verdict::Sat {
                rep.inconclusive.push(format!(
                    "{}/{}: counterexample not confirmed by solver ({:?})",
                    c.id(),
                    g.label,
                    v
                ));
                continue;
            }
            let hit = native.iter().find(|(l, _)| *l == g.label);
            rep.failures.push(Failure {
                case: c.id(),
                label: g.label.clone(),
                detail: match hit {
                    Some((_, d)) => format!("{} | native: {}", g.detail, d),
                    None => g.detail.clone(),
                },
                assign: assign.clone(),
                reproduced: hit.is_some(),
                solver: s.to_string(),
            });
        }
    }
    next
}

/// residues(delta, challenges) are linear forms in delta.  Sample the other
/// variables at enough points, find B with B * residues = delta, and return
/// the query "B * residues(delta) differs from delta for some delta": unsat
/// shows that all residues being zero forces delta = 0.
/// Err(Some(kernel)) when the sampled forms have a common non-zero root.
fn reject_identities(
    a: &mut Arena,
    residues: &[u32],
    deltas: &[String],
    vary: &[String],
    aux: &[String],
    seed: u64,
) -> Result<String, Option<Vec<(String, Fr)>>> {
    // auxiliary unknowns first: they are eliminated, and only the others have
    // to vanish
    let na = aux.len();
    let all: Vec<String> = aux.iter().chain(deltas).cloned().collect();
    let deltas = &all[..];
    let dv: Vec<u32> = deltas.iter().map(|d| a.var(d)).collect();
    let at: std::collections::HashMap<u32, usize> = dv.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let k = dv.len();
    let mut fr = smt::Frac::new();
    let nums: Vec<u32> = residues.iter().map(|r| fr.go(a, *r).0).collect();
    let vars: Vec<(String, u32)> = a.var_ids.iter().map(|(n, v)| (n.clone(), *v)).collect();
    let mut rows: Vec<Vec<Fr>> = vec![];
    let varied = vary.is_empty() || vars.iter().any(|(n, _)| vary.contains(n));
    for j in 0..if varied { (k + 2) as u64 } else { 1 } {
        let vals: std::collections::HashMap<u32, Fr> = vars
            .iter()
            .filter(|(_, v)| !at.contains_key(v))
            .map(|(n, v)| {
                let s = if vary.is_empty() || vary.contains(n) { j } else { 0 };
                (*v, if s == 0 { a.fp[*v as usize] } else { sym::var_value(n, seed.wrapping_mul(1000003) + 17 + s) })
            })
            .collect();
        for n in nums.iter() {
            let f = smt::substitute_all(a, *n, &vals);
            if a.as_const(f).map_or(false, |c| c.is_zero()) {
                continue;
            }
            let (t, z) = a.lin(f);
            if !z.is_zero() || t.iter().any(|(v, _)| !at.contains_key(v)) {
                if k == 1 {
                    return reject_univariate(a, &nums, dv[0], deltas, vary, seed);
                }
                return Err(None);
            }
            let mut row = vec![Fr::zero(); k];
            for (v, c) in t.iter() {
                row[at[v]] = *c;
            }
            rows.push(row);
        }
    }
    // Gauss-Jordan on [rows | I], keeping track of the combination
    let m = rows.len();
    let mut mat = rows.clone();
    let mut comb: Vec<Vec<Fr>> =
        (0..m).map(|i| (0..m).map(|j| if i == j { Fr::one() } else { Fr::zero() }).collect()).collect();
    let mut piv: Vec<Option<usize>> = vec![None; k];
    let mut r = 0;
    for col in 0..k {
        let p = match (r..m).find(|i| !mat[*i][col].is_zero()) {
            Some(p) => p,
            None => continue,
        };
        mat.swap(r, p);
        comb.swap(r, p);
        let inv = ark_ff::Field::inverse(&mat[r][col]).unwrap();
        for x in mat[r].iter_mut() {
            *x *= inv;
        }
        for x in comb[r].iter_mut() {
            *x *= inv;
        }
        for i in 0..m {
            if i != r && !mat[i][col].is_zero() {
                let f = mat[i][col];
                for c in 0..k {
                    let t = mat[r][c] * f;
                    mat[i][c] -= t;
                }
                for c in 0..m {
                    let t = comb[r][c] * f;
                    comb[i][c] -= t;
                }
            }
        }
        piv[col] = Some(r);
        r += 1;
    }
    if let Some(free) = (na..k).find(|c| piv[*c].is_none()) {
        let ker = (0..k)
            .map(|c| {
                let v = if c == free {
                    Fr::one()
                } else {
                    piv[c].map_or(Fr::zero(), |row| -mat[row][free])
                };
                (deltas[c].clone(), v)
            })
            .collect();
        return Err(Some(ker));
    }
    let num = |x: Fr| -> num_bigint::BigUint { ark_ff::PrimeField::into_repr(&x).into() };
    let mut t = String::from("(set-logic QF_NIA)\n");
    for i in 0..k {
        t.push_str(&format!("(declare-const d{} Int) ; {}\n", i, deltas[i]));
    }
    for (j, row) in rows.iter().enumerate() {
        t.push_str(&format!("(define-fun r{} () Int (+ 0", j));
        for (i, x) in row.iter().enumerate().filter(|(_, x)| !x.is_zero()) {
            t.push_str(&format!(" (* {} d{})", num(*x), i));
        }
        t.push_str("))\n");
    }
    t.push_str("(assert (or false");
    for c in na..k {
        let row = piv[c].unwrap();
        t.push_str(" (not (= 0 (mod (+ 0");
        for (j, q) in comb[row].iter().enumerate() {
            if !q.is_zero() {
                t.push_str(&format!(" (* {} r{})", num(*q), j));
            }
        }
        t.push_str(&format!(" (* {} d{})) {})))", num(-Fr::one()), c, smt::modulus()));
    }
    t.push_str("))\n(check-sat)\n");
    Ok(t)
}

/// One perturbation entering non-linearly: the residues at several samples of
/// the other variables are polynomials in it without a common root but zero
/// (Bezout certificate, checked by the solver).
fn reject_univariate(
    a: &mut Arena,
    nums: &[u32],
    d: u32,
    deltas: &[String],
    vary: &[String],
    seed: u64,
) -> Result<String, Option<Vec<(String, Fr)>>> {
    const D: usize = 40;
    let vars: Vec<(String, u32)> = a.var_ids.iter().map(|(n, v)| (n.clone(), *v)).collect();
    let xs: Vec<Fr> = (0..D as u64 + 1).map(Fr::from).collect();
    let mut polys: Vec<Vec<Fr>> = vec![];
    for j in 0..3u64 {
        for n in nums {
            let mut at = |a: &mut Arena, x: Fr| -> Option<Fr> {
                let mut vals: std::collections::HashMap<u32, Fr> = vars
                    .iter()
                    .filter(|(_, v)| *v != d)
                    .map(|(n, v)| {
                        let s = if vary.is_empty() || vary.contains(n) { j } else { 0 };
                        (*v, if s == 0 { a.fp[*v as usize] } else { sym::var_value(n, seed.wrapping_mul(1000003) + 17 + s) })
                    })
                    .collect();
                vals.insert(d, x);
                let r = smt::substitute_all(a, *n, &vals);
                a.as_const(r)
            };
            let mut ys = vec![];
            for x in xs.iter() {
                ys.push(at(a, *x).ok_or(None)?);
            }
            let p = interpolate(&xs, &ys);
            let t = Fr::from(987654321u64);
            if at(a, t) != Some(horner(&p, t)) {
                return Err(None);
            }
            if !p.is_empty() {
                polys.push(p);
            }
        }
    }
    if polys.is_empty() {
        return Err(Some(vec![(deltas[0].clone(), Fr::one())]));
    }
    // g = gcd with cofactors
    let mut g = polys[0].clone();
    let mut co: Vec<Vec<Fr>> = vec![vec![Fr::one()]];
    for p in &polys[1..] {
        let (h, u, v) = egcd(&g, p);
        for c in co.iter_mut() {
            *c = pmul(c, &u);
        }
        co.push(v);
        g = h;
    }
    let m = g.len() - 1;
    if g[..m].iter().any(|x| !x.is_zero()) {
        // a common factor that is not a power of the perturbation: report a
        // root when it is easy to give one
        let low = g.iter().position(|x| !x.is_zero()).unwrap();
        if m - low == 1 {
            return Err(Some(vec![(deltas[0].clone(), -g[low] / g[m])]));
        }
        return Err(None);
    }
    let lc = g[m];
    let num = |x: Fr| -> num_bigint::BigUint { ark_ff::PrimeField::into_repr(&x).into() };
    let poly = |p: &[Fr]| -> String {
        let mut t = String::from("(+ 0");
        for (i, c) in p.iter().enumerate() {
            if !c.is_zero() {
                t.push_str(&format!(" (* {}{})", num(*c), " d".repeat(i)));
            }
        }
        t.push(')');
        t
    };
    let mut t = format!("(set-logic QF_NIA)\n(declare-const d Int) ; {}\n(assert (not (= 0 (mod (+ 0", deltas[0]);
    for (p, c) in polys.iter().zip(&co) {
        if !c.is_empty() {
            t.push_str(&format!(" (* {} {})", poly(c), poly(p)));
        }
    }
    let mut last = vec![Fr::zero(); m];
    last.push(-lc);
    t.push_str(&format!(" {}) {}))))\n(check-sat)\n", poly(&last), smt::modulus()));
    Ok(t)
}
fn horner(p: &[Fr], x: Fr) -> Fr {
    p.iter().rev().fold(Fr::zero(), |a, c| a * x + c)
}
fn ptrim(mut p: Vec<Fr>) -> Vec<Fr> {
    while p.last().map_or(false, |c| c.is_zero()) {
        p.pop();
    }
    p
}
fn pmul(a: &[Fr], b: &[Fr]) -> Vec<Fr> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![Fr::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * y;
        }
    }
    ptrim(r)
}
fn psub(a: &[Fr], b: &[Fr]) -> Vec<Fr> {
    let n = a.len().max(b.len());
    ptrim((0..n).map(|i| a.get(i).copied().unwrap_or(Fr::zero()) - b.get(i).copied().unwrap_or(Fr::zero())).collect())
}
fn pdivrem(a: &[Fr], b: &[Fr]) -> (Vec<Fr>, Vec<Fr>) {
    let mut r = a.to_vec();
    let mut q = vec![Fr::zero(); a.len().saturating_sub(b.len()) + 1];
    let inv = ark_ff::Field::inverse(b.last().unwrap()).unwrap();
    while r.len() >= b.len() && !r.is_empty() {
        let k = *r.last().unwrap() * inv;
        let s = r.len() - b.len();
        q[s] = k;
        for (i, c) in b.iter().enumerate() {
            r[s + i] -= k * c;
        }
        r = ptrim(r);
    }
    (ptrim(q), r)
}
/// (g, u, v) with u a + v b = g
fn egcd(a: &[Fr], b: &[Fr]) -> (Vec<Fr>, Vec<Fr>, Vec<Fr>) {
    let (mut r0, mut r1) = (a.to_vec(), b.to_vec());
    let (mut u0, mut u1) = (vec![Fr::one()], vec![]);
    let (mut v0, mut v1) = (vec![], vec![Fr::one()]);
    while !r1.is_empty() {
        let (q, r) = pdivrem(&r0, &r1);
        let u = psub(&u0, &pmul(&q, &u1));
        let v = psub(&v0, &pmul(&q, &v1));
        r0 = std::mem::replace(&mut r1, r);
        u0 = std::mem::replace(&mut u1, u);
        v0 = std::mem::replace(&mut v1, v);
    }
    (r0, u0, v0)
}
fn interpolate(xs: &[Fr], ys: &[Fr]) -> Vec<Fr> {
    // Newton form
    let n = xs.len();
    let mut c = ys.to_vec();
    for j in 1..n {
        for i in (j..n).rev() {
            c[i] = (c[i] - c[i - 1]) / (xs[i] - xs[i - j]);
        }
    }
    let mut p: Vec<Fr> = vec![];
    for i in (0..n).rev() {
        p = pmul(&p, &[-xs[i], Fr::one()]);
        p = psub(&p, &[-c[i]]);
    }
    p
}

fn reset_feasibility(
    c: &dyn DynCase,
    cfg: &Cfg,
    subst: &Subst,
    assign: &BTreeMap<String, Fr>,
) -> String {
    reset_sym(cfg.seed, subst);
    let _ = guarded(|| c.run_sym());
    sym::with(|a| {
        let ids: Vec<u32> = a.flip_seen.keys().copied().take(12).collect();
        let mut fr = smt::Frac::new();
        let one = a.konst(Fr::one());
        let mut prod = one;
        for i in ids {
            let (n, _) = fr.go(a, i);
            prod = a.mul(prod, n);
        }
        let full: BTreeMap<String, Fr> = {
            let v: Vec<_> = a.var_ids.iter().map(|(k, v)| (k.clone(), *v)).collect();
            v.into_iter().map(|(k, v)| (k, a.fp[v as usize])).collect()
        };
        let pins = |n: &str| assign.get(n).copied().unwrap_or_else(|| full[n]);
        let (n, _) = fr.go(a, prod);
        smt::emit(a, n, Some(&pins)).text
    })
}

pub fn run_case(c: &dyn DynCase, cfg: &Cfg) -> Report {
    if let Some(mut r) = c.special(cfg) {
        if !c.bound().is_empty() {
            r.bounds.insert(c.bound());
        }
        return r;
    }
    let mut rep = Report { cases: 1, ..Default::default() };
    if !c.bound().is_empty() {
        rep.bounds.insert(c.bound());
    }
    let mut budget = c.flip_budget(cfg.thorough);
    let mut q: VecDeque<(Subst, usize)> = VecDeque::new();
    q.push_back((Subst::new(), 0));
    let mut seen: HashSet<String> = HashSet::new();
    let depth_max = if cfg.thorough { 2 } else { 1 };
    while let Some((s, d)) = q.pop_front() {
        if Instant::now() >= cfg.deadline {
            if d == 0 {
                rep.inconclusive.push(format!("{}: not started before the deadline", c.id()));
            } else {
                rep.unexplored += 1;
            }
            continue;
        }
        let next = run_path(c, cfg, &s, &mut rep);
        if cfg.stop_on_failure && !rep.failures.is_empty() {
            break;
        }
        for n in next {
            let key = format!("{:?}", n.iter().map(|(k, v)| (k.clone(), format!("{:?}", v))).collect::<Vec<_>>());
            if !seen.insert(key) {
                continue;
            }
            if d >= depth_max || budget == 0 {
                rep.unexplored += 1;
                continue;
            }
            budget -= 1;
            q.push_back((n, d + 1));
        }
    }
    rep
}

pub fn run_cases(cases: &[Box<dyn DynCase>], cfg: &Cfg) -> Report {
    let idx = AtomicUsize::new(0);
    let total: Mutex<Report> = Mutex::new(Report::default());
    std::thread::scope(|sc| {
        for _ in 0..cases.len().min(8) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let i = idx.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() {
                        break;
                    }
                    let t = Instant::now();
                    let r = run_case(cases[i].as_ref(), cfg);
                    if cfg.verbose {
                        eprintln!(
                            "[{}] paths={} goals={} branch={} rewritten={} solved={} fail={} inc={} unexpl={} {:?} solver={}ms max={}ms nodes<={}",
                            cases[i].id(), r.paths, r.goals, r.branch_obl, r.rewritten, r.solved,
                            r.failures.len(), r.inconclusive.len(), r.unexplored, t.elapsed(), r.solver_ms, r.max_ms, r.max_nodes
                        );
                    }
                    total.lock().unwrap().merge(r);
                })
                .unwrap();
        }
    });
    total.into_inner().unwrap()
}
