//! Path exploration for code that orders and compares field values: every
//! comparison of two symbolic values is decided by the solver under the path
//! condition, all feasible outcomes are explored, and the property is a query
//! over the path condition.  Values are ordered like integers (only the order
//! and equality of the values is used by the code under test).
use crate::driver::{guarded, Cfg, Failure, Report};
use crate::sym::{self, Node};
use ark_bls12_381::Fr;
use ark_ff::PrimeField;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub struct Z3 {
    ch: Child,
    si: ChildStdin,
    so: BufReader<ChildStdout>,
    pub checks: usize,
    pub ms: f64,
}
impl Z3 {
    pub fn new() -> Self {
        let mut ch = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("z3");
        let si = ch.stdin.take().unwrap();
        let so = BufReader::new(ch.stdout.take().unwrap());
        Z3 { ch, si, so, checks: 0, ms: 0.0 }
    }
    pub fn tell(&mut self, s: &str) {
        writeln!(self.si, "{}", s).unwrap();
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        self.so.read_line(&mut l).unwrap();
        l.trim().to_string()
    }
    pub fn check(&mut self) -> String {
        let t = Instant::now();
        self.tell("(check-sat)");
        self.si.flush().unwrap();
        let r = self.line();
        self.checks += 1;
        self.ms += t.elapsed().as_secs_f64() * 1000.0;
        r
    }
    /// check the assertions together with `s`
    pub fn with(&mut self, s: &str) -> String {
        self.tell(&format!("(push) (assert {})", s));
        let r = self.check();
        self.tell("(pop)");
        r
    }
    pub fn value(&mut self, v: &str) -> Option<u64> {
        self.tell(&format!("(get-value ({}))", v));
        self.si.flush().unwrap();
        let l = self.line();
        let t = l.trim_matches(|c| c == '(' || c == ')');
        t.split_whitespace().nth(1)?.parse().ok()
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
struct Ctx {
    prefix: Vec<Ordering>,
    trace: Vec<Ordering>,
    next: Vec<Vec<Ordering>>,
    undecided: bool,
    z: Z3,
}
thread_local! { static CTX: RefCell<Option<Ctx>> = RefCell::new(None); }
pub fn active() -> bool {
    CTX.with(|c| c.borrow().is_some())
}
/// SMT name of a term: variables and constants only
pub fn name(a: &sym::Arena, id: u32) -> String {
    if let Some(c) = a.as_const(id) {
        let b: num_bigint::BigUint = c.into_repr().into();
        return b.to_string();
    }
    match &a.nodes[id as usize] {
        Node::Var(v) => a.vars[*v as usize].clone(),
        _ => panic!("the code under test computes with a value it should only compare"),
    }
}
/// outcome of comparing two values on this path
pub fn compare(a: &sym::Arena, x: u32, y: u32) -> Ordering {
    use Ordering::*;
    if x == y {
        return Equal;
    }
    if let (Some(p), Some(q)) = (a.as_const(x), a.as_const(y)) {
        return p.cmp(&q);
    }
    let (nx, ny) = (name(a, x), name(a, y));
    let cond = |o: Ordering| match o {
        Less => format!("(< {} {})", nx, ny),
        Equal => format!("(= {} {})", nx, ny),
        Greater => format!("(> {} {})", nx, ny),
    };
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        let k = c.trace.len();
        let pick = if k < c.prefix.len() {
            c.prefix[k]
        } else {
            let mut ok = vec![];
            for o in [Less, Equal, Greater] {
                match c.z.with(&cond(o)).as_str() {
                    "unsat" => {}
                    "sat" => ok.push(o),
                    _ => {
                        c.undecided = true;
                        ok.push(o)
                    }
                }
            }
            for o in ok[1..].iter() {
                let mut p = c.trace.clone();
                p.push(*o);
                c.next.push(p);
            }
            ok[0]
        };
        c.trace.push(pick);
        let s = cond(pick);
        c.z.tell(&format!("(assert {})", s));
        pick
    })
}
/// Outcome of one path: label and the property in SMT-LIB over the variables.
pub type Obl = Vec<(&'static str, String)>;

/// Explore every path of `run` (which executes the real code on the variables
/// `vars` and returns the property instance of that path) under `pre`.
pub fn explore(
    id: &str,
    cfg: &Cfg,
    vars: &[String],
    pre: &str,
    run: &dyn Fn() -> Obl,
    native: &dyn Fn(&BTreeMap<String, Fr>) -> Vec<(String, String)>,
) -> Report {
    let mut rep = Report { cases: 1, ..Default::default() };
    let mut work: Vec<Vec<Ordering>> = vec![vec![]];
    let mut z = Z3::new();
    let mut decl = String::new();
    for v in vars {
        decl.push_str(&format!("(declare-const {} Int)(assert (>= {} 0))", v, v));
    }
    if !pre.is_empty() {
        decl.push_str(&format!("(assert {})", pre));
    }
    z.tell(&decl);
    let mut slot = Some(z);
    while let Some(p) = work.pop() {
        if Instant::now() >= cfg.deadline {
            rep.inconclusive.push(format!("{}: deadline reached with paths left", id));
            break;
        }
        let mut z = slot.take().unwrap();
        z.tell("(push)");
        crate::driver::reset_sym(cfg.seed, &Default::default());
        CTX.with(|c| {
            *c.borrow_mut() = Some(Ctx { prefix: p, trace: vec![], next: vec![], undecided: false, z })
        });
        let r = guarded(run);
        let mut c = CTX.with(|c| c.borrow_mut().take().unwrap());
        rep.paths += 1;
        work.append(&mut c.next);
        let mut z = c.z;
        let obl = match r {
            Ok(o) => o,
            Err(m) => {
                rep.inconclusive.push(format!("{}: {}", id, m));
                vec![]
            }
        };
        if c.undecided {
            rep.inconclusive.push(format!("{}: the solver gave no answer on a path condition", id));
        }
        for (label, prop) in obl {
            rep.goals += 1;
            if prop == "true" {
                rep.rewritten += 1;
                continue;
            }
            z.tell(&format!("(push) (assert (not {}))", prop));
            match z.check().as_str() {
                "unsat" => {
                    rep.solved += 1;
                    if rep.samples.is_empty() && rep.paths > 3 {
                        rep.samples.push(format!("{}: path of {} comparisons, '{}' unsat: (not {})", id, c.trace.len(), label, prop.chars().take(300).collect::<String>()));
                    }
                }
                "sat" => {
                    let mut asg = BTreeMap::new();
                    for v in vars {
                        asg.insert(v.clone(), Fr::from(z.value(v).unwrap_or(0)));
                    }
                    let hit = native(&asg);
                    let h = hit.iter().find(|(l, _)| l == label);
                    rep.failures.push(Failure {
                        case: id.into(),
                        label: label.into(),
                        detail: match h {
                            Some((_, d)) => format!("native: {}", d),
                            None => String::new(),
                        },
                        assign: asg,
                        reproduced: h.is_some(),
                        solver: "z3".into(),
                    });
                }
                o => rep.inconclusive.push(format!("{}/{}: {}", id, label, o)),
            }
            z.tell("(pop)");
        }
        z.tell("(pop)");
        slot = Some(z);
        if !rep.failures.is_empty() {
            break;
        }
    }
    if let Some(z) = slot {
        rep.queries += z.checks;
        rep.solver_ms += z.ms as u128;
        rep.by_solver.insert("z3 (incremental)".into(), z.checks);
    }
    rep.vars = vars.len();
    rep
}
