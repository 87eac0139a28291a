//! Sorting inputs and table for the lookup argument.
use super::Cases;
use crate::driver::{guarded, replay, Case, Cfg, DynCase, Report};
use crate::dse;
use crate::sess::{self, VF};
use crate::sym::{self, SymF};
use zero_over_k::lookup::permute::permute_for_lookup;

const LAB: &str = "rearrangement is valid, or refused because an input is missing from the table";
pub struct Perm {
    pub u: usize,
    /// only inputs that are contained in the table
    pub contained: bool,
    /// table values in increasing order
    pub sorted: bool,
}
fn count(xs: &[String], v: &str) -> String {
    let t: Vec<String> = xs.iter().map(|x| format!("(ite (= {} {}) 1 0)", x, v)).collect();
    format!("(+ 0 {})", t.join(" "))
}
fn same_multiset(xs: &[String], ys: &[String]) -> String {
    let t: Vec<String> = xs.iter().chain(ys).map(|v| format!("(= {} {})", count(xs, v), count(ys, v))).collect();
    format!("(and true {})", t.join(" "))
}
fn member(v: &str, s: &[String]) -> String {
    let t: Vec<String> = s.iter().map(|x| format!("(= {} {})", v, x)).collect();
    format!("(or false {})", t.join(" "))
}
fn contained(a: &[String], s: &[String]) -> String {
    let t: Vec<String> = a.iter().map(|x| member(x, s)).collect();
    format!("(and true {})", t.join(" "))
}
impl Perm {
    fn names(&self) -> (Vec<String>, Vec<String>) {
        ((0..self.u).map(|i| format!("a{}", i)).collect(), (0..self.u).map(|i| format!("s{}", i)).collect())
    }
}
impl Case for Perm {
    fn id(&self) -> String {
        format!(
            "rearrange/rows_{}{}{}",
            self.u,
            if self.contained { "_contained" } else { "" },
            if self.sorted { "_sorted_table" } else { "" }
        )
    }
    fn bound(&self) -> String {
        format!(
            "{} rows: every order and equality pattern of {} inputs and {} table values{}{}",
            self.u,
            self.u,
            self.u,
            if self.contained { " with all inputs in the table" } else { "" },
            if self.sorted { " (table in increasing order)" } else { "" }
        )
    }
    fn special(&self, cfg: &Cfg) -> Option<Report> {
        let (a, s) = self.names();
        let vars: Vec<String> = a.iter().chain(&s).cloned().collect();
        let mut pre = String::from("(and true");
        if self.contained {
            pre.push_str(&format!(" {}", contained(&a, &s)));
        }
        if self.sorted {
            s.windows(2).for_each(|w| pre.push_str(&format!(" (<= {} {})", w[0], w[1])));
        }
        pre.push(')');
        let run = || {
            let av: Vec<SymF> = a.iter().map(|x| SymF::var(x)).collect();
            let sv: Vec<SymF> = s.iter().map(|x| SymF::var(x)).collect();
            let prop = match guarded(|| permute_for_lookup(&av, &sv)) {
                Ok((ap, sp)) => sym::with(|ar| {
                    let ap: Vec<String> = ap.iter().map(|x| dse::name(ar, x.0)).collect();
                    let sp: Vec<String> = sp.iter().map(|x| dse::name(ar, x.0)).collect();
                    if ap.len() != a.len() || sp.len() != s.len() {
                        return "false".to_string();
                    }
                    let mut t = format!("(and {} {} {}", contained(&a, &s), same_multiset(&a, &ap), same_multiset(&s, &sp));
                    for i in 0..ap.len() {
                        if i == 0 {
                            t.push_str(&format!(" (= {} {})", ap[0], sp[0]));
                        } else {
                            t.push_str(&format!(" (or (= {} {}) (= {} {}))", ap[i], sp[i], ap[i], ap[i - 1]));
                        }
                    }
                    t + ")"
                }),
                Err(_) => format!("(not {})", contained(&a, &s)),
            };
            vec![(LAB, prop)]
        };
        let me: &dyn DynCase = self;
        Some(dse::explore(&Case::id(self), cfg, &vars, &pre, &run, &|asg| replay(me, cfg.seed, asg)))
    }
    /// native replay
    fn run<F: VF>(&self) {
        let (a, s) = self.names();
        let av: Vec<F> = a.iter().map(|x| F::var(x)).collect();
        let sv: Vec<F> = s.iter().map(|x| F::var(x)).collect();
        let inside = av.iter().all(|x| sv.contains(x));
        let r = guarded(|| permute_for_lookup(&av, &sv));
        let ok = match &r {
            Err(_) => !inside,
            Ok((ap, sp)) => {
                let srt = |v: &[F]| {
                    let mut v = v.to_vec();
                    v.sort();
                    v
                };
                inside
                    && srt(ap) == srt(&av)
                    && srt(sp) == srt(&sv)
                    && (0..ap.len()).all(|i| ap[i] == sp[i] || (i > 0 && ap[i] == ap[i - 1]))
            }
        };
        sess::fact(LAB, ok, format!("a={:?} s={:?} -> {:?}", av, sv, r));
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Cases = vec![];
    for u in 1..=3 {
        v.push(Box::new(Perm { u, contained: false, sorted: false }));
    }
    v.push(Box::new(Perm { u: 4, contained: true, sorted: false }));
    if thorough {
        v.push(Box::new(Perm { u: 5, contained: true, sorted: true }));
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "The real sorting routine is executed on symbolic values: each comparison it makes is decided by the solver under the path condition and every feasible outcome is explored. On every path the solver decides the property (same multisets, each sorted input equal to its table neighbour or to the input before it, refusal exactly when an input is missing) for all values with that order.",
    functions: &["permute_for_lookup"],
    bounds: &["up to 3 rows for all inputs, 4 rows for inputs contained in the table; thorough: 5 rows for contained inputs and an increasing table"],
    assumptions: &["values behave like integers under the field's total order; the routine only compares and copies them (any arithmetic on them stops the check)"],
};
