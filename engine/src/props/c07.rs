//! Rotations mean the same thing in every view of a column.
use super::Cases;
use crate::circ::rot;
use crate::driver::{guarded, Case};
use crate::env::{veval, IdealPC};
use crate::sess::{self, VF};
use ark_ff::Field;
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use ark_poly_commit::QuerySet;
use std::collections::BTreeMap;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable, QuerySetProvider};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::verif_hooks::evaluate_query_set;

pub fn rots(n: usize) -> Vec<i32> {
    (-(n as i32) + 1..n as i32).collect()
}
fn omega<F: Field>(d: &GeneralEvaluationDomain<F>, r: i64) -> F
where
    F: ark_ff::PrimeField,
{
    let n = d.size() as i64;
    d.element(r.rem_euclid(n) as usize)
}

/// prover views: values on the domain and on the extended coset
pub struct Views {
    pub n: usize,
    pub ratio: usize,
}
impl Views {
    fn one<F: VF>(&self, what: &str, o: &dyn Instantiable<F>, coef: &[F]) {
        let d = GeneralEvaluationDomain::<F>::new(self.n).unwrap();
        let e = GeneralEvaluationDomain::<F>::new(self.n * self.ratio).unwrap();
        let g = F::multiplicative_generator();
        for r in rots(self.n) {
            for i in 0..self.n {
                let x = omega(&d, i as i64 + r as i64);
                let got = o.query_at_omega_in_original_domain(i, rot(r));
                sess::goal_eq(&format!("{}: value at a rotated row", what), got, veval(coef, x));
            }
            for i in 0..self.n * self.ratio {
                let x = g * e.element(i) * omega(&d, r as i64);
                let got = o.query_in_coset(i, rot(r));
                match got {
                    Ok(v) => sess::goal_eq(&format!("{}: value at a rotated coset point", what), v, veval(coef, x)),
                    Err(e) => sess::fact(&format!("{}: value at a rotated coset point", what), false, format!("{:?}", e)),
                }
            }
        }
        let xi = F::var("xi");
        match o.query(&xi) {
            Ok(v) => sess::goal_eq(&format!("{}: value at a field point", what), v, veval(coef, xi)),
            Err(e) => sess::fact(&format!("{}: value at a field point", what), false, format!("{:?}", e)),
        }
        // value from the evaluations and the Lagrange coefficients
        let l = d.evaluate_all_lagrange_coefficients(xi);
        sess::goal_eq(&format!("{}: value from Lagrange coefficients", what), o.query_in_evals_form(&l), veval(coef, xi));
    }
}
impl Case for Views {
    fn id(&self) -> String {
        format!("views/n{}_x{}", self.n, self.ratio)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn bound(&self) -> String {
        "columns of n rows, extended domain ratio*n, every rotation of degree < n in both directions, every row / coset index".into()
    }
    fn run<F: VF>(&self) {
        let d = GeneralEvaluationDomain::<F>::new(self.n).unwrap();
        let e = GeneralEvaluationDomain::<F>::new(self.n * self.ratio).unwrap();
        let coef: Vec<F> = sess::vars("c", self.n);
        let p = DensePolynomial::from_coefficients_slice(&coef);
        let ev = d.fft(&coef);
        let mut w = WitnessProverOracle::new("w", p.clone(), &ev, false);
        w.compute_extended_evals(&e);
        self.one("witness", &w, &coef);
        let mut i = InstanceProverOracle::new("i", p.clone(), &ev);
        i.compute_extended_evals(&e);
        self.one("instance", &i, &coef);
        let mut f = FixedProverOracle::new("f", p, &ev);
        f.compute_extended_evals(&e);
        self.one("fixed", &f, &coef);
        // the constructor from row values
        let f2 = FixedProverOracle::from_evals_and_domains("f2".into(), &ev, &d, &e);
        self.one("fixed from row values", &f2, &coef);
    }
}

/// verifier views: evaluation points, query sets, registered values
pub struct Points {
    pub n: usize,
    pub sets: Vec<Vec<i32>>,
}
impl Case for Points {
    fn id(&self) -> String {
        format!("points/n{}_{:?}", self.n, self.sets)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn bound(&self) -> String {
        "evaluation points and query sets for the listed rotation sets, all rotations of degree < n for single points".into()
    }
    fn run<F: VF>(&self) {
        let n = self.n;
        let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
        let om: Vec<F> = d.elements().collect();
        let xi = F::var("xi");
        let mut labels: BTreeMap<String, i32> = BTreeMap::new();
        for r in rots(n) {
            let want = xi * omega(&d, r as i64);
            sess::goal_eq("evaluation point of a rotation", rot(r).compute_evaluation_point(xi, &om), want);
            let (l, p) = rot(r).get_point_info("xi", xi, &om);
            sess::goal_eq("query point of a rotation", p, want);
            if let Some(o) = labels.insert(l.clone(), r) {
                sess::fact("distinct rotations have distinct point labels", false, format!("{} and {}: {}", o, r, l));
            }
        }
        sess::fact("distinct rotations have distinct point labels", true, "");
        // a family of oracles with the given rotation sets
        let names = ["b", "a", "a1", "c_2", "c_10"];
        let mut ws = vec![];
        let mut fs = vec![];
        let mut wv = vec![];
        let mut fv = vec![];
        let mut coefs = vec![];
        for (k, set) in self.sets.iter().enumerate() {
            let coef: Vec<F> = sess::vars(&format!("c{}_", k), n);
            let p = DensePolynomial::from_coefficients_slice(&coef);
            let ev = d.fft(&coef);
            let mut w = WitnessProverOracle::new(names[k], p.clone(), &ev, false);
            let mut f = FixedProverOracle::new(names[k], p, &ev);
            let mut v = WitnessVerifierOracle::<F, IdealPC<F>>::new(names[k], false);
            let mut g = FixedVerifierOracle::<F, IdealPC<F>>::new(names[k], None);
            for r in set {
                w.register_rotation(rot(*r));
                f.register_rotation(rot(*r));
                v.register_rotation(rot(*r));
                g.register_rotation(rot(*r));
            }
            ws.push(w);
            fs.push(f);
            wv.push(v);
            fv.push(g);
            coefs.push(coef);
        }
        let q = |it: Vec<QuerySet<F>>| -> QuerySet<F> { it.into_iter().flatten().collect() };
        let qs = q(ws.iter().map(|o| o.get_query_set("xi", xi, &om)).collect());
        let qf = q(fs.iter().map(|o| o.get_query_set("xi", xi, &om)).collect());
        let qw = q(wv.iter().map(|o| o.get_query_set("xi", xi, &om)).collect());
        let qg = q(fv.iter().map(|o| o.get_query_set("xi", xi, &om)).collect());
        let total: usize = self.sets.iter().map(|s| s.len()).sum();
        sess::fact("one query per column and rotation", qs.len() == total, format!("{} != {}", qs.len(), total));
        // prover and verifier list the same queries in the same order
        for (name, other) in [("fixed prover", &qf), ("witness verifier", &qw), ("fixed verifier", &qg)] {
            let same = qs.len() == other.len()
                && qs.iter().zip(other.iter()).all(|(a, b)| a.0 == b.0 && a.1 .0 == b.1 .0);
            sess::fact(&format!("{}: same queries in the same order", name), same, "");
            for (a, b) in qs.iter().zip(other.iter()) {
                sess::goal_eq(&format!("{}: same query points", name), a.1 .1, b.1 .1);
            }
        }
        // each requested (column, rotation) is there with the right point
        for (k, set) in self.sets.iter().enumerate() {
            let mine: Vec<_> = qs.iter().filter(|x| x.0 == names[k]).collect();
            sess::fact("queries carry the column's label", mine.len() == set.len(), "");
            let mut prod = F::one();
            let mut want = F::one();
            let z = F::var("z");
            for m in mine {
                prod *= z - m.1 .1;
            }
            for r in set {
                want *= z - xi * omega(&d, *r as i64);
            }
            sess::goal_eq("query set covers the registered rotations", prod, want);
        }
        // values reported for the query set
        let evs = evaluate_query_set(&ws, &qs);
        let evf = evaluate_query_set(&fs, &qf);
        for evs in [evs, evf] {
            match evs {
                Ok(v) => {
                    sess::fact("one value per query", v.len() == qs.len(), "");
                    for (x, (l, (_, p))) in v.iter().zip(qs.iter()) {
                        let k = names.iter().position(|a| a == l).unwrap();
                        sess::goal_eq("reported value is the column's value at the query point", *x, veval(&coefs[k], *p));
                    }
                }
                Err(e) => sess::fact("query set evaluates", false, format!("{:?}", e)),
            }
        }
        // verifier oracles return exactly what was registered
        for (k, set) in self.sets.iter().enumerate() {
            for (j, r) in set.iter().enumerate() {
                let p = xi * omega(&d, *r as i64);
                wv[k].register_eval_at_challenge(p, F::var(&format!("e{}_{}", k, j)));
                fv[k].register_eval_at_challenge(p, F::var(&format!("e{}_{}", k, j)));
            }
            for (j, r) in set.iter().enumerate() {
                let p = rot(*r).compute_evaluation_point(xi, &om);
                let want = F::var(&format!("e{}_{}", k, j));
                for got in [wv[k].query(&p), fv[k].query(&p)] {
                    match got {
                        Ok(v) => sess::goal_eq("claimed value is found at its point", v, want),
                        Err(e) => sess::fact("claimed value is found at its point", false, format!("{:?}", e)),
                    }
                }
            }
            let other = F::var("elsewhere");
            sess::fact("no value is invented", wv[k].query(&other).is_err() && fv[k].query(&other).is_err(), "");
        }
        let iv = InstanceVerifierOracle::new("i", DensePolynomial::from_coefficients_slice(&coefs[0]));
        match guarded(|| iv.query(&xi)) {
            Ok(Ok(v)) => sess::goal_eq("public column at a point", v, veval(&coefs[0], xi)),
            _ => sess::fact("public column at a point", false, ""),
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Cases = vec![];
    for (n, r) in [(2, 2), (4, 1), (4, 2), (4, 4), (8, 2), (8, 4), (2, 8)] {
        v.push(Box::new(Views { n, ratio: r }));
    }
    v.push(Box::new(Points { n: 4, sets: vec![vec![0], vec![0, 1], vec![-1], vec![2, 1, 0]] }));
    v.push(Box::new(Points { n: 8, sets: vec![vec![0, 1, -1], vec![3, -2], vec![0], vec![-3, 2], vec![5]] }));
    if thorough {
        v.push(Box::new(Views { n: 16, ratio: 2 }));
        v.push(Box::new(Views { n: 8, ratio: 8 }));
        v.push(Box::new(Views { n: 16, ratio: 4 }));
        v.push(Box::new(Points { n: 16, sets: vec![vec![0, 1, -1, 10, -11], vec![3, -2], vec![0], vec![-3, 2, 12], vec![-1]] }));
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "Columns with symbolic coefficients are placed in the real prover and verifier oracle types; for every row or coset index and every rotation the value returned is compared with the polynomial at the rotated point, and the verifier's evaluation points, query sets and registered claims with the same points. All comparisons are identities decided for all coefficients and challenges.",
    functions: &["Instantiable::query_in_coset", "Instantiable::query_at_omega_in_original_domain", "Instantiable::query_in_evals_form", "compute_extended_evals", "Rotation::compute_evaluation_point", "Rotation::get_point_info", "QuerySetProvider::get_query_set", "evaluate_query_set", "WitnessVerifierOracle::query", "FixedVerifierOracle::query", "InstanceVerifierOracle::query", "FixedProverOracle::from_evals_and_domains"],
    bounds: &["rotation degree < domain size (a larger degree is outside the bound)"],
    assumptions: &[],
};
