//! Constraint expressions mean what they say.
use super::Cases;
use crate::circ::*;
use crate::driver::Case;
use crate::env::IdealPC;
use crate::sess::{self, VF};
use ark_ff::PrimeField;
use ark_poly::univariate::DensePolynomial;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use zero_over_k::oracles::query::{OracleQuery, OracleType};
use zero_over_k::oracles::rotation::Rotation;
use zero_over_k::oracles::traits::ConcreteOracle;
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::piop::error::Error as PiopError;
use zero_over_k::vo::expression::Expression;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};
use ark_poly::UVPolynomial;

pub struct Cols<F: VF> {
    pub w: Vec<WitnessProverOracle<F>>,
    pub i: Vec<InstanceProverOracle<F>>,
    pub f: Vec<FixedProverOracle<F>>,
    pub t: Vec<FixedProverOracle<F>>,
}
pub fn cols<F: VF>(k: usize) -> Cols<F> {
    let p = || DensePolynomial::from_coefficients_slice(&[F::one()]);
    let e = [F::one(), F::one()];
    Cols {
        w: (0..k).map(|i| WitnessProverOracle::new(format!("W{}", i), p(), &e, false)).collect(),
        i: (0..k).map(|i| InstanceProverOracle::new(format!("I{}", i), p(), &e)).collect(),
        f: (0..k).map(|i| FixedProverOracle::new(format!("X{}", i), p(), &e)).collect(),
        t: (0..k).map(|i| FixedProverOracle::new(format!("T{}", i), p(), &e)).collect(),
    }
}
pub fn rot_name(r: i32) -> String {
    format!("{:?}", rot(r))
}
pub fn rotation_name(r: &Rotation) -> String {
    format!("{:?}", r)
}
pub fn tag(t: &OracleType) -> &'static str {
    match t {
        OracleType::Witness => "W",
        OracleType::Instance => "I",
        OracleType::Fixed => "X",
    }
}
/// value of a concrete expression when (type, label, rotation) queries are
/// independent unknowns; also the list of queries read
pub fn value<F: VF>(e: &Expression<F>) -> (F, Vec<(String, String)>) {
    let read = std::cell::RefCell::new(vec![]);
    let v = e.evaluate(
        &|c: F| c,
        &|q: &OracleQuery| {
            let t = tag(&q.oracle_type);
            read.borrow_mut().push((q.label.clone(), rotation_name(&q.rotation)));
            F::var(&format!("{}/{}@{}", t, q.label, rotation_name(&q.rotation)))
        },
        &|x: F| -x,
        &|a: F, b: F| a + b,
        &|a: F, b: F| a * b,
        &|a: F, k: F| a * k,
    );
    (v, read.into_inner())
}
pub fn reference<F: VF>(g: &G) -> F {
    g.eval(&|k, i, r| {
        let t = match k {
            K::W => "W",
            K::I => "I",
            K::X | K::T => "X",
        };
        F::var(&format!("{}/{}{}@{}", t, t, i, rot_name(r)))
    })
}
pub fn degree<F: PrimeField>(e: &Expression<F>, dw: usize, di: usize, dx: usize) -> usize {
    e.degree(&|q: &OracleQuery| -> Result<usize, PiopError> {
        Ok(match q.oracle_type {
            OracleType::Witness => dw,
            OracleType::Instance => di,
            OracleType::Fixed => dx,
        })
    })
    .unwrap()
}
pub fn ref_degree(g: &G, dw: usize, di: usize, dx: usize) -> usize {
    match g {
        G::C(_) => 0,
        G::Q(K::W, ..) => dw,
        G::Q(K::I, ..) => di,
        G::Q(..) => dx,
        G::Neg(a) | G::Scale(a, _) => ref_degree(a, dw, di, dx),
        G::Add(a, b) | G::Sub(a, b) => ref_degree(a, dw, di, dx).max(ref_degree(b, dw, di, dx)),
        G::Mul(a, b) => ref_degree(a, dw, di, dx) + ref_degree(b, dw, di, dx),
    }
}
fn concrete<F: PrimeField>(g: &G) -> Expression<F> {
    match g {
        G::C(v) => Expression::Constant(fi(*v)),
        G::Q(k, i, r) => {
            let (t, n) = match k {
                K::W => (OracleType::Witness, "W"),
                K::I => (OracleType::Instance, "I"),
                _ => (OracleType::Fixed, "X"),
            };
            OracleQuery { label: format!("{}{}", n, i), rotation: rot(*r), oracle_type: t }.into()
        }
        G::Neg(a) => -concrete::<F>(a),
        G::Add(a, b) => concrete::<F>(a) + concrete::<F>(b),
        G::Sub(a, b) => concrete::<F>(a) - concrete::<F>(b),
        G::Mul(a, b) => concrete::<F>(a) * concrete::<F>(b),
        G::Scale(a, k) => concrete::<F>(a) * fi::<F>(*k),
    }
}

pub struct Exprs {
    pub name: String,
    pub gs: Vec<G>,
}
fn registered(rs: &std::collections::BTreeSet<Rotation>) -> Vec<String> {
    rs.iter().map(rotation_name).collect()
}
impl Case for Exprs {
    fn id(&self) -> String {
        format!("expr/{}", self.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn bound(&self) -> String {
        "expression trees listed by the case (all trees of depth <= 2 over the leaf set, plus selected depth <= 4), 3 columns of each kind; cell values unbounded".into()
    }
    fn run<F: VF>(&self) {
        for g in self.gs.iter() {
            let d = format!("{:?}", g);
            let mut qs = vec![];
            g.queries(&mut qs);
            let vqs: Vec<_> = qs.iter().map(|(k, i, r)| vq(*k, *i, *r)).collect();
            let want = reference::<F>(g);
            // through configuration against prover columns
            let mut c = cols::<F>(3);
            let mut vo = GenericVO::init((g.virt(), vqs.clone()));
            sess::fact("an unconfigured constraint is an error", vo.get_expression().is_err(), "");
            vo.configure(&mut c.w, &mut c.i, &mut c.f);
            let e = match vo.get_expression() {
                Ok(e) => e.clone(),
                Err(_) => {
                    sess::fact("a configured constraint has an expression", false, d);
                    continue;
                }
            };
            let (v, _) = value::<F>(&e);
            sess::goal_eq("configured constraint evaluates to its definition", v, want);
            // and against verifier columns
            let mut wv: Vec<_> = (0..3).map(|i| WitnessVerifierOracle::<F, IdealPC<F>>::new(format!("W{}", i), false)).collect();
            let mut iv: Vec<_> = (0..3).map(|i| InstanceVerifierOracle::<F>::new(format!("I{}", i), DensePolynomial::from_coefficients_slice(&[F::one()]))).collect();
            let mut fv: Vec<_> = (0..3).map(|i| FixedVerifierOracle::<F, IdealPC<F>>::new(format!("X{}", i), None)).collect();
            let mut vo2 = GenericVO::init((g.virt(), vqs.clone()));
            vo2.configure(&mut wv, &mut iv, &mut fv);
            sess::goal_eq("prover and verifier evaluate the same constraint", value::<F>(vo2.get_expression().unwrap()).0, want);
            // every query is registered with its column on both sides
            for (k, i, r) in qs.iter() {
                let (a, b) = match k {
                    K::W => (registered(c.w[*i].get_queried_rotations()), registered(wv[*i].get_queried_rotations())),
                    K::I => (registered(c.i[*i].get_queried_rotations()), registered(iv[*i].get_queried_rotations())),
                    _ => (registered(c.f[*i].get_queried_rotations()), registered(fv[*i].get_queried_rotations())),
                };
                let n = rot_name(*r);
                sess::fact("every cell read is registered for opening", a.contains(&n) && b.contains(&n), d.clone());
            }
            for i in 0..3 {
                let cnt = |k: K| qs.iter().filter(|q| q.0 == k && q.1 == i).count();
                let ok = c.w[i].get_queried_rotations().len() == cnt(K::W)
                    && c.i[i].get_queried_rotations().len() == cnt(K::I)
                    && c.f[i].get_queried_rotations().len() == cnt(K::X);
                sess::fact("only the cells read are registered", ok, d.clone());
            }
            // concrete expressions built with the operators
            let ce = concrete::<F>(g);
            sess::goal_eq("concrete expression evaluates to its definition", value::<F>(&ce).0, want);
            for (a, b, x) in [(7, 7, 7), (1, 0, 0), (0, 1, 0), (0, 0, 1), (3, 5, 11)] {
                let w = ref_degree(g, a, b, x);
                sess::fact("degree is the degree of the polynomial", degree(&ce, a, b, x) == w && degree(&e, a, b, x) == w, d.clone());
            }
        }
    }
}
pub struct Lookups;
impl Case for Lookups {
    fn id(&self) -> String {
        "expr/lookup_configuration".into()
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        let exprs = vec![w(0) * fx(1) + c(2), wr(1, -1) - ins(2), sc(fxr(0, 1), 5)];
        let mut qs = vec![];
        exprs.iter().for_each(|e| e.queries(&mut qs));
        let vqs: Vec<_> = qs.iter().map(|(k, i, r)| vq(*k, *i, *r)).collect();
        let tqs = vec![vq(K::T, 2, 0), vq(K::T, 0, 0), vq(K::T, 1, 1)];
        let mut cs = cols::<F>(3);
        let mut l = GenericLookupVO::init((exprs.iter().map(|e| e.virt()).collect(), vqs.clone(), tqs));
        sess::fact("an unconfigured lookup is an error", l.get_expressions().is_err() && l.get_table_queries().is_err(), "");
        let r = l.configure(&mut cs.w, &mut cs.i, &mut cs.f, &mut cs.t);
        sess::fact("configuration succeeds", r.is_ok(), "");
        let es = l.get_expressions().unwrap();
        sess::fact("one expression per column", es.len() == 3, "");
        for (e, g) in es.iter().zip(exprs.iter()) {
            sess::goal_eq("lookup expression evaluates to its definition", value::<F>(e).0, reference::<F>(g));
        }
        let t = l.get_table_queries().unwrap();
        let names: Vec<_> = t.iter().map(|q| (q.label.clone(), rotation_name(&q.rotation))).collect();
        let want = vec![("T2".to_string(), rot_name(0)), ("T0".into(), rot_name(0)), ("T1".into(), rot_name(1))];
        sess::fact("table columns are the ones asked for, in order", names == want, format!("{:?}", names));
        for (k, i, r) in qs.iter() {
            let a = match k {
                K::W => registered(cs.w[*i].get_queried_rotations()),
                K::I => registered(cs.i[*i].get_queried_rotations()),
                _ => registered(cs.f[*i].get_queried_rotations()),
            };
            sess::fact("every cell a lookup reads is registered for opening", a.contains(&rot_name(*r)), "");
        }
        for (i, r) in [(2, 0), (0, 0), (1, 1)] {
            sess::fact("every table column is registered for opening", registered(cs.t[i].get_queried_rotations()) == vec![rot_name(r)], "");
        }
        for k in [K::W, K::I] {
            let mut cs = cols::<F>(3);
            let mut l = GenericLookupVO::init((vec![w(0).virt::<F>()], vec![vq(K::W, 0, 0)], vec![vq(k, 0, 0)]));
            sess::fact("a table must be a fixed column", l.configure(&mut cs.w, &mut cs.i, &mut cs.f, &mut cs.t).is_err(), "");
        }
    }
}
fn leaves() -> Vec<G> {
    vec![c(3), c(0), w(0), wr(1, 1), ins(0), insr(1, -1), fx(0), fxr(2, 2)]
}
fn unary(g: &G) -> Vec<G> {
    vec![-g.clone(), sc(g.clone(), 7)]
}
fn binary(a: &G, b: &G) -> Vec<G> {
    vec![a.clone() + b.clone(), a.clone() - b.clone(), a.clone() * b.clone()]
}
pub fn cases(thorough: bool) -> Cases {
    let l = leaves();
    let mut d1 = l.clone();
    for a in l.iter() {
        d1.extend(unary(a));
        for b in l.iter() {
            d1.extend(binary(a, b));
        }
    }
    let mut v: Cases = vec![];
    v.push(Box::new(Exprs { name: "depth1".into(), gs: d1.clone() }));
    let mut d2: Vec<G> = vec![];
    // depth 2 over a reduced leaf set
    let s = vec![w(0), insr(1, -1), fx(2), c(-4)];
    let mut s1 = s.clone();
    for a in s.iter() {
        s1.extend(unary(a));
        for b in s.iter() {
            s1.extend(binary(a, b));
        }
    }
    for a in s1.iter() {
        d2.extend(unary(a));
    }
    let step = if thorough { 1 } else { 7 };
    for (i, a) in s1.iter().enumerate() {
        for (j, b) in s1.iter().enumerate() {
            if (i * s1.len() + j) % step == 0 {
                d2.extend(binary(a, b));
            }
        }
    }
    for (k, ch) in d2.chunks(d2.len() / 6 + 1).enumerate() {
        v.push(Box::new(Exprs { name: format!("depth2_{}", k), gs: ch.to_vec() }));
    }
    let deep = vec![
        (w(0) * w(0) - fx(1)) * (sc(insr(0, 1) + wr(2, -2), -3) - c(1)) * (-(fx(0) * fx(0))),
        -(-(w(1) - (w(1) - (w(1) - c(2))))),
        sc(sc(w(0), 3) * sc(fx(1), -5), 2) + c(1) * c(2) - w(2) * c(0),
        (w(0) + w(1)) * (w(0) - w(1)) * (ins(0) + fx(0)) * (ins(1) - fx(1)),
    ];
    v.push(Box::new(Exprs { name: "deep".into(), gs: deep }));
    v.push(Box::new(Lookups));
    v
}
pub const META: super::Meta = super::Meta {
    how: "Expression trees are built through the public operators, configured against prover and verifier columns, and evaluated by the real evaluator with every (column, rotation) query an independent unknown; the result is compared with an independent interpreter. Equality is decided for all cell values; degree, registration of queries and error cases are facts of the same run.",
    functions: &["VirtualExpression::{Neg,Add,Sub,Mul,to_expression}", "Expression::{Neg,Add,Sub,Mul,evaluate,degree}", "GenericVO::{init,configure,get_expression}", "GenericLookupVO::{init,configure,get_expressions,get_table_queries}"],
    bounds: &["all expressions of depth 1 over 8 leaves, one in seven (thorough: all) of depth 2 over four leaves, and a few deep ones; domain of 8 rows", "all cell values"],
    assumptions: &[],
};
