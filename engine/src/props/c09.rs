//! Precompiled gates enforce their documented constraint.
use super::c08::*;
use super::Cases;
use crate::circ::*;
use crate::driver::Case;
use crate::sess::{self, VF};
use zero_over_k::oracles::traits::ConcreteOracle;
use zero_over_k::vo::generic_lookup_vo::GenericLookupVO;
use zero_over_k::vo::generic_vo::GenericVO;
use zero_over_k::vo::precompiled_lookups::simple_1_arith::PrecompiledSimple1ArithLookup;
use zero_over_k::vo::precompiled_lookups::simple_3_arith::PrecompiledSimple3ArithLookup;
use zero_over_k::vo::precompiled_lookups::PrecompiledLookupVO;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};

pub struct GateIs(pub Pre, pub G);
pub fn pow5(g: G) -> G {
    g.clone() * g.clone() * g.clone() * g.clone() * g
}
/// gate expression, evaluated by the real code after configuration; fails the
/// run when a cell it reads is not registered for opening
pub fn gate_value<F: VF>(p: Pre) -> F {
    let mut cs = cols::<F>(6);
    let mut vo = GenericVO::<F>::init(p.get());
    vo.configure(&mut cs.w, &mut cs.i, &mut cs.f);
    let e = vo.get_expression().unwrap().clone();
    let (v, read) = value::<F>(&e);
    for (l, r) in read.iter() {
        let i: usize = l[1..].parse().unwrap();
        let rs: Vec<String> = match &l[..1] {
            "W" => cs.w[i].get_queried_rotations().iter().map(rotation_name).collect(),
            "I" => cs.i[i].get_queried_rotations().iter().map(rotation_name).collect(),
            _ => cs.f[i].get_queried_rotations().iter().map(rotation_name).collect(),
        };
        sess::fact("every cell the gate reads is registered for opening", rs.contains(r), format!("{} {}", l, r));
    }
    v
}
impl Case for GateIs {
    fn id(&self) -> String {
        format!("gate/{:?}", self.0)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn bound(&self) -> String {
        "no bound on cell values".into()
    }
    fn run<F: VF>(&self) {
        sess::goal_eq("gate is its documented constraint", gate_value::<F>(self.0), reference::<F>(&self.1));
    }
}
fn cell<F: VF>(g: &G) -> String {
    match g {
        G::Q(k, i, r) => {
            let t = match k { K::W => "W", K::I => "I", _ => "X" };
            format!("{}/{}{}@{}", t, t, i, rot_name(*r))
        }
        _ => panic!(),
    }
}
/// evaluate a gate with some cells fixed to small integers
fn gate_at<F: VF>(p: Pre, fixed: &[(G, i64)]) -> F {
    let mut cs = cols::<F>(6);
    let mut vo = GenericVO::<F>::init(p.get());
    vo.configure(&mut cs.w, &mut cs.i, &mut cs.f);
    let e = vo.get_expression().unwrap().clone();
    let names: Vec<(String, i64)> = fixed.iter().map(|(g, v)| (cell::<F>(g), *v)).collect();
    e.evaluate(
        &|c: F| c,
        &|q| {
            let n = format!("{}/{}@{}", tag(&q.oracle_type), q.label, rotation_name(&q.rotation));
            match names.iter().find(|x| x.0 == n) {
                Some((_, v)) => fi(*v),
                None => F::var(&n),
            }
        },
        &|x: F| -x,
        &|a: F, b: F| a + b,
        &|a: F, b: F| a * b,
        &|a: F, k: F| a * k,
    )
}
/// logic gate: for 2-bit inputs and their product, the gate forces the output
/// to be the bitwise operation (a non-zero multiple of output - op(a, b))
pub struct Logic;
impl Case for Logic {
    fn id(&self) -> String {
        "gate/logic_truth_table".into()
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn bound(&self) -> String {
        "all 16 input pairs and both operations; output unbounded".into()
    }
    fn run<F: VF>(&self) {
        for op in [1i64, -1] {
            for a in 0..4i64 {
                for b in 0..4i64 {
                    let f = |d: Option<i64>| -> F {
                        let mut v = vec![(w(0), a), (w(1), b), (w(2), a * b), (fx(0), op)];
                        if let Some(d) = d {
                            v.push((w(3), d));
                        }
                        gate_at(Pre::XorAnd, &v)
                    };
                    let want = if op == 1 { a & b } else { a ^ b };
                    let l = format!("{} is forced", if op == 1 { "AND" } else { "XOR" });
                    // g(d) is linear: g(d) = (g(1) - g(0)) * (d - want), slope non-zero
                    let s = f(Some(1)) - f(Some(0));
                    sess::fact(&l, !s.is_zero(), format!("{} {}: gate does not depend on the output", a, b));
                    let d = F::var(&cell::<F>(&w(3)));
                    sess::goal_eq(&l, f(None), s * (d - fi::<F>(want)));
                }
            }
        }
    }
}
pub struct Range;
impl Case for Range {
    fn id(&self) -> String {
        "gate/delta_range".into()
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn bound(&self) -> String {
        "accumulator unbounded; each of the four digits, and an arbitrary digit".into()
    }
    fn run<F: VF>(&self) {
        let a = F::var(&cell::<F>(&w(0)));
        let an = F::var(&cell::<F>(&wr(0, 1)));
        let e = an - F::from(4u64) * a;
        let g = gate_at::<F>(Pre::Delta, &[(fx(0), 0)]);
        let mut want = F::one();
        for k in 0..4u64 {
            want *= e - F::from(k);
        }
        sess::goal_eq("next = 4*cur + {0,1,2,3} where the selector is off", g, want);
        sess::goal_eq("no constraint on the last row", gate_at::<F>(Pre::Delta, &[(fx(0), 1)]), F::zero());
    }
}
pub struct LookupGates;
impl Case for LookupGates {
    fn id(&self) -> String {
        "gate/lookups".into()
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        for (name, k, cfg) in [
            ("one-column lookup", 1usize, PrecompiledSimple1ArithLookup::<F>::get_expressions_and_queries()),
            ("three-column lookup", 3, PrecompiledSimple3ArithLookup::<F>::get_expressions_and_queries()),
        ] {
            let mut cs = cols::<F>(4);
            let mut l = GenericLookupVO::init(cfg);
            let r = l.configure(&mut cs.w, &mut cs.i, &mut cs.f, &mut cs.t);
            sess::fact(&format!("{} configures", name), r.is_ok(), "");
            let es = l.get_expressions().unwrap();
            let ts = l.get_table_queries().unwrap();
            sess::fact(&format!("{}: columns", name), es.len() == k && ts.len() == k, "");
            for (i, (e, t)) in es.iter().zip(ts.iter()).enumerate() {
                let (v, _) = value::<F>(e);
                sess::goal_eq(&format!("{}: column i is looked up in table column i", name), v, reference::<F>(&w(i)));
                sess::fact(
                    &format!("{}: column i is looked up in table column i", name),
                    t.label == format!("T{}", i) && rotation_name(&t.rotation) == rot_name(0),
                    format!("{} {:?}", t.label, t.rotation),
                );
                sess::fact(&format!("{}: cells registered", name), cs.w[i].get_queried_rotations().len() == 1 && cs.t[i].get_queried_rotations().len() == 1, "");
            }
        }
    }
}
pub fn cases(_thorough: bool) -> Cases {
    let arith = w(0) * w(1) * fx(0) + w(0) * fx(1) + w(1) * fx(2) + w(2) * fx(3) + fx(4) + ins(0);
    let arith4 = w(0) * w(1) * fx(0) + w(0) * fx(1) + w(1) * fx(2) + w(3) * fx(3) + w(2) * fx(4) + fx(5) + ins(0);
    let e = || wr(0, 1) - c(4) * w(0);
    let delta = (c(1) - fx(0)) * (e() * (e() - c(1)) * (e() - c(2)) * (e() - c(3)));
    let rescue = fx(0) * pow5(w(0)) + fx(1) * pow5(w(1)) + fx(2) * pow5(w(2)) + fx(3) * pow5(w(3)) - w(4);
    // H + E with d the output and c the product
    let ab = || w(0) + w(1);
    let f = w(2) * (w(2) * (c(4) * w(2) - c(18) * ab() + c(81)) + c(18) * (w(0) * w(0) + w(1) * w(1)) - c(81) * ab() + c(83));
    let xorand = fx(0) * (c(9) * w(3) - c(3) * ab()) + (c(3) * (ab() + w(3)) - c(2) * f);
    vec![
        Box::new(GateIs(Pre::Mul, w(0) * w(1) - ins(0))),
        Box::new(GateIs(Pre::Arith, arith)),
        Box::new(GateIs(Pre::Arith4, arith4)),
        Box::new(GateIs(Pre::Delta, delta)),
        Box::new(GateIs(Pre::Rescue, rescue)),
        Box::new(GateIs(Pre::XorAnd, xorand)),
        Box::new(Logic),
        Box::new(Range),
        Box::new(LookupGates),
    ]
}
pub const META: super::Meta = super::Meta {
    how: "The expression each precompiled gate returns is configured and evaluated by the real code with every queried cell an unknown and compared with the documented polynomial; the logic gate is additionally shown to force AND / XOR on all 2-bit inputs and the range gate to force a base-4 digit.",
    functions: &["PrecompiledMul", "PrecompiledPlonkArith", "PlonkArith4", "Delta", "DeltaXorAnd", "PrecompiledRescue", "PrecompiledSimple1ArithLookup", "PrecompiledSimple3ArithLookup", "GenericVO::configure", "GenericLookupVO::configure", "Expression::evaluate"],
    bounds: &["none beyond the gate itself: all values of the cells it reads (logic and range conclusions: all field values)"],
    assumptions: &[],
};
