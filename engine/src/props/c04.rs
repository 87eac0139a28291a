//! Lookup argument: compression, rearranged columns, running product and
//! constraint values.
use super::Cases;
use crate::circ::*;
use crate::driver::{guarded, Case};
use crate::env::*;
use crate::sess::{self, goal_eq, VF};
use ark_ff::Field;
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use std::collections::BTreeMap;
use zero_over_k::lookup::subset_equality::SubsetEqualityArgument;
use zero_over_k::lookup::LookupArgument;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::vo::LookupVirtualOracle;

fn labels<F: VF, O: ConcreteOracle<F>>(v: &[O]) -> BTreeMap<String, usize> {
    v.iter().enumerate().map(|(i, o)| (o.get_label(), i)).collect()
}
/// the prover's columns for lookup number 0 of a circuit
pub struct Columns(pub Circuit);
impl Case for Columns {
    fn id(&self) -> String {
        format!("columns/{}", self.0.name)
    }
    fn bound(&self) -> String {
        format!("{}: n={}, {} usable rows", self.0.name, self.0.n, self.0.u)
    }
    fn flip_budget(&self, t: bool) -> usize {
        if t { 4 } else { 0 }
    }
    fn run<F: VF>(&self) {
        let cr = &self.0;
        let (n, u) = (cr.n, cr.u);
        let a = cr.fill::<F>();
        let mut ps = ProverSide::<F>::new(cr, &a);
        let m = 4 * n;
        let ext = GeneralEvaluationDomain::<F>::new(m).unwrap();
        ps.w.iter_mut().for_each(|o| o.compute_extended_evals(&ext));
        ps.i.iter_mut().for_each(|o| o.compute_extended_evals(&ext));
        ps.f.iter_mut().for_each(|o| o.compute_extended_evals(&ext));
        ps.t.iter_mut().for_each(|o| o.compute_extended_evals(&ext));
        let theta = F::var("ch_theta");
        let (beta, gamma) = (F::var("ch_beta"), F::var("ch_gamma"));
        let r = guarded(|| {
            LookupArgument::<F>::construct_a_and_s_polys_prover(
                &labels::<F, _>(&ps.w),
                &labels::<F, _>(&ps.i),
                &labels::<F, _>(&ps.f),
                &labels::<F, _>(&ps.t),
                &ps.w,
                &ps.i,
                &ps.f,
                &ps.t,
                u,
                0,
                ps.lus[0].get_expressions().unwrap(),
                ps.lus[0].get_table_queries().unwrap(),
                theta,
                &ps.domain,
                &ext,
                &mut VarRng::new("l"),
            )
        });
        let cols = match r {
            Ok(Ok(c)) => c,
            Ok(Err(e)) => return sess::fact("lookup columns for contained inputs", false, format!("{:?}", e)),
            Err(e) => return sess::fact("lookup columns for contained inputs", false, e),
        };
        let z = guarded(|| {
            SubsetEqualityArgument::construct_agg_poly(&cols, beta, gamma, 0, u, &ps.domain, &ext, &mut VarRng::new("z"))
        });
        let z = match z {
            Ok(z) => z,
            Err(e) => return sess::fact("running product for contained inputs", false, e),
        };
        let (ca, cs, ap, sp) = &cols;
        let l = &cr.lookups[0];
        let compress = |v: Vec<F>| v.into_iter().rev().fold(F::zero(), |acc, x| acc * theta + x);
        for i in 0..n {
            let cell = |k: K, c: usize, r: i32| a.cells[&(k, c, (i as i64 + r as i64).rem_euclid(n as i64) as usize)];
            goal_eq("compressed inputs of a row", ca.evals()[i], compress(l.exprs.iter().map(|e| e.eval(&cell)).collect()));
            goal_eq("compressed table row", cs.evals()[i], compress(l.tables.iter().map(|t| cell(K::T, *t, 0)).collect()));
        }
        let x = F::var("x");
        let prod = |v: &[F]| v.iter().fold(F::one(), |acc, y| acc * (x + *y));
        goal_eq("rearranged inputs are the inputs", prod(&ap.evals()[..u]), prod(&ca.evals()[..u]));
        goal_eq("rearranged table is the table", prod(&sp.evals()[..u]), prod(&cs.evals()[..u]));
        goal_eq("first input next to its table value", ap.evals()[0], sp.evals()[0]);
        for i in 1..u {
            let (p, q) = (ap.evals()[i] - sp.evals()[i], ap.evals()[i] - ap.evals()[i - 1]);
            F::goal_zero("input next to its table value or a repetition", p * q);
        }
        goal_eq("the product starts at one", z.evals()[0], F::one());
        goal_eq("the product closes", z.evals()[u], F::one());
        for i in 0..u {
            goal_eq(
                "running product step",
                z.evals()[i + 1] * (ap.evals()[i] + beta) * (sp.evals()[i] + gamma),
                z.evals()[i] * (ca.evals()[i] + beta) * (cs.evals()[i] + gamma),
            );
        }
        let mut fresh = ap.evals()[u..].to_vec();
        fresh.extend_from_slice(&sp.evals()[u..]);
        sess::goal_fresh("unused rows carry fresh randomness", "l", &fresh);
        sess::goal_fresh("unused rows carry fresh randomness", "z", &z.evals()[u + 1..]);
        for (o, what) in [(ca, "inputs"), (cs, "table"), (ap, "rearranged inputs"), (sp, "rearranged table"), (&z, "product")] {
            sess::fact("one value per row and grid point", o.evals().len() == n && o.get_extended_coset_evals().map_or(false, |e| e.len() == m), what);
            for i in 0..n {
                goal_eq("column polynomial takes the column's values", veval(o.polynomial().coeffs(), ps.domain.element(i)), o.evals()[i]);
            }
            for j in [0, 1, m - 1] {
                let v = veval(o.polynomial().coeffs(), F::multiplicative_generator() * ext.element(j));
                goal_eq("grid values of the column polynomial", o.get_extended_coset_evals().unwrap()[j], v);
            }
        }
        let has = |o: &WitnessProverOracle<F>, r: &[i32]| r.iter().all(|r| o.get_queried_rotations().contains(&rot(*r)));
        sess::fact("opened where the constraints read", has(ap, &[0, -1]) && has(sp, &[0]) && has(&z, &[0, 1]), "");
        // the verifier's compression at a point is the value of the same polynomials
        let xi = F::var("ch_xi");
        let mut vs = VerifierSide::<F>::new(cr, &a);
        let omegas: Vec<F> = ps.domain.elements().collect();
        let pt = |r: &zero_over_k::oracles::rotation::Rotation| r.compute_evaluation_point(xi, &omegas);
        for (o, p) in vs.w.iter_mut().zip(&ps.w) {
            for r in p.get_queried_rotations() {
                o.register_eval_at_challenge(pt(r), veval(p.polynomial().coeffs(), pt(r)));
            }
        }
        for (o, p) in vs.pre.fixed_oracles.iter_mut().zip(&ps.f).chain(vs.pre.table_oracles.iter_mut().zip(&ps.t)) {
            for r in p.get_queried_rotations() {
                o.register_eval_at_challenge(pt(r), veval(p.polynomial().coeffs(), pt(r)));
            }
        }
        let v = guarded(|| {
            LookupArgument::<F>::construct_a_and_s_unpermuted_polys_verifier(
                &labels::<F, _>(&vs.w),
                &labels::<F, _>(&vs.i),
                &labels::<F, _>(&vs.pre.fixed_oracles),
                &labels::<F, _>(&vs.pre.table_oracles),
                &vs.w,
                &vs.i,
                &vs.pre.fixed_oracles,
                &vs.pre.table_oracles,
                0,
                vs.lus[0].get_expressions().unwrap(),
                vs.lus[0].get_table_queries().unwrap(),
                theta,
                xi,
                &omegas,
            )
        });
        match v {
            Ok(Ok((va, vt))) => {
                for (o, p) in [(va, ca), (vt, cs)] {
                    match o.query(&xi) {
                        Ok(v) => goal_eq("verifier compresses to the same polynomial", v, veval(p.polynomial().coeffs(), xi)),
                        Err(e) => sess::fact("verifier's compression available", false, format!("{:?}", e)),
                    }
                }
            }
            Ok(Err(e)) => sess::fact("verifier's compression available", false, format!("{:?}", e)),
            Err(e) => sess::fact("verifier's compression available", false, e),
        }
    }
}
/// rearranged columns that are not a rearrangement never close
pub struct NotContained {
    pub n: usize,
    pub u: usize,
    pub cell: usize,
}
impl Case for NotContained {
    fn id(&self) -> String {
        format!("not_contained/n{}_u{}_cell{}", self.n, self.u, self.cell)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        let lab = "no closing product for different columns";
        let (n, u) = (self.n, self.u);
        let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
        let ext = GeneralEvaluationDomain::<F>::new(4 * n).unwrap();
        let mut c: Vec<Vec<F>> = sess::concretely(|| ["a", "s"].iter().map(|p| sess::vars::<F>(p, n)).collect());
        let rev = |v: &[F]| v[..u].iter().rev().chain(&v[u..]).copied().collect::<Vec<F>>();
        c.push(rev(&c[0]));
        c.push(rev(&c[1]));
        c[self.cell / u][self.cell % u] += F::var("d");
        let o: Vec<_> =
            c.iter().enumerate().map(|(i, e)| WitnessProverOracle::new(format!("c{}", i), interp(&d, e), e, false)).collect();
        let t = (o[0].clone(), o[1].clone(), o[2].clone(), o[3].clone());
        let r = guarded(|| {
            SubsetEqualityArgument::construct_agg_poly(&t, F::var("ch_beta"), F::var("ch_gamma"), 0, u, &d, &ext, &mut VarRng::new("z"))
        });
        match r {
            Ok(z) => {
                let x = z.evals()[u] - F::one();
                sess::must_reject(lab, x.is_zero(), "".into(), vec![x], &["d".to_string()], &[])
            }
            Err(_) => sess::must_reject(lab, false, "".into(), sess::last_nonzero::<F>(), &["d".to_string()], &[]),
        }
    }
}
/// constraint values of prover and verifier, every polynomial free
pub struct Values {
    pub n: usize,
    pub scale: usize,
}
impl Case for Values {
    fn id(&self) -> String {
        format!("values/n{}_grid{}", self.n, self.scale)
    }
    fn bound(&self) -> String {
        format!("polynomials of {} coefficients, every point of a grid of {}", self.n, self.scale * self.n)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        let (n, m) = (self.n, self.scale * self.n);
        let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
        let ext = GeneralEvaluationDomain::<F>::new(m).unwrap();
        let poly = |l: &str| DensePolynomial::from_coefficients_slice(&sess::vars::<F>(l, n));
        let wit = |l: &str| {
            let p = poly(l);
            let mut o = WitnessProverOracle::new(l, p.clone(), &d.fft(&p), false);
            o.compute_extended_evals(&ext);
            o
        };
        let qp = poly("qb");
        let mut qb = FixedProverOracle::new("q_blind", qp.clone(), &d.fft(&qp));
        qb.compute_extended_evals(&ext);
        let t = (wit("a"), wit("s"), wit("ap"), wit("sp"));
        let z = wit("z");
        let l0: Vec<F> = sess::vars("lz", m);
        let lu: Vec<F> = sess::vars("lu", m);
        let al: Vec<F> = sess::vars("ch_a", 5);
        let (beta, gamma) = (F::var("ch_beta"), F::var("ch_gamma"));
        for j in 0..m {
            let x = F::multiplicative_generator() * ext.element(j);
            let p = match LookupArgument::<F>::instantiate_argument_at_omega_i(&l0, &lu, &qb, &t, &z, beta, gamma, j, &al) {
                Ok(p) => p,
                Err(e) => {
                    sess::fact("constraint value available at every grid point", false, format!("{:?}", e));
                    return;
                }
            };
            let ev = |p: &WitnessProverOracle<F>, r: usize| veval(p.polynomial().coeffs(), x * d.element(r));
            let one = F::one();
            let act = one - (lu[j] + veval(qp.coeffs(), x));
            let (a, s, ap, sp) = (ev(&t.0, 0), ev(&t.1, 0), ev(&t.2, 0), ev(&t.3, 0));
            let (zx, zw, am) = (ev(&z, 0), ev(&z, 1), ev(&t.2, n - 1));
            let r = al[0] * l0[j] * (one - zx)
                + al[1] * act * (zw * (ap + beta) * (sp + gamma) - zx * (a + beta) * (s + gamma))
                + al[2] * lu[j] * (zx * zx - zx)
                + al[3] * l0[j] * (ap - sp)
                + al[4] * act * (ap - sp) * (ap - am);
            goal_eq("prover's constraint value is the stated combination", p, r);
            if j > 2 {
                continue;
            }
            let vw = |l: &str, at: &[(F, F)]| {
                let mut o = WitnessVerifierOracle::<F, PC<F>>::new(l, false);
                at.iter().for_each(|(x, v)| o.register_eval_at_challenge(*x, *v));
                o
            };
            let back = x * d.element(1).inverse().unwrap();
            let vt = (vw("a", &[(x, a)]), vw("s", &[(x, s)]), vw("ap", &[(x, ap), (back, am)]), vw("sp", &[(x, sp)]));
            let vz = vw("z", &[(x, zx), (x * d.element(1), zw)]);
            let mut vq = FixedVerifierOracle::<F, PC<F>>::new("q_blind", None);
            vq.register_eval_at_challenge(x, veval(qp.coeffs(), x));
            match LookupArgument::<F>::open_argument(&l0[j], lu[j], &vq, &vt, &vz, beta, gamma, &x, &d, &al) {
                Ok(v) => goal_eq("verifier's constraint value is the stated combination", v, r),
                Err(e) => sess::fact("verifier's constraint value available", false, format!("{:?}", e)),
            }
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Cases = vec![];
    let mut cs = vec![
        lookup(4, 2, 1, &[0, 1], 1),
        lookup(4, 2, 1, &[1, 1], 1),
        lookup(4, 2, 2, &[1, 0], 1),
        lookup(4, 3, 1, &[2, 0, 2], 1),
        lookup(8, 4, 3, &[0, 1, 1, 3], 1),
        rotated(4, 2, "witness"),
        rotated(4, 2, "instance"),
        rotated(4, 2, "fixed"),
    ];
    cs.extend(manies().into_iter().filter(|c| !c.lookups.is_empty()));
    cs.extend(mixes(if thorough { 36 } else { 18 }, 8).into_iter().filter(|c| !c.lookups.is_empty()));
    cs.extend(mixes(if thorough { 18 } else { 6 }, 16).into_iter().filter(|c| !c.lookups.is_empty()));
    {
        cs.extend(vec![lookup(8, 6, 2, &[5, 5, 0, 2, 2, 1], 1), lookup(16, 9, 1, &[0, 1, 2, 3, 3, 3, 8, 7, 0], 1), rotated(8, 5, "witness"), rotated(8, 5, "fixed")]);
    }
    for c in cs {
        v.push(Box::new(Columns(c)));
    }
    for (n, u) in if thorough { vec![(4, 2), (8, 5), (16, 9)] } else { vec![(4, 2), (8, 5)] } {
        for cell in 0..4 * u {
            v.push(Box::new(NotContained { n, u, cell }));
        }
    }
    for (n, scale) in if thorough { vec![(4, 4), (8, 4), (16, 4)] } else { vec![(4, 4), (8, 4)] } {
        v.push(Box::new(Values { n, scale }));
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "The prover's lookup columns and running product are built by the real code from symbolic columns, tables, challenges and randomness; compression, rearrangement, product steps, closing, fresh padding and interpolation are identities decided by the solver, as is the agreement of the verifier's compression with the prover's polynomial at a free point. For columns that are not rearrangements the closing value is shown to differ from one for every non-zero deviation. Constraint values of both sides are compared with an independent combination for free polynomials at every grid point.",
    functions: &["LookupArgument::{construct_a_and_s_polys_prover,construct_a_and_s_unpermuted_polys_verifier,instantiate_argument_at_omega_i,open_argument}", "SubsetEqualityArgument::{construct_agg_poly,instantiate_argument_at_omega_i,open_argument}", "permute_for_lookup"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns (those with lookups)", "tables of up to 9 usable rows, arity up to 3, domains of 4, 8 and 16 rows; which input equals which table row is fixed per case"],
    assumptions: &[],
};
