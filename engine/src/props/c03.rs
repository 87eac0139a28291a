//! Permutation argument: running products and constraint values.
use super::Cases;
use crate::circ::*;
use crate::driver::{guarded, Case};
use crate::env::*;
use crate::sess::{self, goal_eq, VF};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use zero_over_k::data_structures::PermutationInfo;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::traits::{ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::permutation::PermutationArgument;

fn at<F: VF>(d: &GeneralEvaluationDomain<F>, p: &DensePolynomial<F>, i: usize) -> F {
    veval(p.coeffs(), d.element(i))
}
/// which columns/rows are copies is fixed, all values are free
pub struct Products {
    pub n: usize,
    pub u: usize,
    pub cols: usize,
    pub scale: usize,
}
impl Products {
    fn build<F: VF>(&self, cr: &Circuit, a: &Assign<F>) -> (Vec<WitnessProverOracle<F>>, Vec<Vec<F>>, Vec<Vec<F>>) {
        let d = cr.domain::<F>();
        let arg = PermutationArgument::<F>::new(self.scale, &PermutationInfo { u: self.u, deltas: cr.deltas() });
        let cols: Vec<Vec<F>> = (0..self.cols).map(|k| (0..self.n).map(|r| a.cells[&(K::W, k, r)]).collect()).collect();
        let ws: Vec<_> = cols
            .iter()
            .enumerate()
            .map(|(i, e)| WitnessProverOracle::new(format!("wit_{}", i), interp(&d, e), e, true))
            .collect();
        let sig = cr.sigma_evals::<F>();
        let ss: Vec<_> =
            sig.iter().enumerate().map(|(i, e)| FixedProverOracle::new(format!("s{}", i), interp(&d, e), e)).collect();
        let refs: Vec<_> = ws.iter().collect();
        let ext = GeneralEvaluationDomain::<F>::new(self.scale * self.n).unwrap();
        let zs = arg.construct_agg_polys(
            &refs,
            &ss,
            F::var("ch_beta"),
            F::var("ch_gamma"),
            &d,
            &ext,
            &mut VarRng::new("z"),
        );
        sess::fact("number of running products", zs.len() == arg.number_of_z_polys(self.cols), format!("{} for {} columns", zs.len(), self.cols));
        sess::fact("number of separators", arg.number_of_alphas(zs.len()) == 2 * zs.len() + 1, "");
        (zs, cols, sig)
    }
}
impl Case for Products {
    fn id(&self) -> String {
        format!("products/n{}_u{}_cols{}_grid{}", self.n, self.u, self.cols, self.scale)
    }
    fn bound(&self) -> String {
        format!("{} columns of {} rows ({} usable), grid factor {}", self.cols, self.n, self.u, self.scale)
    }
    fn flip_budget(&self, t: bool) -> usize {
        if t { 4 } else { 0 }
    }
    fn run<F: VF>(&self) {
        let cr = copy(self.n, self.u, self.cols, 2);
        let d = cr.domain::<F>();
        let de = cr.deltas::<F>();
        let (beta, gamma) = (F::var("ch_beta"), F::var("ch_gamma"));
        let (zs, cols, sig) = self.build(&cr, &cr.fill::<F>());
        let per = self.scale - 1;
        let mut fresh = vec![];
        for (k, z) in zs.iter().enumerate() {
            let e = z.evals().clone();
            sess::fact("one value per row", e.len() == self.n, "");
            let start = if k == 0 { F::one() } else { zs[k - 1].evals()[self.u] };
            goal_eq("the product starts where the previous group ended", e[0], start);
            let group: Vec<usize> = (k * per..((k + 1) * per).min(self.cols)).collect();
            for i in 0..self.u {
                let (mut l, mut r) = (e[i + 1], e[i]);
                for c in group.iter() {
                    l *= cols[*c][i] + beta * sig[*c][i] + gamma;
                    r *= cols[*c][i] + beta * de[*c] * d.element(i) + gamma;
                }
                goal_eq("running product step", l, r);
            }
            fresh.extend_from_slice(&e[self.u + 1..]);
            for i in 0..self.n {
                goal_eq("the product polynomial takes these values", at(&d, z.polynomial(), i), e[i]);
            }
            let m = self.scale * self.n;
            let ext = GeneralEvaluationDomain::<F>::new(m).unwrap();
            let ce = z.get_extended_coset_evals().map(|x| x.clone()).unwrap_or_default();
            sess::fact("evaluations on the whole grid", ce.len() == m, "");
            for j in [0, 1, m - 1] {
                goal_eq("grid values of the product polynomial", ce[j], veval(z.polynomial().coeffs(), F::multiplicative_generator() * ext.element(j)));
            }
            let rots = z.get_queried_rotations();
            let need = if k + 1 < zs.len() { vec![0, 1, self.u as i32] } else { vec![0, 1] };
            sess::fact("opened at all points its constraints read", need.iter().all(|r| rots.contains(&rot(*r))), format!("{:?}", rots));
        }
        goal_eq("the last product closes", zs.last().unwrap().evals()[self.u], F::one());
        // rows that are not usable carry randomness drawn for them alone
        sess::goal_fresh("unused rows carry fresh randomness", "z", &fresh);
    }
}
/// one cell of a copy cycle differs by a free amount
pub struct NotCopied {
    pub p: Products,
    pub cycle: usize,
}
impl Case for NotCopied {
    fn id(&self) -> String {
        format!("not_copied/{}_cycle{}", self.p.id(), self.cycle)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        let lab = "no closing product for a broken copy";
        let p = &self.p;
        let cr = copy(p.n, p.u, p.cols, 2);
        let mut a = sess::concretely(|| cr.fill::<F>());
        let (c, r) = cr.cycles[self.cycle][0];
        *a.cells.get_mut(&(K::W, c, r)).unwrap() += F::var("d");
        match guarded(|| p.build(&cr, &a)) {
            Ok((zs, _, _)) => {
                let x = zs.last().unwrap().evals()[p.u] - F::one();
                sess::must_reject(lab, x.is_zero(), "".into(), vec![x], &["d".to_string()], &[])
            }
            Err(_) => sess::must_reject(lab, false, "".into(), sess::last_nonzero::<F>(), &["d".to_string()], &[]),
        }
    }
}
/// constraint values of prover and verifier, every polynomial free
pub struct Values {
    pub n: usize,
    pub u: usize,
    pub cols: usize,
    pub scale: usize,
}
impl Case for Values {
    fn id(&self) -> String {
        format!("values/n{}_u{}_cols{}_grid{}", self.n, self.u, self.cols, self.scale)
    }
    fn bound(&self) -> String {
        format!("{} columns, polynomials of {} coefficients, {} usable rows, every point of a grid of {}", self.cols, self.n, self.u, self.scale * self.n)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        let (n, u, m) = (self.n, self.u, self.scale * self.n);
        let d = GeneralEvaluationDomain::<F>::new(n).unwrap();
        let ext = GeneralEvaluationDomain::<F>::new(m).unwrap();
        let deltas: Vec<F> = (0..self.cols).map(|i| F::var(&format!("delta{}", i))).collect();
        let arg = PermutationArgument::<F>::new(self.scale, &PermutationInfo { u, deltas: deltas.clone() });
        let k = arg.number_of_z_polys(self.cols);
        let poly = |l: &str| DensePolynomial::from_coefficients_slice(&sess::vars::<F>(l, n));
        let fixed = |l: String| {
            let p = poly(&l);
            let mut o = FixedProverOracle::new(l, p.clone(), &d.fft(&p));
            o.compute_extended_evals(&ext);
            o
        };
        let wit = |l: String| {
            let p = poly(&l);
            let mut o = WitnessProverOracle::new(l, p.clone(), &d.fft(&p), false);
            o.compute_extended_evals(&ext);
            o
        };
        let w: Vec<_> = (0..self.cols).map(|i| wit(format!("w{}_", i))).collect();
        let s: Vec<_> = (0..self.cols).map(|i| fixed(format!("s{}_", i))).collect();
        let z: Vec<_> = (0..k).map(|i| wit(format!("z{}_", i))).collect();
        let qb = fixed("q_blind".into());
        let l0: Vec<F> = sess::vars("lz", m);
        let lu: Vec<F> = sess::vars("lu", m);
        let al: Vec<F> = sess::vars("ch_a", arg.number_of_alphas(k));
        let (beta, gamma) = (F::var("ch_beta"), F::var("ch_gamma"));
        let wr: Vec<_> = w.iter().collect();
        let per = self.scale - 1;
        for j in 0..m {
            let x = F::multiplicative_generator() * ext.element(j);
            let p = arg.instantiate_argument_at_omega_i(&l0, &lu, &qb, &wr, &s, &z, j, ext.element(j), beta, gamma, &d, &al);
            let p = match p {
                Ok(p) => p,
                Err(e) => {
                    sess::fact("constraint value available at every grid point", false, format!("{:?}", e));
                    return;
                }
            };
            let ev = |p: &DensePolynomial<F>, r: usize| veval(p.coeffs(), x * d.element(r));
            // reference
            let one = F::one();
            let act = one - (lu[j] + ev(qb.polynomial(), 0));
            let mut r = al[0] * l0[j] * (one - ev(z[0].polynomial(), 0));
            for i in 0..k {
                let (mut a, mut b) = (ev(z[i].polynomial(), 1), ev(z[i].polynomial(), 0));
                for c in i * per..((i + 1) * per).min(self.cols) {
                    let wx = ev(w[c].polynomial(), 0);
                    a *= wx + beta * ev(s[c].polynomial(), 0) + gamma;
                    b *= wx + beta * deltas[c] * x + gamma;
                }
                r += al[1 + i] * act * (a - b);
            }
            for i in 0..k - 1 {
                r += al[1 + k + i] * l0[j] * (ev(z[i + 1].polynomial(), 0) - ev(z[i].polynomial(), u));
            }
            let zl = ev(z[k - 1].polynomial(), 0);
            r += al[2 * k] * lu[j] * (zl * zl - zl);
            goal_eq("prover's constraint value is the stated combination", p, r);
            if j > 2 {
                continue;
            }
            let vw: Vec<_> = w.iter().map(|o| vwit::<F>(&o.get_label(), &[(x, ev(o.polynomial(), 0))])).collect();
            let vz: Vec<_> = z
                .iter()
                .map(|o| {
                    let p = o.polynomial();
                    let mut pts = vec![(x, ev(p, 0)), (x * d.element(1), ev(p, 1))];
                    if u > 1 {
                        pts.push((x * d.element(u), ev(p, u)));
                    }
                    vwit::<F>(&o.get_label(), &pts)
                })
                .collect();
            let vs: Vec<_> = s.iter().map(|o| vfix::<F>(&o.get_label(), x, ev(o.polynomial(), 0))).collect();
            let vq = vfix::<F>("q_blind", x, ev(qb.polynomial(), 0));
            let vr: Vec<_> = vw.iter().collect();
            match arg.open_argument(l0[j], lu[j], &vq, &vz, &vs, &vr, beta, gamma, &d, x, &al) {
                Ok(v) => goal_eq("verifier's constraint value is the stated combination", v, r),
                Err(e) => sess::fact("verifier's constraint value available", false, format!("{:?}", e)),
            }
        }
    }
}
fn vwit<F: VF>(l: &str, at: &[(F, F)]) -> WitnessVerifierOracle<F, PC<F>> {
    let mut o = WitnessVerifierOracle::new(l, false);
    for (x, v) in at {
        o.register_eval_at_challenge(*x, *v);
    }
    o
}
fn vfix<F: VF>(l: &str, x: F, v: F) -> FixedVerifierOracle<F, PC<F>> {
    let mut o = FixedVerifierOracle::new(l, None);
    o.register_eval_at_challenge(x, v);
    o
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Cases = vec![];
    let mut shapes = vec![(4, 2, 1, 2), (4, 2, 2, 2), (4, 2, 3, 2), (4, 2, 3, 4), (4, 3, 2, 4), (8, 5, 3, 4), (8, 4, 2, 2), (4, 2, 5, 2), (4, 2, 6, 2), (4, 2, 7, 4), (8, 6, 4, 4), (8, 5, 4, 2), (16, 11, 3, 4), (4, 2, 4, 4), (8, 6, 7, 4), (8, 5, 8, 8)];
    if thorough {
        shapes.extend([(16, 13, 5, 2), (16, 12, 9, 4), (8, 3, 10, 4), (32, 25, 3, 2)]);
    }
    for (n, u, cols, scale) in shapes.iter().copied() {
        v.push(Box::new(Products { n, u, cols, scale }));
        for cycle in 0..copy(n, u, cols, 2).cycles.len() {
            v.push(Box::new(NotCopied { p: Products { n, u, cols, scale }, cycle }));
        }
    }
    let mut shapes = vec![(4, 2, 1, 2), (4, 2, 2, 2), (4, 3, 3, 2), (4, 2, 4, 4), (8, 5, 2, 2), (4, 2, 5, 2), (4, 2, 6, 2), (4, 2, 7, 4), (8, 5, 4, 4), (8, 6, 3, 2), (4, 2, 6, 4), (4, 2, 9, 2), (16, 11, 5, 4)];
    if thorough {
        shapes.extend([(8, 6, 8, 4), (8, 5, 9, 8), (16, 12, 4, 2)]);
    }
    for (n, u, cols, scale) in shapes {
        v.push(Box::new(Values { n, u, cols, scale }));
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "The prover's running products are built by the real code from symbolic columns, challenges and randomness; start, step, chaining, closing and interpolation are identities decided by the solver. For a broken copy the closing value is shown to differ from one for every non-zero deviation. The prover's and verifier's constraint values are compared with an independent combination for free polynomials at every grid point.",
    functions: &["PermutationArgument::{new,construct_agg_polys,instantiate_argument_at_omega_i,open_argument,number_of_z_polys,number_of_alphas}", "GrandProductArgument::{construct_agg_poly,instantiate_argument_at_omega_i,open_argument}"],
    bounds: &["up to 8 columns in up to 5 products (constraint values: 9 columns, 8 products), domains of 4, 8 and 16 rows (32 thorough), grid factors 2, 4 and 8, fixed copy patterns"],
    assumptions: &[],
};
