//! The evaluation grid fits the quotient and its stored inverses are right.
use super::Cases;
use crate::circ::*;
use crate::driver::Case;
use crate::env::{IdealPC, Key};
use crate::sess::{self, VF};
use ark_ff::{FftField, One};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use zero_over_k::data_structures::{PermutationInfo, VerifierKey};
use zero_over_k::indexer::Indexer;
use zero_over_k::vo::{LookupVirtualOracle, VirtualOracle};

type PC<F> = IdealPC<F>;

#[derive(Clone, Debug)]
pub enum Zh {
    /// every polynomial of that degree
    Any(usize),
    /// X^n - 1 without some rows
    Skip(Vec<usize>),
}
/// grid of a circuit with the given vanishing polynomial
pub struct Grid {
    pub circ: Circuit,
    pub zh: Zh,
}
fn conv<F: VF>(a: &[F], b: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut o = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            o[i + j] += *x * *y;
        }
    }
    o
}
fn add<F: VF>(a: Vec<F>, b: Vec<F>, s: F) -> Vec<F> {
    let mut o = vec![F::zero(); a.len().max(b.len())];
    for (i, x) in a.into_iter().enumerate() {
        o[i] += x;
    }
    for (i, x) in b.into_iter().enumerate() {
        o[i] += x * s;
    }
    o
}
impl Grid {
    fn column<F: VF>(&self, name: String, r: i32) -> Vec<F> {
        let d = self.circ.domain::<F>();
        let n = self.circ.n as i64;
        let w = d.element((((r as i64) % n + n) % n) as usize);
        let mut p = F::one();
        (0..self.circ.n)
            .map(|j| {
                let x = F::var(&format!("p_{}_{}", name, j)) * p;
                p *= w;
                x
            })
            .collect()
    }
    /// the constraint as a polynomial of free columns
    fn compose<F: VF>(&self, g: &G) -> Vec<F> {
        let m = -F::one();
        match g {
            G::C(v) => vec![fi(*v)],
            G::Q(k, i, r) => self.column(format!("{:?}{}", k, i), *r),
            G::Neg(a) => add(vec![], self.compose(a), m),
            G::Add(a, b) => add(self.compose(a), self.compose(b), F::one()),
            G::Sub(a, b) => add(self.compose(a), self.compose(b), m),
            G::Mul(a, b) => conv(&self.compose::<F>(a), &self.compose::<F>(b)),
            G::Scale(a, k) => add(vec![], self.compose(a), fi(*k)),
        }
    }
    fn zh<F: VF>(&self) -> Vec<F> {
        match &self.zh {
            Zh::Any(d) => (0..*d + 1).map(|i| F::var(&format!("z_{}", i))).collect(),
            Zh::Skip(rows) => {
                let c = Circuit { zh_skip: rows.clone(), ..self.circ.clone() };
                c.zh::<F>().coeffs
            }
        }
    }
    fn index<F: VF, R>(&self, zh: &DensePolynomial<F>, prover: bool, f: impl FnOnce(Result<VerifierKey<F, PC<F>>, String>) -> R) -> R {
        let cr = &self.circ;
        let key = Key { max_degree: cr.n as u64 - 1, hiding: 1 };
        let a = sess::concretely(|| cr.fill_free::<F>());
        let info = PermutationInfo { u: cr.perm_u, deltas: cr.deltas() };
        let (vos, lus);
        macro_rules! go {
            ($w:expr, $i:expr, $f:expr) => {{
                let vr: Vec<&dyn VirtualOracle<F>> = vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
                let lr: Vec<&dyn LookupVirtualOracle<F>> = lus.iter().map(|v| v as &dyn LookupVirtualOracle<F>).collect();
                let r = Indexer::<F, PC<F>>::index(&key, &vr, lr, $w, $i, $f, cr.domain(), zh, info, cr.u);
                f(r.map_err(|e| format!("{:?}", e)))
            }};
        }
        if prover {
            let s = ProverSide::<F>::new(cr, &a);
            vos = s.vos;
            lus = s.lus;
            go!(&s.w, &s.i, &s.f)
        } else {
            let s = VerifierSide::<F>::new(cr, &a);
            vos = s.vos;
            lus = s.lus;
            go!(&s.w, &s.i, &s.pre.fixed_oracles)
        }
    }
}
impl Case for Grid {
    fn id(&self) -> String {
        format!("grid/{}/{:?}", self.circ.name, self.zh)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        let cr = &self.circ;
        let n = cr.n;
        let zh = self.zh::<F>();
        let dz = zh.len() - 1;
        let poly = DensePolynomial::from_coefficients_vec(zh.clone());
        let degree = cr.gates.iter().map(|g| g.g.degree(n)).max().unwrap_or(0);
        let mut seen: Vec<(usize, usize, usize, Vec<F>)> = vec![];
        for prover in [true, false] {
            self.index::<F, _>(&poly, prover, |vk| {
                let vk = match vk {
                    Ok(vk) => vk,
                    Err(e) => {
                        // linear constraints alone need no quotient of the domain's size
                        sess::fact("the circuit is accepted by the indexer", degree < 2 * (n - 1), e);
                        return;
                    }
                };
                let ext: GeneralEvaluationDomain<F> = vk.index_info.extended_coset_domain;
                let size = ext.size();
                sess::fact("the grid extends the domain", size >= n && size % n == 0, format!("{}", size));
                let check = |l: &str, c: Vec<F>| {
                    sess::fact(l, true, "");
                    for x in c.into_iter().skip(size + dz) {
                        sess::goal_eq(l, x, F::zero());
                    }
                };
                for g in &cr.gates {
                    check("the quotient of a gate fits the grid", self.compose::<F>(&g.g));
                }
                let arg = &vk.index_info.permutation_argument;
                let cols = cr.permuted().len();
                let m = (1..=cols).filter(|k| arg.number_of_z_polys(*k) == 1).max().unwrap_or(0);
                if cols > 0 {
                    sess::fact("a running product takes at least one column", m > 0, "");
                    let mut c = conv(&self.column::<F>("qb".into(), 0), &self.column("zz".into(), 1));
                    for i in 0..m {
                        let f = add(self.column(format!("W{}", i), 0), self.column(format!("S{}", i), 0), F::var("ch_b"));
                        c = conv(&c, &f);
                    }
                    check("the quotient of a running product fits the grid", c);
                }
                if !cr.lookups.is_empty() {
                    let mut c = self.column::<F>("qb".into(), 0);
                    for (name, r) in [("lz", 1), ("la", 0), ("ls", 0)] {
                        c = conv(&c, &self.column(name.into(), r));
                    }
                    check("the quotient of a lookup fits the grid", c);
                }
                let g = F::multiplicative_generator();
                let inv = &vk.zh_inverses_over_coset;
                sess::fact("one inverse per grid point", inv.len() == size, format!("{} / {}", inv.len(), size));
                // a polynomial of the grid's own degree is the domain's X^n - 1
                let known = dz < size || matches!(self.zh, Zh::Skip(_));
                for (i, v) in inv.iter().enumerate().filter(|_| known) {
                    let x = g * ext.element(i);
                    let mut e = F::zero();
                    for c in zh.iter().rev() {
                        e = e * x + *c;
                    }
                    sess::goal_eq("stored inverses of the vanishing polynomial", e * *v, F::one());
                }
                seen.push((size, m, vk.index_info.usable_rows, inv.clone()));
            });
        }
        if let [a, b] = &seen[..] {
            sess::fact("prover and verifier derive the same grid", (a.0, a.1, a.2) == (b.0, b.1, b.2), format!("{:?} / {:?}", (a.0, a.1, a.2), (b.0, b.1, b.2)));
            for (x, y) in a.3.iter().zip(&b.3) {
                sess::goal_eq("prover and verifier derive the same inverses", *x, *y);
            }
        } else {
            sess::fact("prover and verifier accept the same circuits", seen.is_empty(), "");
        }
    }
}
/// gates of assorted shapes
fn shape(n: usize, name: &str, gates: Vec<G>) -> Circuit {
    let mut c = high_degree(n, 2);
    c.wit = vec![false; 4];
    c.inst = 2;
    c.fixed = 2;
    c.solve = vec![];
    c.gates = gates.into_iter().map(|g| Gate { g, pre: None, name: "shape" }).collect();
    c.name = format!("{}_n{}", name, n);
    c
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Cases = vec![];
    let mut add = |c: &Circuit, z: Zh| v.push(Box::new(Grid { circ: c.clone(), zh: z }));
    let p = |d: usize| (1..d).fold(w(0), |a, i| a * wr(i % 4, i as i32));
    let mut cs = vec![];
    for n in if thorough { vec![4, 8, 16] } else { vec![4, 8] } {
        cs.push(shape(n, "deg1", vec![w(0) + w(1)]));
        for d in [2usize, 3, 4, 5, 6, 9] {
            if n * d <= 48 || thorough {
                cs.push(shape(n, &format!("deg{}", d), vec![p(d) - ins(0)]));
            }
        }
        // the degree hides in one branch of a sum, under a scaling, in the first
        // or the last of several gates
        cs.push(shape(n, "left", vec![p(4) + fx(0), w(0) * w(1)]));
        cs.push(shape(n, "right", vec![w(0) * w(1), fx(0) - sc(-p(5), 7)]));
        cs.push(shape(n, "nested", vec![(w(0) + c(1)) * (sc(ins(0) * fxr(0, -1), 2) - (w(1) - wr(2, 1) * insr(1, 1)) * w(3))]));
        cs.push(shape(n, "const", vec![c(3) * w(0) * w(1) + c(5), sc(c(2) * c(3), 2)]));
    }
    for c in &cs {
        let n = c.n;
        for d in 1..=n {
            if n - d <= 3 || d == 1 || d == n / 2 || thorough {
                add(c, Zh::Any(d));
            }
        }
        for t in 0..4 {
            add(c, Zh::Skip((n - t..n).collect()));
        }
        add(c, Zh::Skip(vec![0]));
        add(c, Zh::Skip(vec![1, n - 2]));
    }
    let mut big = vec![];
    for (n, u) in [(4, 2), (8, 5), (8, 4), (8, 1 + 1)] {
        for cols in [1, 2, 3, 4, 5, 6] {
            for d in [1, 2, 3, 4] {
                if n == 4 || thorough || (cols % 2 == 1 && d <= 2) {
                    big.push(copy(n, u, cols, d));
                }
            }
        }
    }
    big.push(lookup(4, 2, 1, &[0, 1], 1));
    big.push(lookup(8, 4, 2, &[0, 1, 1, 3], 1));
    big.push(copy_lookup(4, 2));
    big.push(copy_lookup(8, 5));
    big.extend(manies());
    big.extend(mixes(if thorough { 36 } else { 18 }, 8));
    big.extend(mixes(if thorough { 12 } else { 4 }, 16));
    for c in &big {
        add(c, Zh::Skip(vec![]));
        add(c, Zh::Skip((c.u + 1..c.n).collect()));
        add(c, Zh::Any(c.n));
        add(c, Zh::Any(c.n - 1));
        add(c, Zh::Any(c.u + 1));
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "The real indexer runs on circuits of assorted constraint shapes with a vanishing polynomial whose coefficients are all symbolic.  The solver shows that every stored inverse times the polynomial's value at its grid point is one.  The constraints, running products and lookups are multiplied out over free columns; no coefficient may lie beyond what the grid determines.",
    functions: &["Indexer::{index,compute_quotient_degree,compute_zh_evals}", "compute_vanishing_poly_over_coset", "Expression::degree", "PermutationArgument::{new,number_of_z_polys}"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns", "domains of 4 and 8 rows (16 thorough), constraint degrees up to 9 columns, up to 6 copied columns, one lookup", "all vanishing polynomials of the stated degrees that have no zero on the grid; at a degree equal to the grid size only X^n - 1"],
    assumptions: &["the vanishing polynomial has no zero on the grid (it divides X^n - 1 in use)"],
};
