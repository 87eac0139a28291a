#![allow(dead_code, unused_imports)]
// Circuit descriptions used by the harnesses: an independent constraint AST
// (the reference semantics), assignments with symbolic cells, and the glue
// that feeds them to the real indexer / prover / verifier.
use crate::commitment::{HomomorphicCommitment, KZG10};
use crate::rng::{FiatShamirRng, SimpleHashFiatShamirRng};
use ark_bls12_381::{Bls12_381, Fr};
pub trait VF: PrimeField {
    type PC: HomomorphicCommitment<Self>;
    type FS: FiatShamirRng;
    fn var(name: &str) -> Self;
}
impl VF for Fr {
    type PC = KZG10<Bls12_381>;
    type FS = LogFs;
    fn var(name: &str) -> Fr {
        // any spread-out value determined by the name
        let mut x = Fr::from(0x9e3779b97f4a7c15u64);
        for b in name.bytes() {
            x = x * x + Fr::from(b as u64 + 1);
        }
        x * x * x
    }
}
thread_local! {
    /// bytes absorbed and words drawn, in order
    pub static LOG: std::cell::RefCell<Vec<Ev>> = std::cell::RefCell::new(vec![]);
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Absorb(Vec<u8>),
    Draw(u64),
}
/// the real transcript, with a log of its use
pub struct LogFs(SimpleHashFiatShamirRng<blake2::Blake2s, rand_chacha::ChaChaRng>);
impl FiatShamirRng for LogFs {
    fn initialize<'a, T: 'a + ark_ff::ToBytes>(x: &'a T) -> Self {
        LOG.with(|l| l.borrow_mut().clear());
        LogFs(FiatShamirRng::initialize(x))
    }
    fn absorb<'a, T: 'a + ark_ff::ToBytes>(&mut self, x: &'a T) {
        let mut b = vec![];
        x.write(&mut b).unwrap();
        LOG.with(|l| l.borrow_mut().push(Ev::Absorb(b)));
        self.0.absorb(x)
    }
}
impl ark_std::rand::RngCore for LogFs {
    fn next_u32(&mut self) -> u32 {
        let v = self.0.next_u32();
        LOG.with(|l| l.borrow_mut().push(Ev::Draw(v as u64)));
        v
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.0.next_u64();
        LOG.with(|l| l.borrow_mut().push(Ev::Draw(v)));
        v
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.0.try_fill_bytes(d)
    }
}
/// words drawn between absorptions: one group per batch of challenges
pub fn challenge_groups() -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![vec![]];
    for e in LOG.with(|l| l.borrow().clone()) {
        match e {
            Ev::Absorb(_) => v.push(vec![]),
            Ev::Draw(w) => v.last_mut().unwrap().push(w),
        }
    }
    v.into_iter().filter(|g| !g.is_empty()).collect()
}
pub struct Key<F: VF> {
    pub ck: <PC<F> as PolynomialCommitment<F, DensePolynomial<F>>>::CommitterKey,
    pub vk: <PC<F> as PolynomialCommitment<F, DensePolynomial<F>>>::VerifierKey,
}
pub type Comm<F> = <PC<F> as PolynomialCommitment<F, DensePolynomial<F>>>::Commitment;
fn setup<F: VF>(max: usize) -> Key<F> {
    let srs = TP::<F>::universal_setup(max, &mut ark_std::test_rng()).unwrap();
    let (ck, vk) = TP::<F>::prepare_keys(&srs).unwrap();
    Key { ck, vk }
}
use ark_ff::{PrimeField, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use ark_poly_commit::{LabeledPolynomial, PolynomialCommitment};
use std::collections::BTreeMap;
use crate::data_structures::*;
use crate::error::Error;
use crate::indexer::Indexer;
use crate::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use crate::oracles::instance::{InstanceProverOracle, InstanceVerifierOracle};
use crate::oracles::query::OracleType;
use crate::oracles::rotation::{Rotation, Sign};
use crate::oracles::traits::ConcreteOracle;
use crate::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use crate::turbo_plonk::{TPProof, TurboPlonk};
use crate::vo::generic_lookup_vo::GenericLookupVO;
use crate::vo::generic_vo::GenericVO;
use crate::vo::precompiled::{logic, mul, plonk_arith, rescue, PrecompiledVO};
use crate::vo::query::VirtualQuery;
use crate::vo::virtual_expression::VirtualExpression;
use crate::vo::{LookupVirtualOracle, VirtualOracle};
use crate::PIL;

pub type PC<F> = <F as VF>::PC;
pub type TP<F> = TurboPlonk<F, PC<F>, <F as VF>::FS>;
pub type Proof<F> = TPProof<F, PC<F>>;
pub type PErr<F> = Error<<PC<F> as PolynomialCommitment<F, DensePolynomial<F>>>::Error>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
    W,
    I,
    X,
    T,
}

/// reference constraint language
#[derive(Clone, Debug)]
pub enum G {
    C(i64),
    Q(K, usize, i32),
    Neg(Box<G>),
    Add(Box<G>, Box<G>),
    Sub(Box<G>, Box<G>),
    Mul(Box<G>, Box<G>),
    Scale(Box<G>, i64),
}
pub fn c(v: i64) -> G {
    G::C(v)
}
pub fn w(i: usize) -> G {
    G::Q(K::W, i, 0)
}
pub fn wr(i: usize, r: i32) -> G {
    G::Q(K::W, i, r)
}
pub fn ins(i: usize) -> G {
    G::Q(K::I, i, 0)
}
pub fn insr(i: usize, r: i32) -> G {
    G::Q(K::I, i, r)
}
pub fn fx(i: usize) -> G {
    G::Q(K::X, i, 0)
}
pub fn fxr(i: usize, r: i32) -> G {
    G::Q(K::X, i, r)
}
impl std::ops::Add for G {
    type Output = G;
    fn add(self, o: G) -> G {
        G::Add(Box::new(self), Box::new(o))
    }
}
impl std::ops::Sub for G {
    type Output = G;
    fn sub(self, o: G) -> G {
        G::Sub(Box::new(self), Box::new(o))
    }
}
impl std::ops::Mul for G {
    type Output = G;
    fn mul(self, o: G) -> G {
        G::Mul(Box::new(self), Box::new(o))
    }
}
impl std::ops::Neg for G {
    type Output = G;
    fn neg(self) -> G {
        G::Neg(Box::new(self))
    }
}
pub fn sc(g: G, k: i64) -> G {
    G::Scale(Box::new(g), k)
}
pub fn fi<F: PrimeField>(v: i64) -> F {
    if v < 0 {
        -F::from((-v) as u64)
    } else {
        F::from(v as u64)
    }
}
pub fn rot(r: i32) -> Rotation {
    if r < 0 {
        Rotation::new((-r) as usize, Sign::Minus)
    } else {
        Rotation::new(r as usize, Sign::Plus)
    }
}
impl G {
    pub fn virt<F: PrimeField>(&self) -> VirtualExpression<F> {
        match self {
            G::C(v) => VirtualExpression::Constant(fi(*v)),
            G::Q(k, i, r) => vq(*k, *i, *r).into(),
            G::Neg(a) => -a.virt(),
            G::Add(a, b) => a.virt() + b.virt(),
            G::Sub(a, b) => a.virt() - b.virt(),
            G::Mul(a, b) => a.virt::<F>() * b.virt::<F>(),
            G::Scale(a, k) => a.virt() * fi::<F>(*k),
        }
    }
    pub fn queries(&self, out: &mut Vec<(K, usize, i32)>) {
        match self {
            G::C(_) => {}
            G::Q(k, i, r) => {
                if !out.contains(&(*k, *i, *r)) {
                    out.push((*k, *i, *r))
                }
            }
            G::Neg(a) | G::Scale(a, _) => a.queries(out),
            G::Add(a, b) | G::Sub(a, b) | G::Mul(a, b) => {
                a.queries(out);
                b.queries(out)
            }
        }
    }
    pub fn eval<F: PrimeField>(&self, q: &dyn Fn(K, usize, i32) -> F) -> F {
        match self {
            G::C(v) => fi(*v),
            G::Q(k, i, r) => q(*k, *i, *r),
            G::Neg(a) => -a.eval(q),
            G::Add(a, b) => a.eval(q) + b.eval(q),
            G::Sub(a, b) => a.eval(q) - b.eval(q),
            G::Mul(a, b) => a.eval(q) * b.eval(q),
            G::Scale(a, k) => a.eval(q) * fi::<F>(*k),
        }
    }
    pub fn degree(&self, n: usize) -> usize {
        match self {
            G::C(_) => 0,
            G::Q(..) => n - 1,
            G::Neg(a) | G::Scale(a, _) => a.degree(n),
            G::Add(a, b) | G::Sub(a, b) => a.degree(n).max(b.degree(n)),
            G::Mul(a, b) => a.degree(n) + b.degree(n),
        }
    }
}
pub fn vq(k: K, i: usize, r: i32) -> VirtualQuery {
    let t = match k {
        K::W => OracleType::Witness,
        K::I => OracleType::Instance,
        K::X | K::T => OracleType::Fixed,
    };
    VirtualQuery::new(i, rot(r), t)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pre {
    Mul,
    Arith,
    Arith4,
    Delta,
    XorAnd,
    Rescue,
}
impl Pre {
    pub fn get<F: PrimeField>(&self) -> (VirtualExpression<F>, Vec<VirtualQuery>) {
        match self {
            Pre::Mul => mul::PrecompiledMul::get_expr_and_queries(),
            Pre::Arith => plonk_arith::PrecompiledPlonkArith::get_expr_and_queries(),
            Pre::Arith4 => plonk_arith::PlonkArith4::get_expr_and_queries(),
            Pre::Delta => logic::Delta::get_expr_and_queries(),
            Pre::XorAnd => logic::DeltaXorAnd::get_expr_and_queries(),
            Pre::Rescue => rescue::PrecompiledRescue::get_expr_and_queries(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Gate {
    /// reference constraint (documented meaning)
    pub g: G,
    /// use this precompiled gate of the library instead of the AST
    pub pre: Option<Pre>,
    /// rows on which the constraint is meant to hold (default: all rows of zh)
    pub name: &'static str,
}
#[derive(Clone, Debug)]
pub struct Lookup {
    pub exprs: Vec<G>,
    /// table column indices
    pub tables: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Solve {
    pub k: K,
    pub col: usize,
    pub rows: Vec<usize>,
    pub g: G,
}
#[derive(Clone, Debug, Default)]
pub struct Circuit {
    pub name: String,
    pub n: usize,
    /// witness columns: does it take part in copy constraints
    pub wit: Vec<bool>,
    pub inst: usize,
    pub fixed: usize,
    pub tables: usize,
    pub gates: Vec<Gate>,
    pub lookups: Vec<Lookup>,
    /// rows excluded from the vanishing polynomial
    pub zh_skip: Vec<usize>,
    /// rows usable by permutation / lookup; blinding rows are u+1..n
    pub u: usize,
    pub with_q_blind: bool,
    /// the blinding selector also covers the last usable row
    pub q_blind_at_u: bool,
    /// permutation info's u (normally == u)
    pub perm_u: usize,
    /// copy cycles over (witness column, row)
    pub cycles: Vec<Vec<(usize, usize)>>,
    pub solve: Vec<Solve>,
    /// fixed cells given as constants: (kind, col, row) -> value
    pub consts: BTreeMap<(K, usize, usize), i64>,
    /// cells equal to another cell (e.g. lookup row copied from a table row)
    pub alias: BTreeMap<(K, usize, usize), (K, usize, usize)>,
    pub symbolic_table: bool,
    pub max_degree: Option<usize>,
}

#[derive(Clone)]
pub struct Assign<F> {
    pub cells: BTreeMap<(K, usize, usize), F>,
}
pub fn cell_name(k: K, col: usize, row: usize) -> String {
    format!("{}{}_{}", match k { K::W => "w", K::I => "i", K::X => "f", K::T => "t" }, col, row)
}
impl Circuit {
    pub fn rows_in_zh(&self) -> Vec<usize> {
        (0..self.n).filter(|r| !self.zh_skip.contains(r)).collect()
    }
    pub fn cols(&self, k: K) -> usize {
        match k {
            K::W => self.wit.len(),
            K::I => self.inst,
            K::X => self.fixed,
            K::T => self.tables,
        }
    }
    pub fn permuted(&self) -> Vec<usize> {
        (0..self.wit.len()).filter(|i| self.wit[*i]).collect()
    }
    /// honest assignment: every cell that is not forced is a free variable
    pub fn fill<F: VF>(&self) -> Assign<F> {
        self.fill_over(&BTreeMap::new())
    }
    /// the same with some free witness/instance cells given
    pub fn fill_over<F: VF>(&self, over: &BTreeMap<(K, usize, usize), F>) -> Assign<F> {
        let mut cells: BTreeMap<(K, usize, usize), F> = BTreeMap::new();
        let rep = |col: usize, row: usize| -> Vec<(usize, usize)> {
            self.cycles
                .iter()
                .find(|cy| cy.contains(&(col, row)))
                .cloned()
                .unwrap_or_default()
        };
        // free cells first (fixed and tables, then the rest row by row)
        for row in 0..self.n {
            for k in [K::X, K::T] {
                for col in 0..self.cols(k) {
                    let v = match self.consts.get(&(k, col, row)) {
                        Some(v) => fi(*v),
                        None => F::var(&cell_name(k, col, row)),
                    };
                    cells.insert((k, col, row), v);
                }
            }
        }
        // cells not produced by a solve rule
        let solved: Vec<(K, usize, usize)> = self
            .solve
            .iter()
            .flat_map(|s| s.rows.iter().map(move |r| (s.k, s.col, *r)))
            .collect();
        for row in 0..self.n {
            for k in [K::W, K::I] {
                for col in 0..self.cols(k) {
                    let key = (k, col, row);
                    if solved.contains(&key) {
                        continue;
                    }
                    if let Some(v) = over.get(&key) {
                        cells.insert(key, *v);
                        continue;
                    }
                    if k == K::W {
                        // tied to a solved cell: filled when that one is
                        let cy = rep(col, row);
                        if cy.iter().any(|(a, b)| solved.contains(&(K::W, *a, *b))) {
                            continue;
                        }
                        if let Some((a, b)) =
                            cy.iter().find(|(a, b)| cells.contains_key(&(K::W, *a, *b)))
                        {
                            let v = cells[&(K::W, *a, *b)];
                            cells.insert(key, v);
                            continue;
                        }
                    }
                    let v = match (self.consts.get(&key), self.alias.get(&key)) {
                        (Some(v), _) => fi(*v),
                        (None, Some(a)) => cells[a],
                        _ => F::var(&cell_name(k, col, row)),
                    };
                    cells.insert(key, v);
                }
            }
        }
        for row in 0..self.n {
            for s in self.solve.iter() {
                if !s.rows.contains(&row) {
                    continue;
                }
                let v = s.g.eval(&|k, col, r| {
                    let rr = (row as i64 + r as i64).rem_euclid(self.n as i64) as usize;
                    *cells
                        .get(&(k, col, rr))
                        .unwrap_or_else(|| panic!("circuit {}: cell {:?} not ready", self.name, (k, col, rr)))
                });
                cells.insert((s.k, s.col, row), v);
                if s.k == K::W {
                    for (a, b) in rep(s.col, row) {
                        cells.entry((K::W, a, b)).or_insert(v);
                    }
                }
            }
        }
        Assign { cells }
    }
    /// assignment with every cell free (no constraint assumed)
    pub fn fill_free<F: VF>(&self) -> Assign<F> {
        let mut cells = BTreeMap::new();
        for k in [K::W, K::I, K::X, K::T] {
            for col in 0..self.cols(k) {
                for row in 0..self.n {
                    let key = (k, col, row);
                    let v = match self.consts.get(&key) {
                        Some(v) if k == K::X || k == K::T => fi(*v),
                        _ => F::var(&cell_name(k, col, row)),
                    };
                    cells.insert(key, v);
                }
            }
        }
        Assign { cells }
    }
    pub fn domain<F: PrimeField>(&self) -> GeneralEvaluationDomain<F> {
        GeneralEvaluationDomain::new(self.n).unwrap()
    }
    pub fn zh<F: PrimeField>(&self) -> DensePolynomial<F> {
        let d = self.domain::<F>();
        if self.zh_skip.is_empty() {
            return d.vanishing_polynomial().into();
        }
        let mut p = DensePolynomial::from_coefficients_slice(&[F::one()]);
        for r in self.rows_in_zh() {
            p = &p * &DensePolynomial::from_coefficients_slice(&[-d.element(r), F::one()]);
        }
        p
    }
    pub fn deltas<F: PrimeField>(&self) -> Vec<F> {
        let ks = [1u64, 7, 13, 17, 19, 23];
        self.permuted().iter().enumerate().map(|(i, _)| F::from(ks[i])).collect()
    }
    /// where the permutation sends position (permuted index, row)
    pub fn sigma_target(&self, pi: usize, row: usize) -> (usize, usize) {
        let cols = self.permuted();
        for cy in self.cycles.iter() {
            if let Some(p) = cy.iter().position(|x| *x == (cols[pi], row)) {
                let (cc, rr) = cy[(p + 1) % cy.len()];
                return (cols.iter().position(|x| *x == cc).unwrap(), rr);
            }
        }
        (pi, row)
    }
    pub fn sigma_evals<F: VF>(&self) -> Vec<Vec<F>> {
        let d = self.domain::<F>();
        let de = self.deltas::<F>();
        (0..self.permuted().len())
            .map(|pi| {
                (0..self.n)
                    .map(|r| {
                        if r < self.u {
                            let (cc, rr) = self.sigma_target(pi, r);
                            de[cc] * d.element(rr)
                        } else {
                            // rows outside the usable region carry dummies
                            de[pi] * d.element(r)
                        }
                    })
                    .collect()
            })
            .collect()
    }
    pub fn q_blind_evals<F: PrimeField>(&self) -> Vec<F> {
        (0..self.n)
            .map(|r| if self.with_q_blind && (r > self.u || self.q_blind_at_u && r == self.u) { F::one() } else { F::zero() })
            .collect()
    }
}

pub fn interp<F: PrimeField>(d: &GeneralEvaluationDomain<F>, e: &[F]) -> DensePolynomial<F> {
    DensePolynomial::from_coefficients_slice(&d.ifft(e))
}

pub struct ProverSide<F: VF> {
    pub circ: Circuit,
    pub domain: GeneralEvaluationDomain<F>,
    pub zh: DensePolynomial<F>,
    pub w: Vec<WitnessProverOracle<F>>,
    pub i: Vec<InstanceProverOracle<F>>,
    pub f: Vec<FixedProverOracle<F>>,
    pub t: Vec<FixedProverOracle<F>>,
    pub sigma: Vec<FixedProverOracle<F>>,
    pub q_blind: FixedProverOracle<F>,
    pub vos: Vec<GenericVO<F>>,
    pub lus: Vec<GenericLookupVO<F>>,
    pub key: Key<F>,
}
pub fn make_vos<F: PrimeField>(cr: &Circuit) -> (Vec<GenericVO<F>>, Vec<GenericLookupVO<F>>) {
    let vos = cr
        .gates
        .iter()
        .map(|g| match g.pre {
            Some(p) => GenericVO::init(p.get()),
            None => {
                let mut qs = vec![];
                g.g.queries(&mut qs);
                GenericVO::init((
                    g.g.virt(),
                    qs.into_iter().map(|(k, i, r)| vq(k, i, r)).collect(),
                ))
            }
        })
        .collect();
    let lus = cr
        .lookups
        .iter()
        .map(|l| {
            let mut qs = vec![];
            l.exprs.iter().for_each(|e| e.queries(&mut qs));
            GenericLookupVO::init((
                l.exprs.iter().map(|e| e.virt()).collect(),
                qs.into_iter().map(|(k, i, r)| vq(k, i, r)).collect(),
                l.tables.iter().map(|t| vq(K::T, *t, 0)).collect(),
            ))
        })
        .collect();
    (vos, lus)
}
pub fn wlabel(i: usize) -> String {
    format!("wit_{}", i)
}
impl<F: VF> ProverSide<F> {
    pub fn new(cr: &Circuit, a: &Assign<F>) -> Self {
        let domain = cr.domain::<F>();
        let col = |k: K, i: usize| -> Vec<F> { (0..cr.n).map(|r| a.cells[&(k, i, r)]).collect() };
        let fixed = |label: String, e: Vec<F>| FixedProverOracle::new(label, interp(&domain, &e), &e);
        let mut w: Vec<_> = (0..cr.wit.len())
            .map(|i| {
                let e = col(K::W, i);
                WitnessProverOracle::new(wlabel(i), interp(&domain, &e), &e, cr.wit[i])
            })
            .collect();
        let mut i: Vec<_> = (0..cr.inst)
            .map(|i| {
                let e = col(K::I, i);
                InstanceProverOracle::new(format!("inst_{}", i), interp(&domain, &e), &e)
            })
            .collect();
        let mut f: Vec<_> =
            (0..cr.fixed).map(|i| fixed(format!("fixed_{}", i), col(K::X, i))).collect();
        let mut t: Vec<_> =
            (0..cr.tables).map(|i| fixed(format!("table_{}", i), col(K::T, i))).collect();
        let sigma: Vec<_> = cr
            .sigma_evals::<F>()
            .into_iter()
            .enumerate()
            .map(|(i, e)| fixed(format!("sigma_{}", i), e))
            .collect();
        let q_blind = fixed("q_blind".into(), cr.q_blind_evals());
        let (mut vos, mut lus) = make_vos::<F>(cr);
        for v in vos.iter_mut() {
            v.configure(&mut w, &mut i, &mut f);
        }
        for l in lus.iter_mut() {
            l.configure(&mut w, &mut i, &mut f, &mut t).unwrap();
        }
        ProverSide {
            key: setup::<F>(cr.max_degree.unwrap_or(cr.n - 1)),
            circ: cr.clone(),
            zh: cr.zh(),
            domain,
            w,
            i,
            f,
            t,
            sigma,
            q_blind,
            vos,
            lus,
        }
    }
    pub fn with_index<R>(
        &mut self,
        f: impl FnOnce(&mut Self, Result<VerifierKey<F, PC<F>>, PErr<F>>) -> R,
    ) -> R {
        let lus = self.lus.clone();
        let vos = self.vos.clone();
        let vrefs: Vec<&dyn VirtualOracle<F>> =
            vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
        let lrefs: Vec<&dyn LookupVirtualOracle<F>> =
            lus.iter().map(|v| v as &dyn LookupVirtualOracle<F>).collect();
        let vk = Indexer::<F, PC<F>>::index(
            &self.key.vk,
            &vrefs,
            lrefs,
            &self.w,
            &self.i,
            &self.f,
            self.domain,
            &self.zh,
            PermutationInfo { u: self.circ.perm_u, deltas: self.circ.deltas() },
            self.circ.u,
        );
        f(self, vk)
    }
    pub fn prove(&mut self) -> Result<Proof<F>, PErr<F>> {
        let vos = self.vos.clone();
        self.with_index(|s, vk| {
            let vk = vk?;
            let pk = ProverKey::from_ck_and_vk(&s.key.ck, &vk);
            let pre = ProverPreprocessedInput::<F, PC<F>>::new(
                &s.f,
                &s.sigma,
                &s.t,
                &s.q_blind,
                &vk.index_info,
            );
            let vrefs: Vec<&dyn VirtualOracle<F>> =
                vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
            TP::<F>::prove(
                &pk,
                &pre,
                &mut s.w,
                &mut s.i,
                &vrefs,
                s.circ.n,
                &mut ark_std::test_rng(),
            )
        })
    }
}

pub struct VerifierSide<F: VF> {
    pub circ: Circuit,
    pub domain: GeneralEvaluationDomain<F>,
    pub zh: DensePolynomial<F>,
    pub w: Vec<WitnessVerifierOracle<F, PC<F>>>,
    pub i: Vec<InstanceVerifierOracle<F>>,
    pub pre: VerifierPreprocessedInput<F, PC<F>>,
    pub vos: Vec<GenericVO<F>>,
    pub lus: Vec<GenericLookupVO<F>>,
    pub key: Key<F>,
}
pub fn commit_public<F: VF>(key: &Key<F>, d: &GeneralEvaluationDomain<F>, label: &str, e: &[F]) -> Comm<F> {
    let p = LabeledPolynomial::new(label.to_string(), interp(d, e), None, None);
    let (c, _) = PC::<F>::commit(&key.ck, [&p], None).unwrap();
    c[0].commitment().clone()
}
impl<F: VF> VerifierSide<F> {
    /// `a` provides the public parts: instance, fixed and table columns
    pub fn new(cr: &Circuit, a: &Assign<F>) -> Self {
        let domain = cr.domain::<F>();
        let key = setup::<F>(cr.max_degree.unwrap_or(cr.n - 1));
        let col = |k: K, i: usize| -> Vec<F> { (0..cr.n).map(|r| a.cells[&(k, i, r)]).collect() };
        let fixed = |label: String, e: Vec<F>| {
            let cm = commit_public(&key, &domain, &label, &e);
            FixedVerifierOracle::<F, PC<F>>::new(label, Some(cm))
        };
        let mut w: Vec<_> = (0..cr.wit.len())
            .map(|i| WitnessVerifierOracle::<F, PC<F>>::new(wlabel(i), cr.wit[i]))
            .collect();
        let mut i: Vec<_> = (0..cr.inst)
            .map(|i| InstanceVerifierOracle::new(format!("inst_{}", i), interp(&domain, &col(K::I, i))))
            .collect();
        let mut f: Vec<_> =
            (0..cr.fixed).map(|i| fixed(format!("fixed_{}", i), col(K::X, i))).collect();
        let mut t: Vec<_> =
            (0..cr.tables).map(|i| fixed(format!("table_{}", i), col(K::T, i))).collect();
        let sigma: Vec<_> = cr
            .sigma_evals::<F>()
            .into_iter()
            .enumerate()
            .map(|(i, e)| fixed(format!("sigma_{}", i), e))
            .collect();
        let q_blind = fixed("q_blind".into(), cr.q_blind_evals());
        let (mut vos, mut lus) = make_vos::<F>(cr);
        for v in vos.iter_mut() {
            v.configure(&mut w, &mut i, &mut f);
        }
        for l in lus.iter_mut() {
            l.configure(&mut w, &mut i, &mut f, &mut t).unwrap();
        }
        let pre = VerifierPreprocessedInput::new(f, t, sigma, q_blind);
        VerifierSide { circ: cr.clone(), zh: cr.zh(), domain, w, i, pre, vos, lus, key }
    }
    pub fn verify(&mut self, proof: Proof<F>) -> Result<(), PErr<F>> {
        let lus = self.lus.clone();
        let vos = self.vos.clone();
        let vrefs: Vec<&dyn VirtualOracle<F>> =
            vos.iter().map(|v| v as &dyn VirtualOracle<F>).collect();
        let lrefs: Vec<&dyn LookupVirtualOracle<F>> =
            lus.iter().map(|v| v as &dyn LookupVirtualOracle<F>).collect();
        let vk = Indexer::<F, PC<F>>::index(
            &self.key.vk,
            &vrefs,
            lrefs,
            &self.w,
            &self.i,
            &self.pre.fixed_oracles,
            self.domain,
            &self.zh,
            PermutationInfo { u: self.circ.perm_u, deltas: self.circ.deltas() },
            self.circ.u,
        )?;
        TP::<F>::verify(
            &vk,
            &mut self.pre,
            proof,
            &mut self.w,
            &mut self.i,
            &vrefs,
            self.circ.n,
            &self.zh,
        )
    }
}

// ------------------------------------------------------------ circuit zoo
fn gate(name: &'static str, g: G) -> Gate {
    Gate { g, pre: None, name }
}
fn pre(name: &'static str, p: Pre, g: G) -> Gate {
    Gate { g, pre: Some(p), name }
}
fn all(n: usize) -> Vec<usize> {
    (0..n).collect()
}
impl Circuit {
    fn base(name: &str, n: usize) -> Circuit {
        Circuit { name: name.into(), n, u: n - 1, perm_u: n - 1, ..Default::default() }
    }
}
/// a*b - c with c public, whole domain (library gate)
pub fn mul_full(n: usize) -> Circuit {
    Circuit {
        wit: vec![false, false],
        inst: 1,
        gates: vec![pre("mul", Pre::Mul, w(0) * w(1) - ins(0))],
        solve: vec![Solve { k: K::I, col: 0, rows: all(n), g: w(0) * w(1) }],
        ..Circuit::base(&format!("mul_n{}", n), n)
    }
}
/// plonk arithmetic gate with arbitrary (symbolic) selectors
pub fn arith_full(n: usize) -> Circuit {
    let g = fx(0) * w(0) * w(1) + fx(1) * w(0) + fx(2) * w(1) + fx(3) * w(2) + fx(4);
    Circuit {
        wit: vec![false; 3],
        inst: 1,
        fixed: 5,
        gates: vec![pre("arith", Pre::Arith, g.clone() + ins(0))],
        solve: vec![Solve { k: K::I, col: 0, rows: all(n), g: -g }],
        ..Circuit::base(&format!("arith_n{}", n), n)
    }
}
pub fn arith4_full(n: usize) -> Circuit {
    let g = fx(0) * w(0) * w(1) + fx(1) * w(0) + fx(2) * w(1) + fx(3) * w(3) + fx(4) * w(2) + fx(5);
    Circuit {
        wit: vec![false; 4],
        inst: 1,
        fixed: 6,
        gates: vec![pre("arith4", Pre::Arith4, g.clone() + ins(0))],
        solve: vec![Solve { k: K::I, col: 0, rows: all(n), g: -g }],
        ..Circuit::base(&format!("arith4_n{}", n), n)
    }
}
/// rotations both ways in witness, instance and fixed columns; constants,
/// negation and scaling; two gates
pub fn rotations(n: usize) -> Circuit {
    // w1 = w0[+1]*i0[-1] + 3*f0[+2] - w0[-2] + 5
    let g1 = wr(0, 1) * insr(0, -1) + sc(fxr(0, 2), 3) + (-wr(0, -2)) + c(5);
    // f1 * (w2 - w0[+1] * f1[-1]) = 0
    let g2 = wr(0, 1) * fxr(1, -1);
    Circuit {
        wit: vec![false; 3],
        inst: 1,
        fixed: 2,
        gates: vec![gate("rot", w(1) - g1.clone()), gate("rot2", fx(1) * (w(2) - g2.clone()))],
        solve: vec![
            Solve { k: K::W, col: 1, rows: all(n), g: g1 },
            Solve { k: K::W, col: 2, rows: all(n), g: g2 },
        ],
        ..Circuit::base(&format!("rotations_n{}", n), n)
    }
}
/// vanishing polynomial that skips the last `t` rows
pub fn skip_rows(n: usize, t: usize) -> Circuit {
    let rows: Vec<usize> = (0..n - t).collect();
    Circuit {
        wit: vec![false; 3],
        zh_skip: (n - t..n).collect(),
        gates: vec![gate("mulskip", w(0) * wr(1, 1) - w(2))],
        solve: vec![Solve { k: K::W, col: 2, rows, g: w(0) * wr(1, 1) }],
        ..Circuit::base(&format!("skip{}_n{}", t, n), n)
    }
}
/// product of `d` witness columns, equal to a public column
pub fn high_degree(n: usize, d: usize) -> Circuit {
    let mut g = w(0);
    for i in 1..d {
        g = g * w(i);
    }
    Circuit {
        wit: vec![false; d],
        inst: 1,
        gates: vec![gate("prod", g.clone() - ins(0))],
        solve: vec![Solve { k: K::I, col: 0, rows: all(n), g }],
        ..Circuit::base(&format!("deg{}_n{}", d, n), n)
    }
}
/// linear gates only
pub fn linear(n: usize) -> Circuit {
    Circuit {
        wit: vec![false; 2],
        inst: 1,
        gates: vec![gate("lin", w(0) + sc(wr(1, 1), 2) - ins(0))],
        solve: vec![Solve { k: K::I, col: 0, rows: all(n), g: w(0) + sc(wr(1, 1), 2) }],
        ..Circuit::base(&format!("linear_n{}", n), n)
    }
}
/// selector-gated multiplication with copy constraints over `cols` columns
pub fn copy(n: usize, u: usize, cols: usize, factor: usize) -> Circuit {
    // gate: f0 * (prod of `factor` copies of w0 ...) keeps the extended domain
    // at the size selected by `factor`
    let mut cycles = vec![];
    match (cols, u) {
        (1, _) => cycles.push(vec![(0, 0), (0, u - 1)]),
        (_, _) => {
            cycles.push(vec![(0, 0), (1, u - 1)]);
            if u >= 3 {
                cycles.push(vec![(1, 0), (0, 1), (cols - 1, 1)]);
            }
            if cols > 2 {
                cycles.push(vec![(2, 0), (0, u - 1)]);
            }
        }
    }
    let mut cy2: Vec<Vec<(usize, usize)>> = vec![];
    for mut cy in cycles {
        cy.dedup();
        cy2.push(cy);
    }
    let mut g = fx(0) * w(0);
    for _ in 1..factor {
        g = g * w(0);
    }
    let mut consts = BTreeMap::new();
    for r in u..n {
        consts.insert((K::X, 0, r), 0);
    }
    Circuit {
        wit: vec![true; cols],
        inst: 1,
        fixed: 1,
        u,
        perm_u: u,
        with_q_blind: true,
        consts,
        cycles: cy2,
        gates: vec![gate("sel", g.clone() - ins(0))],
        solve: vec![Solve { k: K::I, col: 0, rows: all(n), g }],
        ..Circuit::base(&format!("copy_n{}_u{}_c{}_d{}", n, u, cols, factor), n)
    }
}
/// lookups: `arity` columns looked up in a table of the same arity; the row
/// `sel[r]` of the table is the one used at row r
pub fn lookup(n: usize, u: usize, arity: usize, sel: &[usize], count: usize) -> Circuit {
    let mut alias = BTreeMap::new();
    for (r, s) in sel.iter().enumerate().take(u) {
        for k in 0..arity {
            for l in 0..count {
                alias.insert((K::W, l * arity + k, r), (K::T, k, *s));
            }
        }
    }
    let wn = arity * count;
    let mut consts = BTreeMap::new();
    for r in u..n {
        consts.insert((K::X, 0, r), 0);
    }
    let g = fx(0) * w(0) * w(0);
    Circuit {
        wit: vec![false; wn],
        inst: 1,
        fixed: 1,
        tables: arity,
        u,
        perm_u: u,
        with_q_blind: true,
        consts,
        alias,
        lookups: (0..count)
            .map(|l| Lookup {
                exprs: (0..arity).map(|k| w(l * arity + k)).collect(),
                tables: (0..arity).collect(),
            })
            .collect(),
        gates: vec![gate("sel", g.clone() - ins(0))],
        solve: vec![Solve { k: K::I, col: 0, rows: all(n), g }],
        ..Circuit::base(&format!("lookup_n{}_u{}_a{}_x{}_s{:?}", n, u, arity, count, sel), n)
    }
}

/// a lookup of an expression that also reads a second column at a shifted row
pub fn rotated(n: usize, u: usize, what: &str) -> Circuit {
    let mut c = lookup(n, u, 1, &(0..u).collect::<Vec<_>>(), 1);
    c.alias.clear();
    let mut ex = w(0);
    let mut back = G::Q(K::T, 0, 0);
    let extra = match what {
        "instance" => insr(1, 1),
        "fixed" => fxr(1, -1),
        _ => {
            c.wit.push(false);
            wr(1, 1)
        }
    };
    c.inst = 2;
    c.fixed = 2;
    ex = ex + sc(extra.clone(), 3);
    back = back - sc(extra, 3);
    c.lookups[0].exprs = vec![ex];
    // w0 first, then the public output of the gate
    c.solve.insert(0, Solve { k: K::W, col: 0, rows: (0..u).collect(), g: back });
    c.name = format!("lookup_{}_n{}_u{}", what, n, u);
    c
}

impl Circuit {
    /// the same circuit with a whole column forced to a constant
    pub fn with_const_col(mut self, k: K, col: usize, v: i64) -> Circuit {
        for r in 0..self.n {
            self.consts.insert((k, col, r), v);
        }
        self.name = format!("{}_{}{}={}", self.name, cell_name(k, col, 0).chars().next().unwrap(), col, v);
        self
    }
}
/// copy constraints and lookups in one circuit
pub fn copy_lookup(n: usize, u: usize) -> Circuit {
    let mut c = copy(n, u, 1, 2);
    let sel: Vec<usize> = (0..u).collect();
    let l = lookup(n, u, 1, &sel, 1);
    c.tables = 1;
    c.wit.push(false);
    c.lookups = vec![Lookup { exprs: vec![w(1)], tables: vec![0] }];
    for ((k, col, r), v) in l.alias {
        c.alias.insert((k, col + 1, r), v);
    }
    c.name = format!("copy_lookup_n{}_u{}", n, u);
    c
}

/// prove and verify an assignment: Ok(()) iff accepted
pub fn run(cr: &Circuit, a: &Assign<Fr>) -> Result<(), String> {
    let proof = ProverSide::<Fr>::new(cr, a).prove().map_err(|e| format!("prover: {:?}", e))?;
    VerifierSide::<Fr>::new(cr, a).verify(proof).map_err(|e| format!("verifier: {:?}", e))
}
