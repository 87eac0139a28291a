//! Multi-point opening: complete for honest claims, rejects every false one.
use super::Cases;
use crate::circ::{interp, rot};
use crate::driver::Case;
use crate::env::*;
use crate::sess::{self, VF};
use ark_ff::{PrimeField, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, UVPolynomial};
use ark_poly_commit::PolynomialCommitment;
use zero_over_k::multiproof::piop::Multiopen;
use zero_over_k::multiproof::Proof;
use zero_over_k::oracles::fixed::{FixedProverOracle, FixedVerifierOracle};
use zero_over_k::oracles::traits::{CommittedOracle, ConcreteOracle, Instantiable};
use zero_over_k::oracles::witness::{WitnessProverOracle, WitnessVerifierOracle};
use zero_over_k::rng::FiatShamirRng;

type PC<F> = IdealPC<F>;
type MO<F> = Multiopen<F, PC<F>, SymFS>;

/// one oracle: rotations at which it is opened, and whether it is a hidden
/// (witness) or a public (fixed) polynomial
#[derive(Clone)]
pub struct Spec {
    pub rots: Vec<i32>,
    pub wit: bool,
}
pub fn spec(rots: &[i32], wit: bool) -> Spec {
    Spec { rots: rots.to_vec(), wit }
}

pub struct World<F: VF> {
    n: usize,
    domain: GeneralEvaluationDomain<F>,
    w: Vec<WitnessProverOracle<F>>,
    f: Vec<FixedProverOracle<F>>,
    order: Vec<(bool, usize)>,
    rands: Vec<Rand<F>>,
    comms: Vec<Comm<F>>,
    specs: Vec<Spec>,
    xi: F,
    key: Key,
}
impl<F: VF> World<F> {
    pub fn new(n: usize, specs: &[Spec]) -> Self {
        let domain = GeneralEvaluationDomain::<F>::new(n).unwrap();
        let key = Key { max_degree: (n - 1) as u64, hiding: 1 };
        let (mut w, mut f, mut order, mut rands, mut comms) = (vec![], vec![], vec![], vec![], vec![]);
        let mut rng = VarRng::new("com");
        for (i, s) in specs.iter().enumerate() {
            let c: Vec<F> = sess::vars(&format!("p{}_", i), n);
            let p = DensePolynomial::from_coefficients_slice(&c);
            let e = domain.fft(&c);
            if s.wit {
                let mut o = WitnessProverOracle::new(format!("o{}", i), p, &e, false);
                s.rots.iter().for_each(|r| o.register_rotation(rot(*r)));
                let (cm, r) = PC::<F>::commit(&key, [&o.to_labeled()], Some(&mut rng)).unwrap();
                comms.push(cm[0].commitment().clone());
                rands.push(r[0].clone());
                order.push((true, w.len()));
                w.push(o);
            } else {
                let mut o = FixedProverOracle::new(format!("o{}", i), p, &e);
                s.rots.iter().for_each(|r| o.register_rotation(rot(*r)));
                let (cm, r) = PC::<F>::commit(&key, [&o.to_labeled()], Some(&mut rng)).unwrap();
                comms.push(cm[0].commitment().clone());
                rands.push(r[0].clone());
                order.push((false, f.len()));
                f.push(o);
            }
        }
        let _ = interp::<F>;
        World { n, domain, w, f, order, rands, comms, specs: specs.to_vec(), xi: F::var("xi"), key }
    }
    fn fs() -> SymFS {
        SymFS::initialize(&b"x".to_vec())
    }
    pub fn prove(&self) -> Proof<F, PC<F>> {
        let os: Vec<&dyn Instantiable<F>> = self
            .order
            .iter()
            .map(|(w, i)| if *w { &self.w[*i] as &dyn Instantiable<F> } else { &self.f[*i] as _ })
            .collect();
        MO::<F>::prove(&self.key, &os, &self.rands, self.xi, self.n, &mut Self::fs(), &mut VarRng::new("mo"))
            .map_err(|_| ())
            .expect("multi-open prover")
    }
    pub fn point(&self, r: i32) -> F {
        let m = (r as i64).rem_euclid(self.n as i64) as usize;
        self.xi * self.domain.element(m)
    }
    /// evaluations claimed for oracle i at its j-th rotation
    pub fn honest(&self) -> Vec<Vec<F>> {
        self.specs
            .iter()
            .enumerate()
            .map(|(i, s)| s.rots.iter().map(|r| veval(&self.comms[i].p, self.point(*r))).collect())
            .collect()
    }
    pub fn verify(&self, proof: Proof<F, PC<F>>, evals: &[Vec<F>], comms: &[Comm<F>]) -> Result<(), String> {
        let mut ws = vec![];
        let mut fs = vec![];
        for (i, s) in self.specs.iter().enumerate() {
            if s.wit {
                let mut o = WitnessVerifierOracle::<F, PC<F>>::new(format!("o{}", i), false);
                o.register_commitment(comms[i].clone());
                for (j, r) in s.rots.iter().enumerate() {
                    o.register_rotation(rot(*r));
                    o.register_eval_at_challenge(self.point(*r), evals[i][j]);
                }
                ws.push(o);
            } else {
                let mut o = FixedVerifierOracle::<F, PC<F>>::new(format!("o{}", i), Some(comms[i].clone()));
                for (j, r) in s.rots.iter().enumerate() {
                    o.register_rotation(rot(*r));
                    o.register_eval_at_challenge(self.point(*r), evals[i][j]);
                }
                fs.push(o);
            }
        }
        let os: Vec<&dyn CommittedOracle<F, PC<F>>> = self
            .order
            .iter()
            .map(|(w, i)| if *w { &ws[*i] as &dyn CommittedOracle<F, PC<F>> } else { &fs[*i] as _ })
            .collect();
        MO::<F>::verify(&self.key, proof, &os, self.xi, self.n, &mut Self::fs()).map_err(|e| format!("{:?}", e))
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Honest,
    /// every claimed evaluation off by its own perturbation
    Evals,
    /// values of the aggregated polynomials at the second point
    QEvals,
    /// the committed combination of the quotients
    FCommit,
    /// the committed polynomial itself differs from the one opened
    Commitments,
    Opening,
    /// proof produced for a subset of the opening sets, false claims elsewhere
    Truncated,
    Extended,
}
pub struct Multi {
    pub name: &'static str,
    pub n: usize,
    pub specs: Vec<Spec>,
    pub what: What,
}
impl Case for Multi {
    fn id(&self) -> String {
        let w = match self.what {
            What::Honest => "honest",
            What::Evals => "false_evals",
            What::QEvals => "false_aggregates",
            What::FCommit => "false_quotient",
            What::Commitments => "other_polynomial",
            What::Opening => "false_opening",
            What::Truncated => "truncated",
            What::Extended => "extended",
        };
        format!("multiopen/{}_n{}/{}", self.name, self.n, w)
    }
    fn bound(&self) -> String {
        format!("{} oracles of {} coefficients, rotation sets {:?}", self.specs.len(), self.n, self.specs.iter().map(|s| s.rots.clone()).collect::<Vec<_>>())
    }
    fn flip_budget(&self, t: bool) -> usize {
        if t { 6 } else { 0 }
    }
    fn run<F: VF>(&self) {
        let wd = World::<F>::new(self.n, &self.specs);
        let mut ev = wd.honest();
        let mut comms = wd.comms.clone();
        // a message sent by the prover: only the challenges whose transcript
        // contains it are drawn after it was chosen
        let adaptive = matches!(self.what, What::QEvals | What::FCommit);
        let mut proof = if adaptive { sess::with_draws(&[], || wd.prove()) } else { wd.prove() };
        let untouched = proof.clone();
        let mut ds = vec![];
        let mut d = |name: String| -> F {
            let v = F::var(&name);
            ds.push(name);
            v
        };
        match self.what {
            What::Honest => {
                let r = wd.verify(proof, &ev, &comms);
                sess::fact("honest openings are accepted", r.is_ok(), format!("{:?}", r));
                return;
            }
            What::Evals => {
                for (i, e) in ev.iter_mut().enumerate() {
                    for (j, x) in e.iter_mut().enumerate() {
                        *x += d(format!("d{}_{}", i, j));
                    }
                }
            }
            What::QEvals => {
                for (i, x) in proof.q_evals.iter_mut().enumerate() {
                    *x += d(format!("d{}", i));
                }
            }
            What::FCommit => {
                for (j, x) in proof.f_commit.p.iter_mut().enumerate() {
                    *x += d(format!("d{}", j));
                }
            }
            What::Commitments => {
                for (i, c) in comms.iter_mut().enumerate() {
                    for (j, x) in c.p.iter_mut().enumerate() {
                        *x += d(format!("d{}_{}", i, j));
                    }
                }
            }
            What::Opening => {
                for (j, x) in proof.opening_proof.w.iter_mut().enumerate() {
                    *x += d(format!("d{}", j));
                }
            }
            What::Truncated => {
                // a prover that serves only some of the opening sets
                for keep in 1..self.specs.len() {
                    let sub = World::<F>::new(self.n, &self.specs[..keep]);
                    let p = sub.prove();
                    let mut e = wd.honest();
                    let mut forged = vec![];
                    for (i, e) in e.iter_mut().enumerate().skip(keep) {
                        for (j, x) in e.iter_mut().enumerate() {
                            let nm = format!("d{}_{}", i, j);
                            *x += F::var(&nm);
                            forged.push(nm);
                        }
                    }
                    let r = wd.verify(p, &e, &comms);
                    sess::fact(
                        "a proof that leaves opening sets out is rejected",
                        r.is_err(),
                        format!("proof for {} of {} oracles: {:?}", keep, self.specs.len(), r),
                    );
                }
                return;
            }
            What::Extended => {
                proof.q_evals.push(F::var("extra"));
                let r = wd.verify(proof, &ev, &comms);
                sess::fact("a proof with surplus values is rejected", r.is_err(), format!("{:?}", r));
                return;
            }
        }
        if self.what == What::Opening {
            let r = wd.verify(proof, &ev, &comms);
            let res = sess::last_check::<F>();
            sess::must_reject("a false opening is rejected", r.is_ok(), format!("{:?}", r), res, &ds, &[]);
            return;
        }
        let l0 = sess::with(|s| s.fs_log.len());
        if adaptive {
            let r = sess::with_draws(&[], || wd.verify(untouched, &ev, &comms));
            sess::fact("the untouched proof is accepted", r.is_ok(), format!("{:?}", r));
        }
        let l1 = sess::with(|s| s.fs_log.len());
        // The prover may recompute the final opening for whatever point the
        // transcript yields; what it cannot change is C(x3) - v.
        proof.opening_proof.w = vec![];
        let n0 = sess::with(|s| s.checks.len());
        let r = match adaptive {
            true => sess::with_draws(&[], || wd.verify(proof, &ev, &comms)),
            false => wd.verify(proof, &ev, &comms),
        };
        let l2 = sess::with(|s| s.fs_log.len());
        if r.is_err() && sess::with(|s| s.checks.len()) == n0 {
            sess::fact("a false claim is rejected", true, "");
            return;
        }
        let res = sess::last_check::<F>();
        // the residue list is C(X) - v followed by the blinding part
        let np = sess::with(|s| s.last_check_main);
        let val = veval(&res[..np], sess::last_point::<F>());
        let mut vary = vec![];
        if adaptive {
            vary = sess::dependent((l0, l1), (l1, l2));
            vary.push("none".into());
        }
        sess::must_reject("a false claim is rejected", val.is_zero(), format!("{:?}", r), vec![val], &ds, &vary);
    }
}
/// A prover that answers adaptively: false claims are fixed in advance, every
/// message may depend on the challenges drawn before the transcript contains
/// it.  Over a tree of challenge values no choice of messages is accepted on
/// every path unless all claims are true.
pub struct Strategy {
    pub name: &'static str,
    pub n: usize,
    pub specs: Vec<Spec>,
}
impl Strategy {
    fn body<F: VF>(&self) {
        let wd = sess::concretely(|| World::<F>::new(self.n, &self.specs));
        let base = sess::concretely(|| wd.honest());
        let mut ev = base.clone();
        let mut ds = vec![];
        for (i, e) in ev.iter_mut().enumerate() {
            for (j, x) in e.iter_mut().enumerate() {
                ds.push(format!("d{}_{}", i, j));
                *x += F::var(ds.last().unwrap());
            }
        }
        let label = "no strategy makes a false claim accepted";
        let value = |k: usize, j: usize| crate::sym::var_value(&format!("leaf{}_{}", k, j), 77);
        // which challenges does the transcript draw after which message
        let logged = |p: Proof<F, PC<F>>| {
            let l = sess::with(|s| s.fs_log.len());
            let _ = sess::with_draws(&[], || wd.verify(p, &base, &wd.comms));
            (l, sess::with(|s| s.fs_log.len()))
        };
        let p0 = sess::concretely(|| sess::with_draws(&[], || wd.prove()));
        let (mut pf, mut pq) = (p0.clone(), p0.clone());
        pf.f_commit.p[0] += F::one();
        pq.q_evals.iter_mut().for_each(|x| *x += F::one());
        let l0 = sess::concretely(|| logged(p0.clone()));
        let (lf, lq) = sess::concretely(|| (logged(pf), logged(pq)));
        let draws = l0.1 - l0.0;
        let before = |l: (usize, usize)| -> Vec<usize> {
            let dep = sess::dependent(l0, l);
            (0..draws).filter(|k| !dep.contains(&format!("ch_d{}", k))).collect()
        };
        let (bf, bq) = (before(lf), before(lq));
        // challenges in groups: drawn before the first message, between, after
        let group = |k: usize| match (bf.contains(&k), bq.contains(&k)) {
            (true, _) => 0,
            (false, true) => 1,
            _ => 2,
        };
        let sets = p0.q_evals.len();
        let nf = p0.f_commit.p.len().max(self.n);
        let many = [ds.len() + 1, nf + 5, sets + 2];
        let (mut aux, mut res, mut all) = (vec![], vec![], true);
        let mut paths = vec![];
        for a in 0..many[0] {
            for b in 0..if (0..draws).any(|k| group(k) == 1) { many[1] } else { 1 } {
                for c in 0..if (0..draws).any(|k| group(k) == 2) { many[2] } else { 1 } {
                    paths.push([a, b, c]);
                }
            }
        }
        let mut seen = std::collections::BTreeSet::new();
        for path in paths {
            let idx: Vec<usize> = (0..draws)
                .map(|k| match group(k) {
                    0 => path[0],
                    1 => path[0] * 100 + path[1],
                    _ => (path[0] * 100 + path[1]) * 100 + path[2],
                })
                .collect();
            let force: Vec<(usize, ark_bls12_381::Fr)> = (0..draws).map(|k| (k, value(k, idx[k]))).collect();
            let key = |b: &[usize]| b.iter().map(|k| format!("_{}", idx[*k])).collect::<String>();
            let mut proof = sess::concretely(|| sess::with_draws(&force, || wd.prove()));
            let mut aux_var = |n: String| -> F {
                let v = F::var(&n);
                if seen.insert(n.clone()) {
                    aux.push(n);
                }
                v
            };
            let (kf, kq) = (key(&bf), key(&bq));
            proof.f_commit.p.resize(nf, F::zero());
            for (j, x) in proof.f_commit.p.iter_mut().enumerate() {
                *x += aux_var(format!("f{}_{}", kf, j));
            }
            for (j, x) in proof.q_evals.iter_mut().enumerate() {
                *x += aux_var(format!("q{}_{}", kq, j));
            }
            proof.opening_proof.w = vec![];
            let n0 = sess::with(|s| s.checks.len());
            let r = sess::with_draws(&force, || wd.verify(proof, &ev, &wd.comms));
            if sess::with(|s| s.checks.len()) == n0 {
                sess::fact(label, r.is_err(), format!("{:?}", r));
                return;
            }
            let np = sess::with(|s| s.last_check_main);
            let val = veval(&sess::last_check::<F>()[..np], sess::last_point::<F>());
            all &= val.is_zero();
            res.push(val);
        }
        sess::must_reject_whatever(label, all, "accepted for every sampled challenge".into(), res, &ds, &["none".into()], &aux);
    }
}
impl Case for Strategy {
    fn id(&self) -> String {
        format!("multiopen/{}_n{}/strategy", self.name, self.n)
    }
    fn bound(&self) -> String {
        format!("{} oracles of {} sample coefficients, all false claims, all messages per challenge prefix", self.specs.len(), self.n)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        self.body::<F>()
    }
}
pub fn cases(thorough: bool) -> Cases {
    let shapes: Vec<(&'static str, usize, Vec<Spec>)> = vec![
        ("single", 4, vec![spec(&[0], true)]),
        ("same_set", 4, vec![spec(&[0, 1], true), spec(&[0, 1], true), spec(&[0, 1], false)]),
        ("nested", 4, vec![spec(&[0], true), spec(&[0, 1], true), spec(&[-1, 0, 1], false)]),
        ("mixed", 8, vec![spec(&[0], true), spec(&[0, 3], true), spec(&[0], false), spec(&[-2, 0], true), spec(&[1], false)]),
        ("disjoint", 4, vec![spec(&[0], true), spec(&[1], true), spec(&[-1], true), spec(&[2], true)]),
    ];
    let mut v: Cases = vec![];
    let mut shapes = shapes;
    // twelve oracles, eleven point sets
    let sets: [&[i32]; 12] = [&[0], &[1], &[2], &[0, 1], &[-1, 2], &[3], &[0, 2], &[0], &[1, 2], &[0, 1, 2], &[1, 3, 2], &[0, 1, 2, 3]];
    shapes.push(("many", 4, sets.iter().enumerate().map(|(i, s)| spec(s, i % 3 > 0)).collect()));
    for k in 0..if thorough { 12 } else { 4 } {
        let mut d = crate::circ::Dice::new(k, vec![0, 1, -1, 2, 3, -2, 5, -5, 7][..if k < 6 { 6 } else { 8 }].to_vec());
        let n = if k < 6 { 8 } else { 16 };
        let specs = (0..3 + d.roll(5))
            .map(|_| {
                let mut r: Vec<i32> = (0..1 + d.roll(4)).map(|_| d.rot()).collect();
                r.sort();
                r.dedup();
                spec(&r, d.roll(3) > 0)
            })
            .collect();
        shapes.push((["gen0", "gen1", "gen2", "gen3", "gen4", "gen5", "gen6", "gen7", "gen8", "gen9", "gen10", "gen11"][k as usize], n, specs));
    }
    for (name, n, specs) in shapes {
        let big = specs.len() > 4;
        for what in [What::Honest, What::Evals, What::QEvals, What::FCommit, What::Commitments, What::Opening, What::Truncated, What::Extended] {
            if what == What::Truncated && (specs.len() == 1 || n == 16) {
                continue;
            }
            v.push(Box::new(Multi { name, n, specs: specs.clone(), what }));
        }
        if n == 4 && !big {
            v.push(Box::new(Strategy { name, n, specs }));
        }
    }
    if thorough {
        v.push(Box::new(Strategy { name: "mixed", n: 4, specs: vec![spec(&[0], true), spec(&[0, 3], true), spec(&[0], false), spec(&[-2, 0], true), spec(&[1], false)] }));
        v.push(Box::new(Strategy { name: "single", n: 8, specs: vec![spec(&[0], true)] }));
        v.push(Box::new(Strategy { name: "pair", n: 8, specs: vec![spec(&[0, 1], true), spec(&[0], true)] }));
        let big = vec![spec(&[0, 1, 2, 3], true), spec(&[0, 1, 2, 3], true), spec(&[-1, 0], false), spec(&[-3, 0, 5], true), spec(&[0], true), spec(&[0], false)];
        for what in [What::Honest, What::Evals, What::QEvals, What::FCommit, What::Commitments, What::Opening, What::Truncated, What::Extended] {
            v.push(Box::new(Multi { name: "wide", n: 16, specs: big.clone(), what }));
        }
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "Multiopen::prove and Multiopen::verify are executed on oracles with symbolic coefficients, opening point and challenges. Honest openings: the final check is an identity decided by the solver. False claims: every claimed value is shifted by its own free perturbation; the solver shows that the final check (a linear form in the perturbations whose coefficients are functions of the challenges) cannot vanish for any non-zero perturbation at all sampled challenges.",
    functions: &["Multiopen::prove", "Multiopen::verify", "PIOP::{init_prover,prover_first_round,prover_second_round,prover_third_round}", "construct_lagrange_basis", "construct_vanishing", "Rotation::compute_evaluation_point"],
    bounds: &["strategies: all false claims and all adaptive messages over a tree of sampled challenges (one more branch per level than unknowns)", "false-claim queries hold for all perturbation values at the sampled challenge points; by Schwartz-Zippel the accepting challenges are a proper algebraic subset"],
    assumptions: &["ideal homomorphic commitment: equality of commitments is equality of polynomials"],
};
#[allow(dead_code)]
fn _u<F: PrimeField>(x: F) -> bool {
    x.is_zero()
}
