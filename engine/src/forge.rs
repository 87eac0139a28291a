//! The verifier's combined identity, looked at row by row.
//!
//! A proof of the right shape is obtained from the real prover on sample
//! values.  Its claimed evaluations are then replaced by the evaluations of
//! arbitrary columns (all cells symbolic) and the real verifier is executed
//! on it; the quantity it compares with zero, taken at a row of the domain,
//! is the combination of all constraints on that row.
use crate::circ::*;
use crate::driver::guarded;
use crate::env::veval;
use crate::sess::{self, VF};
use ark_bls12_381::Fr;
use ark_ff::{Field, FftField, One, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain, Polynomial, UVPolynomial};
use std::collections::BTreeMap;
use zero_over_k::error::Error;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Pool {
    W,
    X,
    T,
    S,
    Q,
    /// permuted lookup columns: 2 per lookup
    L,
    LZ,
    Z,
    C,
}
#[derive(Clone, Debug)]
pub struct Slot {
    pub pool: Pool,
    pub idx: usize,
    pub rot: usize,
}
/// rows of every committed column (and of the public ones)
#[derive(Clone)]
pub struct Cells<F> {
    pub cols: BTreeMap<(Pool, usize), Vec<F>>,
    pub inst: Vec<Vec<F>>,
}
pub fn lists<F: VF>(p: &mut Proof<F>) -> Vec<(Pool, Vec<&mut F>)> {
    vec![
        (Pool::W, p.witness_evals.iter_mut().collect()),
        (Pool::X, p.fixed_oracle_evals.iter_mut().collect()),
        (Pool::T, p.table_oracle_evals.iter_mut().collect()),
        (Pool::S, p.permutation_oracle_evals.iter_mut().collect()),
        (Pool::Q, vec![&mut p.q_blind_eval]),
        (Pool::L, p.lookup_evals.iter_mut().collect()),
        (Pool::LZ, p.lookup_z_evals.iter_mut().collect()),
        (Pool::Z, p.z_evals.iter_mut().collect()),
        (Pool::C, p.quotient_chunks_evals.iter_mut().collect()),
    ]
}
pub fn shape_of(c: &Circuit) -> String {
    c.name.clone()
}
pub struct Forge<F: VF> {
    pub cr: Circuit,
    pub a: Assign<F>,
    pub proof: Proof<F>,
    pub polys: BTreeMap<(Pool, usize), Vec<F>>,
    pub slots: Vec<Slot>,
    /// draw index of the evaluation challenge in the verifier
    pub xi: usize,
    pub ndraws: usize,
    /// values of the draws in the sample run
    pub draws: Vec<Fr>,
    /// draw indices of the challenges with a role, chunk width of the copy
    /// argument, first power and order used to compress lookups
    pub beta: usize,
    pub gamma: usize,
    pub theta: usize,
    pub width: usize,
    pub first: usize,
    pub rev: bool,
}
pub fn omega<F: VF>(n: usize) -> GeneralEvaluationDomain<F> {
    GeneralEvaluationDomain::new(n).unwrap()
}
fn powers<F: VF>(theta: F, first: usize, rev: bool, k: usize) -> Vec<F> {
    let mut v: Vec<F> = (0..k).map(|i| theta.pow([(i + first) as u64])).collect();
    if rev {
        v.reverse();
    }
    v
}
/// all constraints of the circuit on row i
pub struct Ref<'a, F: VF> {
    pub cr: &'a Circuit,
    pub width: usize,
    pub beta: F,
    pub gamma: F,
    pub theta: F,
    pub first: usize,
    pub rev: bool,
}
impl<'a, F: VF> Ref<'a, F> {
    pub fn row(&self, c: &Cells<F>, i: usize) -> Vec<(String, F)> {
        let n = self.cr.n;
        let u = self.cr.u;
        let d = omega::<F>(n);
        let at = |p: Pool, k: usize, r: i64| c.cols[&(p, k)][r.rem_euclid(n as i64) as usize];
        let g = |e: &G, i: usize| -> F {
            e.eval(&|k, col, r| match k {
                K::W => at(Pool::W, col, i as i64 + r as i64),
                K::X => at(Pool::X, col, i as i64 + r as i64),
                K::T => at(Pool::T, col, i as i64 + r as i64),
                K::I => c.inst[col][(i as i64 + r as i64).rem_euclid(n as i64) as usize],
            })
        };
        let mut out = vec![];
        for gt in self.cr.gates.iter() {
            out.push((format!("gate {}", gt.name), g(&gt.g, i)));
        }
        let pcols = self.cr.permuted();
        let de = self.cr.deltas::<F>();
        let ii = i as i64;
        if !pcols.is_empty() {
            let nz = (pcols.len() + self.width - 1) / self.width;
            for k in 0..nz {
                if i < u {
                    let (mut l, mut r) = (at(Pool::Z, k, ii + 1), at(Pool::Z, k, ii));
                    for j in k * self.width..((k + 1) * self.width).min(pcols.len()) {
                        let w = at(Pool::W, pcols[j], ii);
                        l *= w + self.beta * at(Pool::S, j, ii) + self.gamma;
                        r *= w + self.beta * de[j] * d.element(i) + self.gamma;
                    }
                    out.push((format!("copy product {}", k), l - r));
                }
                if i == 0 && k + 1 < nz {
                    out.push((
                        format!("copy stitch {}", k),
                        at(Pool::Z, k + 1, 0) - at(Pool::Z, k, u as i64),
                    ));
                }
            }
            if i == 0 {
                out.push(("copy start".into(), F::one() - at(Pool::Z, 0, 0)));
            }
            if i == u {
                let z = at(Pool::Z, nz - 1, ii);
                out.push(("copy end".into(), z * z - z));
            }
        }
        for (l, lk) in self.cr.lookups.iter().enumerate() {
            let ps = powers(self.theta, self.first, self.rev, lk.exprs.len());
            let a: F = lk.exprs.iter().zip(&ps).map(|(e, p)| g(e, i) * p).sum();
            let s: F = lk.tables.iter().zip(&ps).map(|(t, p)| at(Pool::T, *t, ii) * p).sum();
            let (ap, sp) = (at(Pool::L, 2 * l, ii), at(Pool::L, 2 * l + 1, ii));
            let ap_prev = at(Pool::L, 2 * l, ii - 1);
            let z = at(Pool::LZ, l, ii);
            if i < u {
                let zn = at(Pool::LZ, l, ii + 1);
                out.push((
                    format!("lookup product {}", l),
                    zn * (ap + self.beta) * (sp + self.gamma) - z * (a + self.beta) * (s + self.gamma),
                ));
                // on row 0 it follows from the "first" constraint
                let pre = if i > 0 { "" } else { "(implied) " };
                out.push((format!("{}lookup neighbour {}", pre, l), (ap - sp) * (ap - ap_prev)));
            }
            if i == 0 {
                out.push((format!("lookup start {}", l), F::one() - z));
                out.push((format!("lookup first {}", l), ap - sp));
            }
            if i == u {
                out.push((format!("lookup end {}", l), z * z - z));
            }
        }
        out
    }
}

impl<F: VF> Forge<F> {
    /// run the real prover on sample values and work out which claimed
    /// evaluation and which challenge is which
    pub fn new(cr: &Circuit) -> Result<Self, String> {
        let mut cand: Option<Vec<[usize; 6]>> = None;
        let mut last = None;
        // samples in which the honest columns do not tell the challenges
        // apart (e.g. nothing had to be moved) leave several candidates
        for salt in 0..12 {
            sess::with(|s| s.salt = salt);
            let r = guarded(|| sess::concretely(|| Self::make(cr)));
            sess::with(|s| {
                s.concrete = false;
                s.salt = 0;
            });
            let (f, c) = match r {
                Ok(r) => r?,
                Err(e) => return Err(format!("panic: {}", e)),
            };
            let c: Vec<[usize; 6]> = match cand {
                None => c,
                Some(o) => o.into_iter().filter(|x| c.contains(x)).collect(),
            };
            last = Some(f);
            let done = c.len() <= 1;
            cand = Some(c);
            if done {
                break;
            }
        }
        let mut f = last.unwrap();
        let cand = cand.unwrap();
        if cand.is_empty() {
            return Err("the honest columns satisfy the reference constraints for no choice of challenges".into());
        }
        // honest columns cannot tell some roles apart (columns copied nowhere
        // fit in any product): the verifier's value on arbitrary ones does
        f.set(&cand[0]);
        if cand.len() > 1 {
            for c in &cand {
                f.set(c);
                if f.explains() {
                    return Ok(f);
                }
            }
            f.set(&cand[0]);
        }
        Ok(f)
    }
    /// is the verifier's value on one more sample of arbitrary columns a
    /// combination of the reference constraints?
    fn explains(&self) -> bool {
        let seed = sess::with(|s| s.seed);
        let val = |k: usize| sess::concrete_value(&format!("draw{}", k), seed);
        let fixed: Vec<(usize, Fr)> = (0..self.xi).map(|k| (k, val(k))).collect();
        let r = self.reference(F::of(val(self.beta)), F::of(val(self.gamma)), F::of(val(self.theta)));
        self.cr.rows_in_zh().into_iter().all(|i| {
            let sample = |s: usize| -> Option<(Vec<Fr>, Fr)> {
                let cells = self.cells(&|n| F::of(sess::concrete_value(&format!("s{}_{}", s, n), seed)));
                let v = self.row_value(&cells, i, &fixed).ok()?;
                Some((r.row(&cells, i).iter().map(|x| x.1.peek()).collect(), v.peek()))
            };
            let k = match sample(0) {
                Some((t, _)) => t.len(),
                None => return false,
            };
            let all: Option<Vec<(Vec<Fr>, Fr)>> = (0..k + 1).map(sample).collect();
            let all = match all {
                Some(a) => a,
                None => return false,
            };
            let inv = match invert(&all[..k].iter().map(|x| x.0.clone()).collect::<Vec<_>>()) {
                Some(m) => m,
                None => return false,
            };
            let w: Vec<Fr> = (0..k).map(|j| (0..k).map(|s| inv[j][s] * all[s].1).sum()).collect();
            (0..k).map(|j| w[j] * all[k].0[j]).sum::<Fr>() == all[k].1
        })
    }
    fn set(&mut self, c: &[usize; 6]) {
        self.beta = c[0];
        self.gamma = c[1];
        self.theta = c[2];
        self.width = c[3];
        self.first = c[4];
        self.rev = c[5] == 1;
    }
    fn make(cr: &Circuit) -> Result<(Self, Vec<[usize; 6]>), String> {
        let a = cr.fill::<F>();
        let n = cr.n;
        let mut p = ProverSide::<F>::new(cr, &a);
        let mut proof = p.prove().map_err(|e| format!("prove: {:?}", e))?;
        // the verifier's draws
        let mut vs = VerifierSide::<F>::new(cr, &a);
        let before = sess::with(|s| s.fs_log.len());
        vs.verify(proof.clone()).map_err(|e| format!("verify: {:?}", e))?;
        let (names, seed) = sess::with(|s| {
            (
                s.fs_log[before..].iter().map(|e| e.challenge.clone()).collect::<Vec<_>>(),
                s.seed ^ (s.salt << 32),
            )
        });
        let draws: Vec<Fr> = names.iter().map(|n| sess::concrete_value(n, seed)).collect();
        let d = omega::<F>(n);
        let mut polys: BTreeMap<(Pool, usize), Vec<F>> = BTreeMap::new();
        let mut put = |p: Pool, i: usize, v: Vec<F>| {
            polys.insert((p, i), v);
        };
        let col = |k: K, i: usize| -> Vec<F> { (0..n).map(|r| a.cells[&(k, i, r)]).collect() };
        for i in 0..cr.wit.len() {
            put(Pool::W, i, d.ifft(&col(K::W, i)));
        }
        for i in 0..cr.fixed {
            put(Pool::X, i, d.ifft(&col(K::X, i)));
        }
        for i in 0..cr.tables {
            put(Pool::T, i, d.ifft(&col(K::T, i)));
        }
        for (i, e) in cr.sigma_evals::<F>().iter().enumerate() {
            put(Pool::S, i, d.ifft(e));
        }
        put(Pool::Q, 0, d.ifft(&cr.q_blind_evals::<F>()));
        let cms = |v: &Vec<crate::env::Comm<F>>| v.iter().map(|c| c.p.clone()).collect::<Vec<_>>();
        for (pool, list) in [
            (Pool::L, cms(&proof.lookup_commitments)),
            (Pool::LZ, cms(&proof.lookup_z_commitments)),
            (Pool::Z, cms(&proof.z_commitments)),
            (Pool::C, cms(&proof.quotient_chunk_commitments)),
        ] {
            for (i, mut v) in list.into_iter().enumerate() {
                while v.len() < n {
                    v.push(F::zero());
                }
                put(pool, i, v);
            }
        }
        // evaluation challenge
        let ce: Vec<F> = proof.quotient_chunks_evals.clone();
        let xi = (0..draws.len())
            .find(|k| {
                ce.iter()
                    .enumerate()
                    .all(|(i, e)| polys.get(&(Pool::C, i)).map_or(false, |p| veval(p, F::of(draws[*k])) == *e))
            })
            .ok_or("no challenge explains the claimed quotient evaluations")?;
        let x = F::of(draws[xi]);
        let mut slots = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for (pool, l) in lists(&mut proof) {
            for (pos, e) in l.iter().enumerate() {
                let mut hit = None;
                for ((pl, idx), p) in polys.iter().filter(|((pl, _), _)| *pl == pool) {
                    for rot in 0..n {
                        if hit.is_none() && veval(p, x * d.element(rot)) == **e && (*pl != Pool::C || !seen.contains(idx)) {
                            if *pl == Pool::C {
                                // pieces beyond the quotient's degree look alike
                                seen.insert(*idx);
                            }
                            hit = Some(Slot { pool: *pl, idx: *idx, rot });
                        }
                    }
                }
                slots.push(hit.ok_or(format!("claimed evaluation {:?}#{} is of no committed column", pool, pos))?);
            }
        }
        let rows = |p: &Vec<F>| -> Vec<F> { d.fft(p) };
        let cells = Cells {
            cols: polys
                .iter()
                .filter(|((p, _), _)| *p != Pool::C)
                .map(|(k, p)| (*k, rows(p)))
                .collect(),
            inst: (0..cr.inst).map(|i| col(K::I, i)).collect(),
        };
        let mut f = Forge {
            cr: cr.clone(),
            a,
            proof,
            polys,
            slots,
            xi,
            ndraws: draws.len(),
            draws,
            beta: 0,
            gamma: 0,
            theta: 0,
            width: 1,
            first: 0,
            rev: false,
        };
        // roles: the assignment under which the honest columns satisfy every row
        let np = cr.permuted().len();
        let nz = f.proof.z_commitments.len();
        let mut out = vec![];
        let arity = cr.lookups.iter().map(|l| l.exprs.len()).max().unwrap_or(0);
        for beta in 0..xi {
            for gamma in 0..xi {
                for theta in 0..xi {
                    for width in 1..=np.max(1) {
                        for first in 0..2 {
                            for rev in 0..2 {
                                if (np > 0 || arity > 0) && beta == gamma
                                    || np == 0 && arity == 0 && (beta > 0 || gamma > 0)
                                    || np > 0 && (np + width - 1) / width != nz
                                    || arity == 0 && (theta > 0 || first > 0)
                                    || arity < 2 && (rev > 0 || first == 0 && theta > 0)
                                    || arity > 0 && !(arity == 1 && first == 0) && (theta == beta || theta == gamma)
                                {
                                    continue;
                                }
                                let c = [beta, gamma, theta, width, first, rev];
                                f.set(&c);
                                let rf = f.reference(F::of(f.draws[beta]), F::of(f.draws[gamma]), F::of(f.draws[theta]));
                                if (0..n).filter(|i| !cr.zh_skip.contains(i)).all(|i| rf.row(&cells, i).iter().all(|t| t.1.is_zero())) {
                                    out.push(c);
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok((f, out))
    }
    pub fn reference(&self, beta: F, gamma: F, theta: F) -> Ref<F> {
        Ref { cr: &self.cr, width: self.width, beta, gamma, theta, first: self.first, rev: self.rev }
    }
    /// fresh columns; `var` names each cell
    pub fn cells(&self, var: &dyn Fn(&str) -> F) -> Cells<F> {
        let n = self.cr.n;
        let sig = self.cr.sigma_evals::<F>();
        let qb = self.cr.q_blind_evals::<F>();
        Cells {
            cols: self
                .polys
                .keys()
                .filter(|(p, _)| *p != Pool::C)
                .map(|(p, i)| {
                    let v = (0..n)
                        .map(|r| match p {
                            Pool::S => sig[*i][r],
                            Pool::Q => qb[r],
                            Pool::X => match self.cr.consts.get(&(K::X, *i, r)) {
                                Some(v) => fi(*v),
                                None => var(&format!("{:?}{}_{}", p, i, r)),
                            },
                            _ => var(&format!("{:?}{}_{}", p, i, r)),
                        })
                        .collect();
                    ((*p, *i), v)
                })
                .collect(),
            inst: (0..self.cr.inst)
                .map(|i| (0..n).map(|r| var(&format!("I{}_{}", i, r))).collect())
                .collect(),
        }
    }
    /// what the verifier compares with zero for these columns at challenge x,
    /// the claimed quotient chunk evaluations being `chunks`
    pub fn residue(
        &self,
        c: &Cells<F>,
        x: F,
        force: &[(usize, Fr)],
        chunks: &[F],
    ) -> Result<F, String> {
        let d = omega::<F>(self.cr.n);
        let polys: BTreeMap<(Pool, usize), Vec<F>> =
            c.cols.iter().map(|(k, v)| (*k, d.ifft(v))).collect();
        let mut proof = self.proof.clone();
        let mut i = 0;
        for (_, l) in lists(&mut proof) {
            for e in l {
                let s = &self.slots[i];
                *e = match s.pool {
                    Pool::C => chunks[s.idx],
                    _ => veval(&polys[&(s.pool, s.idx)], x * d.element(s.rot)),
                };
                i += 1;
            }
        }
        let mut a = self.a.clone();
        for (col, v) in c.inst.iter().enumerate() {
            for (r, x) in v.iter().enumerate() {
                a.cells.insert((K::I, col, r), *x);
            }
        }
        let mut vs = VerifierSide::<F>::new(&self.cr, &a);
        let r = guarded(|| sess::with_draws(force, || vs.verify(proof)));
        sess::with(|s| {
            s.by_draw = None;
            s.force.clear();
        });
        match r {
            Err(e) => Err(e),
            Ok(Err(Error::QuotientNotZero)) => {
                if F::SYM {
                    Ok(sess::last_nonzero::<F>()[0])
                } else {
                    Ok(F::one())
                }
            }
            Ok(_) => Ok(F::zero()),
        }
    }
    pub fn zero_chunks(&self) -> Vec<F> {
        vec![F::zero(); self.proof.quotient_chunks_evals.len()]
    }
    /// combined constraint value on row i (up to a constant factor)
    pub fn row_value(&self, c: &Cells<F>, i: usize, force: &[(usize, Fr)]) -> Result<F, String> {
        let n = self.cr.n;
        let d = omega::<Fr>(n);
        let mut fc = force.to_vec();
        fc.push((self.xi, d.element(i)));
        if std::env::var("ZOKV_INTERP").is_err() {
            if let Ok(v) = self.residue(c, F::of(d.element(i)), &fc, &self.zero_chunks()) {
                return Ok(v);
            }
        }
        // not computable at a row: interpolate from points outside the domain
        let deg = 8 * n;
        let e = omega::<Fr>(deg);
        let g = <Fr as FftField>::multiplicative_generator();
        let mut vals = vec![];
        let zh = self.cr.zh::<Fr>();
        for k in 0..deg {
            let x = g * e.element(k);
            let mut fc = force.to_vec();
            fc.push((self.xi, x));
            let r0 = self.residue(c, F::of(x), &fc, &self.zero_chunks())?;
            let mut ch = self.zero_chunks();
            ch[0] = F::one();
            let r1 = self.residue(c, F::of(x), &fc, &ch)?;
            let s = (r0 - r1).peek();
            let k = zh.evaluate(&x) * s.inverse().ok_or("the quotient does not enter the identity")?;
            vals.push(r0 * F::of(k));
        }
        let ee = omega::<F>(deg);
        let co = ee.ifft(&vals);
        let y = F::of(d.element(i) * g.inverse().unwrap());
        Ok(veval(&co, y))
    }
}
pub fn invert(m: &[Vec<Fr>]) -> Option<Vec<Vec<Fr>>> {
    let n = m.len();
    let mut a: Vec<Vec<Fr>> = m
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let mut r = r.clone();
            r.extend((0..n).map(|j| if i == j { Fr::one() } else { Fr::zero() }));
            r
        })
        .collect();
    for c in 0..n {
        let p = (c..n).find(|r| !a[*r][c].is_zero())?;
        a.swap(c, p);
        let inv = a[c][c].inverse().unwrap();
        for x in a[c].iter_mut() {
            *x *= inv;
        }
        for r in 0..n {
            if r != c && !a[r][c].is_zero() {
                let f = a[r][c];
                for k in 0..2 * n {
                    let t = a[c][k] * f;
                    a[r][k] -= t;
                }
            }
        }
    }
    Some(a.into_iter().map(|r| r[n..].to_vec()).collect())
}
#[allow(unused)]
fn _p<F: VF>(v: Vec<F>) -> DensePolynomial<F> {
    DensePolynomial::from_coefficients_vec(v)
}
