//! Environment stubs: Fiat-Shamir RNG, zk randomness, ideal polynomial
//! commitment.  They are generic, so the same stubs serve symbolic execution
//! and native replay.
use crate::sess::{self, FsEvent};
use ark_ff::{PrimeField, ToBytes, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{Polynomial, UVPolynomial};
use ark_poly_commit::*;
use ark_serialize::*;
use ark_std::rand::{RngCore, SeedableRng};
use digest::{FixedOutputDirty, Reset, Update};
use std::io::{Read, Write};
use zero_over_k::commitment::HomomorphicCommitment;
use zero_over_k::rng::SimpleHashFiatShamirRng;

/// The transcript: the shipped construction over an ideal hash and an ideal
/// expander.  The k-th draw after a given chain of hashed messages is an
/// unconstrained variable that depends on exactly that chain and k.
pub type SymFS = SimpleHashFiatShamirRng<TokDigest, TokRng>;

/// Ideal (injective) hash: equal inputs <=> equal outputs.
#[derive(Clone, Default)]
pub struct TokDigest(Vec<u8>);
impl Update for TokDigest {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.0.extend_from_slice(d.as_ref());
    }
}
impl Reset for TokDigest {
    fn reset(&mut self) {
        self.0.clear();
    }
}
impl FixedOutputDirty for TokDigest {
    type OutputSize = digest::consts::U32;
    fn finalize_into_dirty(&mut self, out: &mut digest::Output<Self>) {
        let b = std::mem::take(&mut self.0);
        let t = sess::with(|s| {
            if let Some(t) = s.digest_ids.get(&b) {
                return *t;
            }
            let mut t = [0xd1u8; 32];
            t[..8].copy_from_slice(&(s.digest_ids.len() as u64).to_le_bytes());
            t[31] = 0xfd;
            // what was hashed before, then the rest of the message
            let at = (0..(b.len() + 1).saturating_sub(32)).rev().find(|i| {
                b[i + 31] == 0xfd && s.digest_hist.contains_key(&b[*i..i + 32])
            });
            let mut h = vec![];
            let mut rest = b.clone();
            if let Some(i) = at {
                h = s.digest_hist[&b[i..i + 32]].clone();
                rest = [&b[..i], &b[i + 32..]].concat();
            }
            h.push(rest);
            s.digest_hist.insert(t.to_vec(), h);
            s.digest_ids.insert(b, t);
            t
        });
        out.copy_from_slice(&t);
    }
}

/// Ideal expander of a seed.
pub struct TokRng {
    hist: Vec<Vec<u8>>,
    draw: usize,
    buf: Vec<u64>,
}
impl SeedableRng for TokRng {
    type Seed = [u8; 32];
    fn from_seed(t: [u8; 32]) -> Self {
        let hist = sess::with(|s| s.digest_hist.get(&t[..]).cloned()).unwrap_or_else(|| vec![t.to_vec()]);
        TokRng { hist, draw: 0, buf: vec![] }
    }
}
impl TokRng {
    fn key(&self) -> Vec<u8> {
        let mut k = vec![];
        for h in &self.hist {
            k.extend_from_slice(&(h.len() as u64).to_le_bytes());
            k.extend_from_slice(h);
        }
        k.extend_from_slice(&(self.draw as u64).to_le_bytes());
        k
    }
}
impl RngCore for TokRng {
    fn next_u32(&mut self) -> u32 {
        unimplemented!("u32 draw from transcript")
    }
    fn next_u64(&mut self) -> u64 {
        if self.buf.is_empty() {
            let key = self.key();
            let name = sess::with(|s| {
                if let Some(k) = s.by_draw.as_mut() {
                    *k += 1;
                    return format!("ch_d{}", *k - 1);
                }
                let n = s.fs_index.len();
                let i = *s.fs_index.entry(key).or_insert(n);
                format!("ch{}", i)
            });
            let ev = FsEvent {
                challenge: name.clone(),
                history: self.hist.clone(),
                draw: self.draw,
            };
            sess::with(|s| s.fs_log.push(ev));
            self.draw += 1;
            let mut l = sess::var_limbs(&name).to_vec();
            l.reverse();
            self.buf = l;
        }
        self.buf.pop().unwrap()
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        unimplemented!("byte draw from transcript")
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        unimplemented!("byte draw from transcript")
    }
}

/// Randomness stub: every field element drawn is a fresh variable `rnd<i>`.
pub struct VarRng {
    prefix: String,
    n: usize,
    buf: Vec<u64>,
}
impl VarRng {
    pub fn new(prefix: &str) -> Self {
        VarRng { prefix: prefix.into(), n: 0, buf: vec![] }
    }
}
impl RngCore for VarRng {
    fn next_u32(&mut self) -> u32 {
        unimplemented!()
    }
    fn next_u64(&mut self) -> u64 {
        if self.buf.is_empty() {
            let name = format!("rnd_{}{}", self.prefix, self.n);
            self.n += 1;
            let mut l = sess::var_limbs(&name).to_vec();
            l.reverse();
            self.buf = l;
        }
        self.buf.pop().unwrap()
    }
    fn fill_bytes(&mut self, _: &mut [u8]) {
        unimplemented!()
    }
    fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        unimplemented!()
    }
}

// ---------------------------------------------------------------- ideal PC
#[derive(Debug)]
pub enum PcErr {
    TooManyCoefficients,
    MissingRng,
    Inner(ark_poly_commit::Error),
    TrimmingDegreeTooLarge,
    HidingBoundIsZero,
    HidingBoundTooLarge,
}
impl std::fmt::Display for PcErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl ark_std::error::Error for PcErr {}
impl From<ark_poly_commit::Error> for PcErr {
    fn from(e: ark_poly_commit::Error) -> Self {
        PcErr::Inner(e)
    }
}

#[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
pub struct Key {
    pub max_degree: u64,
    /// largest hiding bound commitments may have
    pub hiding: u64,
}
impl PCUniversalParams for Key {
    fn max_degree(&self) -> usize {
        self.max_degree as usize
    }
}
impl PCCommitterKey for Key {
    fn max_degree(&self) -> usize {
        self.max_degree as usize
    }
    fn supported_degree(&self) -> usize {
        self.max_degree as usize
    }
}
impl PCVerifierKey for Key {
    fn max_degree(&self) -> usize {
        self.max_degree as usize
    }
    fn supported_degree(&self) -> usize {
        self.max_degree as usize
    }
}
impl PCPreparedVerifierKey<Key> for Key {
    fn prepare(vk: &Key) -> Self {
        vk.clone()
    }
}

/// Ideal homomorphic commitment: the committed polynomial together with its
/// blinding polynomial.  Equality of commitments is equality of both (this is
/// what evaluation at a secret point with a second generator gives generically).
#[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
pub struct Comm<F: PrimeField> {
    pub p: Vec<F>,
    pub r: Vec<F>,
}
pub fn trim_zeros<F: PrimeField>(v: &[F]) -> &[F] {
    let mut n = v.len();
    while n > 0 && v[n - 1].is_zero() {
        n -= 1;
    }
    &v[..n]
}
impl<F: PrimeField> ToBytes for Comm<F> {
    fn write<W: Write>(&self, mut w: W) -> std::io::Result<()> {
        use digest::Digest;
        let mut toks = vec![];
        for part in [trim_zeros(&self.p), trim_zeros(&self.r)] {
            let mut l = [0u8; 32];
            l[0] = part.len() as u8;
            l[31] = 0xfe;
            toks.push(l);
            for x in part {
                let mut b = vec![];
                x.write(&mut b)?;
                let mut t = [0u8; 32];
                t.copy_from_slice(&b);
                toks.push(t);
            }
        }
        let mut h = blake2::Blake2s::new();
        for t in &toks {
            Update::update(&mut h, t);
        }
        let mut d = [0u8; 32];
        d.copy_from_slice(&h.finalize());
        sess::with(|s| s.comm_tokens.insert(d, toks));
        w.write_all(&d)
    }
}
impl<F: PrimeField> PCCommitment for Comm<F> {
    fn empty() -> Self {
        Comm { p: vec![], r: vec![] }
    }
    fn has_degree_bound(&self) -> bool {
        false
    }
    fn size_in_bytes(&self) -> usize {
        48
    }
}
impl<F: PrimeField> PCPreparedCommitment<Comm<F>> for Comm<F> {
    fn prepare(c: &Comm<F>) -> Self {
        c.clone()
    }
}
#[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
pub struct Rand<F: PrimeField> {
    pub r: Vec<F>,
}
impl<F: PrimeField> PCRandomness for Rand<F> {
    fn empty() -> Self {
        Rand { r: vec![] }
    }
    fn rand<R: RngCore>(q: usize, _: bool, _: Option<usize>, rng: &mut R) -> Self {
        Rand { r: (0..q + 1).map(|_| F::rand(rng)).collect() }
    }
}
/// Opening proof: quotient of the polynomial and of its blinding polynomial,
/// and the evaluation of the blinding polynomial.
#[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
pub struct Opening<F: PrimeField> {
    pub w: Vec<F>,
    pub wr: Vec<F>,
    pub rv: F,
}
impl<F: PrimeField> ToBytes for Opening<F> {
    fn write<W: Write>(&self, mut w: W) -> std::io::Result<()> {
        for x in self.w.iter().chain(self.wr.iter()).chain(Some(&self.rv)) {
            x.write(&mut w)?;
        }
        Ok(())
    }
}
impl<F: PrimeField> PCProof for Opening<F> {
    fn size_in_bytes(&self) -> usize {
        48
    }
}
#[derive(Clone)]
pub struct IdealPC<F: PrimeField>(std::marker::PhantomData<F>);

pub fn vadd<F: PrimeField>(a: &[F], b: &[F]) -> Vec<F> {
    let n = a.len().max(b.len());
    (0..n)
        .map(|i| {
            let mut x = F::zero();
            if i < a.len() {
                x += a[i];
            }
            if i < b.len() {
                x += b[i];
            }
            x
        })
        .collect()
}
pub fn vscale<F: PrimeField>(a: &[F], k: F) -> Vec<F> {
    a.iter().map(|x| *x * k).collect()
}
pub fn veval<F: PrimeField>(a: &[F], z: F) -> F {
    let mut acc = F::zero();
    for c in a.iter().rev() {
        acc = acc * z + *c;
    }
    acc
}
/// quotient of a(X) - a(z) by X - z
pub fn vdiv<F: PrimeField>(a: &[F], z: F) -> Vec<F> {
    if a.len() <= 1 {
        return vec![];
    }
    let mut q = vec![F::zero(); a.len() - 1];
    let mut carry = F::zero();
    for i in (0..a.len() - 1).rev() {
        carry = a[i + 1] + carry * z;
        q[i] = carry;
    }
    q
}
/// coefficients of c(X) - v - w(X) (X - z)
pub fn opening_residue<F: PrimeField>(c: &[F], v: F, w: &[F], z: F) -> Vec<F> {
    let mut neg_w_shift = vec![F::zero()];
    neg_w_shift.extend(w.iter().map(|x| -*x));
    let zw = vscale(w, z);
    let mut d = vadd(&vadd(c, &neg_w_shift), &zw);
    if d.is_empty() {
        d.push(F::zero());
    }
    d[0] -= v;
    d
}

impl<F: PrimeField> PolynomialCommitment<F, DensePolynomial<F>> for IdealPC<F> {
    type UniversalParams = Key;
    type CommitterKey = Key;
    type VerifierKey = Key;
    type PreparedVerifierKey = Key;
    type Commitment = Comm<F>;
    type PreparedCommitment = Comm<F>;
    type Randomness = Rand<F>;
    type Proof = Opening<F>;
    type BatchProof = Vec<Opening<F>>;
    type Error = PcErr;

    fn setup<R: RngCore>(d: usize, _: Option<usize>, _: &mut R) -> Result<Key, PcErr> {
        Ok(Key { max_degree: d as u64, hiding: d as u64 })
    }
    fn trim(pp: &Key, d: usize, hb: usize, _: Option<&[usize]>) -> Result<(Key, Key), PcErr> {
        if d as u64 > pp.max_degree || hb as u64 > pp.hiding {
            return Err(PcErr::TrimmingDegreeTooLarge);
        }
        let k = Key { max_degree: d as u64, hiding: hb as u64 };
        Ok((k.clone(), k))
    }
    fn commit<'a>(
        ck: &Key,
        polys: impl IntoIterator<Item = &'a LabeledPolynomial<F, DensePolynomial<F>>>,
        rng: Option<&mut dyn RngCore>,
    ) -> Result<(Vec<LabeledCommitment<Comm<F>>>, Vec<Rand<F>>), PcErr> {
        let mut rng = rng;
        let mut cs = vec![];
        let mut rs = vec![];
        for p in polys {
            let coeffs = p.polynomial().coeffs().to_vec();
            if coeffs.len() as u64 > ck.max_degree + 1 {
                return Err(PcErr::TooManyCoefficients);
            }
            for x in coeffs.iter() {
                sess::atom(x, p.label());
            }
            let r = match p.hiding_bound() {
                Some(0) => return Err(PcErr::HidingBoundIsZero),
                Some(hb) if hb as u64 > ck.hiding => return Err(PcErr::HidingBoundTooLarge),
                Some(hb) => {
                    let rng = rng.as_mut().ok_or(PcErr::MissingRng)?;
                    Rand { r: (0..hb + 1).map(|_| F::rand(&mut **rng)).collect() }
                }
                None => Rand { r: vec![] },
            };
            sess::with(|s| {
                s.commits.push((p.label().clone(), coeffs.len(), p.hiding_bound()))
            });
            cs.push(LabeledCommitment::new(
                p.label().clone(),
                Comm { p: coeffs, r: r.r.clone() },
                p.degree_bound(),
            ));
            rs.push(r);
        }
        Ok((cs, rs))
    }
    fn open_individual_opening_challenges<'a>(
        ck: &Key,
        polys: impl IntoIterator<Item = &'a LabeledPolynomial<F, DensePolynomial<F>>>,
        _c: impl IntoIterator<Item = &'a LabeledCommitment<Comm<F>>>,
        point: &'a F,
        ch: &dyn Fn(u64) -> F,
        rands: impl IntoIterator<Item = &'a Rand<F>>,
        _rng: Option<&mut dyn RngCore>,
    ) -> Result<Opening<F>, PcErr> {
        let mut p = vec![];
        let mut r = vec![];
        for (i, (q, rr)) in polys.into_iter().zip(rands).enumerate() {
            let k = ch(i as u64);
            p = vadd(&p, &vscale(q.polynomial().coeffs(), k));
            r = vadd(&r, &vscale(&rr.r, k));
        }
        if p.len() as u64 > ck.max_degree + 1 {
            return Err(PcErr::TooManyCoefficients);
        }
        sess::with(|s| s.opens += 1);
        Ok(Opening { w: vdiv(&p, *point), wr: vdiv(&r, *point), rv: veval(&r, *point) })
    }
    fn check_individual_opening_challenges<'a>(
        _vk: &Key,
        comms: impl IntoIterator<Item = &'a LabeledCommitment<Comm<F>>>,
        point: &'a F,
        values: impl IntoIterator<Item = F>,
        proof: &Opening<F>,
        ch: &dyn Fn(u64) -> F,
        _rng: Option<&mut dyn RngCore>,
    ) -> Result<bool, PcErr> {
        let mut p = vec![];
        let mut r = vec![];
        let mut v = F::zero();
        for (i, (c, val)) in comms.into_iter().zip(values).enumerate() {
            let k = ch(i as u64);
            p = vadd(&p, &vscale(&c.commitment().p, k));
            r = vadd(&r, &vscale(&c.commitment().r, k));
            v += val * k;
        }
        let mut res = opening_residue(&p, v, &proof.w, *point);
        let main = res.len();
        res.extend(opening_residue(&r, proof.rv, &proof.wr, *point));
        let ok = res.iter().all(|x| x.is_zero());
        sess::record_check(&res, point, main, ok);
        Ok(ok)
    }
    fn batch_check_individual_opening_challenges<'a, R: RngCore>(
        _vk: &Key,
        _c: impl IntoIterator<Item = &'a LabeledCommitment<Comm<F>>>,
        _q: &QuerySet<F>,
        _e: &Evaluations<F, F>,
        _p: &Vec<Opening<F>>,
        _ch: &dyn Fn(u64) -> F,
        _r: &mut R,
    ) -> Result<bool, PcErr>
    where
        Comm<F>: 'a,
    {
        unimplemented!()
    }
}
impl<F: PrimeField> HomomorphicCommitment<F> for IdealPC<F> {
    fn msm(c: &[Comm<F>], s: &[F]) -> Comm<F> {
        c.iter().zip(s).fold(Comm::empty(), |acc, (c, k)| {
            Self::add(&acc, &Self::scale_com(c, *k))
        })
    }
    fn neg_com(c: &Comm<F>) -> Comm<F> {
        Self::scale_com(c, -F::one())
    }
    fn scale_com(c: &Comm<F>, k: F) -> Comm<F> {
        Comm { p: vscale(&c.p, k), r: vscale(&c.r, k) }
    }
    fn add(a: &Comm<F>, b: &Comm<F>) -> Comm<F> {
        Comm { p: vadd(&a.p, &b.p), r: vadd(&a.r, &b.r) }
    }
    fn zero_comm() -> Comm<F> {
        Comm::empty()
    }
    fn is_zero(c: &Comm<F>) -> bool {
        c.p.iter().chain(c.r.iter()).all(|x| x.is_zero())
    }
    fn eq_cm(a: &Comm<F>, b: &Comm<F>) -> bool {
        Self::is_zero(&Self::add(a, &Self::neg_com(b)))
    }
    fn scale_rand(r: &Rand<F>, k: F) -> Rand<F> {
        Rand { r: vscale(&r.r, k) }
    }
    fn add_rands(a: &Rand<F>, b: &Rand<F>) -> Rand<F> {
        Rand { r: vadd(&a.r, &b.r) }
    }
    fn add_assign_rand(a: &mut Rand<F>, b: &Rand<F>) {
        a.r = vadd(&a.r, &b.r)
    }
}
#[allow(dead_code)]
fn _t<F: PrimeField>(p: &DensePolynomial<F>) -> usize {
    let _ = <DensePolynomial<F> as UVPolynomial<F>>::coeffs(p);
    if p.is_zero() { 0 } else { p.degree() }
}
