//! `SymF`: a symbolic prime-field element.  The real (generic) code of
//! zero-over-k is instantiated with `F = SymF` and *executed*; every field
//! operation it performs builds a term of the arena below.  Terms are kept in
//! a light normal form (linear combinations / products with integer
//! exponents); nothing is ever expanded here, identities are decided by the
//! SMT solver (see smt.rs).
//!
//! Every term also carries a fingerprint: its value at one pseudo-random
//! point.  The fingerprint only *guides* execution (which side of a branch is
//! the generic one, what bytes are written to the transcript); a branch taken
//! because two fingerprints coincide is recorded as an obligation that the
//! solver has to prove.
use ark_bls12_381::Fr;
use ark_ff::{
    BigInteger, BigInteger256, FftField, Field, FpParameters, FromBytes, One,
    PrimeField, ToBytes, Zero,
};
use ark_serialize::*;
use ark_std::rand::distributions::{Distribution, Standard};
use ark_std::rand::Rng;
use num_bigint::BigUint;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt::{Debug, Display, Formatter};
use std::io::{Read, Write};
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;

pub type Id = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(Fr),
    Var(u32),
    /// sum of coef * term, plus constant
    Sum(Vec<(Id, Fr)>, Fr),
    /// product of factors with (possibly negative) exponents
    Prod(Vec<(Id, i32)>),
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub fp: Vec<Fr>,
    pub dedup: HashMap<Node, Id>,
    pub vars: Vec<String>,
    pub var_ids: HashMap<String, Id>,
    pub by_fp: HashMap<[u64; 4], Id>,
    /// linear substitutions installed by the path explorer: var -> (terms, const)
    pub subst: BTreeMap<String, (Vec<(String, Fr)>, Fr)>,
    /// explicit variable values (fingerprint overrides)
    pub pin: BTreeMap<String, Fr>,
    pub seed: u64,
    pub concretised: usize,
    pub branch_generic: usize,
    pub obligations: Vec<(String, Id)>,
    pub flips: Vec<(String, (Vec<(String, Fr)>, Fr))>,
    pub flip_seen: HashMap<Id, ()>,
    pub ob_seen: HashMap<Id, ()>,
    pub inverted: Vec<Id>,
    pub ops: u64,
    /// terms used as atoms from now on (their definition stays available);
    /// value: class, used when an obligation needs the definition
    pub opaque: BTreeMap<Id, String>,
    pub last_generic: Option<Id>,
    /// equalities met on the way are not obligations (they are another
    /// property's business)
    pub trust: bool,
    pub assume: std::collections::HashSet<Id>,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            fp: vec![],
            dedup: HashMap::new(),
            vars: vec![],
            var_ids: HashMap::new(),
            by_fp: HashMap::new(),
            subst: BTreeMap::new(),
            pin: BTreeMap::new(),
            seed: 1,
            concretised: 0,
            branch_generic: 0,
            obligations: vec![],
            flips: vec![],
            flip_seen: HashMap::new(),
            ob_seen: HashMap::new(),
            inverted: vec![],
            ops: 0,
            opaque: BTreeMap::new(),
            last_generic: None,
            trust: false,
            assume: Default::default(),
        };
        a.konst(Fr::zero());
        a.konst(Fr::one());
        a
    }
    fn intern(&mut self, n: Node, fp: Fr) -> Id {
        if let Some(&i) = self.dedup.get(&n) {
            return i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.fp.push(fp);
        self.dedup.insert(n, i);
        i
    }
    pub fn konst(&mut self, c: Fr) -> Id {
        self.intern(Node::Const(c), c)
    }
    pub fn as_const(&self, i: Id) -> Option<Fr> {
        match &self.nodes[i as usize] {
            Node::Const(c) => Some(*c),
            _ => None,
        }
    }
    pub fn var(&mut self, name: &str) -> Id {
        if let Some(&i) = self.var_ids.get(name) {
            return i;
        }
        if let Some((terms, c)) = self.subst.get(name).cloned() {
            let mut acc = self.konst(c);
            for (n, k) in terms {
                let v = self.var(&n);
                let t = self.scale(v, k);
                acc = self.add(acc, t);
            }
            self.var_ids.insert(name.to_string(), acc);
            return acc;
        }
        let fp = match self.pin.get(name) {
            Some(v) => *v,
            None => var_value(name, self.seed),
        };
        let idx = self.vars.len() as u32;
        self.vars.push(name.to_string());
        let i = self.intern(Node::Var(idx), fp);
        self.var_ids.insert(name.to_string(), i);
        i
    }
    /// From here on treat a term as an atom.
    pub fn mark_opaque(&mut self, i: Id, class: &str) {
        let nl = !matches!(self.nodes[i as usize], Node::Const(_) | Node::Var(_));
        if nl {
            self.opaque.entry(i).or_insert_with(|| class.to_string());
        }
    }
    pub fn lin(&self, i: Id) -> (Vec<(Id, Fr)>, Fr) {
        if self.opaque.contains_key(&i) {
            return (vec![(i, Fr::one())], Fr::zero());
        }
        match &self.nodes[i as usize] {
            Node::Const(c) => (vec![], *c),
            Node::Sum(t, c) => (t.clone(), *c),
            _ => (vec![(i, Fr::one())], Fr::zero()),
        }
    }
    fn mk_sum(&mut self, t: Vec<(Id, Fr)>, c: Fr) -> Id {
        if t.is_empty() {
            return self.konst(c);
        }
        if t.len() == 1 && c.is_zero() && t[0].1.is_one() {
            return t[0].0;
        }
        let mut fp = c;
        for (i, k) in t.iter() {
            fp += self.fp[*i as usize] * k;
        }
        self.intern(Node::Sum(t, c), fp)
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        self.ops += 1;
        let (ta, ca) = self.lin(a);
        let (tb, cb) = self.lin(b);
        let mut out = Vec::with_capacity(ta.len() + tb.len());
        let (mut i, mut j) = (0, 0);
        while i < ta.len() || j < tb.len() {
            if j >= tb.len() || (i < ta.len() && ta[i].0 < tb[j].0) {
                out.push(ta[i]);
                i += 1;
            } else if i >= ta.len() || tb[j].0 < ta[i].0 {
                out.push(tb[j]);
                j += 1;
            } else {
                let k = ta[i].1 + tb[j].1;
                if !k.is_zero() {
                    out.push((ta[i].0, k));
                }
                i += 1;
                j += 1;
            }
        }
        self.mk_sum(out, ca + cb)
    }
    /// sum of scaled terms plus a constant, in one pass
    pub fn lin_comb(&mut self, parts: &[(Id, Fr)], c: Fr) -> Id {
        self.ops += 1;
        let mut m: BTreeMap<Id, Fr> = BTreeMap::new();
        let mut c = c;
        for (x, k) in parts {
            if k.is_zero() {
                continue;
            }
            let (t, c0) = self.lin(*x);
            c += c0 * k;
            for (y, q) in t {
                *m.entry(y).or_insert_with(Fr::zero) += q * k;
            }
        }
        let t: Vec<(Id, Fr)> = m.into_iter().filter(|x| !x.1.is_zero()).collect();
        self.mk_sum(t, c)
    }
    pub fn powi(&mut self, x: Id, e: u32) -> Id {
        if let Some(c) = self.as_const(x) {
            return self.konst(c.pow([e as u64]));
        }
        let mut r = self.konst(Fr::one());
        for _ in 0..e {
            r = self.mul(r, x);
        }
        r
    }
    pub fn scale(&mut self, a: Id, k: Fr) -> Id {
        self.ops += 1;
        if k.is_zero() {
            return self.konst(k);
        }
        if k.is_one() {
            return a;
        }
        let (mut t, c) = self.lin(a);
        for x in t.iter_mut() {
            x.1 *= k;
        }
        self.mk_sum(t, c * k)
    }
    /// coefficient and factor list
    pub fn factors(&mut self, i: Id) -> (Fr, Vec<(Id, i32)>) {
        if self.opaque.contains_key(&i) {
            return (Fr::one(), vec![(i, 1)]);
        }
        match self.nodes[i as usize].clone() {
            Node::Const(c) => (c, vec![]),
            Node::Var(_) => (Fr::one(), vec![(i, 1)]),
            Node::Prod(f) => (Fr::one(), f),
            Node::Sum(t, c) => {
                if t.len() == 1 && c.is_zero() {
                    let (k, f) = self.factors(t[0].0);
                    return (k * t[0].1, f);
                }
                let lead = t[0].1;
                if lead.is_one() {
                    return (Fr::one(), vec![(i, 1)]);
                }
                let m = self.scale(i, lead.inverse().unwrap());
                (lead, vec![(m, 1)])
            }
        }
    }
    fn mk_prod(&mut self, f: Vec<(Id, i32)>, k: Fr) -> Id {
        let p = if f.is_empty() {
            return self.konst(k);
        } else if f.len() == 1 && f[0].1 == 1 {
            f[0].0
        } else {
            let mut fp = Fr::one();
            for (i, e) in f.iter() {
                let b = self.fp[*i as usize].pow([e.unsigned_abs() as u64]);
                fp *= if *e < 0 {
                    b.inverse().expect("fingerprint of an inverted term is 0")
                } else {
                    b
                };
            }
            self.intern(Node::Prod(f), fp)
        };
        self.scale(p, k)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        self.ops += 1;
        if let Some(c) = self.as_const(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, c);
        }
        let (ka, fa) = self.factors(a);
        let (kb, fb) = self.factors(b);
        let mut out = Vec::with_capacity(fa.len() + fb.len());
        let (mut i, mut j) = (0, 0);
        while i < fa.len() || j < fb.len() {
            if j >= fb.len() || (i < fa.len() && fa[i].0 < fb[j].0) {
                out.push(fa[i]);
                i += 1;
            } else if i >= fa.len() || fb[j].0 < fa[i].0 {
                out.push(fb[j]);
                j += 1;
            } else {
                let e = fa[i].1 + fb[j].1;
                if e != 0 {
                    out.push((fa[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        self.mk_prod(out, ka * kb)
    }
    pub fn inv(&mut self, a: Id) -> Id {
        let (k, mut f) = self.factors(a);
        for x in f.iter_mut() {
            x.1 = -x.1;
        }
        if !f.is_empty() {
            self.inverted.push(a);
        }
        self.mk_prod(f, k.inverse().expect("inverse of the constant 0"))
    }
    /// Is the term zero?  (the branch decision, see module comment)
    pub fn decide_zero(&mut self, i: Id) -> bool {
        if let Some(c) = self.as_const(i) {
            if !c.is_zero() {
                self.last_generic = Some(i);
            }
            return c.is_zero();
        }
        if self.assume.contains(&i) {
            return true;
        }
        if self.fp[i as usize].is_zero() {
            if !self.trust && self.ob_seen.insert(i, ()).is_none() {
                self.obligations.push(("branch: term is zero".into(), i));
            }
            return true;
        }
        self.branch_generic += 1;
        self.last_generic = Some(i);
        if self.flip_seen.insert(i, ()).is_none() {
            // linear in plain (non-challenge, non-random) variables?
            let (t, c) = self.lin(i);
            let mut out = vec![];
            let mut ok = true;
            for (v, k) in t {
                match &self.nodes[v as usize] {
                    Node::Var(n) => {
                        let name = self.vars[*n as usize].clone();
                        if name.starts_with("ch") || name.starts_with("rnd") {
                            ok = false;
                            break;
                        }
                        out.push((name, k));
                    }
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok && !out.is_empty() {
                // solve for the last variable
                let (v, k) = out.pop().unwrap();
                let m = -k.inverse().unwrap();
                let terms = out.into_iter().map(|(n, c)| (n, c * m)).collect();
                self.flips.push((v, (terms, c * m)));
            }
        }
        false
    }
    pub fn register_fp(&mut self, i: Id) -> BigInteger256 {
        let r: BigInteger256 = self.fp[i as usize].into_repr();
        if self.as_const(i).is_none() {
            match self.by_fp.get(&r.0) {
                None => {
                    self.by_fp.insert(r.0, i);
                }
                Some(&j) if j != i => {
                    let n = self.scale(j, -Fr::one());
                    let d = self.add(i, n);
                    if self.as_const(d).map_or(true, |c| !c.is_zero())
                        && !self.trust
                        && self.ob_seen.insert(d, ()).is_none()
                    {
                        self.obligations
                            .push(("equal encodings denote equal terms".into(), d));
                    }
                }
                _ => {}
            }
        }
        r
    }
    pub fn lookup_repr(&mut self, r: BigInteger256) -> Id {
        if let Some(&i) = self.by_fp.get(&r.0) {
            return i;
        }
        let c = Fr::from_repr(r).expect("repr out of range");
        self.konst(c)
    }
}

pub fn var_value(name: &str, seed: u64) -> Fr {
    use digest::Digest;
    let mut h = blake2::Blake2b::new();
    h.update(b"zokv-fp");
    h.update(&seed.to_le_bytes());
    h.update(name.as_bytes());
    let d = h.finalize();
    Fr::from_le_bytes_mod_order(&d)
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::new());
}
pub fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    ARENA.with(|a| f(&mut a.borrow_mut()))
}

#[derive(Clone, Copy)]
pub struct SymF(pub Id);

impl SymF {
    pub fn konst(c: Fr) -> Self {
        SymF(with(|a| a.konst(c)))
    }
    pub fn fpv(&self) -> Fr {
        with(|a| a.fp[self.0 as usize])
    }
}

impl Debug for SymF {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "s{}", self.0)
    }
}
impl Display for SymF {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "s{}", self.0)
    }
}
impl Default for SymF {
    fn default() -> Self {
        SymF(0)
    }
}
impl zeroize::Zeroize for SymF {
    fn zeroize(&mut self) {
        self.0 = 0;
    }
}
impl std::hash::Hash for SymF {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        std::hash::Hash::hash(&self.fpv(), h)
    }
}
impl PartialEq for SymF {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 {
            return true;
        }
        if crate::dse::active() {
            return with(|a| crate::dse::compare(a, self.0, o.0)) == Ordering::Equal;
        }
        with(|a| {
            let n = a.scale(o.0, -Fr::one());
            let d = a.add(self.0, n);
            a.decide_zero(d)
        })
    }
}
impl Eq for SymF {}
impl PartialOrd for SymF {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SymF {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.0 == o.0 {
            return Ordering::Equal;
        }
        if crate::dse::active() {
            return with(|a| crate::dse::compare(a, self.0, o.0));
        }
        let (x, y) = (self.fpv(), o.fpv());
        match x.cmp(&y) {
            Ordering::Equal => {
                // must be provably equal
                let e = self == o;
                debug_assert!(e);
                Ordering::Equal
            }
            r => {
                let _ = self == o; // logs the "different" decision
                r
            }
        }
    }
}
impl Zero for SymF {
    fn zero() -> Self {
        SymF(0)
    }
    fn is_zero(&self) -> bool {
        if crate::dse::active() {
            return *self == SymF(0);
        }
        with(|a| a.decide_zero(self.0))
    }
}
impl One for SymF {
    fn one() -> Self {
        SymF(1)
    }
    fn is_one(&self) -> bool {
        *self == SymF(1)
    }
}
impl Neg for SymF {
    type Output = Self;
    fn neg(self) -> Self {
        SymF(with(|a| a.scale(self.0, -Fr::one())))
    }
}
fn s_add(x: SymF, y: SymF) -> SymF {
    SymF(with(|a| a.add(x.0, y.0)))
}
fn s_sub(x: SymF, y: SymF) -> SymF {
    SymF(with(|a| {
        let n = a.scale(y.0, -Fr::one());
        a.add(x.0, n)
    }))
}
fn s_mul(x: SymF, y: SymF) -> SymF {
    SymF(with(|a| a.mul(x.0, y.0)))
}
fn s_div(x: SymF, y: SymF) -> SymF {
    s_mul(x, y.inverse().unwrap())
}
macro_rules! ops {
    ($($tr:ident $m:ident $tra:ident $ma:ident $f:ident),*) => {$(
        impl $tr<SymF> for SymF { type Output = SymF; fn $m(self, o: SymF) -> SymF { $f(self, o) } }
        impl<'a> $tr<&'a SymF> for SymF { type Output = SymF; fn $m(self, o: &'a SymF) -> SymF { $f(self, *o) } }
        impl<'a> $tr<&'a mut SymF> for SymF { type Output = SymF; fn $m(self, o: &'a mut SymF) -> SymF { $f(self, *o) } }
        impl $tra<SymF> for SymF { fn $ma(&mut self, o: SymF) { *self = $f(*self, o) } }
        impl<'a> $tra<&'a SymF> for SymF { fn $ma(&mut self, o: &'a SymF) { *self = $f(*self, *o) } }
        impl<'a> $tra<&'a mut SymF> for SymF { fn $ma(&mut self, o: &'a mut SymF) { *self = $f(*self, *o) } }
    )*};
}
ops!(Add add AddAssign add_assign s_add, Sub sub SubAssign sub_assign s_sub,
     Mul mul MulAssign mul_assign s_mul, Div div DivAssign div_assign s_div);
impl Sum<SymF> for SymF {
    fn sum<I: Iterator<Item = SymF>>(it: I) -> Self {
        it.fold(SymF(0), s_add)
    }
}
impl<'a> Sum<&'a SymF> for SymF {
    fn sum<I: Iterator<Item = &'a SymF>>(it: I) -> Self {
        it.fold(SymF(0), |x, y| s_add(x, *y))
    }
}
impl Product<SymF> for SymF {
    fn product<I: Iterator<Item = SymF>>(it: I) -> Self {
        it.fold(SymF(1), s_mul)
    }
}
impl<'a> Product<&'a SymF> for SymF {
    fn product<I: Iterator<Item = &'a SymF>>(it: I) -> Self {
        it.fold(SymF(1), |x, y| s_mul(x, *y))
    }
}
macro_rules! from_prim { ($($t:ty),*) => {$( impl From<$t> for SymF { fn from(x: $t) -> Self { SymF::konst(Fr::from(x)) } } )*} }
from_prim!(u128, u64, u32, u16, u8, bool, BigUint);
impl From<BigInteger256> for SymF {
    fn from(x: BigInteger256) -> Self {
        SymF::from_repr(x).unwrap()
    }
}
impl From<SymF> for BigInteger256 {
    fn from(x: SymF) -> Self {
        x.into_repr()
    }
}
impl From<SymF> for BigUint {
    fn from(x: SymF) -> Self {
        x.into_repr().into()
    }
}
impl FromStr for SymF {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        Fr::from_str(s).map(SymF::konst)
    }
}
impl ToBytes for SymF {
    fn write<W: Write>(&self, w: W) -> std::io::Result<()> {
        let r = with(|a| a.register_fp(self.0));
        r.write(w)
    }
}
impl FromBytes for SymF {
    fn read<R: Read>(r: R) -> std::io::Result<Self> {
        let b = BigInteger256::read(r)?;
        SymF::from_repr(b).ok_or_else(|| {
            std::io::Error::new(std::io::ErrorKind::InvalidData, "range")
        })
    }
}
impl CanonicalSerializeWithFlags for SymF {
    fn serialize_with_flags<W: Write, FL: Flags>(
        &self,
        w: W,
        flags: FL,
    ) -> Result<(), SerializationError> {
        let r = with(|a| a.register_fp(self.0));
        Fr::from_repr(r).unwrap().serialize_with_flags(w, flags)
    }
    fn serialized_size_with_flags<FL: Flags>(&self) -> usize {
        Fr::zero().serialized_size_with_flags::<FL>()
    }
}
impl CanonicalSerialize for SymF {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.serialize_with_flags(w, EmptyFlags)
    }
    fn serialized_size(&self) -> usize {
        Fr::zero().serialized_size()
    }
}
impl CanonicalDeserializeWithFlags for SymF {
    fn deserialize_with_flags<R: Read, FL: Flags>(
        r: R,
    ) -> Result<(Self, FL), SerializationError> {
        let (x, f) = Fr::deserialize_with_flags::<R, FL>(r)?;
        Ok((SymF(with(|a| a.lookup_repr(x.into_repr()))), f))
    }
}
impl CanonicalDeserialize for SymF {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        let x = Fr::deserialize(r)?;
        Ok(SymF(with(|a| a.lookup_repr(x.into_repr()))))
    }
}
impl Distribution<SymF> for Standard {
    /// Same stream format as `Fr`: four limbs of the Montgomery form.
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> SymF {
        let x: Fr = rng.sample(Standard);
        SymF(with(|a| a.lookup_repr(x.into_repr())))
    }
}
impl Field for SymF {
    type BasePrimeField = SymF;
    fn characteristic() -> &'static [u64] {
        Fr::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn from_base_prime_field_elems(e: &[Self]) -> Option<Self> {
        if e.len() == 1 {
            Some(e[0])
        } else {
            None
        }
    }
    fn double(&self) -> Self {
        SymF(with(|a| a.scale(self.0, Fr::from(2u64))))
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn from_random_bytes_with_flags<FL: Flags>(b: &[u8]) -> Option<(Self, FL)> {
        Fr::from_random_bytes_with_flags::<FL>(b)
            .map(|(x, f)| (SymF(with(|a| a.lookup_repr(x.into_repr()))), f))
    }
    fn square(&self) -> Self {
        s_mul(*self, *self)
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        Some(SymF(with(|a| a.inv(self.0))))
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        match self.inverse() {
            Some(x) => {
                *self = x;
                Some(self)
            }
            None => None,
        }
    }
    fn frobenius_map(&mut self, _: usize) {}
}
impl FftField for SymF {
    type FftParams = <Fr as FftField>::FftParams;
    fn two_adic_root_of_unity() -> Self {
        SymF::konst(Fr::two_adic_root_of_unity())
    }
    fn large_subgroup_root_of_unity() -> Option<Self> {
        Fr::large_subgroup_root_of_unity().map(SymF::konst)
    }
    fn multiplicative_generator() -> Self {
        SymF::konst(Fr::multiplicative_generator())
    }
}
impl PrimeField for SymF {
    type Params = <Fr as PrimeField>::Params;
    type BigInt = BigInteger256;
    fn from_repr(r: BigInteger256) -> Option<Self> {
        if r >= <<Fr as PrimeField>::Params as FpParameters>::MODULUS {
            return None;
        }
        Some(SymF(with(|a| a.lookup_repr(r))))
    }
    fn into_repr(&self) -> BigInteger256 {
        with(|a| {
            if a.as_const(self.0).is_none() {
                a.concretised += 1;
            }
            a.register_fp(self.0)
        })
    }
}
impl ark_ff::SquareRootField for SymF {
    fn legendre(&self) -> ark_ff::LegendreSymbol {
        unimplemented!()
    }
    fn sqrt(&self) -> Option<Self> {
        unimplemented!()
    }
    fn sqrt_in_place(&mut self) -> Option<&mut Self> {
        unimplemented!()
    }
}
#[allow(dead_code)]
fn _unused(b: BigInteger256) -> u32 {
    b.num_bits()
}
