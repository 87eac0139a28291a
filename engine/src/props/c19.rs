//! The shipped commitment adapter acts on group elements and blinding
//! polynomials like the linear operations it stands for.
use super::Cases;
use crate::driver::Case;
use crate::sess::{self, VF};
use ark_ec::{AffineCurve, PairingEngine, ProjectiveCurve};
use ark_ff::{FromBytes, Field, PrimeField, ToBytes, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::UVPolynomial;
use ark_poly_commit::kzg10::{Commitment, Randomness};
use ark_poly_commit::PCRandomness;
use ark_serialize::*;
use ark_std::rand::distributions::{Distribution, Standard};
use ark_std::rand::Rng;
use std::fmt::{Debug, Display, Formatter};
use std::hash::Hash;
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::ops::*;
use zero_over_k::commitment::{HomomorphicCommitment, KZG10};

/// a prime-order group, written as multiples of its generator
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, Debug, CanonicalSerialize, CanonicalDeserialize)]
pub struct Gp<F: VF>(pub F);
impl<F: VF> Display for Gp<F> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<F: VF> zeroize::Zeroize for Gp<F> {
    fn zeroize(&mut self) {
        self.0 = F::zero();
    }
}
impl<F: VF> ToBytes for Gp<F> {
    fn write<W: Write>(&self, w: W) -> std::io::Result<()> {
        self.0.write(w)
    }
}
impl<F: VF> FromBytes for Gp<F> {
    fn read<R: Read>(r: R) -> std::io::Result<Self> {
        F::read(r).map(Gp)
    }
}
impl<F: VF> Distribution<Gp<F>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> Gp<F> {
        Gp(F::rand(r))
    }
}
impl<F: VF> Zero for Gp<F> {
    fn zero() -> Self {
        Gp(F::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<F: VF> Neg for Gp<F> {
    type Output = Self;
    fn neg(self) -> Self {
        Gp(-self.0)
    }
}
macro_rules! grp {
    ($($t:ident $m:ident $ta:ident $ma:ident);*) => {$(
        impl<F: VF> $t<Gp<F>> for Gp<F> { type Output = Self; fn $m(self, o: Self) -> Self { Gp(self.0.$m(o.0)) } }
        impl<'a, F: VF> $t<&'a Gp<F>> for Gp<F> { type Output = Self; fn $m(self, o: &'a Self) -> Self { Gp(self.0.$m(o.0)) } }
        impl<F: VF> $ta<Gp<F>> for Gp<F> { fn $ma(&mut self, o: Self) { self.0.$ma(o.0) } }
        impl<'a, F: VF> $ta<&'a Gp<F>> for Gp<F> { fn $ma(&mut self, o: &'a Self) { self.0.$ma(o.0) } }
    )*};
}
grp!(Add add AddAssign add_assign; Sub sub SubAssign sub_assign);
impl<F: VF> MulAssign<F> for Gp<F> {
    fn mul_assign(&mut self, o: F) {
        self.0 *= o
    }
}
impl<F: VF> std::iter::Sum for Gp<F> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, F: VF> std::iter::Sum<&'a Gp<F>> for Gp<F> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Self::zero(), |a, b| a + b)
    }
}
impl<F: VF> ProjectiveCurve for Gp<F> {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = F;
    type BaseField = F;
    type Affine = Gp<F>;
    fn prime_subgroup_generator() -> Self {
        Gp(F::one())
    }
    fn batch_normalization(_: &mut [Self]) {}
    fn is_normalized(&self) -> bool {
        true
    }
    fn double_in_place(&mut self) -> &mut Self {
        self.0.double_in_place();
        self
    }
    fn add_assign_mixed(&mut self, o: &Self) {
        *self += o
    }
}
impl<F: VF> AffineCurve for Gp<F> {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = F;
    type BaseField = F;
    type Projective = Gp<F>;
    fn prime_subgroup_generator() -> Self {
        Gp(F::one())
    }
    fn from_random_bytes(_: &[u8]) -> Option<Self> {
        None
    }
    fn mul<S: Into<F::BigInt>>(&self, s: S) -> Self {
        Gp(self.0 * F::from_repr(s.into()).unwrap())
    }
    fn mul_by_cofactor_to_projective(&self) -> Self {
        *self
    }
    fn mul_by_cofactor_inv(&self) -> Self {
        *self
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Model<F: VF>(PhantomData<F>);
impl<F: VF> PairingEngine for Model<F> {
    type Fr = F;
    type G1Projective = Gp<F>;
    type G1Affine = Gp<F>;
    type G1Prepared = Gp<F>;
    type G2Projective = Gp<F>;
    type G2Affine = Gp<F>;
    type G2Prepared = Gp<F>;
    type Fq = F;
    type Fqe = F;
    type Fqk = F;
    fn miller_loop<'a, I: IntoIterator<Item = &'a (Gp<F>, Gp<F>)>>(_: I) -> F {
        unimplemented!("pairing")
    }
    fn final_exponentiation(f: &F) -> Option<F> {
        Some(*f)
    }
}
type H<F> = KZG10<Model<F>>;
type R<F> = Randomness<F, DensePolynomial<F>>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Add,
    Scale,
    Neg,
    Msm(usize, usize),
    Zero,
    Rands(usize, usize),
}
pub struct Linear(pub Op);
fn com<F: VF>(x: F) -> Commitment<Model<F>> {
    Commitment(Gp(x))
}
fn rnd<F: VF>(name: &str, n: usize) -> R<F> {
    let p: Vec<F> = (0..n).map(|i| F::var(&format!("{}{}", name, i))).collect();
    let mut r = R::<F>::empty();
    r.blinding_polynomial = DensePolynomial::from_coefficients_vec(p);
    r
}
fn at<F: VF>(r: &R<F>, i: usize) -> F {
    r.blinding_polynomial.coeffs.get(i).copied().unwrap_or_else(F::zero)
}
impl Case for Linear {
    fn id(&self) -> String {
        format!("{:?}", self.0)
    }
    fn run<F: VF>(&self) {
        let (a, b, s) = (F::var("a"), F::var("b"), F::var("s"));
        match self.0 {
            Op::Add => sess::goal_eq("the sum of two commitments", H::<F>::add(&com(a), &com(b)).0 .0, a + b),
            Op::Scale => sess::goal_eq("a scaled commitment", H::<F>::scale_com(&com(a), s).0 .0, a * s),
            Op::Neg => sess::goal_eq("a negated commitment", H::<F>::neg_com(&com(a)).0 .0, -a),
            Op::Msm(n, k) => {
                // fixed scalars, arbitrary commitments
                let pool: Vec<F> = vec![
                    F::zero(),
                    F::one(),
                    -F::one(),
                    F::from(2u64),
                    F::from(7u64).inverse().unwrap(),
                    F::from(1u64 << 63).pow([3]),
                    -F::from(12345u64),
                ];
                let xs: Vec<F> = (0..n).map(|i| F::var(&format!("x{}", i))).collect();
                let ss: Vec<F> = (0..n).map(|i| pool[(k + i * (1 + k / pool.len())) % pool.len()]).collect();
                let cs: Vec<_> = xs.iter().map(|x| com(*x)).collect();
                let want: F = xs.iter().zip(&ss).map(|(x, s)| *x * *s).sum();
                sess::goal_eq("a linear combination of commitments", H::<F>::msm(&cs, &ss).0 .0, want);
            }
            Op::Zero => {
                sess::goal_eq("the empty commitment", H::<F>::zero_comm().0 .0, F::zero());
                sess::fact("the empty commitment is recognised", H::<F>::is_zero(&H::<F>::zero_comm()), "");
                sess::fact("equal commitments are equal", H::<F>::eq_cm(&com(a), &com(a)), "");
                // the comparisons test the right quantity
                let (same, z) = (H::<F>::eq_cm(&com(a), &com(b)), H::<F>::is_zero(&com(s)));
                sess::fact("different commitments differ", !same || a == b, "");
                sess::fact("only the empty commitment is empty", !z || s.is_zero(), "");
                let t = H::<F>::add(&com(a), &H::<F>::neg_com(&com(a)));
                sess::fact("a difference of equals is empty", H::<F>::is_zero(&t), "");
            }
            Op::Rands(m, n) => {
                let (x, y) = (rnd::<F>("x", m), rnd::<F>("y", n));
                let sc = H::<F>::scale_rand(&x, s);
                let sum = H::<F>::add_rands(&x, &y);
                let mut acc = x.clone();
                H::<F>::add_assign_rand(&mut acc, &y);
                for i in 0..m.max(n) + 1 {
                    sess::goal_eq("scaled randomness", at(&sc, i), at(&x, i) * s);
                    sess::goal_eq("sum of randomness", at(&sum, i), at(&x, i) + at(&y, i));
                    sess::goal_eq("accumulated randomness", at(&acc, i), at(&x, i) + at(&y, i));
                }
            }
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Cases = vec![];
    for o in [Op::Add, Op::Scale, Op::Neg, Op::Zero] {
        v.push(Box::new(Linear(o)));
    }
    for n in 0..=if thorough { 8 } else { 4 } {
        for k in 0..if n == 0 { 1 } else { 14 } {
            v.push(Box::new(Linear(Op::Msm(n, k))));
        }
    }
    for m in 0..=4 {
        for n in 0..=4 {
            v.push(Box::new(Linear(Op::Rands(m, n))));
        }
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "The shipped KZG adapter is instantiated with a model of a prime-order group (elements are symbolic multiples of the generator); each operation's result is compared by the solver with the linear operation it stands for, for all group elements, scalars and blinding polynomials.",
    functions: &["HomomorphicCommitment for KZG10: msm, neg_com, scale_com, add, zero_comm, is_zero, eq_cm, scale_rand, add_rands, add_assign_rand"],
    bounds: &["linear combinations of up to 4 commitments (8 thorough) with scalars from a fixed set (the library's bucket method reads scalar bits); blinding polynomials of up to 4 coefficients"],
    assumptions: &["the curve is a prime-order group (curve arithmetic and the pairing-based opening belong to the dependency)"],
};
