#!/usr/bin/env python3
# derives the native circuit kit used by the seeded demos from the harness' circ.rs
import re,os
r=os.path.dirname(os.path.abspath(__file__))
s=open(r+'/../../engine/src/circ.rs').read()
s=s.replace('//!','//')
s=s.replace('use zero_over_k::verif_hooks::{TPProof, TurboPlonk};','use crate::turbo_plonk::{TPProof, TurboPlonk};')
s=s.replace('zero_over_k::','crate::')
s=s.replace('use crate::env::{Comm, IdealPC, Key, SymFS, VarRng};\nuse crate::sess::VF;\n','''use crate::commitment::{HomomorphicCommitment, KZG10};
use crate::rng::{FiatShamirRng, SimpleHashFiatShamirRng};
use ark_bls12_381::{Bls12_381, Fr};
pub trait VF: PrimeField {
    type PC: HomomorphicCommitment<Self>;
    type FS: FiatShamirRng;
    fn var(name: &str) -> Self;
}
impl VF for Fr {
    type PC = KZG10<Bls12_381>;
    type FS = LogFs;
    fn var(name: &str) -> Fr {
        // any spread-out value determined by the name
        let mut x = Fr::from(0x9e3779b97f4a7c15u64);
        for b in name.bytes() {
            x = x * x + Fr::from(b as u64 + 1);
        }
        x * x * x
    }
}
thread_local! {
    /// bytes absorbed and words drawn, in order
    pub static LOG: std::cell::RefCell<Vec<Ev>> = std::cell::RefCell::new(vec![]);
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Absorb(Vec<u8>),
    Draw(u64),
}
/// the real transcript, with a log of its use
pub struct LogFs(SimpleHashFiatShamirRng<blake2::Blake2s, rand_chacha::ChaChaRng>);
impl FiatShamirRng for LogFs {
    fn initialize<'a, T: 'a + ark_ff::ToBytes>(x: &'a T) -> Self {
        LOG.with(|l| l.borrow_mut().clear());
        LogFs(FiatShamirRng::initialize(x))
    }
    fn absorb<'a, T: 'a + ark_ff::ToBytes>(&mut self, x: &'a T) {
        let mut b = vec![];
        x.write(&mut b).unwrap();
        LOG.with(|l| l.borrow_mut().push(Ev::Absorb(b)));
        self.0.absorb(x)
    }
}
impl ark_std::rand::RngCore for LogFs {
    fn next_u32(&mut self) -> u32 {
        let v = self.0.next_u32();
        LOG.with(|l| l.borrow_mut().push(Ev::Draw(v as u64)));
        v
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.0.next_u64();
        LOG.with(|l| l.borrow_mut().push(Ev::Draw(v)));
        v
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.0.try_fill_bytes(d)
    }
}
/// words drawn between absorptions: one group per batch of challenges
pub fn challenge_groups() -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![vec![]];
    for e in LOG.with(|l| l.borrow().clone()) {
        match e {
            Ev::Absorb(_) => v.push(vec![]),
            Ev::Draw(w) => v.last_mut().unwrap().push(w),
        }
    }
    v.into_iter().filter(|g| !g.is_empty()).collect()
}
pub struct Key<F: VF> {
    pub ck: <PC<F> as PolynomialCommitment<F, DensePolynomial<F>>>::CommitterKey,
    pub vk: <PC<F> as PolynomialCommitment<F, DensePolynomial<F>>>::VerifierKey,
}
pub type Comm<F> = <PC<F> as PolynomialCommitment<F, DensePolynomial<F>>>::Commitment;
fn setup<F: VF>(max: usize) -> Key<F> {
    let srs = TP::<F>::universal_setup(max, &mut ark_std::test_rng()).unwrap();
    let (ck, vk) = TP::<F>::prepare_keys(&srs).unwrap();
    Key { ck, vk }
}
''')
s=s.replace('pub type PC<F> = IdealPC<F>;','pub type PC<F> = <F as VF>::PC;')
s=s.replace('TurboPlonk<F, PC<F>, SymFS>','TurboPlonk<F, PC<F>, <F as VF>::FS>')
s=s.replace('Key { max_degree: cr.max_degree.unwrap_or(cr.n - 1) as u64 }','setup::<F>(cr.max_degree.unwrap_or(cr.n - 1))')
s=s.replace('pub key: Key,','pub key: Key<F>,').replace('key: &Key,','key: &Key<F>,')
s=s.replace('commit(key, [&p], None)','commit(&key.ck, [&p], None)')
s=s.replace('            &self.key,\n','            &self.key.vk,\n')
s=s.replace('from_ck_and_vk(&s.key, &vk)','from_ck_and_vk(&s.key.ck, &vk)')
s=s.replace('&mut VarRng::new("zk")','&mut ark_std::test_rng()')
s='#![allow(dead_code, unused_imports)]\n'+s+'''
/// prove and verify an assignment: Ok(()) iff accepted
pub fn run(cr: &Circuit, a: &Assign<Fr>) -> Result<(), String> {
    let proof = ProverSide::<Fr>::new(cr, a).prove().map_err(|e| format!("prover: {:?}", e))?;
    VerifierSide::<Fr>::new(cr, a).verify(proof).map_err(|e| format!("verifier: {:?}", e))
}
'''
open(r+'/kit.rs','w').write(s)
