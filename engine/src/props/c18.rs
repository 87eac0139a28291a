//! Everything the prover sends is blinded with fresh randomness.
use super::Cases;
use crate::circ::*;
use crate::driver::{guarded, Case};
use crate::env::Comm;
use crate::sess::{self, VF};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, Polynomial, UVPolynomial};

pub struct Blind(pub Circuit);

impl Case for Blind {
    fn id(&self) -> String {
        format!("blind/{}", self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        let cr = &self.0;
        let a = cr.fill::<F>();
        let r = guarded(|| sess::trusting(|| ProverSide::<F>::new(cr, &a).prove()));
        let p = match r {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => return sess::fact("an honest proof can be made", false, format!("{:?}", e)),
            Err(e) => return sess::fact("an honest proof can be made", false, e),
        };
        let d = cr.domain::<F>();
        let tail = |c: &Comm<F>, from: usize| -> Vec<F> {
            let p = DensePolynomial::from_coefficients_slice(&c.p);
            (from..cr.n).map(|i| p.evaluate(&d.element(i))).collect()
        };
        // (what, value) of everything that has to be random
        let mut slots: Vec<(String, F)> = vec![];
        let mut hiding = |what: &str, cs: &[Comm<F>], tails: &dyn Fn(usize, &Comm<F>) -> Vec<F>| {
            for (i, c) in cs.iter().enumerate() {
                sess::fact(&format!("commitments are hiding: {}", what), c.r.len() >= 2, format!("{} {} has {} blinding coefficients", what, i, c.r.len()));
                for x in &c.r {
                    slots.push((format!("blinding of a {} commitment", what), *x));
                }
                for x in tails(i, c) {
                    slots.push((format!("blinding row of a {}", what), x));
                }
            }
        };
        let none = |_: usize, _: &Comm<F>| vec![];
        hiding("witness", &p.witness_commitments, &none);
        hiding("lookup column", &p.lookup_commitments, &|_, c| tail(c, cr.u));
        hiding("running product", &p.z_commitments, &|_, c| tail(c, cr.perm_u + 1));
        hiding("lookup product", &p.lookup_z_commitments, &|_, c| tail(c, cr.u + 1));
        hiding("quotient", &p.quotient_chunk_commitments, &none);
        hiding("batching polynomial", std::slice::from_ref(&p.multiopen_proof.f_commit), &none);
        sess::fact("as many witness commitments as columns", p.witness_commitments.len() == cr.wit.len(), "");
        sess::fact("two committed columns per lookup", p.lookup_commitments.len() == 2 * cr.lookups.len(), "");
        sess::fact("one product per lookup", p.lookup_z_commitments.len() == cr.lookups.len(), "");
        sess::fact("copies have a running product", cr.permuted().is_empty() || !p.z_commitments.is_empty(), "");
        // each of them is a draw of its own
        let draws: Vec<String> = (0..4 * slots.len() + 16).map(|i| format!("rnd_zk{}", i)).collect();
        let values: Vec<_> = draws.iter().map(|n| F::var(n).peek()).collect();
        let mut used = std::collections::BTreeSet::new();
        for (l, x) in slots {
            let at = values.iter().position(|v| *v == x.peek());
            sess::fact(&format!("{} is random", l), at.is_some(), "not a drawn value");
            if let Some(i) = at {
                sess::goal_eq(&format!("{} is random", l), x, F::var(&draws[i]));
                sess::fact(&format!("{} is independent of the others", l), used.insert(i), format!("draw {} is used twice", i));
            }
        }
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut cs = vec![
        mul_full(8),
        rotations(8),
        arith4_full(4),
        copy(4, 2, 1, 1),
        copy(4, 2, 3, 2),
        copy(4, 2, 5, 1),
        copy(8, 4, 2, 1),
        lookup(4, 2, 1, &[0, 1], 1),
        lookup(4, 2, 2, &[0, 1], 1),
        lookup(4, 2, 1, &[0, 1], 2),
        copy_lookup(4, 2),
    ];
    if thorough {
        cs.extend(vec![copy(8, 5, 4, 2), lookup(8, 4, 3, &[0, 1, 1, 3], 1), copy_lookup(8, 5), mul_full(16)]);
    }
    cs.extend(manies());
    cs.extend(mixes(if thorough { 36 } else { 18 }, 8));
    cs.extend(mixes(if thorough { 12 } else { 4 }, 16));
    cs.into_iter().map(|c| Box::new(Blind(c)) as _).collect()
}
pub const META: super::Meta = super::Meta {
    how: "The real prover runs on symbolic cells, challenges and randomness over an ideal commitment that exposes what it was blinded with.  Every blinding coefficient and every row beyond the usable ones is shown by the solver to equal one draw of the caller's randomness, for all cells and challenges; no draw may serve twice.",
    functions: &["TurboPlonk::prove", "GrandProductArgument::construct_agg_poly", "LookupArgument::construct_a_and_s_polys_prover", "SubsetEqualityArgument::construct_agg_poly", "WitnessProverOracle::to_labeled", "Multiopen::prove"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns", "circuits of 4 and 8 rows (16 thorough), up to five copied columns, up to two lookups"],
    assumptions: &["what a simulator needs beyond fresh blinding (e.g. how often a column may be opened) is the circuit designer's and not checked"],
};
