//! Completeness: honest witness => prove Ok and verify Ok.
use crate::circ::*;
use crate::driver::Case;
use crate::sess::{self, VF};
use super::Cases;

/// the circuit, and whether degenerate inputs are explored on their own
pub struct Complete(pub Circuit, pub bool);
impl Case for Complete {
    fn id(&self) -> String {
        format!("complete/{}", self.0.name)
    }
    fn flip_budget(&self, thorough: bool) -> usize {
        match (self.1, thorough) {
            (false, _) => 0,
            (_, false) => 6,
            _ => 24,
        }
    }
    fn run<F: VF>(&self) {
        complete::<F>(&self.0)
    }
}
/// a generated shape with a few variables at a time free
pub struct Partial(pub Circuit, pub &'static str);
impl Partial {
    fn free(&self) -> Vec<String> {
        let c = &self.0;
        let v: Vec<String> = match self.1 {
            "combination challenge" => vec!["ch3".into()],
            "evaluation challenge" => vec!["ch4".into()],
            "lookup challenge" => vec!["ch0".into()],
            "beta" => vec!["ch1".into()],
            "gamma" => vec!["ch2".into()],
            "opening challenges" => vec!["ch5".into(), "ch6".into(), "ch8".into()],
            "public" => (0..c.n).map(|r| cell_name(K::I, 0, r)).chain(Some("ch3".to_string())).collect(),
            _ => {
                let solved: Vec<usize> = c.solve.iter().map(|s| s.col).collect();
                (0..c.wit.len())
                    .filter(|i| !solved.contains(i))
                    .map(|i| cell_name(K::W, i, (i * 3 + 1) % c.n))
                    .take(2)
                    .chain(Some("rnd0".to_string()))
                    .collect()
            }
        };
        v
    }
}
impl Case for Partial {
    fn id(&self) -> String {
        format!("{}/{}", self.1, self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        sess::keeping(&self.free(), || complete::<F>(&self.0))
    }
}
fn complete<F: VF>(cr: &Circuit) {
    {
        let a = cr.fill::<F>();
        let mut p = ProverSide::<F>::new(cr, &a);
        let proof = match p.prove() {
            Ok(p) => p,
            Err(e) => {
                sess::fact("prover accepts an honest witness", false, format!("{:?}", e));
                return;
            }
        };
        sess::fact("prover accepts an honest witness", true, "");
        let mut v = VerifierSide::<F>::new(cr, &a);
        let r = v.verify(proof);
        sess::fact("verifier accepts the honest proof", r.is_ok(), format!("{:?}", r.err()));
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Vec<Circuit> = vec![
        rotations(8),
        arith_full(8),
        arith4_full(8),
        lookup(4, 2, 1, &[0, 1], 1),
        copy(4, 2, 3, 2),
        mul_full(8),
        mul_full(8).with_const_col(K::W, 0, 0),
        mul_full(8).with_const_col(K::W, 1, 3),
        high_degree(4, 3).with_const_col(K::W, 0, 0),
        skip_rows(8, 1),
        skip_rows(8, 2),
        high_degree(4, 3),
        high_degree(4, 4),
        copy(4, 2, 1, 1),
        copy(4, 2, 1, 2),
        copy(4, 2, 2, 1),
        copy(4, 2, 2, 2),
    ];
    if std::env::var("ZOKV_ALL").is_ok() || thorough {
        v.push(lookup(4, 2, 1, &[1, 1], 1));
        v.push(lookup(4, 2, 1, &[1, 0], 1));
        v.push(copy(4, 3, 2, 2));
    }
    let mut main = vec![
        on_usable_rows(copy(8, 4, 1, 1)),
        copy(4, 2, 5, 1),
        high_degree(8, 3),
        mul_full(16),
        skip_rows(16, 3),
    ];
    if thorough {
        main.push(on_usable_rows(copy(8, 5, 2, 1)));
        main.push(copy(8, 5, 4, 2));
        main.push(lookup(4, 2, 2, &[0, 1], 1));
        main.push(lookup(4, 2, 1, &[0, 1], 2));
        main.push(copy_lookup(4, 2));
    }
    let mut shapes = manies();
    shapes.extend(mixes(if thorough { 36 } else { 18 }, 8));
    shapes.extend(mixes(if thorough { 12 } else { 4 }, 16));
    let mut out: Cases = v.into_iter().map(|c| Box::new(Complete(c, true)) as _).collect();
    out.extend(main.into_iter().map(|c| Box::new(Complete(c, false)) as Box<_>));
    for c in shapes {
        for f in ["combination challenge", "evaluation challenge", "lookup challenge", "beta", "gamma", "public", "opening challenges", "cells"] {
            if c.n <= 8 || thorough || f != "beta" && f != "gamma" {
                out.push(Box::new(Partial(c.clone(), f)));
            }
        }
    }
    out
}
pub const META: super::Meta = super::Meta {
    how: "Honest assignment with every free cell, challenge and blinding value symbolic is run through the real indexer, prover and verifier over an ideal homomorphic commitment; every branch the verifier takes towards acceptance is an identity discharged by cvc5/z3 for all values.",
    functions: &["Indexer::index", "TurboPlonk::prove", "TurboPlonk::verify", "PIOPforPolyIdentity::*", "PermutationArgument::*", "LookupArgument::*", "Multiopen::{prove,verify}"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns; with one kind of variable free at a time (a challenge, a public column, some cells and a blinding value), the rest at sample values", 
        "every cell, challenge and blinding value symbolic, plus each degenerate value (one linear equality at a time) the code branches on: gates of up to four wires, degree 3 and 4, 1-2 skipped rows, up to 3 copied columns in up to 3 products, one lookup (n=4, 8)",
        "generic values only (no degenerate paths): n=16 gates, three skipped rows, 5 copied columns; thorough adds tuple lookups, two lookups, copies with lookups, n=8 copies over 4 columns",
        "lookup witnesses: each usable row repeats a fixed table row",
    ],
    assumptions: &["ideal commitment and hash; challenges at which a denominator vanishes are outside the claim"],
};
