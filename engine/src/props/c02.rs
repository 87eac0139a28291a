//! The verifier's identity is zero on a row exactly when every gate, copy and
//! lookup constraint of that row holds.
use super::Cases;
use crate::circ::*;
use crate::driver::Case;
use crate::forge::*;
use crate::sess::{self, VF};
use crate::sym::SymF;
use ark_bls12_381::Fr;
use ark_ff::Zero;
use ark_poly::Polynomial;

pub struct Rows(pub Circuit);
impl Rows {
    fn body<F: VF>(&self) {
        let f = match Forge::<F>::new(&self.0) {
            Ok(f) => f,
            Err(e) => {
                sess::fact("an honest proof can be made and understood", false, e);
                return;
            }
        };
        sess::fact("an honest proof can be made and understood", true, "");
        let seed = sess::with(|s| s.seed);
        let val = |k: usize| sess::concrete_value(&format!("draw{}", k), seed);
        // everything but the combination challenge(s) fixed, for the weights
        let fixed: Vec<(usize, Fr)> =
            [f.beta, f.gamma, f.theta].iter().map(|k| (*k, val(*k))).collect();
        let used = f.cr.lookups.len() + f.cr.permuted().len() > 0;
        let fixed = if used { fixed } else { vec![] };
        let free: Vec<String> = (0..f.xi)
            .filter(|k| fixed.iter().all(|(j, _)| j != k))
            .map(|k| format!("ch_d{}", k))
            .collect();
        let ch = |k: usize| F::var(&format!("ch_d{}", k));
        let sym = f.cells(&|n| F::var(&format!("c{}", n)));
        let rs = f.reference(ch(f.beta), ch(f.gamma), ch(f.theta));
        let rc = f.reference(F::of(val(f.beta)), F::of(val(f.gamma)), F::of(val(f.theta)));
        for i in self.0.rows_in_zh() {
            let t = rs.row(&sym, i);
            let k = t.len();
            let lab = format!("row {}: the identity is a combination of the row's constraints", i);
            let n = match f.row_value(&sym, i, &[]) {
                Ok(n) => n,
                Err(e) => {
                    sess::fact(&lab, false, e);
                    continue;
                }
            };
            if k == 0 {
                sess::goal_eq(&lab, n, F::zero());
                continue;
            }
            // weights of the constraints from k sample rows
            let mut m = vec![];
            let mut rhs = vec![];
            for s in 0..k {
                let cells = f.cells(&|n| F::of(sess::concrete_value(&format!("s{}_{}", s, n), seed)));
                m.push(rc.row(&cells, i).iter().map(|x| x.1.peek()).collect::<Vec<Fr>>());
                match f.row_value(&cells, i, &fixed) {
                    Ok(v) => rhs.push(v),
                    Err(e) => {
                        sess::fact(&lab, false, e);
                        return;
                    }
                }
            }
            let inv = match invert(&m) {
                Some(x) => x,
                None => {
                    sess::fact("reference constraints independent", false, "harness");
                    return;
                }
            };
            let w: Vec<F> = (0..k)
                .map(|j| (0..k).map(|s| rhs[s] * F::of(inv[j][s])).sum::<F>())
                .collect();
            let comb: F = (0..k).map(|j| w[j] * t[j].1).sum();
            sess::goal_eq(&lab, n, comb);
            let act: Vec<usize> =
                (0..k).filter(|j| !t[*j].0.starts_with("(implied)") || !w[*j].peek().is_zero()).collect();
            let deltas: Vec<String> = act.iter().map(|j| format!("d{}_{}", i, j)).collect();
            let res: F = act.iter().zip(&deltas).map(|(j, d)| w[*j] * F::var(d)).sum();
            let names: Vec<&str> = t.iter().map(|x| x.0.as_str()).collect();
            sess::must_reject(
                &format!("row {}: no broken constraint is masked ({})", i, names.join(", ")),
                res.is_zero(),
                "constraint values with zero combination".into(),
                vec![res],
                &deltas,
                &free,
            );
        }
        // the quotient enters with the vanishing polynomial as weight
        let c = f.cells(&|n| F::of(sess::concrete_value(&format!("q_{}", n), seed)));
        let x = ch(f.xi);
        let nc = f.zero_chunks().len();
        let mut fx = fixed.clone();
        for k in 0..f.xi {
            if fx.iter().all(|(j, _)| *j != k) {
                fx.push((k, val(k)));
            }
        }
        let r0 = f.residue(&c, x, &fx, &f.zero_chunks());
        let tv: Vec<F> = (0..nc).map(|i| F::var(&format!("chunk{}", i))).collect();
        let r1 = f.residue(&c, x, &fx, &tv);
        let mut e0 = f.zero_chunks();
        e0[0] = F::one();
        let re = f.residue(&c, x, &fx, &e0);
        match (r0, r1, re) {
            (Ok(r0), Ok(r1), Ok(re)) => {
                let mut t = F::zero();
                let mut p = F::one();
                let xn = x.pow([self.0.n as u64]);
                for v in tv {
                    t += v * p;
                    p *= xn;
                }
                sess::goal_eq("quotient chunks are recombined at the challenge", r1 - r0, (re - r0) * t);
                sess::fact("quotient enters the identity", !(re - r0).is_zero(), "");
                // (numerator - zh * t) up to a constant; or divided by zh
                let z = self.0.zh::<F>().evaluate(&x);
                let probe = |j: usize| -> (Fr, Fr) {
                    let xv = sess::concrete_value(&format!("probe{}", j), seed);
                    let mut g = fx.clone();
                    g.push((f.xi, xv));
                    let a = f.residue(&c, F::of(xv), &g, &f.zero_chunks()).map_or(Fr::zero(), |v| v.peek());
                    let b = f.residue(&c, F::of(xv), &g, &e0).map_or(Fr::zero(), |v| v.peek());
                    (a - b, self.0.zh::<Fr>().evaluate(&xv))
                };
                let ((d0, z0), (d1, z1)) = (probe(0), probe(1));
                let lab = "quotient weighted by the vanishing polynomial";
                if d0 == d1 && d0 * z1 != d1 * z0 {
                    sess::goal_eq(lab, r0 - re, F::of(d0));
                } else {
                    sess::goal_eq(lab, r0 - re, z * F::of(d0 / z0));
                }
            }
            (a, b, c) => {
                sess::fact("quotient enters the identity", false, format!("{:?}", (a.err(), b.err(), c.err())));
            }
        }
    }
}
impl Case for Rows {
    fn id(&self) -> String {
        format!("rows/{}", self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        if F::SYM {
            self.body::<F>()
        } else {
            sess::constants(|| self.body::<SymF>())
        }
    }
    fn bound(&self) -> String {
        format!("{}: n={}, {} witness / {} fixed / {} table columns", self.0.name, self.0.n, self.0.wit.len(), self.0.fixed, self.0.tables)
    }
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Vec<Circuit> = vec![
        rotations(8),
        arith_full(8),
        skip_rows(8, 2),
        high_degree(4, 3),
        copy(4, 2, 1, 1),
        copy(4, 2, 2, 2),
        copy(4, 2, 3, 2),
        copy(4, 2, 3, 1),
        copy(4, 2, 5, 1),
        lookup(4, 2, 1, &[0, 1], 1),
        lookup(4, 2, 2, &[0, 1], 1),
        lookup(8, 5, 1, &[0, 1, 1, 2, 0], 1),
        copy_lookup(4, 2),
        rotated(4, 2, "witness"),
        rotated(4, 2, "fixed"),
        rotated(4, 2, "instance"),
        Circuit {
            name: "lookup_with_dummy_permutation_info".into(),
            perm_u: 0,
            q_blind_at_u: true,
            ..lookup(4, 2, 1, &[0, 1], 1)
        },
    ];
    if thorough {
        v.push(arith4_full(8));
        v.push(copy(8, 5, 4, 2));
        v.push(copy(8, 6, 3, 1));
        v.push(lookup(8, 4, 3, &[0, 1, 1, 3], 1));
        v.push(lookup(4, 2, 1, &[0, 1], 2));
        v.push(copy_lookup(8, 5));
        v.push(rotations(16));
    }
    v.extend(manies());
    v.extend(mixes(if thorough { 48 } else { 24 }, 8));
    v.extend(mixes(if thorough { 12 } else { 4 }, 16));
    v.into_iter().map(|c| Box::new(Rows(c)) as _).collect()
}
pub const META: super::Meta = super::Meta {
    how: "The real verifier is executed on proofs whose claimed evaluations come from arbitrary symbolic columns; the quantity it compares with zero, taken at each row, is proved equal to a combination of the reference constraints of that row, and the solver shows that no non-zero vector of constraint values is cancelled for all combination challenges.",
    functions: &["TurboPlonk::verify", "Expression::evaluate", "PermutationArgument::open_argument", "LookupArgument::{open_argument,construct_a_and_s_unpermuted_polys_verifier}", "oracle query / rotation evaluation"],
    bounds: &["generated shapes (n=8, some n=16): up to four gates of degree up to 5 reading witness, public and fixed columns at up to nine rotations, copied and plain columns interleaved, up to three lookups of width 1-2 in up to five table columns", "circuits: gates with rotations both ways, skipped rows and degree up to 4 (n<=8; 16 thorough), copy constraints over up to 4 columns (n=4; 8 thorough), lookups of arity 1-3 and two lookups (n<=8)", "every row of the domain, columns symbolic, challenges symbolic", "evaluation points: every domain row; identity in the evaluation point is polynomial of bounded degree, no cryptographic binding modelled"],
    assumptions: &["Which claimed evaluation and challenge plays which role is read off an honest sample proof."],
};
