//! The mock prover accepts exactly the witnesses that satisfy every gate on
//! every row.
use super::Cases;
use crate::circ::*;
use crate::driver::{guarded, Case};
use crate::env::{SymFS, VarRng};
use crate::sess::{self, VF};
use zero_over_k::data_structures::{ProverKey, ProverPreprocessedInput};
use zero_over_k::verif_hooks::MockProver;
use zero_over_k::vo::VirtualOracle;
use zero_over_k::PIL;

type Mock<F> = MockProver<F, crate::circ::PC<F>, SymFS>;

/// every gate is `expression - inst_k` with an instance column of its own
pub struct Exact(pub Circuit, pub usize);

impl Exact {
    /// did the mock prover (and verifier) pass
    fn passes<F: VF>(&self, a: &Assign<F>) -> bool {
        let r = guarded(|| {
            let mut s = ProverSide::<F>::new(&self.0, a);
            let vos = s.vos.clone();
            s.with_index(|s, vk| {
                let vk = match vk {
                    Ok(vk) => vk,
                    Err(_) => return false,
                };
                let pk = ProverKey::from_ck_and_vk(&s.key, &vk);
                let pre = ProverPreprocessedInput::new(&s.f, &s.sigma, &s.t, &s.q_blind, &vk.index_info);
                let v: Vec<&dyn VirtualOracle<F>> = vos.iter().map(|v| v as _).collect();
                Mock::<F>::prove(&pk, &pre, &mut s.w, &mut s.i, &v, self.0.n, &mut VarRng::new("zk")).is_ok()
            })
        });
        matches!(r, Ok(true))
    }
}
impl Case for Exact {
    fn id(&self) -> String {
        format!("mock/{}", self.0.name)
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        let honest = self.0.fill::<F>();
        let ok = sess::trusting(|| self.passes(&honest));
        sess::fact("a satisfying witness passes", ok, "");
        let mut bent = honest.clone();
        let mut deltas = vec![];
        for k in 0..self.1 {
            for r in 0..self.0.n {
                let d = format!("d_{}_{}", k, r);
                *bent.cells.get_mut(&(K::I, k, r)).unwrap() += F::var(&d);
                deltas.push(d);
            }
        }
        let lab = "a witness that breaks a gate on some row is refused";
        if !sess::with(|s| s.symbolic) {
            // the deviations at hand are not all zero
            let some = deltas.iter().any(|d| !F::var(d).is_zero());
            sess::fact(lab, !(some && self.passes(&bent)), "a broken witness passes");
            return;
        }
        // everything the mock prover compares with zero
        let mut seen = vec![];
        let mut passed = false;
        for _ in 0..deltas.len() * 2 + 2 {
            if self.passes(&bent) {
                passed = true;
                break;
            }
            match sess::last_nonzero::<F>().first() {
                Some(x) if seen.last() != Some(x) => {
                    sess::assume_zero(x);
                    seen.push(*x);
                }
                _ => break,
            }
        }
        sess::fact("only gates are checked", passed, "");
        sess::must_reject(lab, seen.is_empty(), "".into(), seen.clone(), &deltas, &["none".into()]);
    }
}
fn gates(n: usize, name: &str, gs: Vec<(Option<Pre>, G)>) -> Exact {
    let k = gs.len();
    let mut c = high_degree(n, 2);
    c.wit = vec![false; 4];
    c.inst = k + 1;
    c.fixed = 6;
    c.consts.clear();
    c.solve = gs
        .iter()
        .enumerate()
        .map(|(i, (_, g))| Solve { k: K::I, col: i, rows: (0..n).collect(), g: g.clone() })
        .collect();
    c.gates = gs
        .into_iter()
        .enumerate()
        .map(|(i, (p, g))| Gate { g: g - ins(i), pre: p, name: "mock" })
        .collect();
    c.name = format!("{}_n{}", name, n);
    Exact(c, k)
}
pub fn cases(thorough: bool) -> Cases {
    let mut v: Cases = vec![];
    for n in if thorough { vec![4, 8, 16] } else { vec![4, 8] } {
        for e in [
            gates(n, "mul", vec![(Some(Pre::Mul), w(0) * w(1))]),
            gates(n, "two", vec![(None, w(0) * w(1)), (None, w(1) * fx(0) * w(2))]),
            gates(
                n,
                "rotations",
                vec![
                    (None, wr(0, 1) * insr(2, -1) + sc(fxr(0, 2), 3) + (-wr(0, -2)) + c(5)),
                    (None, wr(1, -1) * fxr(1, 1) - wr(2, 3) * w(0)),
                ],
            ),
            gates(
                n,
                "five",
                vec![
                    (None, w(0) * w(1)),
                    (None, w(1) * w(2) - fx(2)),
                    (None, w(0) * w(0) * w(3)),
                    (None, fx(0) * w(0) - fx(1) * wr(0, 1)),
                    (None, insr(5, 1) * ins(5) + c(1)),
                ],
            ),
            gates(n, "shared", vec![(None, w(0) * w(1)), (None, -(w(0) * w(1)))]),
        ] {
            v.push(Box::new(e));
        }
    }
    v
}
pub const META: super::Meta = super::Meta {
    how: "The real mock prover is run on symbolic columns that satisfy all gates (it must pass) and on the same columns with an independent symbolic deviation of every gate on every row.  Everything it compares with zero is collected; the solver shows that no non-zero deviation passes all comparisons.",
    functions: &["MockProver::{prove,verify}", "Rotation::compute_evaluation_point"],
    bounds: &["domains of 4 and 8 rows (16 thorough), up to five gates with rotations", "all cell values and all deviations"],
    assumptions: &["copy constraints and lookups are outside the mock prover's documented scope"],
};
