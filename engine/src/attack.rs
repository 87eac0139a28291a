//! Runs of the real prover and verifier used by the tampering harnesses.
use crate::circ::*;
use crate::driver::guarded;
use crate::forge::*;
use crate::sess::{self, VF};
use zero_over_k::error::Error;

/// outcome of one verifier run
pub enum Run<F> {
    Accept,
    /// the combined identity failed; what it compared
    Identity(Option<F>),
    Opening,
    Other(String),
}
pub fn run<F: VF>(cr: &Circuit, a: &Assign<F>, p: Proof<F>) -> Run<F> {
    let mut vs = VerifierSide::<F>::new(cr, a);
    let n0 = sess::with(|s| s.checks.len());
    match guarded(|| sess::with_draws(&[], || vs.verify(p))) {
        Ok(Ok(())) => Run::Accept,
        Ok(Err(Error::QuotientNotZero)) => Run::Identity(sess::last_nonzero::<F>().first().copied()),
        Ok(Err(e)) => {
            if sess::with(|s| s.checks.len()) > n0 {
                Run::Opening
            } else {
                Run::Other(format!("{:?}", e))
            }
        }
        Err(e) => {
            sess::with(|s| s.by_draw = None);
            Run::Other(format!("panic: {}", e))
        }
    }
}
/// an honest proof on sample cells; the k-th challenge is ch_d<k>
pub fn sample_proof<F: VF>(cr: &Circuit, bend: F) -> Result<(Assign<F>, Proof<F>), String> {
    let mut a = sess::concretely(|| cr.fill::<F>());
    if !bend.is_zero() {
        // make the statement false in one cell
        let s = cr.solve.last().ok_or("nothing to bend")?;
        *a.cells.get_mut(&(s.k, s.col, s.rows[0])).unwrap() += bend;
    }
    let mut ps = ProverSide::<F>::new(cr, &a);
    let r = guarded(|| sess::trusting(|| sess::with_draws(&[], || ps.prove())));
    sess::with(|s| s.by_draw = None);
    match r {
        Ok(Ok(p)) => Ok((a, p)),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(e) => Err(format!("panic: {}", e)),
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Part {
    Evals,
    Wit,
    Lookup,
    LookupZ,
    Z,
    Quotient,
    QEvals,
    FCommit,
    Opening,
}
/// every value of the chosen part
pub fn part<F: VF>(p: &mut Proof<F>, w: Part) -> Vec<(String, &mut F)> {
    fn coms<'a, F: VF>(l: &str, v: &'a mut Vec<crate::env::Comm<F>>, n: usize) -> Vec<(String, &'a mut F)> {
        for c in v.iter_mut() {
            while c.p.len() < n {
                c.p.push(F::zero());
            }
        }
        let l = l.to_string();
        v.iter_mut()
            .enumerate()
            .flat_map(|(i, c)| {
                let l = l.clone();
                c.p.iter_mut().enumerate().map(move |(j, x)| (format!("{}{}.{}", l, i, j), x))
            })
            .collect()
    }
    match w {
        Part::Evals => lists(p)
            .into_iter()
            .flat_map(|(pool, l)| {
                l.into_iter().enumerate().map(move |(i, x)| (format!("{:?}.eval{}", pool, i), x))
            })
            .collect(),
        Part::Wit => coms("w", &mut p.witness_commitments, 0),
        Part::Lookup => coms("lk", &mut p.lookup_commitments, 0),
        Part::LookupZ => coms("lz", &mut p.lookup_z_commitments, 0),
        Part::Z => coms("z", &mut p.z_commitments, 0),
        Part::Quotient => coms("t", &mut p.quotient_chunk_commitments, 0),
        Part::QEvals => {
            p.multiopen_proof.q_evals.iter_mut().enumerate().map(|(i, x)| (format!("q{}", i), x)).collect()
        }
        Part::FCommit => p
            .multiopen_proof
            .f_commit
            .p
            .iter_mut()
            .enumerate()
            .map(|(i, x)| (format!("f{}", i), x))
            .collect(),
        Part::Opening => p
            .multiopen_proof
            .opening_proof
            .w
            .iter_mut()
            .enumerate()
            .map(|(i, x)| (format!("o{}", i), x))
            .collect(),
    }
}
