//! Every element of a message influences every challenge that has to be drawn
//! after it.
use crate::attack::*;
use crate::circ::*;
use crate::driver::Case;
use crate::sess::{self, FsEvent, VF};
use crate::sym::SymF;
use ark_ff::{FromBytes, Zero};

/// what an absorbed message consists of
enum Piece<F> {
    Raw(Vec<u8>),
    Term(F),
}
fn pieces<F: VF>(msg: &[u8]) -> Vec<Piece<F>> {
    let mut out = vec![];
    let mut raw = vec![];
    let mut i = 0;
    let term = |b: &[u8]| F::read(b).ok();
    while i < msg.len() {
        if i + 32 <= msg.len() {
            let mut t = [0u8; 32];
            t.copy_from_slice(&msg[i..i + 32]);
            if let Some(toks) = sess::with(|s| s.comm_tokens.get(&t).cloned()) {
                if !raw.is_empty() {
                    out.push(Piece::Raw(std::mem::take(&mut raw)));
                }
                for t in toks {
                    match if t[31] == 0xfe { None } else { term(&t) } {
                        Some(v) => out.push(Piece::Term(v)),
                        None => out.push(Piece::Raw(t.to_vec())),
                    }
                }
                i += 32;
                continue;
            }
            if let Some(v) = term(&t) {
                if !raw.is_empty() {
                    out.push(Piece::Raw(std::mem::take(&mut raw)));
                }
                out.push(Piece::Term(v));
                i += 32;
                continue;
            }
        }
        raw.push(msg[i]);
        i += 1;
    }
    if !raw.is_empty() {
        out.push(Piece::Raw(raw));
    }
    out
}
/// differences between two transcripts; None when they differ for sure
pub fn differences<F: VF>(x: &FsEvent, y: &FsEvent) -> Option<Vec<F>> {
    if x.history.len() != y.history.len() || x.draw != y.draw {
        return None;
    }
    let mut out = vec![];
    for (a, b) in x.history.iter().zip(&y.history) {
        if a == b {
            continue;
        }
        let (a, b) = (pieces::<F>(a), pieces::<F>(b));
        if a.len() != b.len() {
            return None;
        }
        for (p, q) in a.into_iter().zip(b) {
            match (p, q) {
                (Piece::Raw(p), Piece::Raw(q)) if p == q => {}
                (Piece::Term(p), Piece::Term(q)) => out.push(p - q),
                _ => return None,
            }
        }
    }
    Some(out)
}
/// challenges that have to be drawn after the message: the compression
/// challenge of lookups, the two of the running products, the combination
/// challenge, the evaluation point and four of the batched opening
fn needed(c: &Circuit, p: Option<Part>) -> usize {
    let l = !c.lookups.is_empty();
    let z = l || !c.permuted().is_empty();
    match p {
        None | Some(Part::Wit) => 6 + if z { 2 } else { 0 } + if l { 1 } else { 0 },
        Some(Part::Lookup) => 8,
        Some(Part::Z) | Some(Part::LookupZ) => 6,
        Some(Part::Quotient) => 5,
        Some(Part::Evals) => 4,
        Some(Part::FCommit) => 2,
        Some(Part::QEvals) => 1,
        Some(Part::Opening) => 0,
    }
}
/// `None`: the public inputs
pub struct Binding(pub Circuit, pub Option<Part>);
impl Binding {
    fn body<F: VF>(&self) {
        let what = match self.1 {
            None => "public inputs".to_string(),
            Some(p) => format!("{:?}", p),
        };
        let lab = format!("{}: every element influences every later challenge", what);
        let (a, mut p) = match sample_proof::<F>(&self.0, F::zero()) {
            Ok(x) => x,
            Err(e) => {
                sess::fact("an honest proof can be made", false, e);
                return;
            }
        };
        let log = |l: usize| sess::with(|s| s.fs_log[l..].to_vec());
        let l0 = sess::with(|s| s.fs_log.len());
        let base = sess::trusting(|| run(&self.0, &a, p.clone()));
        sess::fact("the untouched proof is accepted", matches!(base, Run::Accept), "");
        let before = log(l0);
        let total = before.len();
        let needed = needed(&self.0, self.1);
        sess::fact("enough challenges are drawn", total >= needed, format!("{}", total));
        if total < needed {
            return;
        }
        let mut deltas = vec![];
        let mut b = a.clone();
        match self.1 {
            None => {
                for (k, v) in b.cells.iter_mut().filter(|(k, _)| matches!(k.0, K::I)) {
                    let d = format!("d_{}", cell_name(k.0, k.1, k.2));
                    *v += F::var(&d);
                    deltas.push(d);
                }
            }
            Some(w) => {
                for (n, x) in part(&mut p, w) {
                    let d = format!("d_{}", n);
                    *x += F::var(&d);
                    deltas.push(d);
                }
            }
        }
        if deltas.is_empty() {
            return;
        }
        let mut l1 = sess::with(|s| s.fs_log.len());
        let r = sess::trusting(|| run(&self.0, &b, p.clone()));
        if let Run::Identity(Some(x)) = r {
            // look at the rest of the transcript whatever the identity says
            sess::assume_zero(&x);
            l1 = sess::with(|s| s.fs_log.len());
            sess::trusting(|| run(&self.0, &b, p));
        }
        let after = log(l1);
        let symbolic = sess::with(|s| s.symbolic);
        let moved = deltas.iter().any(|d| !F::var(d).peek().is_zero());
        let mut last: Option<&FsEvent> = None;
        for k in total - needed..total {
            let y = match after.get(k) {
                Some(y) => y,
                None => {
                    if symbolic {
                        sess::fact(&lab, false, format!("challenge {} is not drawn", k));
                    }
                    continue;
                }
            };
            // the messages before an already treated challenge still count
            if last.map_or(false, |l| y.history.len() >= l.history.len() && y.history[..l.history.len()] == l.history[..]) {
                continue;
            }
            last = Some(y);
            let l = format!("{} (from challenge {})", lab, k);
            match differences::<F>(&before[k], y) {
                None => sess::fact(&l, true, ""),
                Some(d) => {
                    let same = d.iter().all(|x| x.peek().is_zero());
                    sess::must_reject(&l, same && (symbolic || moved), "the challenge does not see the change".into(), d, &deltas, &["none".into()]);
                }
            }
        }
    }
}
impl Case for Binding {
    fn id(&self) -> String {
        match self.1 {
            None => format!("binding/{}/inputs", self.0.name),
            Some(p) => format!("binding/{}/{:?}", self.0.name, p),
        }
    }
    fn flip_budget(&self, _: bool) -> usize {
        0
    }
    fn run<F: VF>(&self) {
        if F::SYM {
            self.body::<F>()
        } else {
            sess::constants(|| self.body::<SymF>())
        }
    }
}
