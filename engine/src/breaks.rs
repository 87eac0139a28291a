//! Assignments that break one constraint of a circuit by symbolic amounts.
use crate::circ::*;
use crate::sess::{self, VF};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Break {
    /// shift every produced cell of solve rule k on every constrained row
    Gate(usize),
    /// the members of one copy cycle get independent values (gates hold)
    Copy(usize),
    /// the looked-up cells of a row are arbitrary (gates hold)
    Lookup(usize),
    /// the same for the columns of one lookup
    LookupOf(usize, usize),
}
/// a satisfying sample assignment with one constraint broken, and the names
/// of the amounts it is broken by
pub fn broken<F: VF>(cr: &Circuit, b: &Break) -> (Assign<F>, Vec<String>) {
    let mut a = sess::concretely(|| match b {
        Break::LookupOf(l, r) => {
            let mut src = cr.clone();
            let cols: Vec<usize> = cr.lookups[*l]
                .exprs
                .iter()
                .filter_map(|e| match e {
                    G::Q(K::W, c, 0) => Some(*c),
                    _ => None,
                })
                .collect();
            src.alias.retain(|k, _| k.2 != *r || !cols.contains(&k.1));
            src.fill::<F>()
        }
        Break::Lookup(r) => {
            let mut src = cr.clone();
            src.alias.retain(|k, _| k.2 != *r);
            src.fill::<F>()
        }
        _ => cr.fill::<F>(),
    });
    let mut deltas = vec![];
    match b {
        Break::Gate(k) => {
            let s = &cr.solve[*k];
            for r in s.rows.iter().filter(|r| !cr.zh_skip.contains(r)) {
                let d = format!("d_{}", cell_name(s.k, s.col, *r));
                *a.cells.get_mut(&(s.k, s.col, *r)).unwrap() += F::var(&d);
                deltas.push(d);
            }
        }
        // one member leaves the cycle by an arbitrary amount; cells
        // derived from it follow, so that the gates still hold
        Break::Copy(k) => {
            let (c, r) = cr.cycles[*k][0];
            let key = (K::W, c, r);
            let mut src = cr.clone();
            src.cycles[*k].remove(0);
            let mut over = BTreeMap::new();
            for (key, v) in a.cells.iter().filter(|(k, _)| matches!(k.0, K::W)) {
                over.insert(*key, *v);
            }
            let d = "d_copy".to_string();
            *over.get_mut(&key).unwrap() += F::var(&d);
            deltas.push(d);
            a = sess::concretely(|| src.fill_over(&over));
        }
        Break::Lookup(_) | Break::LookupOf(..) => {}
    }
    (a, deltas)
}
