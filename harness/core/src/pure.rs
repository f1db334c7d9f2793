//! Interleaved reading of the columns of one matrix.
use crate::raw::*;
use crate::tf::*;
use mc::la::Sc;
use mc::*;
use phlite::matrices::HasRowFiltration;
use std::collections::BTreeMap;
use std::fmt::{Debug, Display};

pub type It<'a, R> = Box<dyn Iterator<Item = (Sc, R)> + 'a>;

pub fn open<'a, M>(m: &'a M, kind: usize, col: M::ColT) -> It<'a, M::RowT>
where
    M: HasRowFiltration,
    M::CoefficientField: TF,
{
    match kind {
        0 => Box::new(m.column(col).map(|(c, r)| (c.sc(), r))),
        1 => Box::new(m.column_with_filtration(col).map(|e| (e.coeff.sc(), e.row_index))),
        _ => {
            let mut h = m.build_bhcol(col);
            Box::new(std::iter::from_fn(move || h.pop_pivot().map(|e| (e.coeff.sc(), e.row_index))))
        }
    }
}

/// Runs every history of at most `depth` operations on two slots that hold readers of columns: open one of the columns
/// (plain, enriched or as a heap) in a slot, take one entry, read to the end, drop.  Whatever was read to the
/// end, and every column read afresh after the history, must be the linear combination that the same kind of reader
/// delivered when it was alone and first.  `make` supplies the matrix for each history (a new one if it has state worth resetting).
pub fn interleaved<M>(
    what: &dyn Display,
    make: &dyn Fn() -> M,
    cols: &[M::ColT],
    kinds: &[usize],
    depth: usize,
    r: &mut Rec,
) -> Res
where
    M: HasRowFiltration,
    M::CoefficientField: TF,
    M::RowT: Debug,
    M::ColT: Debug,
{
    let readers: Vec<(usize, usize)> = (0..cols.len()).flat_map(|c| kinds.iter().map(move |k| (*k, c))).collect();
    let k = readers.len();
    let letters = 2 * (k + 3);
    let names: Vec<&dyn Debug> = cols.iter().map(|c| c as &dyn Debug).collect();
    let totals: Vec<BTreeMap<M::RowT, Sc>> = readers.iter().map(|(k, c)| sums(open(&make(), *k, cols[*c].clone()))).collect();
    let mut res = Ok(());
    let mut count = 0usize;
    words_upto(letters, depth, |w| {
        if res.is_err() {
            return;
        }
        // the same histories with the slots exchanged, or ending in an operation without effect, are left out
        if w.first().is_some_and(|x| *x >= k) {
            return;
        }
        let mut live = [false; 2];
        for x in w {
            let (s, o) = (x / (k + 3), x % (k + 3));
            if o < k {
                live[s] = true;
            } else if !live[s] {
                return;
            } else if o == k + 2 {
                live[s] = false;
            }
        }
        count += 1;
        let m = make();
        let start = |kind: usize, c: usize| open(&m, kind, cols[c].clone());
        res = history(what, &start, &names, &totals, &readers, w);
    });
    r.step(count);
    r.trace(count);
    res
}

fn history<'a, R: Ord + Clone + Debug>(
    what: &dyn Display,
    open: &dyn Fn(usize, usize) -> It<'a, R>,
    names: &[&dyn Debug],
    totals: &[BTreeMap<R, Sc>],
    readers: &[(usize, usize)],
    w: &[usize],
) -> Res
{
    let k = readers.len();
    type Slot<'a, R> = Option<(usize, It<'a, R>, Vec<(Sc, R)>)>;
    let mut slots: [Slot<R>; 2] = [None, None];
    let finish = |s: Slot<R>, when: &str| -> Res {
        if let Some((i, it, mut got)) = s {
            got.extend(it);
            let (kind, c) = readers[i];
            ensure_eq!(sums(got), totals[i], "{what}: column {:?} (reader kind {kind}) {when} of history {w:?}", names[c]);
        }
        Ok(())
    };
    for x in w {
        let (s, o) = (x / (k + 3), x % (k + 3));
        if o < k {
            // the old reader goes away after the new one is there
            let (kind, c) = readers[o];
            slots[s] = Some((o, open(kind, c), vec![]));
        } else if o == k {
            if let Some((_, it, got)) = &mut slots[s] {
                got.extend(it.next());
            }
        } else if o == k + 1 {
            finish(slots[s].take(), "read to the end in the middle")?;
        } else {
            slots[s] = None;
        }
    }
    let [a, b] = slots;
    finish(a, "at the end")?;
    finish(b, "at the end")?;
    for i in 0..k {
        let (kind, c) = readers[i];
        finish(Some((i, open(kind, c), vec![])), "read after the end")?;
    }
    Ok(())
}
