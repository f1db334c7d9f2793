//! Running the reductions of the code under test and judging what comes back.
use core_checks::tf::*;
use mc::la::*;
use mc::*;
use phlite::columns::ColumnEntry;
use phlite::matrices::*;
use phlite::reduction::{standard_algo_with_diagram, ClearedReductionMatrix};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

pub type Pairs = Vec<(usize, usize)>;

/// What a reduction returned, elements translated to ids; coefficients as residues.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Out {
    pub v: BTreeMap<usize, BTreeMap<usize, u64>>,
    pub ess: Vec<usize>,
    pub pairs: Pairs,
    /// answers of the cycle test (clearing only)
    pub cyc: BTreeMap<usize, bool>,
}

fn totals<F: TF, C>(terms: impl Iterator<Item = (F, C)>, id: &dyn Fn(&C) -> usize, q: u64) -> BTreeMap<usize, u64> {
    let mut m = BTreeMap::new();
    for (c, x) in terms {
        let e = m.entry(id(&x)).or_insert(0u64);
        *e = ((*e as u128 + c.sc().residue() as u128) % q as u128) as u64;
    }
    m.retain(|_, c| *c != 0);
    m
}

fn diagram<C>(d: &phlite::reduction::Diagram<C>, id: &dyn Fn(&C) -> usize) -> (Vec<usize>, Pairs) {
    let mut ess: Vec<usize> = d.essential.iter().map(id).collect();
    ess.sort();
    let mut pairs: Pairs = d.pairings.iter().map(|(a, b)| (id(a), id(b))).collect();
    pairs.sort();
    (ess, pairs)
}

pub fn run_std<M>(m: &M, reverse_order: bool, id: &dyn Fn(&M::ColT) -> usize) -> Out
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M::CoefficientField: TF,
    M::FiltrationT: 'static,
    M::ColT: Hash + 'static,
{
    let q = rank_prime(<M::CoefficientField as TF>::P);
    let (v, d) = standard_algo_with_diagram(m, reverse_order);
    let (ess, pairs) = diagram(&d, id);
    let b = m.basis();
    let mut vs = BTreeMap::new();
    for i in 0..ColBasis::size(&*b) {
        let e = b.element(i);
        vs.insert(id(&e), totals(v.column(e), id, q));
    }
    Out { v: vs, ess, pairs, cyc: BTreeMap::new() }
}

pub fn run_clr<M>(m: &M, dims: &[usize], id: &dyn Fn(&M::ColT) -> usize) -> Out
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M::BasisT: SplitByDimension,
    M::CoefficientField: TF,
    M::FiltrationT: 'static,
    M::ColT: Hash + Debug + 'static,
    ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>: Clone,
{
    let q = rank_prime(<M::CoefficientField as TF>::P);
    let (v, d) = ClearedReductionMatrix::build_with_diagram(m, dims.iter().copied());
    let (ess, pairs) = diagram(&d, id);
    let mut vs = BTreeMap::new();
    let mut cyc = BTreeMap::new();
    for d in dims {
        let b = m.basis();
        let b = b.in_dimension(*d);
        for i in 0..b.size() {
            let e = b.element(i);
            vs.insert(id(&e), totals(v.column(e.clone()), id, q));
            cyc.insert(id(&e), v.col_is_cycle(e));
        }
    }
    Out { v: vs, ess, pairs, cyc }
}

/// Judges R = DV.  `cols[j]`: column of D by id as (residue, row id); `before[i]`: ids of the basis in reduction order
/// grouped so that V may only use earlier ids of the same group; `rank[i]`: position of row i in (filtration, index)
/// order.  Returns the set of pairs (row, column) of pivots and of zero columns.
pub fn decomposition(
    what: &dyn std::fmt::Display,
    out: &Out,
    cols: &[Vec<(u64, usize)>],
    groups: &[Vec<usize>],
    rank: &[usize],
    unit_diagonal: bool,
    q: u64,
) -> Result<(BTreeSet<(usize, usize)>, BTreeSet<usize>), String> {
    let mut piv = BTreeSet::new();
    let mut zero = BTreeSet::new();
    let mut used = BTreeMap::new();
    for g in groups {
        let mut seen = BTreeSet::new();
        for b in g {
            let v = &out.v[b];
            match v.get(b) {
                None => return Err(format!("{what}: V has no entry on the diagonal of column {b}: {v:?}")),
                Some(c) => ensure!(*c == 1 || !unit_diagonal, "{what}: V has diagonal entry {c} in column {b}: {v:?}"),
            }
            for i in v.keys() {
                ensure!(i == b || seen.contains(i), "{what}: column {b} of V uses {i}, which is not earlier in the basis: {v:?}");
            }
            seen.insert(*b);
            let mut r: BTreeMap<usize, u64> = BTreeMap::new();
            for (j, c) in v {
                for (k, i) in &cols[*j] {
                    let e = r.entry(*i).or_insert(0);
                    *e = ((*e as u128 + *c as u128 * *k as u128) % q as u128) as u64;
                }
            }
            r.retain(|_, c| *c != 0);
            match r.keys().max_by_key(|i| rank[**i]) {
                None => {
                    zero.insert(*b);
                }
                Some(i) => {
                    if let Some(o) = used.insert(*i, *b) {
                        return Err(format!("{what}: columns {o} and {b} of DV share the pivot {i}"));
                    }
                    piv.insert((*i, *b));
                }
            }
        }
    }
    Ok((piv, zero))
}

/// Judges an output completely.  `want` is the set of (pivot row, column) pairs, `ess` the essential columns.
pub fn judge(
    what: &dyn std::fmt::Display,
    out: &Out,
    cols: &[Vec<(u64, usize)>],
    groups: &[Vec<usize>],
    rank: &[usize],
    q: u64,
    clearing: bool,
    want: &[(usize, usize)],
    ess: &[usize],
) -> Res {
    judge_v(what, out, cols, groups, rank, q, clearing)?;
    judge_d(what, out, want, ess)
}

pub fn judge_v(
    what: &dyn std::fmt::Display,
    out: &Out,
    cols: &[Vec<(u64, usize)>],
    groups: &[Vec<usize>],
    rank: &[usize],
    q: u64,
    clearing: bool,
) -> Res {
    let (_, zero) = decomposition(what, out, cols, groups, rank, !clearing, q)?;
    for (b, ans) in &out.cyc {
        ensure_eq!(*ans, zero.contains(b), "{what}: cycle test of column {b}");
    }
    if clearing {
        for (b, _) in &out.pairs {
            ensure!(!out.v.contains_key(b) || zero.contains(b), "{what}: paired birth {b} has a non-zero column in DV");
        }
    }
    Ok(())
}

pub fn judge_d(what: &dyn std::fmt::Display, out: &Out, want: &[(usize, usize)], ess: &[usize]) -> Res {
    ensure_eq!(&out.pairs[..], want, "{what}: pairs (row, column)");
    ensure_eq!(&out.ess[..], ess, "{what}: essential columns");
    Ok(())
}
