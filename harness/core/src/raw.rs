//! Raw matrices (lists of terms) and helpers to compare views of them.
use crate::tf::*;
use mc::la::Sc;
use mc::*;
use phlite::matrices::implementors::VecVecMatrix;
use phlite::matrices::{ColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use std::collections::BTreeMap;
use std::cmp::Reverse;
use std::fmt::Debug;
use std::hash::Hash;

pub type Term = (Sc, usize);
pub type Raw = Vec<Vec<Term>>;

pub fn build<F: TF>(raw: &Raw) -> VecVecMatrix<'static, F, usize> {
    VecVecMatrix::from(stored::<F>(raw))
}
pub fn stored<F: TF>(raw: &Raw) -> Vec<Vec<(F, usize)>> {
    raw.iter().map(|c| c.iter().map(|(k, r)| (F::of(*k), *r)).collect()).collect()
}

/// Total coefficient per row, zero totals omitted.
pub fn sums<R: Ord + Clone>(terms: impl IntoIterator<Item = (Sc, R)>) -> BTreeMap<R, Sc> {
    let mut m: BTreeMap<R, Sc> = BTreeMap::new();
    for (c, r) in terms {
        let e = m.entry(r).or_insert(Sc::zero(c.p));
        *e = e.add(c);
    }
    m.retain(|_, c| !c.is_zero());
    m
}

pub fn terms<M>(m: &M, col: M::ColT) -> Vec<(Sc, M::RowT)>
where
    M: MatrixOracle,
    M::CoefficientField: TF,
{
    m.column(col).map(|(c, r)| (c.sc(), r)).collect()
}

pub fn col_sums<M>(m: &M, col: M::ColT) -> BTreeMap<M::RowT, Sc>
where
    M: MatrixOracle,
    M::CoefficientField: TF,
{
    sums(terms(m, col))
}

/// All term lists of length <= max over the given rows and coefficients.
pub fn term_lists(rows: usize, coeffs: &[Sc], max: usize) -> Vec<Vec<Term>> {
    let mut letters = vec![];
    for r in 0..rows {
        for c in coeffs {
            letters.push((*c, r));
        }
    }
    let mut out = vec![];
    words_upto(letters.len(), max, |w| out.push(w.iter().map(|i| letters[*i]).collect()));
    out
}

/// All dense columns (each row absent or with one coefficient).
pub fn dense_cols(rows: usize, coeffs: &[Sc]) -> Vec<Vec<Term>> {
    let mut out = vec![];
    words(coeffs.len() + 1, rows, |w| {
        out.push(w.iter().enumerate().filter(|(_, k)| **k > 0).map(|(r, k)| (coeffs[*k - 1], r)).collect())
    });
    out
}

fn sorted<T: Ord>(mut v: Vec<T>) -> Vec<T> {
    v.sort();
    v
}

/// A label with the wrappers it went through, formatted only when something fails.
pub struct What<'a>(pub Option<&'a What<'a>>, pub &'static str);
impl std::fmt::Display for What<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if let Some(p) = self.0 {
            write!(f, "{p}.")?;
        }
        f.write_str(self.1)
    }
}

type Triple<R, FT> = (FT, R, Sc);

#[inline(never)]
fn view_cmp<R: Ord + Clone + Debug, FT: Ord + Clone + Debug>(
    what: &dyn std::fmt::Display,
    plain: Vec<(Sc, R)>,
    rich: Vec<Triple<R, FT>>,
    heap: Vec<Triple<R, FT>>,
    empty: bool,
    fvals: Vec<FT>,
    want: &[(Sc, R)],
    fil: &dyn Fn(&R) -> FT,
    exact: bool,
) -> Res {
    let total = sums(want.to_vec());
    if exact {
        ensure_eq!(sorted(plain.clone()), sorted(want.to_vec()), "{what}: column terms");
    } else {
        ensure_eq!(sums(plain.clone()), total, "{what}: column totals");
    }
    let rt: Vec<_> = rich.iter().map(|(_, r, c)| (*c, r.clone())).collect();
    ensure_eq!(sorted(rt), sorted(plain), "{what}: enriched column terms");
    for (f, r, _) in &rich {
        ensure_eq!(*f, fil(r), "{what}: filtration value in enriched column, row {:?}", r);
    }
    for ((_, r), f) in want.iter().zip(fvals) {
        ensure_eq!(f, fil(r), "{what}: filtration_value of row {:?}", r);
    }
    let mut exp: Vec<_> = total.into_iter().map(|(r, c)| (fil(&r), r, c)).collect();
    exp.sort();
    exp.reverse();
    ensure_eq!(heap, exp, "{what}: heap of the column, sorted");
    ensure!(empty, "{what}: empty heap is not empty");
    Ok(())
}

/// Checks a filtered view of a column against the expected list of (coefficient, row) terms and filtration function:
/// plain terms, enriched terms, filtration values and the heap built from the column.  With `exact`, multisets of terms
/// must agree, otherwise only totals per row.
pub fn view<M>(
    what: &dyn std::fmt::Display,
    m: &M,
    col: M::ColT,
    want: &[(Sc, M::RowT)],
    fil: &dyn Fn(&M::RowT) -> M::FiltrationT,
    exact: bool,
) -> Res
where
    M: HasRowFiltration,
    M::CoefficientField: TF,
    M::RowT: Debug,
    M::FiltrationT: Debug,
{
    let mut plain = vec![];
    for (c, r) in m.column(col.clone()) {
        plain.push((c.sc(), r));
    }
    let mut rich = vec![];
    for e in m.column_with_filtration(col.clone()) {
        rich.push((e.filtration_value, e.row_index, e.coeff.sc()));
    }
    let fvals = want.iter().map(|(_, r)| m.filtration_value(r.clone())).collect();
    let heap = heap_list(m.build_bhcol(col));
    let empty = heap_list(m.empty_bhcol()).is_empty();
    view_cmp(what, plain, rich, heap, empty, fvals, want, fil, exact)
}

#[inline(never)]
fn heap_list<FT: phlite::matrices::FiltrationValue, R: phlite::matrices::BasisElement, F: TF>(
    h: phlite::columns::BHCol<FT, R, F>,
) -> Vec<Triple<R, FT>> {
    h.to_sorted_vec().into_iter().map(|e| (e.filtration_value, e.row_index, e.coeff.sc())).collect()
}

pub fn elems<B: ColBasis>(b: &B) -> Vec<B::ElemT> {
    (0..b.size()).map(|i| b.element(i)).collect()
}

/// A basis split by dimension, used by the harness.
#[derive(Clone, Debug)]
pub struct Split(pub Vec<Vec<usize>>);
impl ColBasis for Split {
    type ElemT = usize;
    fn element(&self, mut index: usize) -> usize {
        for part in &self.0 {
            if index < part.len() {
                return part[index];
            }
            index -= part.len();
        }
        panic!("index within basis")
    }
    fn size(&self) -> usize {
        self.0.iter().map(|v| v.len()).sum()
    }
}
impl SplitByDimension for Split {
    type SubBasisT = Vec<usize>;
    fn in_dimension(&self, d: usize) -> &Vec<usize> {
        &self.0[d]
    }
}

/// Row orders used to fill tall heaps.
pub fn tall_order(n: usize, kind: usize) -> Vec<usize> {
    match kind {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        // zig-zag
        2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        // multiplicative shuffle
        _ => {
            let mut k = (n * 5 / 8).max(1);
            while la::gcd(k as i128, n.max(1) as i128) != 1 {
                k += 1;
            }
            (0..n).map(|i| (i * k + 3) % n.max(1)).collect()
        }
    }
}

pub fn rv<T: Clone>(l: &[T]) -> Vec<Reverse<T>> {
    l.iter().rev().cloned().map(Reverse).collect()
}
pub fn rv1<T: Clone>(l: &[T]) -> Vec<Reverse<T>> {
    l.iter().cloned().map(Reverse).collect()
}
pub fn rterms(l: &[Term]) -> Vec<(Sc, Reverse<usize>)> {
    l.iter().map(|(c, r)| (*c, Reverse(*r))).collect()
}

/// A basis reports exactly the given list.
pub fn basis_is<B: ColBasis>(what: &str, b: &B, want: &[B::ElemT]) -> Res
where
    B::ElemT: Debug,
{
    ensure_eq!(ColBasis::size(b), want.len(), "{what}: size");
    let got: Vec<_> = (0..want.len()).map(|i| b.element(i)).collect();
    ensure_eq!(&got[..], want, "{what}: elements");
    Ok(())
}
/// ... and its reverse lookup inverts it.
pub fn lookup<B: ColBasis>(what: &str, b: &B) -> Res
where
    B::ElemT: Debug + Hash,
{
    let m = b.construct_reverse_lookup();
    ensure_eq!(m.len(), ColBasis::size(b), "{what}: size of the reverse lookup");
    for i in 0..ColBasis::size(b) {
        ensure_eq!(m.get(&b.element(i)), Some(&i), "{what}: reverse lookup of element {i}");
    }
    Ok(())
}

/// All ways to cut a list into `k` consecutive (possibly empty) parts.
pub fn cuts<T: Clone>(l: &[T], k: usize) -> Vec<Vec<Vec<T>>> {
    if k == 1 {
        return vec![vec![l.to_vec()]];
    }
    let mut out = vec![];
    for i in 0..=l.len() {
        for mut rest in cuts(&l[i..], k - 1) {
            rest.insert(0, l[..i].to_vec());
            out.push(rest);
        }
    }
    out
}

