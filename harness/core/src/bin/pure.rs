//! C12: reading a matrix has no observable effect.
#![allow(dead_code)]
#[path = "red/cx.rs"]
mod cx;
use core_checks::pure::interleaved;
use core_checks::raw::*;
use core_checks::tf::*;
use mc::*;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::MapVecMatrix;
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::*;
use rustc_hash::FxHashMap;
use std::cmp::Reverse;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

/// A matrix and the wrappers on it.  `mk` may not share state between its results unless that is the point.
fn all<M>(what: &str, m: &M, cols: &[M::ColT], depth: usize, r: &mut Rec) -> Res
where
    M: HasRowFiltration + HasColBasis,
    M::CoefficientField: TF,
    M::RowT: Debug + Hash,
    M::ColT: Debug + Hash,
{
    let k = &[0usize, 1, 2][..];
    let n = |l: &'static str| format!("{what}.{l}");
    let rev: Vec<Reverse<M::ColT>> = cols.iter().cloned().map(Reverse).collect();
    interleaved(&what, &|| m, cols, k, depth, r)?;
    interleaved(&n("new cache"), &|| m.cache_cols(), cols, k, depth, r)?;
    let cache = m.cache_cols();
    interleaved(&n("old cache"), &|| &cache, cols, k, depth, r)?;
    interleaved(&n("consolidate"), &|| m.consolidate(), cols, k, depth, r)?;
    let cons = m.consolidate();
    interleaved(&n("consolidate kept"), &|| &cons, cols, k, depth, r)?;
    interleaved(&n("cache of consolidate"), &|| (&cons).cache_cols(), cols, k, depth, r)?;
    let rv = m.reverse();
    interleaved(&n("reverse"), &|| &rv, &rev, k, depth, r)?;
    interleaved(&n("reverse of cache"), &|| (&cache).reverse(), &rev, k, depth, r)?;
    interleaved(&n("cache of reverse"), &|| (&rv).cache_cols(), &rev, k, depth, r)?;
    let unrev = MatrixOracle::unreverse(m.reverse());
    interleaved(&n("unreverse"), &|| &unrev, cols, k, depth, r)?;
    let filt = m.with_trivial_filtration();
    interleaved(&n("with_trivial_filtration"), &|| &filt, cols, k, depth, r)?;
    let based = m.with_basis(cols.to_vec());
    interleaved(&n("with_basis"), &|| &based, cols, k, depth, r)?;
    let by: Vec<usize> = (0..cols.len()).collect();
    let ix = (&based).using_col_basis_index();
    interleaved(&n("using_col_basis_index"), &|| &ix, &by, k, depth, r)?;
    let fc = m.with_filtration(|_: M::RowT| 0usize);
    interleaved(&n("with_filtration"), &|| &fc, cols, k, depth, r)
}

/// Products and sums whose operands are one object.
fn combined<M>(what: &str, m: &M, cols: &[M::ColT], depth: usize, r: &mut Rec) -> Res
where
    M: HasRowFiltration + HasColBasis + MatrixOracle<RowT = <M as MatrixOracle>::ColT>,
    M::CoefficientField: TF,
    M::RowT: Debug + Hash,
{
    let k = &[0usize, 1, 2][..];
    let p = product(m, m);
    interleaved(&format!("{what}: product with itself"), &|| &p, cols, k, depth, r)?;
    let cache = m.cache_cols();
    let pc = product(&cache, &cache);
    interleaved(&format!("{what}: product of a cache with itself"), &|| &pc, cols, k, depth, r)?;
    interleaved(&format!("{what}: cache of the product"), &|| (&p).cache_cols(), cols, k, depth, r)?;
    interleaved(&format!("{what}: consolidated product of consolidations"), &|| product(m.consolidate(), m.consolidate()).consolidate(), cols, k, depth, r)?;
    let s = sum(&cache, &cache).with_trivial_filtration();
    interleaved(&format!("{what}: sum of a cache with itself"), &|| &s, cols, k, depth, r)
}

fn raws<F: TF>() -> Vec<Raw> {
    let c = F::coeffs_small();
    let (a, b) = (c[0], c[c.len() - 1]);
    let lists: Vec<Vec<Term>> = vec![vec![], vec![(a, 0)], vec![(a, 1), (b, 1), (a, 2), (a, 1)], vec![(b, 2), (a, 0), (b, 2)]];
    let mut out = vec![];
    words(4, 3, |w| out.push(w.iter().map(|i| lists[*i].clone()).collect()));
    out
}

fn stored_family<F: TF>(mc: &mut Mc) {
    let t = mc.thorough;
    let d = if t { 4 } else { 3 };
    mc.family(&format!("stored-{}", F::NAME), &format!("64 matrices of 3 columns (empty, short, with repeated rows) in list, map and shared storage, 14 wrappers, products and sums with themselves: all histories of <= {d} operations on two readers of two columns"), |fam| {
        for raw in raws::<F>() {
            fam.case(
                || format!("{} {raw:?}", F::NAME),
                |r| {
                    r.state(&(F::NAME, &raw));
                    let m = build::<F>(&raw).with_filtration(|x: usize| 7 - x);
                    for (i, j) in [(0usize, 1usize), (2, 0)] {
                        let cols = [i, j];
                        all("list", &m, &cols, if i == 0 { d } else { 2 }, r)?;
                        if i == 2 {
                            continue;
                        }
                        let map: FxHashMap<usize, Vec<(F, usize)>> = stored::<F>(&raw).into_iter().enumerate().collect();
                        let mm = MapVecMatrix::from(map).with_filtration(|x: usize| x / 2);
                        interleaved(&"map", &|| &mm, &cols, &[0, 1, 2], d, r)?;
                        let rc = Rc::new(build::<F>(&raw)).with_filtration(|x: usize| x);
                        interleaved(&"shared", &|| &rc, &cols, &[0, 1, 2], d, r)?;
                        combined("list", &m, &[i, j], d.min(3), r)?;
                    }
                    Ok(())
                },
            );
        }
    });
}

fn reductions<F: TF>(mc: &mut Mc, p: i128, n: usize) {
    let d = if mc.thorough { 3 } else { 2 };
    mc.family(&format!("reductions-{}", F::NAME), &format!("all filtered chain complexes of <= {n} elements of dimension <= 2: standard and clearing reduction matrix V and D*V, boundary and reversed coboundary; all histories of <= {d} operations on two readers of the last two columns"), |fam| {
        cx::graded(p, n, 2, &mut |c| {
            if c.n() < 2 {
                return;
            }
            fam.case(
                || format!("{c:?}"),
                |r| {
                    r.state(c);
                    let two = [c.n() - 1, c.n() - 2];
                    let split = Split((0..=2).map(|d| c.of_dim(d)).collect());
                    let m = build::<F>(&c.bd).with_filtration(|x: usize| x).with_basis(split);
                    let (v, _) = standard_algo_with_diagram(&m, false);
                    let (vc, _) = ClearedReductionMatrix::build_with_diagram(&m, (0..=2).rev());
                    let vt = v.with_filtration(|x: usize| x);
                    interleaved(&"standard V", &|| &vt, &two, &[0, 1, 2], d, r)?;
                    interleaved(&"clearing V", &|| (&vc).with_filtration(|x: usize| x), &two, &[0, 1, 2], d, r)?;
                    let rc = product(&m, &vc);
                    interleaved(&"clearing R", &|| &rc, &two, &[0, 2], d, r)?;
                    // asking whether a column is a cycle while a reader is alive
                    let cyc: Vec<bool> = two.iter().map(|y| vc.col_is_cycle(*y)).collect();
                    for x in two {
                        let alone = col_sums(&vc, x);
                        let mut it = vc.column(x);
                        let first = it.next();
                        let again: Vec<bool> = two.iter().map(|y| vc.col_is_cycle(*y)).collect();
                        ensure_eq!(again, cyc, "cycle tests while column {x} is being read");
                        let rest: Vec<_> = first.into_iter().chain(it).map(|(c, y)| (c.sc(), y)).collect();
                        ensure_eq!(sums(rest), alone, "column {x} of V around cycle tests");
                    }
                    Ok(())
                },
            );
        });
    });
}

fn dist(n: usize, kind: usize) -> Vec<Vec<NotNan<f64>>> {
    let f = |i: usize, j: usize| {
        let k = i.abs_diff(j);
        NotNan::new(match kind {
            0 => k as f64,
            1 => k.min(n - k) as f64,
            _ => ((i * j + i + j) % 5 + usize::from(i != j)) as f64 * usize::from(i != j) as f64,
        })
        .unwrap()
    };
    (0..n).map(|i| (0..n).map(|j| f(i, j)).collect()).collect()
}

fn rips<F: TF>(mc: &mut Mc) {
    let t = mc.thorough;
    let depth = if t { 4 } else { 3 };
    let nmax = if t { 6 } else { 5 };
    mc.family(&format!("rips-{}", F::NAME), &format!("all pairs of simplices on 2..={nmax} points, 3 metrics: boundary, coboundary, bare, reversed and squared Rips matrices; all histories of <= {depth} operations (neighbouring pairs; otherwise 2) on two readers"), |fam| {
        for n in 2..=nmax {
            for kind in 0..3 {
                let subs: Vec<Vec<usize>> = (1..1usize << n).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect();
                for (a, s) in subs.iter().enumerate() {
                    fam.case(
                        || format!("{} n={n} metric {kind} simplex {s:?}", F::NAME),
                        |r| {
                            r.state(&(F::NAME, n, kind, s));
                            let bd = build_rips_boundary_matrix::<F>(dist(n, kind), 1);
                            let cob = build_rips_coboundary_matrix::<F>(dist(n, kind), 1);
                            let ix = |s: &Vec<usize>| RipsIndex::from_indices(s.iter().copied(), n).unwrap();
                            for (b, o) in subs.iter().enumerate() {
                                let d = if b == a + 1 { depth } else { 2 };
                                let two = [ix(s), ix(o)];
                                let k = &[0usize, 1, 2][..];
                                interleaved(&"boundary", &|| &bd, &two, k, d, r)?;
                                interleaved(&"coboundary", &|| &cob, &two, k, d, r)?;
                                interleaved(&"bare coboundary", &|| &cob.matrix, &two, &[0, 1], 2, r)?;
                                interleaved(&"cached coboundary", &|| (&cob).cache_cols(), &two, &[0, 2], 2, r)?;
                                let rv = two.map(Reverse);
                                let rev = (&cob).reverse();
                                interleaved(&"reversed coboundary", &|| &rev, &rv, &[0, 1, 2], 2, r)?;
                                let sq = product(&cob, &cob);
                                interleaved(&"squared coboundary", &|| &sq, &two, &[0, 1, 2], 2, r)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

pub fn c12(mc: &mut Mc) {
    let t = mc.thorough as usize;
    stored_family::<Z3>(mc);
    stored_family::<Q>(mc);
    reductions::<Z2>(mc, 2, 5 + t);
    reductions::<Z3>(mc, 3, 4 + t);
    rips::<Z3>(mc);
}

fn main() {
    mc::main(&[("C12", c12)]);
}
