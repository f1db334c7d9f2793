//! C14: several threads using the library at once.
#![allow(dead_code)]
#[path = "red/cx.rs"]
mod cx;
#[path = "red/run.rs"]
mod run;
use core_checks::conc::*;
use core_checks::raw::*;
use core_checks::tf::*;
use core_checks::user::*;
use cx::*;
use mc::la::*;
use mc::sched::*;
use mc::*;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::MapVecMatrix;
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use rustc_hash::FxHashMap;
use run::*;
use std::cmp::Reverse;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::Arc;

/// A shared matrix and wrappers of it, shared or one per thread.
fn all<M>(what: &str, m: &M, cols: &[M::ColT], how: How, r: &mut Rec) -> Res
where
    M: HasRowFiltration + HasColBasis + Sync,
    M::CoefficientField: TF,
    M::RowT: Debug + Hash + Sync,
    M::ColT: Debug + Hash + Sync,
{
    let k = &[0usize, 1, 2][..];
    let n = |l: &'static str| format!("{what}.{l}");
    let rev: Vec<Reverse<M::ColT>> = cols.iter().cloned().map(Reverse).collect();
    readers(what, &|| m, cols, k, how, r)?;
    readers(&n("cache of one's own"), &|| m.cache_cols(), cols, k, how, r)?;
    let cons = m.consolidate();
    readers(&n("consolidate"), &|| &cons, cols, k, how, r)?;
    let rv = m.reverse();
    readers(&n("reverse"), &|| &rv, &rev, k, how, r)?;
    let unrev = MatrixOracle::unreverse(m.reverse());
    readers(&n("unreverse"), &|| &unrev, cols, k, how, r)?;
    let based = m.with_basis(cols.to_vec());
    let by: Vec<usize> = (0..cols.len()).collect();
    let ix = (&based).using_col_basis_index();
    readers(&n("with_basis.using_col_basis_index"), &|| &ix, &by, k, how, r)?;
    let fc = m.with_filtration(|_: M::RowT| {
        point(TIME);
        0usize
    });
    readers(&n("with_filtration"), &|| &fc, cols, k, how, r)
}

fn combined<M>(what: &str, m: &M, cols: &[M::ColT], how: How, r: &mut Rec) -> Res
where
    M: HasRowFiltration + HasColBasis + Sync + SquareMatrix,
    M::CoefficientField: TF,
    M::RowT: Debug + Hash + Sync,
{
    let k = &[0usize, 1, 2][..];
    let p = product(m, m);
    readers(&format!("{what}: product"), &|| &p, cols, k, how, r)?;
    let s = sum(m, m.consolidate()).with_trivial_filtration();
    readers(&format!("{what}: sum"), &|| &s, cols, k, how, r)
}

/// Two threads reduce a matrix each.
fn reductions(a: &Cx, b: &Cx, algs: &[(usize, usize)], how: How, r: &mut Rec) -> Res {
    let cxs = [a, b];
    let mats = [oracle(a, false), oracle(b, false)];
    let cobs = [oracle(a, true), oracle(b, true)];
    let want: Vec<(Pairs, Vec<usize>)> = cxs.iter().map(|c| reference(c)).collect();
    let (mats, cobs, want) = (&mats, &cobs, &want);
    for (x, y) in algs {
        let job = move |t: usize, alg: usize| -> Res {
            let c = cxs[t];
            let n = c.n();
            let id = |e: &Yr| e.0;
            let rid = |e: &Reverse<Yr>| e.0 .0;
            let top = c.top();
            let (out, cohom) = match alg {
                0 => (run_std(&mats[t], false, &id), false),
                1 => (run_clr(&mats[t], &(0..=top).rev().collect::<Vec<_>>(), &id), false),
                2 => (run_std(&(&cobs[t]).reverse(), true, &rid), true),
                _ => (run_clr(&(&cobs[t]).reverse(), &(0..=top).collect::<Vec<_>>(), &rid), true),
            };
            let q = c.q();
            let res = |m: &[Vec<Term>]| -> Vec<Vec<(u64, usize)>> { m.iter().map(|l| l.iter().map(|(k, i)| (k.residue(), *i)).collect()).collect() };
            let cols = if cohom { res(&c.cob()) } else { res(&c.bd) };
            let groups: Vec<Vec<usize>> = (0..=top)
                .map(|d| {
                    let mut g = c.of_dim(d);
                    if cohom {
                        <[usize]>::reverse(&mut g);
                    }
                    g
                })
                .collect();
            let rank: Vec<usize> = if cohom { (0..n).rev().collect() } else { (0..n).collect() };
            let (pairs, ess) = &want[t];
            let mut flip: Pairs = pairs.clone();
            if cohom {
                flip = pairs.iter().map(|(i, j)| (*j, *i)).collect();
                flip.sort();
            }
            judge(&format!("algorithm {alg} on {c:?}"), &out, &cols, &groups, &rank, q, alg % 2 == 1, &flip, ess)
        };
        let bodies = || -> Vec<Body> { vec![Box::new(move || job(0, *x)), Box::new(move || job(1, *y))] };
        let (s, p) = explore(how.bound, how.mask, &bodies)?;
        r.trace(s);
        r.step(p);
    }
    Ok(())
}

fn same(a: &Cx, b: &Cx) -> bool {
    a.dim == b.dim && a.bd.iter().zip(&b.bd).all(|(x, y)| x.iter().map(|t| t.1).eq(y.iter().map(|t| t.1)))
}

fn reference(c: &Cx) -> (Pairs, Vec<usize>) {
    let pairs = c.pairs();
    let ess = (0..c.n()).filter(|i| pairs.iter().all(|(a, b)| a != i && b != i)).collect();
    (pairs, ess)
}

fn oracle(c: &Cx, co: bool) -> Ym {
    let cols = if co { c.cob() } else { c.bd.clone() };
    Ym {
        cols: cols.iter().map(|l| l.iter().map(|(k, i)| (Y5::of(*k), Yr(*i))).collect()).collect(),
        basis: Yb((0..=c.top()).map(|d| c.of_dim(d).into_iter().map(Yr).collect()).collect()),
    }
}

fn dist(n: usize, w: &[usize]) -> Vec<Vec<NotNan<f64>>> {
    let mut d = vec![vec![NotNan::new(0.0).unwrap(); n]; n];
    let mut k = 0;
    for i in 0..n {
        for j in i + 1..n {
            d[i][j] = NotNan::new(w[k] as f64).unwrap();
            d[j][i] = d[i][j];
            k += 1;
        }
    }
    d
}

/// What one thread computes about two field elements.
fn arithmetic<F: TF>(a: Sc, b: Sc) -> Vec<Option<Sc>> {
    let (x, y) = (F::of(a), F::of(b));
    let mut out = vec![];
    let mut put = |v: Option<F>| {
        out.push(v.map(|v| v.sc()));
        point(STEP);
    };
    put(Some(x.mult_inverse()));
    put(x + y);
    put(Some(x * y));
    put(Some(y.mult_inverse()));
    put(Some(x.additive_inverse()));
    put(Some(x.mult_inverse() * x));
    out
}

fn arithmetics<F: TF, G: TF>(fam: &mut Family) {
    let (x, y) = (F::coeffs(), G::coeffs());
    for a in &x {
        fam.case(|| format!("{} and {}: {a:?}", F::NAME, G::NAME), |r| {
            for b in &y {
                // the second operands run along
                let a2 = x[(x.iter().position(|v| v == a).unwrap() * 3 + 1) % x.len()];
                let b2 = y[(y.iter().position(|v| v == b).unwrap() * 5 + 2) % y.len()];
                r.state(&(F::NAME, G::NAME, a, b));
                let want = |p: Sc, q: Sc| vec![Some(p.inv()), Some(p.add(q)).filter(|v| v.n != 0), Some(p.mul(q)), Some(q.inv()), Some(p.neg()), Some(Sc::int(1, p.p))];
                ensure_eq!(arithmetic::<F>(*a, a2), want(*a, a2), "alone");
                job2("arithmetic", 2, STEP, &|| arithmetic::<F>(*a, a2), &|| arithmetic::<G>(*b, b2), r)?;
            }
            Ok(())
        });
    }
}

type Flat = Vec<(usize, Vec<(u64, u64, String)>)>;
/// All columns of a matrix, with filtration values, and its basis in some dimensions.
fn everything<M>(m: &M, dims: std::ops::RangeInclusive<usize>) -> Flat
where
    M: HasRowFiltration + HasColBasis,
    M::BasisT: SplitByDimension,
    M::CoefficientField: TF,
    M::RowT: Debug,
    M::FiltrationT: Debug,
{
    let mut out = vec![];
    for d in dims {
        let b = m.basis();
        let b = b.in_dimension(d);
        for i in 0..b.size() {
            let c = b.element(i);
            point(STEP);
            let mut l: Vec<_> = m.column_with_filtration(c.clone()).map(|e| (e.coeff.sc().n as u64, 0, format!("{:?} {:?}", e.filtration_value, e.row_index))).collect();
            l.sort();
            out.push((d, l));
        }
    }
    out
}

/// Building, reading and reducing the Rips matrices of a metric space over a field of the library.
fn rips_all<F: TF>(d: &Vec<Vec<NotNan<f64>>>, kind: usize) -> (Flat, Vec<String>) {
    let n = d.len();
    let co = build_rips_coboundary_matrix::<F>(d.clone(), 2);
    let flat = if kind == 3 { everything(&build_rips_boundary_matrix::<F>(d.clone(), 2), 0..=2) } else if kind == 0 { everything(&co, 0..=1) } else { vec![] };
    let rv = (&co).reverse();
    let dg = match kind {
        1 => ClearedReductionMatrix::build_with_diagram(&rv, 0..=1).1,
        2 => standard_algo_with_diagram(&rv, true).1,
        _ => return (flat, vec![]),
    };
    let mut p: Vec<_> = dg.pairings.iter().map(|(a, b)| format!("{} {} {:?} {:?}", a.0.dimension(n), b.0.dimension(n), a.0.to_vec(n), b.0.to_vec(n))).collect();
    p.extend(dg.essential.iter().map(|a| format!("{} {:?}", a.0.dimension(n), a.0.to_vec(n))));
    p.sort();
    (flat, p)
}

fn c14(mc: &mut Mc) {
    pin(mc.shard as u64, mc.thorough);
    let t = mc.thorough;
    let (b2, b3) = if t { (5, 3) } else { (3, 2) };
    mc.family("readers", &format!("stored matrices over a user-defined field with <= 2 terms (repeated and cancelling) per column, bare and in every wrapper, products and sums; two threads reading any two of two columns by any kind of reader: all interleavings of entries read and oracle calls with <= {b2} preemptions"), |fam| {
        let cs = [Sc::int(1, 5), Sc::int(4, 5)];
        let mut cols: Vec<Vec<Term>> = vec![vec![], vec![(cs[0], 0)]];
        for a in 0..2 {
            for b in 0..2 {
                for k in cs {
                    cols.push(vec![(cs[0], a), (k, b)]);
                }
            }
        }
        for a in 0..cols.len() {
            for b in a..cols.len() {
                let raw: Raw = vec![cols[a].clone(), cols[b].clone()];
                fam.case(|| show(&raw), |r| {
                    r.state(&raw);
                    let how = How { bound: b2, mask: STEP | ORACLE, threads: 2 };
                    let m = Ym { cols: raw.iter().map(|l| l.iter().map(|(k, i)| (Y5::of(*k), Yr(*i))).collect()).collect(), basis: Yb(vec![vec![Yr(0), Yr(1)]]) };
                    let idx = [Yr(0), Yr(1)];
                    all("user matrix", &m, &idx, how, r)?;
                    let how = How { bound: 2.min(b2), mask: STEP, threads: 2 };
                    combined("user matrix", &m, &idx, how, r)?;
                    let s = build::<Z5>(&raw).with_trivial_filtration();
                    all("stored list", &s, &[0, 1], how, r)?;
                    combined("stored list", &s, &[0, 1], how, r)?;
                    let map: FxHashMap<usize, Vec<(Z5, usize)>> = stored::<Z5>(&raw).into_iter().enumerate().collect();
                    let map = MapVecMatrix::from(&map).with_trivial_filtration().with_basis(vec![0usize, 1]);
                    all("stored map", &map, &[0, 1], how, r)?;
                    let shared = Arc::new(build::<Z5>(&raw));
                    let k = &[0usize, 1, 2][..];
                    readers("shared pointer", &|| shared.clone().with_trivial_filtration(), &[0, 1], k, how, r)?;
                    r.outcome(&col_sums(&s, 0).len());
                    Ok(())
                });
            }
        }
    });
    mc.family("three readers", &format!("the same, three threads with two kinds of reader, matrices with 2-term columns: <= {b3} preemptions"), |fam| {
        let cs = [Sc::int(1, 5), Sc::int(4, 5)];
        for k in cs {
            for (a, b) in [(0, 0), (0, 1), (1, 0)] {
                let raw: Raw = vec![vec![(cs[0], a), (k, b)], vec![(cs[1], 1), (cs[0], 0)]];
                fam.case(|| show(&raw), |r| {
                    r.state(&raw);
                    let m = Ym { cols: raw.iter().map(|l| l.iter().map(|(k, i)| (Y5::of(*k), Yr(*i))).collect()).collect(), basis: Yb(vec![vec![Yr(0), Yr(1)]]) };
                    let idx = [Yr(0), Yr(1)];
                    let how = How { bound: b3, mask: STEP | ORACLE, threads: 3 };
                    readers("user matrix", &|| &m, &idx, &[0, 2], how, r)?;
                    let cons = (&m).consolidate();
                    readers("consolidate", &|| &cons, &idx, &[0, 1], how, r)?;
                    let p = product(&m, &cons);
                    readers("product", &|| &p, &idx, &[0], How { bound: 1.max(b3 - 1), ..how }, r)
                });
            }
        }
    });
    mc.family("readers, everywhere", &format!("heaps, comparisons and caches of the same matrices with control also changing hands in every comparison, hash and clone of an index and every coefficient operation: <= {} preemptions", if t { 2 } else { 1 }), |fam| {
        let one = Sc::int(1, 5);
        for k in [1, 2, 4] {
            for w in 0..8usize {
                let k = Sc::int(k, 5);
                let raw: Raw = vec![vec![(one, w & 1), (k, w >> 1 & 1)], vec![(k, w >> 2), (one, 0), (one, 1)]];
                fam.case(|| show(&raw), |r| {
                    r.state(&raw);
                    let m = Ym { cols: raw.iter().map(|l| l.iter().map(|(k, i)| (Y5::of(*k), Yr(*i))).collect()).collect(), basis: Yb(vec![vec![Yr(0), Yr(1)]]) };
                    let idx = [Yr(0), Yr(1)];
                    let how = How { bound: if t { 2 } else { 1 }, mask: ALL, threads: 2 };
                    all("user matrix", &m, &idx, how, r)?;
                    combined("user matrix", &m, &idx, How { bound: 1, ..how }, r)?;
                    // comparisons
                    let eq: Vec<bool> = [(0, 0), (0, 1), (1, 0)].iter().map(|(a, b)| col_sums(&m, Yr(*a)) == col_sums(&m, Yr(*b))).collect();
                    let other = |c: usize| Ym { cols: vec![m.cols[c].clone(), m.cols[c].clone()], basis: Yb(vec![]) };
                    let others = [other(0), other(1)];
                    let (m, others) = (&m, &others);
                    let job = move |c: usize, want: bool| -> Res {
                        ensure_eq!(m.eq_on_col(&others[c], Yr(0)), want, "comparison of columns 0 and {c}");
                        Ok(())
                    };
                    let (e0, e1) = (eq[0], eq[1]);
                    let bodies = || -> Vec<Body> { vec![Box::new(move || job(0, e0)), Box::new(move || job(1, e1))] };
                    let (s, p) = explore(how.bound, ALL, &bodies)?;
                    r.trace(s);
                    r.step(p);
                    Ok(())
                });
            }
        }
    });
    let sizes = if t { 4 } else { 3 };
    mc.family("reductions", &format!("every pair of filtered complexes over a user-defined field with {sizes} elements (or one of them and a triangle or two loops with a disc), reduced at the same time by every pair of four algorithms (three pairs for the larger), judged completely: <= 1 preemption in oracle and basis calls (<= 2 for complexes of the same shape, thorough all small ones), for pairs of the same shape also <= 1 in every comparison, hash, clone, coefficient operation"), |fam| {
        let mut small: Vec<Cx> = vec![];
        graded(5, sizes, 2, &mut |c| {
            if c.n() == sizes && c.bd.iter().any(|b| !b.is_empty()) {
                small.push(c.clone());
            }
        });
        // one of each shape
        let mut seen = std::collections::BTreeSet::new();
        small.retain(|c| seen.insert((c.dim.clone(), c.bd.iter().map(|b| b.iter().map(|x| x.1).collect::<Vec<_>>()).collect::<Vec<_>>())));
        let tri = simplicial(5, &[vec![0, 1, 2]], &|s| vec![*s.last().unwrap()]);
        let square = graph(5, 4, &[(0, 1), (1, 2), (2, 3), (0, 3), (0, 2)], &|s| s.len());
        let mut pairs: Vec<(Cx, Cx)> = vec![];
        for a in &small {
            for b in &small {
                pairs.push((a.clone(), b.clone()));
            }
            pairs.push((a.clone(), tri.clone()));
            pairs.push((square.clone(), a.clone()));
        }
        pairs.push((tri.clone(), square.clone()));
        pairs.push((tri.clone(), tri.clone()));
        for (a, b) in &pairs {
            fam.case(|| format!("{a:?} and {b:?}"), |r| {
                r.state(&(a, b));
                let every: Vec<(usize, usize)> = (0..4).flat_map(|x| (0..4).map(move |y| (x, y))).collect();
                let big = a.n() + b.n() > 2 * sizes;
                let oracle = |bound| How { bound, mask: ORACLE, threads: 2 };
                reductions(a, b, if big && !t { &[(1, 3), (0, 1), (3, 3)] } else { &every }, oracle(1), r)?;
                if !big && (t || same(a, b)) {
                    reductions(a, b, &[(1, 3), (3, 3)], oracle(2), r)?;
                }
                if t && !big || same(a, b) {
                    reductions(a, b, if t { &[(0, 2), (1, 1), (1, 3), (3, 3)] } else { &[(1, 3)] }, How { bound: 1, mask: ALL, threads: 2 }, r)?;
                }
                Ok(())
            });
        }
    });
    mc.family("arithmetic", "two threads inverting, adding, multiplying and negating elements of built-in fields, every pair of first operands of one field and some pairs of fields: all interleavings of the operations with <= 2 preemptions", |fam| {
        arithmetics::<Z2, Z3>(fam);
        arithmetics::<Z3, Z3>(fam);
        arithmetics::<Z5, Z5>(fam);
        arithmetics::<Z7, Z7>(fam);
        arithmetics::<Z11, Z11>(fam);
        arithmetics::<Z13, Z13>(fam);
        arithmetics::<Z5, Z7>(fam);
        arithmetics::<Z11, Z13>(fam);
        arithmetics::<Q, Q>(fam);
        arithmetics::<Q, Z3>(fam);
    });
    mc.family("rips over built-in fields", &format!("pairs of metric spaces of 2 to {} points: each thread builds, and reads or reduces by clearing or the standard algorithm, its own matrices over Z2, Z3, Z7 or Q: <= {} preemptions between columns read and at atomic operations and static memory in the library", if t { 6 } else { 5 }, if t { 3 } else { 2 }), |fam| {
        let mut sp: Vec<Vec<Vec<NotNan<f64>>>> = vec![];
        for n in 2..=if t { 6 } else { 5 } {
            let k = n * (n - 1) / 2;
            sp.push(dist(n, &(0..k).map(|i| 1 + i * 7 % 5).collect::<Vec<_>>()));
            sp.push(dist(n, &vec![1; k]));
        }
        for i in 0..sp.len() {
            for j in 0..sp.len() {
                for (x, y) in [(0, 0), (0, 1), (0, 3), (1, 1), (1, 2), (2, 3), (3, 3)] {
                    fam.case(|| format!("{:?} and {:?}, tasks {x} and {y}", sp[i], sp[j]), |r| {
                        r.state(&(i, j, x, y));
                        let (a, b) = (&sp[i], &sp[j]);
                        let bound = if t { 3 } else { 2 };
                        job2("Z3 and Z3", bound, STEP, &|| rips_all::<Z3>(a, x), &|| rips_all::<Z3>(b, y), r)?;
                        job2("Z7 and Q", bound - 1, STEP, &|| rips_all::<Z7>(a, x), &|| rips_all::<Q>(b, y), r)?;
                        job2("Z2 and Z3", bound - 1, STEP, &|| rips_all::<Z2>(a, x), &|| rips_all::<Z3>(b, y), r)
                    });
                }
            }
        }
    });
    mc.family("rips", &format!("Rips matrices of 3 and 4 points over a user-defined field: two threads reading the bases, boundary and coboundary columns of one matrix (<= {} preemptions, also inside columns), or building and reducing two matrices (<= 1)", if t { 3 } else { 2 }), |fam| {
        for (n, w) in [(3, vec![1, 2, 3]), (3, vec![1, 1, 1]), (3, vec![0, 2, 2]), (4, vec![1, 2, 1, 1, 2, 1]), (4, vec![1, 1, 1, 1, 1, 1])] {
            fam.case(|| format!("{n} points {w:?}"), |r| {
                r.state(&(n, &w));
                let d = dist(n, &w);
                let how = How { bound: if t { 3 } else { 2 }, mask: ALL, threads: 2 };
                let co = build_rips_coboundary_matrix::<Y5>(d.clone(), 2);
                let bd = build_rips_boundary_matrix::<Y5>(d.clone(), 2);
                elements("all dimensions", co.basis(), How { bound: if t { 3 } else { 2 }, mask: STEP, threads: 2 }, r)?;
                for dim in 0..=2 {
                    elements("one dimension", co.basis().in_dimension(dim), How { bound: if t { 3 } else { 2 }, mask: STEP, threads: 2 }, r)?;
                }
                let (top, small) = (co.basis().clone(), co.basis().in_dimension(1).clone());
                elements("copies", &top, How { bound: 1, mask: STEP, threads: 2 }, r)?;
                elements("copies", &small, How { bound: 1, mask: STEP, threads: 2 }, r)?;
                for dim in 0..2 {
                    let b = co.basis().in_dimension(dim);
                    for i in 0..b.size().min(2) {
                        let cols = [b.element(i), b.element((i + 1) % b.size())];
                        readers("coboundary", &|| &co, &cols, &[0, 1], how, r)?;
                        readers("boundary", &|| &bd, &cols, &[0, 1], how, r)?;
                        readers("bare coboundary", &|| &co.matrix, &cols, &[1, 2], How { bound: 1, ..how }, r)?;
                        let square = product(&bd, &bd);
                        readers("squared boundary", &|| &square, &cols, &[0, 1], How { bound: 1, ..how }, r)?;
                    }
                }
                let d2 = dist(3, &[2, 1, 2]);
                let diag = |d: &Vec<Vec<NotNan<f64>>>, clearing: bool| {
                    let m = build_rips_coboundary_matrix::<Y5>(d.clone(), 1).reverse();
                    let dg = if clearing { ClearedReductionMatrix::build_with_diagram(&m, 0..=1).1 } else { standard_algo_with_diagram(&m, true).1 };
                    let mut p: Vec<_> = dg.pairings.iter().copied().collect();
                    let mut e: Vec<_> = dg.essential.iter().copied().collect();
                    p.sort();
                    e.sort();
                    (p, e)
                };
                for (x, y) in [(true, true), (true, false)] {
                    let (w1, w2) = (diag(&d, x), diag(&d2, y));
                    let (w1, w2, d, d2) = (&w1, &w2, &d, &d2);
                    let bodies = || -> Vec<Body> {
                        vec![
                            Box::new(move || { ensure_eq!(&diag(d, x), w1, "diagram of {n} points {d:?}"); Ok(()) }),
                            Box::new(move || { ensure_eq!(&diag(d2, y), w2, "diagram of {d2:?}"); Ok(()) }),
                        ]
                    };
                    let (s, p) = explore(1, ALL, &bodies)?;
                    r.trace(s);
                    r.step(p);
                }
                Ok(())
            });
        }
    });
}

fn show(raw: &Raw) -> String {
    format!("columns {:?}", raw.iter().map(|c| c.iter().map(|(k, r)| (k.n, *r)).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn main() {
    mc::main(&[("C14", c14)]);
}
