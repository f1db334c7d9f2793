use crate::oracle::*;
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::*;
use mc::*;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite::reduction::{standard_algo_with_diagram, ClearedReductionMatrix};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::{build_rips_bases, RipsIndex};
use std::collections::{BTreeMap, HashMap, HashSet};

pub fn nn(d: &Dist) -> Vec<Vec<NotNan<f64>>> {
    d.iter().map(|r| r.iter().map(|x| NotNan::new(*x).unwrap()).collect()).collect()
}
fn idx(s: &[usize], n: usize) -> RipsIndex {
    RipsIndex::from_indices(s.iter().copied(), n).expect("non-empty simplex")
}

// ------------------------------------------------------------------------------------------------------------- V01

fn roundtrip(l: &[usize], n: usize, seen: &mut HashMap<RipsIndex, Vec<usize>>) -> Res {
    let i = RipsIndex::from_indices(l.iter().copied(), n);
    if l.is_empty() {
        ensure!(i.is_none(), "the empty list has an index");
        return Ok(());
    }
    let Some(i) = i else {
        return Err(format!("no index for {l:?} among {n} points"));
    };
    ensure_eq!(i.to_vec(n), l.to_vec(), "decoding, n={n}");
    ensure_eq!(i.dimension(n), l.len() - 1, "dimension of {l:?}, n={n}");
    if let Some(o) = seen.insert(i, l.to_vec()) {
        ensure_eq!(o, l.to_vec(), "two lists with one index, n={n}");
    }
    Ok(())
}

pub fn v01(mc: &mut Mc) {
    let t = mc.thorough;
    let (nmax, lmax) = if t { (10, 6) } else { (9, 5) };
    mc.family("lists", &format!("all lists of vertices (any order, repeats allowed) of length <= {lmax} over n points, n <= {nmax}"), |fam| {
        for n in 1..=nmax {
            for len in 0..=lmax {
                fam.case(
                    || format!("n={n} length {len}"),
                    |r| {
                        let mut seen = HashMap::new();
                        let mut res = Ok(());
                        words(n, len, |w| {
                            if res.is_ok() {
                                res = roundtrip(w, n, &mut seen);
                            }
                            r.step(1);
                        });
                        r.state(&(n, len));
                        r.trace(seen.len());
                        res
                    },
                );
            }
            // all lengths together
            fam.case(
                || format!("n={n} all lengths"),
                |r| {
                    let mut seen = HashMap::new();
                    let mut res = Ok(());
                    words_upto(n, lmax - 1, |w| {
                        if res.is_ok() {
                            res = roundtrip(w, n, &mut seen);
                        }
                        r.step(1);
                    });
                    r.state(&n);
                    res
                },
            );
        }
    });
    mc.family("wide", "lists over {0, 1, n/2, n-2, n-1} of every length whose code fits in 64 bits (length <= 6 complete, longer ones constant or periodic) for n = 1..=70, 2^k-2..=2^k+1 and large n up to 2^63", |fam| {
        let mut ns: Vec<u128> = (1..=70).collect();
        for k in 7..=63u32 {
            for x in -2i128..=1 {
                ns.push(((1i128 << k) + x) as u128);
            }
        }
        ns.extend([1000, 65535, 1_000_000, 3_000_000_000, 4_294_967_294]);
        for n in ns {
            let base = n + 1;
            let mut fit = 0;
            let mut pw = 1u128;
            while pw * base <= u64::MAX as u128 + 1 && pw * base - 1 <= u64::MAX as u128 && fit < 64 {
                pw *= base;
                fit += 1;
            }
            // strictly within a machine word
            if pw > u64::MAX as u128 {
                fit -= 1;
            }
            let n = n as usize;
            fam.case(
                || format!("n={n}, lengths 1..={fit}"),
                |r| {
                    let mut letters = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
                    letters.retain(|x| *x < n);
                    letters.sort();
                    letters.dedup();
                    let mut seen = HashMap::new();
                    for len in 1..=fit {
                        let mut res = Ok(());
                        if len <= 6 {
                            words(letters.len(), len, |w| {
                                let l: Vec<usize> = w.iter().map(|i| letters[*i]).collect();
                                if res.is_ok() {
                                    res = roundtrip(&l, n, &mut seen);
                                }
                                r.step(1);
                            });
                            res?;
                        } else {
                            for a in &letters {
                                for b in &letters {
                                    for per in 1..=3 {
                                        let l: Vec<usize> = (0..len).map(|i| if i % (per + 1) == 0 { *a } else { *b }).collect();
                                        roundtrip(&l, n, &mut seen)?;
                                        r.step(1);
                                    }
                                }
                            }
                        }
                    }
                    r.state(&n);
                    Ok(())
                },
            );
        }
    });
}

// ------------------------------------------------------------------------------------------------- distance matrices

/// All symmetric matrices of a space.
fn all_dists(sp: &Space, mut f: impl FnMut(&dyn Fn() -> Dist, &[usize])) {
    let mut run = |w: &[usize]| {
        let make = || dist(sp.n, &w.iter().map(|i| sp.vals[*i]).collect::<Vec<_>>());
        f(&make, w)
    };
    if sp.each_once {
        perms(sp.vals.len(), run);
    } else {
        words(sp.vals.len(), sp.n * sp.n.saturating_sub(1) / 2, &mut run);
    }
}

struct Space {
    n: usize,
    name: &'static str,
    vals: Vec<f64>,
    /// each value occurs exactly once, in every order (otherwise: every combination of values)
    each_once: bool,
}
impl Space {
    fn bound(&self) -> String {
        if self.each_once {
            format!("all arrangements of the distances {:?} on {} points", self.vals, self.n)
        } else {
            format!("all symmetric matrices on {} points with entries {:?}", self.n, self.vals)
        }
    }
}
fn space(n: usize, name: &'static str, vals: &[f64]) -> Space {
    Space { n, name, vals: vals.to_vec(), each_once: false }
}
/// Six distances of unlike magnitude and spacing on 4 points, in every arrangement.
fn arranged() -> Vec<Space> {
    let up = |x: f64, k: u64| f64::from_bits(x.to_bits() + k);
    let list: Vec<(&'static str, [f64; 6])> = vec![
        ("arranged neighbouring floats", [1.0, up(1.0, 1), up(1.0, 2), up(1.0, 3), up(1.0, 4), up(1.0, 5)]),
        ("arranged tiny", [1e-300, 2e-300, 3e-300, 4e-300, 5e-300, 6e-300]),
        ("arranged fractions", [0.05, 0.1, 0.15, 0.3, 0.45, 0.999]),
        ("arranged thousandths", [5.0, 5.001, 5.002, 5.003, 5.004, 5.005]),
        ("arranged wide", [1e-9, 1.0, 100.0, 65536.0, 1e9, 1e300]),
        ("arranged over 2^53", [9007199254740992.0, 9007199254740994.0, 9007199254740996.0, 9007199254740998.0, 9007199254741000.0, 9007199254741002.0]),
        ("arranged single precision", [16777216.0, 16777217.0, 16777218.0, 16777219.0, 16777220.0, 16777221.0]),
        ("arranged subnormal", [f64::from_bits(1), f64::from_bits(2), f64::from_bits(3), f64::from_bits(4), f64::MIN_POSITIVE, 1e-307]),
    ];
    list.into_iter().map(|(name, vals)| Space { n: 4, name, vals: vals.to_vec(), each_once: true }).collect()
}

const EPS1: f64 = 1.0 + 1e-12;

fn spaces(level: u8) -> Vec<Space> {
    let s = space;
    let many = [0.0, 1.0, 2.0, 3.0, 0.5, 2.5, 4.0, 0.25];
    let odd = [1.0, EPS1, 1e-300, 1e300, f64::INFINITY, 0.1, 0.30000000000000004, 16777217.0];
    let mut v = vec![
        s(0, "none", &[]),
        s(1, "one", &[]),
        s(2, "many", &many),
        s(2, "odd", &odd),
        s(3, "many", &many),
        s(3, "odd", &odd),
        s(4, "five values", &[0.0, 1.0, 2.0, 3.0, 2.5]),
        s(4, "four odd values", &[1.0, EPS1, 0.1, f64::INFINITY]),
        s(5, "two values", &[1.0, 2.0]),
        s(5, "zero or one", &[0.0, 1.0]),
        s(6, "two values", &[1.0, 2.0]),
        s(4, "six values", &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0]),
        s(4, "six odd values", &[0.0, 1.0, EPS1, 1e-300, 1e300, 16777217.0]),
        s(5, "three values", &[1.0, 2.0, 3.0]),
        s(5, "three odd values", &[0.0, 0.1, f64::INFINITY]),
    ];
    if level > 0 {
        v.push(s(4, "eight values", &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.5, 0.0]));
        v.push(s(5, "four values", &[0.0, 1.0, 2.5, 3.0]));
    }
    if level > 1 {
        v.push(s(7, "two values", &[1.0, 2.0]));
    }
    v.extend(arranged());
    v
}

/// Structured larger point sets.
pub const KINDS: usize = 10;
pub fn structured(n: usize, kind: usize) -> Dist {
    let mut d = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in i + 1..n {
            let k = j - i;
            let x = match kind {
                // line
                0 => k as f64,
                // circle, steps
                1 => k.min(n - k) as f64,
                // equidistant
                2 => 1.0,
                // ultrametric
                3 => (64 - ((i ^ j) as u64).leading_zeros()) as f64,
                // two clusters
                4 => {
                    if i % 2 == j % 2 {
                        0.5
                    } else {
                        3.0
                    }
                }
                // square grid, steps
                6 => {
                    let w = (1..).find(|w| w * w >= n).unwrap();
                    ((i % w).abs_diff(j % w) + (i / w).abs_diff(j / w)) as f64
                }
                // points scattered in the plane
                7 => {
                    let at = |k: usize| ((k * 7919 + 13) % 1013, (k * 104_729 + 7) % 1019);
                    let (a, b) = (at(i), at(j));
                    ((a.0.abs_diff(b.0).pow(2) + a.1.abs_diff(b.1).pow(2)) as f64).sqrt()
                }
                // circle with tenths
                8 => k.min(n - k) as f64 * 0.1 + 0.7,
                // components infinitely far from each other, distances that only double precision tells apart
                9 => {
                    if i % 3 != j % 3 {
                        f64::INFINITY
                    } else {
                        16777216.0 + (i * j % 5) as f64 + (k % 7) as f64 * 8.0
                    }
                }
                // all distances distinct, scrambled
                _ => ((i * 31 + j * 17 + i * j * 7) % 1009) as f64 + (i as f64) / 1024.0 + (j as f64) / 1048576.0,
            };
            d[i][j] = x;
            d[j][i] = x;
        }
    }
    d
}

// ------------------------------------------------------------------------------------------------------------- V02

fn basis_ok(d: &Dist, max_dim: usize) -> Res {
    let n = d.len();
    let b = build_rips_bases(&nn(d), max_dim);
    let bd = build_rips_boundary_matrix::<Z2>(nn(d), max_dim);
    let cob = build_rips_coboundary_matrix::<Z3>(nn(d), max_dim);
    let mut total = 0;
    for k in 0..=max_dim {
        let got = elems(b.in_dimension(k));
        let mut want: Vec<(Ord64, RipsIndex)> = simplices(n, k).iter().map(|s| (Ord64(diam(s, d)), idx(s, n))).collect();
        want.sort();
        let want: Vec<RipsIndex> = want.into_iter().map(|x| x.1).collect();
        ensure_eq!(got, want, "basis in dimension {k} of max_dim={max_dim}");
        total += got.len();
        for w in got.windows(2) {
            let a = (bd.filtration_value(w[0]), w[0]);
            let b = (bd.filtration_value(w[1]), w[1]);
            ensure!(a < b, "basis in dimension {k} is not in the order of the row filtration: {:?} {:?}", a, b);
        }
        ensure_eq!(elems(bd.basis().in_dimension(k)), got, "basis of the boundary matrix");
        ensure_eq!(elems(cob.basis().in_dimension(k)), got, "basis of the coboundary matrix");
    }
    ensure_eq!(ColBasis::size(&b), total, "size of the whole basis");
    Ok(())
}

pub fn v02(mc: &mut Mc) {
    let t = mc.thorough;
    for sp in spaces(1 + t as u8) {
        mc.family(&format!("n{} {}", sp.n, sp.name), &format!("{}, max_dim 0..=n+1", sp.bound()), |fam| {
            all_dists(&sp, |make, _| {
                fam.case(
                    || format!("{:?}", make()),
                    |r| {
                        let d = make();
                        for max_dim in 0..=sp.n + 1 {
                            basis_ok(&d, max_dim)?;
                            r.step(1);
                        }
                        r.state(&d.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>());
                        Ok(())
                    },
                );
            });
        });
    }
    mc.family("structured", "10 structured metrics on 6..=12 points (max_dim 0..=4), 20, 33, 40 points (0..=2), 63..=66, 100, 127..=129, 255..=257, 300 points (0..=1); 3 of them on 63..=66 points up to dimension 2 and on 500, 1000 points up to dimension 1", |fam| {
        let mut list: Vec<(usize, usize)> = vec![];
        for n in 6..=12 {
            for m in 0..=4 {
                list.push((n, m));
            }
        }
        for n in [20, 33, 40] {
            for m in 0..=2 {
                list.push((n, m));
            }
        }
        for n in [63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 300] {
            for m in 0..=1 {
                list.push((n, m));
            }
        }
        for kind in 0..KINDS {
            let mut list = list.clone();
            if [1, 5, 7].contains(&kind) {
                list.extend([(63, 2), (64, 2), (65, 2), (66, 2), (500, 1), (1000, 1)]);
            }
            for (n, m) in list {
                fam.case(
                    || format!("metric {kind} n={n} max_dim={m}"),
                    |r| {
                        r.state(&(kind, n, m));
                        r.step(1);
                        basis_ok(&structured(n, kind), m)
                    },
                );
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------------------- V03

/// All columns of the simplices in `list`.
fn columns_ok<F: TF>(d: &Dist, list: &[Vec<usize>], r: &mut Rec) -> Res {
    let n = d.len();
    let bd = build_rips_boundary_matrix::<F>(nn(d), 1);
    let cob = build_rips_coboundary_matrix::<F>(nn(d), 1);
    let sign = |i: usize| Sc::int(if i % 2 == 0 { 1 } else { -1 }, F::P);
    let fil = |x: &RipsIndex| NotNan::new(diam(&x.to_vec(n), d)).unwrap();
    for s in list {
        let me = idx(s, n);
        let mut want = vec![];
        if s.len() > 1 {
            for i in 0..s.len() {
                let mut f = s.clone();
                f.remove(i);
                want.push((sign(i), idx(&f, n)));
            }
        }
        let what = format!("boundary of {s:?}");
        view(&what, &bd, me, &want, &fil, true)?;
        view(&what, &bd.matrix, me, &want, &fil, true)?;
        let mut cw = vec![];
        for v in (0..n).filter(|v| !s.contains(v)) {
            let pos = s.iter().filter(|x| **x < v).count();
            let mut f = s.clone();
            f.insert(pos, v);
            cw.push((sign(pos), idx(&f, n)));
        }
        let what = format!("coboundary of {s:?}");
        view(&what, &cob, me, &cw, &fil, true)?;
        view(&format!("bare {what}"), &cob.matrix, me, &cw, &fil, true)?;
        let rw: Vec<_> = cw.iter().map(|(c, x)| (*c, std::cmp::Reverse(*x))).collect();
        view(&format!("reversed {what}"), &(&cob).reverse(), std::cmp::Reverse(me), &rw, &|x| std::cmp::Reverse(fil(&x.0)), true)?;
        view(
            &format!("reversed bare {what}"),
            &(&cob.matrix).reverse(),
            std::cmp::Reverse(me),
            &rw,
            &|x| std::cmp::Reverse(fil(&x.0)),
            true,
        )?;
        ensure_eq!(bd.filtration_value(me), fil(&me), "diameter of {s:?} by the boundary matrix");
        ensure_eq!(cob.filtration_value(me), fil(&me), "diameter of {s:?} by the coboundary matrix");
        ensure!(col_sums(&product(&bd, &bd), me).is_empty(), "boundary squared of {s:?} is not zero");
        ensure!(col_sums(&product(&cob, &cob), me).is_empty(), "coboundary squared of {s:?} is not zero");
        r.step(8);
        r.state(&(F::NAME, n, s));
    }
    // transposes of each other on the list
    let known: HashSet<&Vec<usize>> = list.iter().collect();
    for s in list {
        let me = idx(s, n);
        for (c, f) in terms(&bd, me) {
            if known.contains(&f.to_vec(n)) {
                let back: Vec<Sc> = terms(&cob, f).into_iter().filter(|(_, x)| *x == me).map(|(c, _)| c).collect();
                ensure_eq!(back, vec![c], "entry of the coboundary of {:?} at {s:?}", f.to_vec(n));
            }
        }
    }
    Ok(())
}

fn v03_field<F: TF>(mc: &mut Mc, nmax: usize) {
    mc.family(&format!("simplices-{}", F::NAME), &format!("all simplices of all dimensions on 1..={nmax} points, 10 structured metrics"), |fam| {
        for n in 1..=nmax {
            for kind in 0..KINDS {
                fam.case(
                    || format!("{} n={n} metric {kind}", F::NAME),
                    |r| {
                        let list: Vec<Vec<usize>> = (0..n).flat_map(|k| simplices(n, k)).collect();
                        columns_ok::<F>(&structured(n, kind), &list, r)
                    },
                );
            }
        }
    });
}

pub fn v03(mc: &mut Mc) {
    let t = mc.thorough;
    let nmax = if t { 10 } else { 8 };
    v03_field::<Z2>(mc, nmax);
    v03_field::<Z3>(mc, nmax);
    v03_field::<Z7>(mc, nmax);
    v03_field::<Q>(mc, nmax.min(6));
    for sp in spaces(2 * t as u8) {
        if sp.n == 0 || sp.n > 5 {
            continue;
        }
        mc.family(&format!("n{} {}", sp.n, sp.name), &format!("{}, all simplices, Z3", sp.bound()), |fam| {
            all_dists(&sp, |make, _| {
                fam.case(
                    || format!("{:?}", make()),
                    |r| {
                        let list: Vec<Vec<usize>> = (0..sp.n).flat_map(|k| simplices(sp.n, k)).collect();
                        columns_ok::<Z3>(&make(), &list, r)
                    },
                );
            });
        });
    }
    mc.family("sliding", "every edge of 63..=66 and 129 points, runs and equally spaced simplices of up to 6 vertices starting at every vertex, 3 structured metrics", |fam| {
        for n in [63usize, 64, 65, 66, 129] {
            for kind in [0, 5, 7] {
                for k in 0..=if n < 100 { 3usize } else { 1 } {
                    fam.case(
                        || format!("n={n} metric {kind} part {k}"),
                        |r| {
                            let mut list = vec![];
                            match k {
                                0 if n < 100 => subsets(n, 2, |s| list.push(s.to_vec())),
                                0 => (0..n).for_each(|v| list.push(vec![v])),
                                _ => {
                                    let size = k + 2;
                                    for step in [1, n / (size + 1)] {
                                        for a in 0..n - step * (size - 1) {
                                            list.push((0..size).map(|i| a + i * step).collect());
                                        }
                                    }
                                }
                            }
                            columns_ok::<Z3>(&structured(n, kind), &list, r)
                        },
                    );
                }
            }
        }
    });
    mc.family("large", "simplices made of the first, middle and last vertices of 20..=300 points, dimensions 0..=3, and 1000 points, dimensions 0..=2", |fam| {
        for n in [20usize, 64, 127, 128, 200, 254, 255, 256, 257, 300, 1000] {
            for kind in [1, 5] {
                fam.case(
                    || format!("n={n} metric {kind}"),
                    |r| {
                        let vs: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1];
                        let mut list = vec![];
                        for k in 1..=if n > 300 { 3 } else { 4 } {
                            subsets(vs.len(), k, |s| list.push(s.iter().map(|i| vs[*i]).collect::<Vec<_>>()));
                        }
                        columns_ok::<Z3>(&structured(n, kind), &list, r)
                    },
                );
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------------------- V04

fn add(b: &mut Barcode, k: usize, birth: f64, death: Option<f64>) {
    if death != Some(birth) {
        *b.entry((k, Ord64(birth), death.map(Ord64))).or_insert(0) += 1;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    CohClear,
    CohStd,
    CohStdDeclared,
    HomStd,
    HomClear,
}

/// Bars of positive length up to dimension `upto` computed by the code under test.
pub fn run<F: TF>(d: &Dist, max_dim: usize, how: How, upto: usize) -> Barcode {
    let n = d.len();
    let mut out = Barcode::new();
    match how {
        How::HomStd | How::HomClear => {
            let m = build_rips_boundary_matrix::<F>(nn(d), max_dim);
            let dg = if how == How::HomStd {
                standard_algo_with_diagram(&m, false).1
            } else {
                ClearedReductionMatrix::build_with_diagram(&m, (0..=max_dim).rev()).1
            };
            let f = |x: RipsIndex| m.filtration_value(x).into_inner();
            for e in &dg.essential {
                add(&mut out, e.dimension(n), f(*e), None);
            }
            for (b, k) in &dg.pairings {
                add(&mut out, b.dimension(n), f(*b), Some(f(*k)));
            }
        }
        _ => {
            let m = build_rips_coboundary_matrix::<F>(nn(d), max_dim).reverse();
            let dg = match how {
                How::CohClear => ClearedReductionMatrix::build_with_diagram(&m, 0..=max_dim).1,
                How::CohStd => standard_algo_with_diagram(&m, false).1,
                _ => standard_algo_with_diagram(&m, true).1,
            };
            let f = |x: std::cmp::Reverse<RipsIndex>| m.filtration_value(x).0.into_inner();
            for e in &dg.essential {
                add(&mut out, e.0.dimension(n), f(*e), None);
            }
            for (k, b) in &dg.pairings {
                add(&mut out, b.0.dimension(n), f(*b), Some(f(*k)));
            }
        }
    }
    out.retain(|(k, _, _), _| *k <= upto);
    out
}

fn upto(b: &Barcode, k: usize) -> Barcode {
    b.iter().filter(|(x, _)| x.0 <= k).map(|(a, b)| (*a, *b)).collect()
}

fn barcodes_ok<F: TF>(d: &Dist, max_dim: usize, want: &Barcode, std_too: bool, r: &mut Rec) -> Res {
    let want = upto(want, max_dim);
    ensure_eq!(run::<F>(d, max_dim, How::CohClear, max_dim), want, "{} reversed coboundary with clearing, max_dim={max_dim}", F::NAME);
    r.trace(1);
    if std_too {
        ensure_eq!(run::<F>(d, max_dim, How::CohStd, max_dim), want, "{} reversed coboundary, standard, max_dim={max_dim}", F::NAME);
        ensure_eq!(run::<F>(d, max_dim, How::CohStdDeclared, max_dim), want, "{} reversed coboundary, standard, declared, max_dim={max_dim}", F::NAME);
        r.trace(2);
    }
    if max_dim > 0 {
        let below = upto(&want, max_dim - 1);
        ensure_eq!(run::<F>(d, max_dim, How::HomClear, max_dim - 1), below, "{} boundary with clearing, max_dim={max_dim}", F::NAME);
        r.trace(1);
        if std_too {
            ensure_eq!(run::<F>(d, max_dim, How::HomStd, max_dim - 1), below, "{} boundary, standard, max_dim={max_dim}", F::NAME);
            r.trace(1);
        }
    }
    Ok(())
}

fn v04_space<F: TF>(mc: &mut Mc, sp: &Space, dims: usize) {
    mc.family(
        &format!("n{} {} {}", sp.n, sp.name, F::NAME),
        &format!("{}, max_dim 0..={dims}, {}: barcode against ranks", sp.bound(), F::NAME),
        |fam| {
            all_dists(&sp, |make, _| {
                fam.case(
                    || format!("{:?}", make()),
                    |r| {
                        let d = make();
                        let want = barcode(&d, dims, F::P);
                        assert_eq!(want, barcode_sparse(&d, dims, F::P), "the two references disagree");
                        r.outcome(&want);
                        for m in 0..=dims {
                            barcodes_ok::<F>(&d, m, &want, true, r)?;
                            r.step(5);
                        }
                        r.state(&(F::NAME, d.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>()));
                        Ok(())
                    },
                );
            });
        },
    );
}

/// Distances of a graph complement: 1 along the edges of the given triangles, 2 elsewhere.
fn flag(triangles: &[Vec<usize>]) -> Dist {
    let n = triangles.iter().flatten().max().unwrap() + 1;
    let mut d = vec![vec![2.0; n]; n];
    for i in 0..n {
        d[i][i] = 0.0;
    }
    for t in triangles {
        for a in t {
            for b in t {
                if a != b {
                    d[*a][*b] = 1.0;
                }
            }
        }
    }
    d
}
/// Barycentric subdivision, a flag complex.
fn subdivide(triangles: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let mut ids: BTreeMap<Vec<usize>, usize> = BTreeMap::new();
    let mut out = vec![];
    for t in triangles {
        perms(3, |p| {
            let mut chain = vec![];
            for k in 1..=3 {
                let mut s: Vec<usize> = p[..k].iter().map(|i| t[*i]).collect();
                s.sort();
                let l = ids.len();
                chain.push(*ids.entry(s).or_insert(l));
            }
            out.push(chain);
        });
    }
    out
}

fn known_barcodes<F: TF>(mc: &mut Mc) {
    let t = mc.thorough;
    mc.family(
        &format!("known-{}", F::NAME),
        "flag triangulations of the projective plane (31 points), torus, Klein bottle, sphere and of circles with distances 1/2: bars known from topology",
        |fam| {
            let rp2: Vec<Vec<usize>> = ["013", "014", "024", "025", "035", "123", "125", "145", "234", "345"]
                .iter()
                .map(|s| s.chars().map(|c| c.to_digit(10).unwrap() as usize).collect())
                .collect();
            let grid = |k: usize, flip: bool| -> Vec<Vec<usize>> {
                let v = |i: usize, j: usize| {
                    let (i2, j2) = if i == k && flip { (0, (k - j % k) % k) } else { (i % k, j % k) };
                    i2 * k + j2
                };
                (0..k)
                    .flat_map(|i| (0..k).flat_map(move |j| [vec![v(i, j), v(i + 1, j), v(i + 1, j + 1)], vec![v(i, j), v(i, j + 1), v(i + 1, j + 1)]]))
                    .collect()
            };
            let p2 = F::P == 2;
            let octa: Vec<Vec<usize>> = (0..8).map(|m: usize| (0..3).map(|k| 2 * k + (m >> k & 1)).collect()).collect();
            let mut list: Vec<(String, Dist, usize, usize)> = vec![
                ("projective plane".into(), flag(&subdivide(&rp2)), p2 as usize, p2 as usize),
                ("torus 4x4".into(), flag(&grid(4, false)), 2, 1),
                ("torus 5x5".into(), flag(&grid(5, false)), 2, 1),
                ("Klein bottle 5x5".into(), flag(&grid(5, true)), if p2 { 2 } else { 1 }, p2 as usize),
                ("sphere".into(), flag(&octa), 0, 1),
            ];
            for n in [4usize, 5, 7, 12, 25] {
                let mut d = vec![vec![2.0; n]; n];
                for i in 0..n {
                    d[i][i] = 0.0;
                    d[i][(i + 1) % n] = 1.0;
                    d[(i + 1) % n][i] = 1.0;
                }
                list.push((format!("circle {n}"), d, 1, 0));
            }
            for (name, d, b1, b2) in list {
                let n = d.len();
                for max_dim in 1..=if t || n <= 16 { 2 } else { 1 } {
                    fam.case(
                        || format!("{name} max_dim={max_dim}"),
                        |r| {
                            let mut want = Barcode::new();
                            add(&mut want, 0, 0.0, None);
                            want.insert((0, Ord64(0.0), Some(Ord64(1.0))), n - 1);
                            if b1 > 0 {
                                want.insert((1, Ord64(1.0), Some(Ord64(2.0))), b1);
                            }
                            if b2 > 0 {
                                want.insert((2, Ord64(1.0), Some(Ord64(2.0))), b2);
                            }
                            r.state(&(F::NAME, &name, max_dim));
                            r.step(1);
                            barcodes_ok::<F>(&d, max_dim, &want, n <= 16, r)
                        },
                    );
                }
            }
        },
    );
}

pub fn v04(mc: &mut Mc) {
    let t = mc.thorough;
    for sp in spaces(2 * t as u8) {
        let dims = match sp.n {
            0..=4 => sp.n + 1,
            5 => 3,
            _ => 2,
        };
        v04_space::<Z2>(mc, &sp, dims);
        if sp.n <= 6 || t {
            v04_space::<Z3>(mc, &sp, dims);
        }
        if sp.n <= 3 {
            v04_space::<Z5>(mc, &sp, dims);
            v04_space::<Z13>(mc, &sp, dims);
            v04_space::<Q>(mc, &sp, dims);
        }
    }
    let large: &[(usize, usize)] = &[(10, 2), (12, 2), (16, 2), (24, 1), (33, 1), (40, 1), (64, 1), (66, 1), (100, 0), (130, 0), (257, 0), (400, 0)];
    let larger: &[(usize, usize)] = &[(9, 4), (12, 3), (24, 2), (33, 2), (100, 1), (1000, 0)];
    mc.family("large", "10 structured metrics on 10..=400 points, max_dim up to 2 (16 points), 1 (66 points), 0 (400 points): barcode against a reference reduction, Z2 and Z3", |fam| {
        for (n, dims) in large.iter().chain(if t { larger } else { &[] }).copied() {
            for kind in 0..KINDS {
                fam.case(
                    || format!("metric {kind} n={n} up to dimension {dims}"),
                    |r| {
                        let d = structured(n, kind);
                        let (w2, w3) = (barcode_sparse(&d, dims, 2), barcode_sparse(&d, dims, 3));
                        let std_too = n <= 12;
                        barcodes_ok::<Z2>(&d, dims, &w2, std_too, r)?;
                        barcodes_ok::<Z3>(&d, dims, &w3, std_too, r)?;
                        r.step(2);
                        r.outcome(&w2);
                        r.state(&(kind, n, dims));
                        Ok(())
                    },
                );
            }
        }
    });
    mc.family("structured", "10 structured metrics on 6..=8 points, max_dim 0..=3: barcode against ranks, Z2 and Z3", |fam| {
        for n in 6..=if t { 9 } else { 8 } {
            for kind in 0..KINDS {
                fam.case(
                    || format!("metric {kind} n={n}"),
                    |r| {
                        let d = structured(n, kind);
                        let dims = if n <= 6 { 3 } else { 2 };
                        let w2 = barcode(&d, dims, 2);
                        let w3 = barcode(&d, dims, 3);
                        for m in 0..=dims {
                            barcodes_ok::<Z2>(&d, m, &w2, true, r)?;
                            barcodes_ok::<Z3>(&d, m, &w3, true, r)?;
                            r.step(10);
                        }
                        r.state(&(kind, n));
                        Ok(())
                    },
                );
            }
        }
    });
    known_barcodes::<Z2>(mc);
    known_barcodes::<Z3>(mc);
    known_barcodes::<Z7>(mc);
}

// ------------------------------------------------------------------------------------------------------------- V06

fn map_barcode(b: &Barcode, f: &dyn Fn(f64) -> f64) -> Barcode {
    let mut out = Barcode::new();
    for ((k, x, y), m) in b {
        *out.entry((*k, Ord64(f(x.0)), y.map(|y| Ord64(f(y.0))))).or_insert(0) += m;
    }
    out
}

type MapFn = fn(f64) -> f64;

/// All relabellings of up to 6 points; of more points the rotations (each also mirrored), the transpositions of
/// neighbours, the exchanges with the first and with the last point.
fn relabellings(n: usize, mut f: impl FnMut(&[usize])) {
    if n <= 6 {
        return perms(n, f);
    }
    for k in (0..n).step_by(1 + n / 24) {
        let rot: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
        f(&rot);
        f(&rot.iter().rev().copied().collect::<Vec<_>>());
        for (a, b) in [(k, (k + 1) % n), (0, k), (k, n - 1)] {
            let mut p: Vec<usize> = (0..n).collect();
            p.swap(a, b);
            f(&p);
        }
    }
}

fn invariances(d: &Dist, dims: usize, all_perms: bool, r: &mut Rec) -> Res {
    let n = d.len();
    let hows = [How::CohClear, How::CohStd, How::HomStd, How::HomClear];
    let sides = |dd: &Dist, h: How, m: usize| {
        let top = if matches!(h, How::HomStd | How::HomClear) { m.saturating_sub(1) } else { m };
        run::<Z3>(dd, m, h, top)
    };
    for m in 0..=dims {
        for h in hows {
            if m == 0 && matches!(h, How::HomStd | How::HomClear) {
                continue;
            }
            let base = sides(d, h, m);
            let mut res = Ok(());
            let mut count = 0;
            relabellings(n, |p| {
                count += 1;
                if res.is_err() || (!all_perms && h != How::CohClear) {
                    return;
                }
                let pd: Dist = p.iter().map(|i| p.iter().map(|j| d[*i][*j]).collect()).collect();
                let got = sides(&pd, h, m);
                if got != base {
                    res = Err(format!("{h:?} max_dim={m}: relabelling {p:?} changes the barcode from {base:?} to {got:?}"));
                }
            });
            r.step(count);
            r.trace(count);
            res?;
            let fs: [(&str, MapFn); 6] = [
                ("2x", |x| 2.0 * x),
                ("x/1024", |x| x / 1024.0),
                ("x^3", |x| x * x * x),
                ("x*1e100", |x| x * 1e100),
                ("x+1 off zero", |x| if x > 0.0 { x + 1.0 } else { 0.0 }),
                ("sqrt", |x| x.sqrt()),
            ];
            for (name, f) in fs {
                let fd: Dist = d.iter().map(|row| row.iter().map(|x| f(*x)).collect()).collect();
                ensure_eq!(sides(&fd, h, m), map_barcode(&base, &f), "{h:?} max_dim={m}: rescaling by {name}");
                r.step(1);
            }
            if h == How::CohClear || h == How::CohStd {
                for v in (0..n).step_by(1 + n / 16) {
                    // a copy of point v put at every position
                    for pos in [0, n] {
                        let order: Vec<usize> = (0..n + 1)
                            .map(|i| match i.cmp(&pos) {
                                std::cmp::Ordering::Less => i,
                                std::cmp::Ordering::Equal => v,
                                std::cmp::Ordering::Greater => i - 1,
                            })
                            .collect();
                        let dd: Dist = order.iter().map(|i| order.iter().map(|j| d[*i][*j]).collect()).collect();
                        ensure_eq!(sides(&dd, h, m), base, "{h:?} max_dim={m}: duplicate of point {v} at position {pos}");
                        r.step(1);
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn v06(mc: &mut Mc) {
    let t = mc.thorough;
    let s = space;
    let mut list = vec![
        s(1, "one", &[]),
        s(2, "values", &[0.0, 1.0, 2.0, 0.25, 7.5]),
        s(3, "values", &[0.0, 1.0, 2.0, 0.25, 7.5]),
        s(4, "three values", &[1.0, 2.0, 4.0]),
        s(4, "with zero", &[0.0, 1.0, 2.0]),
        s(5, "two values", &[1.0, 2.0]),
        s(4, "five values", &[0.0, 1.0, 2.0, 3.0, 4.5]),
    ];
    if t {
        list.push(s(5, "three values", &[0.0, 1.0, 2.0]));
    }
    for sp in list {
        let dims = if sp.n <= 4 { 2 } else { 1 };
        mc.family(&format!("n{} {}", sp.n, sp.name), &format!("{}: all relabellings, 6 rescalings, every duplicated point, max_dim 0..={dims}, Z3", sp.bound()), |fam| {
            all_dists(&sp, |make, _| {
                fam.case(
                    || format!("{:?}", make()),
                    |r| {
                        let d = make();
                        r.state(&d.iter().flatten().map(|x| x.to_bits()).collect::<Vec<_>>());
                        invariances(&d, dims, true, r)
                    },
                );
            });
        });
    }
    mc.family("large", "10 structured metrics on 7, 8, 12 points (max_dim 0..=2), 20, 33 (0..=1) and 65, 100 (0): rotations, mirror images, exchanges of two points; rescalings; duplicates", |fam| {
        for (n, dims) in [(7usize, 2usize), (8, 2), (12, 2), (20, 1), (33, 1), (65, 0), (100, 0)] {
            for kind in 0..KINDS {
                fam.case(
                    || format!("n={n} metric {kind}"),
                    |r| {
                        r.state(&(n, kind));
                        invariances(&structured(n, kind), dims, n <= 8, r)
                    },
                );
            }
        }
    });
    mc.family("structured", "10 structured metrics on 6 points, all 720 relabellings, rescalings, duplicates, max_dim 0..=1", |fam| {
        for kind in 0..KINDS {
            fam.case(
                || format!("metric {kind}"),
                |r| {
                    r.state(&kind);
                    invariances(&structured(6, kind), 1, false, r)
                },
            );
        }
    });
}
