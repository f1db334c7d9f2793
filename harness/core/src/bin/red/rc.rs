//! R02-R06: reductions of filtered chain complexes.
use crate::cx::*;
use crate::r01::residues;
use crate::run::*;
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::*;
use mc::*;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::implementors::*;
use phlite::matrices::*;
use rustc_hash::FxHashMap;
use std::cmp::Reverse;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::Arc;

/// Direction of a reduction.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dir {
    /// boundary matrix, dimensions descending
    Hom,
    /// reversed coboundary matrix, dimensions ascending
    Coh,
    /// coboundary matrix without reversal (basis in filtration order)
    Plain,
}
use Dir::*;

/// Labels and filtration values of the elements of a complex: the same order on rows in different clothes.
#[derive(Clone, Debug)]
pub struct Mode {
    pub name: &'static str,
    pub lab: Vec<usize>,
    /// by label
    pub fil: Vec<usize>,
    /// columns are listed with redundant terms
    pub loose: bool,
}

pub fn modes(cx: &Cx) -> Vec<Mode> {
    let n = cx.n();
    let id: Vec<usize> = (0..n).collect();
    let rev: Vec<usize> = (0..n).rev().collect();
    // labels in blocks by dimension, highest dimension first
    let mut blocked = vec![0; n];
    let mut k = 0;
    for d in (0..=cx.top()).rev() {
        for i in cx.of_dim(d) {
            blocked[i] = k;
            k += 1;
        }
    }
    let inv = |lab: &[usize], f: &dyn Fn(usize) -> usize| {
        let mut v = vec![0; n];
        for (i, l) in lab.iter().enumerate() {
            v[*l] = f(i);
        }
        v
    };
    vec![
        Mode { name: "label=id filtration=id", fil: id.clone(), lab: id.clone(), loose: false },
        Mode { name: "label=id filtration constant", fil: vec![4; n], lab: id.clone(), loose: false },
        Mode { name: "label=id filtration=id/2", fil: id.iter().map(|i| i / 2).collect(), lab: id.clone(), loose: false },
        Mode { name: "labels reversed filtration=3id", fil: inv(&rev, &|i| 3 * i), lab: rev, loose: false },
        Mode { name: "labels by descending dimension filtration=id", fil: inv(&blocked, &|i| i), lab: blocked.clone(), loose: false },
        // ties between dimensions only: the order within every dimension is that of the labels
        Mode { name: "labels by descending dimension filtration constant", fil: vec![0; n], lab: blocked, loose: false },
        Mode { name: "label=id filtration=id, redundant terms listed", fil: id.clone(), lab: id, loose: true },
    ]
}

pub struct Setup<'a> {
    pub cx: &'a Cx,
    pub pairs: &'a [(usize, usize)],
    pub bd: Vec<Vec<(u64, usize)>>,
    pub cob: Vec<Vec<(u64, usize)>>,
}

impl<'a> Setup<'a> {
    pub fn new(cx: &'a Cx, pairs: &'a [(usize, usize)]) -> Self {
        Setup { cx, pairs, bd: residues(&cx.bd), cob: residues(&cx.cob()) }
    }
    /// Position of rows in the order of the reduction; only comparisons within one dimension matter.
    pub fn rank(&self, dir: Dir) -> Vec<usize> {
        let n = self.cx.n();
        match dir {
            Hom | Plain => (0..n).collect(),
            Coh => (0..n).rev().collect(),
        }
    }
    pub fn cols(&self, dir: Dir) -> &[Vec<(u64, usize)>] {
        match dir {
            Hom => &self.bd,
            _ => &self.cob,
        }
    }
    /// Expected (row, column) pairs and essential columns when exactly the columns of dimensions a..=b are reduced.
    pub fn want(&self, dir: Dir, a: usize, b: usize) -> (Pairs, Vec<usize>) {
        let cx = self.cx;
        let inr = |i: usize| (a..=b).contains(&cx.dim[i]);
        let deaths: HashSet<usize> = self.pairs.iter().map(|(_, j)| *j).collect();
        let births: HashSet<usize> = self.pairs.iter().map(|(i, _)| *i).collect();
        let mut pairs: Pairs = match dir {
            Hom => self.pairs.iter().filter(|(_, j)| inr(*j)).copied().collect(),
            Coh => self.pairs.iter().filter(|(i, _)| inr(*i)).map(|(i, j)| (*j, *i)).collect(),
            Plain => unreachable!(),
        };
        pairs.sort();
        let rows: HashSet<usize> = pairs.iter().map(|(row, _)| *row).collect();
        let ess = (0..cx.n())
            .filter(|i| {
                let col_zero = match dir {
                    Hom => !deaths.contains(i),
                    _ => !births.contains(i),
                };
                inr(*i) && col_zero && !rows.contains(i)
            })
            .collect();
        (pairs, ess)
    }
    /// Matrix with labels.
    pub fn labelled<F: TF>(&self, dir: Dir, m: &Mode) -> Vec<Vec<(F, usize)>> {
        let lab = &m.lab;
        if m.loose {
            return self.loose(dir, lab);
        }
        let n = self.cx.n();
        let src = if dir == Hom { self.cx.bd.clone() } else { self.cx.cob() };
        let mut out = vec![vec![]; n];
        for (j, c) in src.iter().enumerate() {
            out[lab[j]] = c.iter().map(|(k, i)| (F::of(*k), lab[*i])).collect();
        }
        out
    }
    /// Every coefficient as a sum of two or three, the first and last row of the dimension added and taken away again.
    fn loose<F: TF>(&self, dir: Dir, lab: &[usize]) -> Vec<Vec<(F, usize)>> {
        let cx = self.cx;
        let src = if dir == Hom { cx.bd.clone() } else { cx.cob() };
        let by_dim: Vec<Vec<usize>> = (0..=cx.top() + 1).map(|d| cx.of_dim(d)).collect();
        let one = Sc::int(1, cx.p);
        let mut out = vec![vec![]; cx.n()];
        for (j, c) in src.iter().enumerate() {
            let d = cx.dim[j];
            let rows = match dir {
                Hom if d == 0 => &[][..],
                Hom => &by_dim[d - 1][..],
                _ => &by_dim[d + 1][..],
            };
            let ends: Vec<usize> = rows.first().into_iter().chain(rows.last()).copied().collect();
            let mut l: Vec<(Sc, usize)> = ends.iter().map(|i| (one, *i)).collect();
            for (k, i) in c.iter().rev() {
                match cx.p {
                    2 => l.extend([(*k, *i); 3]),
                    _ => l.extend([(k.add(*k), *i), (k.neg(), *i)]),
                }
            }
            l.extend(ends.iter().rev().map(|i| (one.neg(), *i)));
            out[lab[j]] = l.into_iter().map(|(k, i)| (F::of(k), lab[i])).collect();
        }
        out
    }
    pub fn dims(&self, a: usize, b: usize) -> Vec<Vec<usize>> {
        (a..=b).map(|d| self.cx.of_dim(d)).collect()
    }
}

pub fn ids(lab: &[usize]) -> Vec<usize> {
    let mut v = vec![0; lab.len()];
    for (i, l) in lab.iter().enumerate() {
        v[*l] = i;
    }
    v
}
pub fn map(l: &[usize], lab: &[usize]) -> Vec<usize> {
    l.iter().map(|i| lab[*i]).collect()
}

/// The standard algorithm with columns in the given order (ids), in one direction.
pub fn std_dir<F: TF>(s: &Setup, m: &Mode, dir: Dir, order: &[usize], rev: bool) -> Out {
    let mat: VecVecMatrix<F, usize> = VecVecMatrix::from(s.labelled::<F>(dir, m));
    let back = ids(&m.lab);
    let mb = (&mat).with_filtration(|l: usize| m.fil[l]).with_basis(map(order, &m.lab));
    match dir {
        Coh => run_std(&(&mb).reverse(), rev, &|x: &Reverse<usize>| back[x.0]),
        _ => run_std(&mb, rev, &|x: &usize| back[*x]),
    }
}

/// The clearing algorithm on the dimensions a..=b of a basis with dimensions 0..=top.
pub fn clr_dir<F: TF>(s: &Setup, m: &Mode, dir: Dir, a: usize, b: usize) -> Out {
    let mat: VecVecMatrix<F, usize> = VecVecMatrix::from(s.labelled::<F>(dir, m));
    let back = ids(&m.lab);
    let split = Split(s.dims(0, b).iter().map(|l| map(l, &m.lab)).collect());
    let mb = (&mat).with_filtration(|l: usize| m.fil[l]).with_basis(split);
    match dir {
        Hom => run_clr(&mb, &(a..=b).rev().collect::<Vec<_>>(), &|x: &usize| back[*x]),
        _ => run_clr(&(&mb).reverse(), &(a..=b).collect::<Vec<_>>(), &|x: &Reverse<usize>| back[x.0]),
    }
}

/// Filtration order, and dimension by dimension, as lists of ids for the basis of the standard algorithm.
pub fn orders(s: &Setup) -> Vec<(&'static str, Vec<usize>)> {
    let n = s.cx.n();
    vec![
        ("filtration order", (0..n).collect()),
        ("dimension blocks", s.dims(0, s.cx.top()).concat()),
        ("descending dimension blocks", s.dims(0, s.cx.top()).into_iter().rev().flatten().collect()),
    ]
}

pub fn chk_std<F: TF>(s: &Setup, m: &Mode, dir: Dir, label: &str, order: &[usize], rev: bool) -> Res {
    let out = std_dir::<F>(s, m, dir, order, rev);
    let what = format!("standard {dir:?} {}, {label}, reverse_order={rev}", m.name);
    let (pairs, ess) = s.want(dir, 0, s.cx.top());
    let group: Vec<usize> = if dir == Coh { order.iter().rev().copied().collect() } else { order.to_vec() };
    judge(&what, &out, s.cols(dir), &[group], &s.rank(dir), s.cx.q(), false, &pairs, &ess)
}

pub fn ranges(top: usize) -> Vec<(usize, usize)> {
    (0..=top).flat_map(|a| (a..=top).map(move |b| (a, b))).collect()
}

pub fn clr_groups(s: &Setup, dir: Dir, a: usize, b: usize) -> Vec<Vec<usize>> {
    let mut g = s.dims(a, b);
    if dir == Coh {
        for x in g.iter_mut() {
            x[..].reverse();
        }
    }
    g
}

pub fn chk_clr<F: TF>(s: &Setup, m: &Mode, dir: Dir, a: usize, b: usize, v: bool, d: bool) -> Res {
    let out = clr_dir::<F>(s, m, dir, a, b);
    let what = format!("clearing {dir:?} {}, dimensions {a}..={b}", m.name);
    if v {
        judge_v(&what, &out, s.cols(dir), &clr_groups(s, dir, a, b), &s.rank(dir), s.cx.q(), true)?;
    }
    if d {
        let (pairs, ess) = s.want(dir, a, b);
        judge_d(&what, &out, &pairs, &ess)?;
        // the standard algorithm restricted to the same dimensions
        let order: Vec<usize> = s.dims(a, b).concat();
        let o2 = std_dir::<F>(s, m, dir, &order, dir == Coh);
        judge_d(&format!("{what}, by the standard algorithm"), &o2, &pairs, &ess)?;
    }
    Ok(())
}

pub type Check = fn(&Setup, bool, &mut Rec) -> Res;

pub fn desc(cx: &Cx) -> String {
    let d: Vec<String> = (0..cx.n()).map(|i| format!("{i}:dim{} {:?}", cx.dim[i], cx.bd[i])).collect();
    d.join("; ")
}

pub fn one(cx: &Cx, all: bool, check: Check, r: &mut Rec) -> Res {
    let pairs = cx.pairs();
    let s = Setup::new(cx, &pairs);
    r.state(cx);
    r.outcome(&pairs);
    check(&s, all, r)
}

/// State space of filtered complexes.
pub fn fam_graded(mc: &mut Mc, p: i128, n: usize, top: usize, all: bool, check: Check) {
    mc.family(
        &format!("graded-p{p}-n{n}-dim{top}{}", if all { "" } else { "-few" }),
        &format!(
            "every filtered chain complex over the field with {} elements with at most {n} elements of dimension <= {top}, built by appending elements with any cycle as boundary{}",
            if p == 0 { "infinitely many (coefficients 1,-1,2)".into() } else { p.to_string() },
            if all { "; 6 label/filtration modes" } else { "; 2 label/filtration modes" }
        ),
        |fam| {
            graded(p, n, top, &mut |cx| {
                fam.case(|| desc(cx), |r| one(cx, all, check, r));
            });
        },
    );
}

pub fn fam_blocks(mc: &mut Mc, p: i128, sizes: &[usize], all: bool, check: Check) {
    mc.family(
        &format!("blocks-p{p}-{sizes:?}"),
        &format!("every chain complex over the field of characteristic {p} with {sizes:?} elements in dimensions 0.., dimension by dimension"),
        |fam| {
            blocks(p, sizes, &mut |cx| {
                fam.case(|| desc(cx), |r| one(cx, all, check, r));
            });
        },
    );
}

/// Named complexes in several filtration orders.
pub fn named(p: i128, t: bool) -> Vec<(String, Cx)> {
    let mut out = vec![];
    let mut add = |name: &str, f: &[Vec<usize>], many: bool| {
        let nv = f.iter().flatten().max().unwrap() + 1;
        let by_dim = |s: &[usize]| vec![s.len()];
        out.push((format!("{name} by dimension p={p}"), simplicial(p, f, &by_dim)));
        let lower = |s: &[usize]| vec![*s.iter().max().unwrap()];
        out.push((format!("{name} lower star p={p}"), simplicial(p, f, &lower)));
        // vertices in the order of multiples of k
        for k in 2..if many { nv } else { 4.min(nv) } {
            if gcd(k as i128, nv as i128) != 1 {
                continue;
            }
            let key = |s: &[usize]| vec![*s.iter().map(|v| v * k % nv).max().as_ref().unwrap()];
            out.push((format!("{name} lower star, vertices times {k} p={p}"), simplicial(p, f, &key)));
            let key = |s: &[usize]| {
                let mut v: Vec<usize> = s.iter().map(|v| v * k % nv).collect();
                v.sort();
                v[..].reverse();
                let mut o = vec![s.len()];
                o.extend(v);
                o
            };
            out.push((format!("{name} by dimension, vertices times {k} p={p}"), simplicial(p, f, &key)));
        }
    };
    add("rp2", &facets("rp2"), true);
    add("cross polytope", &facets("cross"), true);
    add("torus 7", &torus7(), t);
    add("torus 3x3", &grid_surface(false, 3), t);
    add("klein 3x3", &grid_surface(true, 3), t);
    if t {
        add("torus 4x4", &grid_surface(false, 4), false);
        add("klein 4x4", &grid_surface(true, 4), false);
    }
    for n in 1..=if t { 6 } else { 5 } {
        add(&format!("simplex {n}"), &[(0..n).collect()], true);
    }
    for n in 3..=5usize {
        let f: Vec<Vec<usize>> = (0..n).map(|i| (0..n).filter(|j| *j != i).collect()).collect();
        add(&format!("sphere of simplex {n}"), &f, true);
    }
    for n in [3usize, 4, 5, 7, 10, 16, 17, 31, 40] {
        if n > 17 && !t {
            continue;
        }
        let f: Vec<Vec<usize>> = (0..n).map(|i| vec![i, (i + 1) % n]).collect();
        add(&format!("cycle {n}"), &f, false);
    }
    for n in [4usize, 6, 8] {
        let f: Vec<Vec<usize>> = (0..n).flat_map(|i| (i + 1..n).map(move |j| vec![i, j])).collect();
        add(&format!("complete graph {n}"), &f, false);
    }
    out
}

pub fn fam_named(mc: &mut Mc, p: i128, check: Check) {
    let t = mc.thorough;
    mc.family(
        &format!("named-p{p}"),
        "surfaces (projective plane, tori, Klein bottles), full simplices, spheres, cycles, complete graphs in several filtration orders",
        |fam| {
            for (name, cx) in named(p, t) {
                fam.case(|| name.clone(), |r| one(&cx, true, check, r));
            }
        },
    );
}

/// Larger complexes: long reductions, long columns, many dimensions.
pub fn big(p: i128, t: bool) -> Vec<(String, Cx)> {
    let mut out = vec![];
    let by_dim = |s: &[usize]| vec![s.len()];
    let lower = |s: &[usize]| vec![*s.iter().max().unwrap()];
    let mut add = |name: String, f: &[Vec<usize>]| {
        out.push((format!("{name} by dimension p={p}"), simplicial(p, f, &by_dim)));
        out.push((format!("{name} lower star p={p}"), simplicial(p, f, &lower)));
        let nv = f.iter().flatten().max().unwrap() + 1;
        let k = (2..nv).find(|k| 2 * k > nv / 2 && gcd(*k as i128, nv as i128) == 1).unwrap_or(1);
        let key = |s: &[usize]| vec![*s.iter().map(|v| v * k % nv).max().as_ref().unwrap()];
        out.push((format!("{name} lower star, vertices times {k} p={p}"), simplicial(p, f, &key)));
        // vertices in order, everything else in the order of the sum of the vertices
        let key = |s: &[usize]| vec![s.len(), s.iter().sum()];
        out.push((format!("{name} by dimension and vertex sum p={p}"), simplicial(p, f, &key)));
    };
    for n in [33usize, 64, 65, 66, 100, 129, 130, 257, 258, 300, 520] {
        add(format!("cycle {n}"), &(0..n).map(|i| vec![i, (i + 1) % n]).collect::<Vec<_>>());
    }
    for n in [40usize, 130, 260, 520] {
        add(format!("star {n}"), &(0..n).map(|i| vec![i, n]).collect::<Vec<_>>());
        // triangles around one edge: a coface list of length n
        add(format!("book {n}"), &(2..n).map(|i| vec![0, 1, i]).collect::<Vec<_>>());
        // n loops at one vertex
        add(format!("flower {n}"), &(0..n).flat_map(|i| [vec![0, 2 * i + 1], vec![2 * i + 1, 2 * i + 2], vec![0, 2 * i + 2]]).collect::<Vec<_>>());
    }
    for n in [12usize, 16, 24, 33] {
        add(format!("complete graph {n}"), &(0..n).flat_map(|i| (i + 1..n).map(move |j| vec![i, j])).collect::<Vec<_>>());
    }
    for n in [20usize, 65, 130] {
        add(format!("disc {n}"), &(0..n).map(|i| vec![i, (i + 1) % n, n]).collect::<Vec<_>>());
        add(format!("suspension {n}"), &(0..n).flat_map(|i| [vec![i, (i + 1) % n, n], vec![i, (i + 1) % n, n + 1]]).collect::<Vec<_>>());
    }
    for k in if t { 4..=10usize } else { 4..=7 } {
        add(format!("torus {k}x{k}"), &grid_surface(false, k));
        add(format!("klein bottle {k}x{k}"), &grid_surface(true, k));
    }
    for n in 6..=if t { 9usize } else { 8 } {
        add(format!("simplex {n}"), &[(0..n).collect()]);
        add(format!("sphere of simplex {n}"), &(0..n).map(|i| (0..n).filter(|j| *j != i).collect()).collect::<Vec<_>>());
        let two: Vec<Vec<usize>> = {
            let mut v = vec![];
            subsets(n, 3, |s| v.push(s.to_vec()));
            v
        };
        add(format!("2-skeleton of simplex {n}"), &two);
    }
    // 16-cell boundary and its 5-dimensional relative
    for d in [4usize, 5] {
        let f: Vec<Vec<usize>> = (0..1usize << d).map(|m| (0..d).map(|i| 2 * i + (m >> i & 1)).collect()).collect();
        add(format!("cross polytope of dimension {d}"), &f);
    }
    out
}

/// Graphs with tens of thousands of elements.
pub fn huge(p: i128) -> Vec<(String, Cx)> {
    let mut out = vec![];
    for n in [33_000usize, 66_000] {
        let path: Vec<(usize, usize)> = (1..n).map(|i| (i - 1, i)).collect();
        let star: Vec<(usize, usize)> = (1..n).map(|i| (0, i)).collect();
        let half: Vec<(usize, usize)> = (0..n / 2).map(|i| (2 * i, 2 * i + 1)).collect();
        for (name, e) in [("path", &path), ("star", &star), ("matching", &half)] {
            out.push((format!("{name} of {n} vertices, vertices first, p={p}"), graph(p, n, e, &|s| s.len())));
            out.push((format!("{name} of {n} vertices, lower star, p={p}"), graph(p, n, e, &|s| *s.iter().max().unwrap())));
            // (for the star that would take quadratically many additions)
            if name != "star" {
                out.push((format!("{name} of {n} vertices, lower star from the end, p={p}"), graph(p, n, e, &|s| n - *s.iter().min().unwrap())));
            }
        }
    }
    out
}

pub fn fam_big(mc: &mut Mc, p: i128, check: Check) {
    fam_big_upto(mc, p, usize::MAX, check)
}
/// Those with at most `max` elements.
pub fn fam_big_upto(mc: &mut Mc, p: i128, max: usize, check: Check) {
    let t = mc.thorough;
    mc.family(
        &format!("big-p{p}"),
        "cycles up to 520 edges, stars, books, flowers, complete graphs up to 33 vertices, discs, suspensions, surfaces, simplices up to 8 (9) vertices, cross polytopes in 4 filtration orders",
        |fam| {
            for (name, cx) in big(p, t) {
                if cx.n() > max {
                    continue;
                }
                fam.case(|| name.clone(), |r| one(&cx, false, check, r));
            }
        },
    );
}

pub fn fam_wide(mc: &mut Mc, p: i128, check: Check) {
    fam_wide_upto(mc, p, usize::MAX, check)
}
pub fn fam_wide_upto(mc: &mut Mc, p: i128, max: usize, check: Check) {
    let t = mc.thorough;
    mc.family(
        &format!("wide-p{p}"),
        "4 to 129 (thorough 2 to 130) elements of dimension 0, 1 or 2 of which all but the first, middle or last are killed, kill or are essential and that one is of another kind; deaths soon or late; plain or after changes of basis",
        |fam| {
            for (name, cx) in wide(p, t) {
                if cx.n() > max {
                    continue;
                }
                fam.case(|| name.clone(), |r| one(&cx, false, check, r));
            }
        },
    );
}

pub fn fam_huge(mc: &mut Mc, p: i128, check: Check) {
    mc.family(&format!("huge-p{p}"), "paths, stars and matchings with up to 66000 vertices in 3 filtration orders", |fam| {
        for (name, cx) in huge(p) {
            fam.case(|| name.clone(), |r| one(&cx, false, check, r));
        }
    });
}

macro_rules! by_field {
    ($s:expr, $f:ident, ($($a:expr),*)) => {
        match $s.cx.p {
            2 => $f::<Z2>($s, $($a),*),
            3 => $f::<Z3>($s, $($a),*),
            5 => $f::<Z5>($s, $($a),*),
            7 => $f::<Z7>($s, $($a),*),
            11 => $f::<Z11>($s, $($a),*),
            13 => $f::<Z13>($s, $($a),*),
            65_537 => $f::<Wide>($s, $($a),*),
            0 => $f::<Q>($s, $($a),*),
            _ => unreachable!(),
        }
    };
}

pub fn pick(cx: &Cx, all: bool) -> Vec<Mode> {
    let m = modes(cx);
    if all {
        m
    } else {
        vec![m[0].clone(), m[4].clone(), m[6].clone()]
    }
}

// ------------------------------------------------------------------------------------------------------------- R02

pub fn clear_v(s: &Setup, all: bool, r: &mut Rec) -> Res {
    for m in pick(s.cx, all) {
        for (a, b) in ranges(s.cx.top()) {
            for dir in [Hom, Coh] {
                by_field!(s, chk_clr, (&m, dir, a, b, true, false))?;
                r.step(s.cx.n());
                r.trace(1);
            }
        }
    }
    Ok(())
}

pub fn families(mc: &mut Mc, check: Check) {
    let t = mc.thorough;
    fam_graded(mc, 2, 6, 3, true, check);
    fam_graded(mc, 3, 5, 2, true, check);
    fam_graded(mc, 5, 4, 2, true, check);
    fam_graded(mc, 7, 4, 2, true, check);
    fam_graded(mc, 11, 3, 2, true, check);
    fam_graded(mc, 13, 3, 2, true, check);
    fam_graded(mc, 0, 4, 2, true, check);
    fam_blocks(mc, 2, &[3, 3, 3], false, check);
    fam_blocks(mc, 2, &[2, 2, 2, 2], false, check);
    fam_blocks(mc, 3, &[2, 3, 2], true, check);
    fam_blocks(mc, 3, &[3, 2, 2], true, check);
    fam_blocks(mc, 2, &[1, 2, 2, 2, 1], true, check);
    fam_blocks(mc, 5, &[2, 2, 2], true, check);
    fam_graded(mc, 2, 7, 2, false, check);
    fam_blocks(mc, 2, &[2, 3, 3, 2], false, check);
    fam_blocks(mc, 2, &[2, 2, 2, 2, 2], false, check);
    if t {
        fam_graded(mc, 2, 8, 2, false, check);
        fam_graded(mc, 3, 6, 2, false, check);
        fam_blocks(mc, 2, &[3, 3, 3, 2], false, check);
        fam_blocks(mc, 2, &[2, 2, 2, 2, 2, 2], false, check);
        fam_blocks(mc, 3, &[3, 3, 2], false, check);
    }
    for p in [2, 3, 5, 7, 11, 13, 65_537, 0] {
        fam_named(mc, p, check);
    }
    for p in [2, 3, 5, 7, 11, 13, 0] {
        fam_big(mc, p, check);
    }
    for p in if t { vec![2, 3, 7, 13, 0] } else { vec![2, 3, 0] } {
        fam_wide(mc, p, check);
    }
    fam_huge(mc, 2, check);
    if t {
        fam_huge(mc, 3, check);
        fam_huge(mc, 65_537, check);
        fam_huge(mc, 0, check);
    }
}

pub fn r02(mc: &mut Mc) {
    families(mc, clear_v);
}

// ------------------------------------------------------------------------------------------------------------- R03

pub fn std_diagrams(s: &Setup, all: bool, r: &mut Rec) -> Res {
    for m in pick(s.cx, all) {
        for (label, order) in orders(s) {
            for dir in [Hom, Coh] {
                for rev in [false, true] {
                    by_field!(s, chk_std, (&m, dir, label, &order, rev))?;
                    r.step(s.cx.n());
                    r.trace(1);
                }
            }
        }
    }
    Ok(())
}

/// Complexes without grading, only for the standard algorithm.
pub fn fam_ungraded<F: TF>(mc: &mut Mc, n: usize) {
    mc.family(
        &format!("ungraded-{}-n{n}", F::NAME),
        &format!("every strictly upper triangular matrix D of size <= {n} with D*D = 0: boundary, reversed and plain transpose, both declared orders"),
        |fam| {
            ungraded(F::P, n, &mut |cx| {
                fam.case(
                    || format!("{:?}", cx.bd),
                    |r| {
                        let n = cx.n();
                        let q = cx.q();
                        let dense = |raw: &[Vec<Term>]| -> Vec<Vec<u64>> {
                            raw.iter()
                                .map(|c| {
                                    let mut v = vec![0; n];
                                    for (k, i) in c {
                                        v[*i] = k.residue();
                                    }
                                    v
                                })
                                .collect()
                        };
                        let pairs = pairing(n, &dense(&cx.bd), q);
                        let s = Setup::new(cx, &pairs);
                        r.state(cx);
                        r.outcome(&pairs);
                        let id: Vec<usize> = (0..n).collect();
                        for m in modes(cx).iter().take(4) {
                            for dir in [Hom, Coh] {
                                for rev in [false, true] {
                                    chk_std::<F>(&s, m, dir, "filtration order", &id, rev)?;
                                    r.step(n);
                                    r.trace(1);
                                }
                            }
                            // the transpose without reversal is again a square-zero matrix; rows and columns in index order
                            let pp = pairing(n, &dense(&cx.cob()), q);
                            let ess: Vec<usize> =
                                (0..n).filter(|i| !pp.iter().any(|(a, b)| a == i || b == i)).collect();
                            for rev in [false, true] {
                                let out = std_dir::<F>(&s, m, Plain, &id, rev);
                                judge(
                                    &format!("standard on plain transpose, {}, reverse_order={rev}", m.name),
                                    &out,
                                    s.cols(Plain),
                                    &[id.clone()],
                                    &s.rank(Plain),
                                    q,
                                    false,
                                    &pp,
                                    &ess,
                                )?;
                                r.step(n);
                                r.trace(1);
                            }
                        }
                        Ok(())
                    },
                );
            });
        },
    );
}

pub fn r03(mc: &mut Mc) {
    let t = mc.thorough;
    fam_ungraded::<Z2>(mc, if t { 8 } else { 7 });
    fam_ungraded::<Z3>(mc, if t { 6 } else { 5 });
    fam_ungraded::<Z5>(mc, if t { 5 } else { 4 });
    fam_ungraded::<Z13>(mc, if t { 4 } else { 3 });
    fam_ungraded::<Q>(mc, if t { 4 } else { 3 });
    families(mc, std_diagrams);
}

// ------------------------------------------------------------------------------------------------------------- R04

pub fn clear_d(s: &Setup, all: bool, r: &mut Rec) -> Res {
    for m in pick(s.cx, all) {
        for (a, b) in ranges(s.cx.top()) {
            for dir in [Hom, Coh] {
                by_field!(s, chk_clr, (&m, dir, a, b, false, true))?;
                r.step(2 * s.cx.n());
                r.trace(2);
            }
        }
    }
    Ok(())
}

pub fn r04(mc: &mut Mc) {
    families(mc, clear_d);
}

// ------------------------------------------------------------------------------------------------------------- R05

pub fn four_runs(s: &Setup, all: bool, r: &mut Rec) -> Res {
    fn go<F: TF>(s: &Setup, m: &Mode) -> Res {
        let top = s.cx.top();
        let all: Vec<usize> = (0..s.cx.n()).collect();
        let runs = [
            ("standard homology", std_dir::<F>(s, m, Hom, &all, false), false),
            ("standard reversed cohomology", std_dir::<F>(s, m, Coh, &all, true), true),
            ("standard homology by dimension", std_dir::<F>(s, m, Hom, &s.dims(0, top).concat(), false), false),
            ("standard reversed cohomology by dimension", std_dir::<F>(s, m, Coh, &s.dims(0, top).concat(), false), true),
            ("clearing homology", clr_dir::<F>(s, m, Hom, 0, top), false),
            ("clearing reversed cohomology", clr_dir::<F>(s, m, Coh, 0, top), true),
        ];
        let paired: HashSet<usize> = s.pairs.iter().flat_map(|(a, b)| [*a, *b]).collect();
        let ess: Vec<usize> = all.iter().copied().filter(|i| !paired.contains(i)).collect();
        for (what, out, swap) in &runs {
            let mut p: Pairs = out.pairs.iter().map(|(a, b)| if *swap { (*b, *a) } else { (*a, *b) }).collect();
            p.sort();
            ensure_eq!(p, s.pairs.to_vec(), "{what} ({}): (birth, death) pairs", m.name);
            ensure_eq!(out.ess, ess, "{what} ({}): essential elements", m.name);
        }
        Ok(())
    }
    for m in pick(s.cx, all) {
        by_field!(s, go, (&m))?;
        r.step(6 * s.cx.n());
        r.trace(6);
    }
    Ok(())
}

pub fn r05(mc: &mut Mc) {
    families(mc, four_runs);
    let t = mc.thorough;
    if t {
        fam_graded(mc, 2, 7, 3, false, four_runs);
    }
    fam_graded(mc, 3, 5, 3, false, four_runs);
}

