//! G01, G02, C09 (path homology part): the complex itself.
use grpph_checks::dg::{times, Filt, Time};
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::*;
use mc::*;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::*;
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::*;
use rustc_hash::FxHashMap;
use std::collections::{BTreeMap, BTreeSet};

type Vf = VecDigraphFiltration;

fn nt(x: f64) -> NotNan<f64> {
    NotNan::new(x).unwrap()
}
pub fn vec_filt(f: &Filt) -> Vf {
    f.iter().map(|r| r.iter().map(|x| x.map(nt)).collect()).collect()
}
pub fn map_filt(f: &Filt) -> MapDigraphFiltration {
    let mut m = FxHashMap::default();
    for (s, r) in f.iter().enumerate() {
        for (t, x) in r.iter().enumerate() {
            if let Some(x) = x {
                m.insert((s as u16, t as u16), nt(*x));
            }
        }
    }
    m
}
pub fn pairs(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                v.push((a, b));
            }
        }
    }
    v
}
pub fn filt_of(n: usize, w: &[usize], alphabet: &[Time]) -> Filt {
    let mut f = vec![vec![None; n]; n];
    for ((a, b), x) in pairs(n).iter().zip(w) {
        f[*a][*b] = alphabet[*x];
    }
    f
}
pub fn set_of(n: usize, mask: u64) -> DigraphEdgeSet {
    pairs(n).iter().enumerate().filter(|(i, _)| *i < 64 && mask >> i & 1 == 1).map(|(_, (a, b))| (*a as u16, *b as u16)).collect()
}
pub fn show(f: &Filt) -> String {
    let v: Vec<String> = pairs(f.len()).iter().filter_map(|(a, b)| f[*a][*b].map(|x| format!("{a}->{b}@{x}"))).collect();
    format!("n={} [{}]", f.len(), v.join(" "))
}
pub fn show_set(s: &DigraphEdgeSet) -> String {
    let mut v: Vec<_> = s.iter().collect();
    v.sort();
    format!("grounded {v:?}")
}

/// Time of an edge of the grounded complex.
pub fn gtime(f: &Filt, e: &DigraphEdgeSet, a: usize, b: usize) -> Time {
    if e.contains(&(a as u16, b as u16)) {
        Some(0.0)
    } else {
        f[a][b]
    }
}

/// A cell as a combination of paths.
fn chain(c: &PathHomCell) -> Vec<(i64, Vec<usize>)> {
    let p = |v: &[u16]| v.iter().map(|x| *x as usize).collect::<Vec<_>>();
    match *c {
        PathHomCell::Node(a) => vec![(1, p(&[a]))],
        PathHomCell::Edge(a, b) => vec![(1, p(&[a, b]))],
        PathHomCell::TwoCell(PathHom2Cell::DoubleEdge(a, b)) => vec![(1, p(&[a, b, a]))],
        PathHomCell::TwoCell(PathHom2Cell::DirectedTriangle(a, b, c)) => vec![(1, p(&[a, b, c]))],
        PathHomCell::TwoCell(PathHom2Cell::LongSquare(a, b, c, d)) => vec![(1, p(&[a, c, d])), (-1, p(&[a, b, d]))],
    }
}
/// Boundary of a combination of regular paths.
fn bd(c: &[(i64, Vec<usize>)]) -> BTreeMap<Vec<usize>, i64> {
    let mut out = BTreeMap::new();
    for (k, p) in c {
        if p.len() < 2 {
            continue;
        }
        for i in 0..p.len() {
            let mut q = p.clone();
            q.remove(i);
            if q.windows(2).any(|w| w[0] == w[1]) {
                continue;
            }
            *out.entry(q).or_insert(0) += if i % 2 == 0 { *k } else { -*k };
        }
    }
    out.retain(|_, v| *v != 0);
    out
}
/// When the definition lets a cell enter: all its paths are there (and its boundary is).
fn want_time(f: &Filt, e: &DigraphEdgeSet, c: &PathHomCell) -> Time {
    match c {
        PathHomCell::Node(_) => Some(0.0),
        PathHomCell::Edge(a, b) => gtime(f, e, *a as usize, *b as usize),
        PathHomCell::TwoCell(_) => {
            let ch = chain(c);
            let mut t = 0.0f64;
            for (_, p) in &ch {
                for w in p.windows(2) {
                    t = t.max(f[w[0]][w[1]]?);
                }
            }
            for p in bd(&ch).keys() {
                t = t.max(f[p[0]][p[1]]?);
            }
            Some(t)
        }
    }
}

type Col<F> = BTreeMap<PathHomCell, F>;
fn sum_terms<F: TF>(it: impl Iterator<Item = (F, PathHomCell)>) -> Col<F> {
    let mut m: BTreeMap<PathHomCell, Option<F>> = BTreeMap::new();
    for (c, k) in it {
        let e = m.entry(k).or_insert(None);
        *e = match *e {
            None => Some(c),
            Some(x) => x + c,
        };
    }
    m.into_iter().filter_map(|(k, c)| Some((k, c?))).collect()
}

fn one<F: TF, D: DigraphFiltration + Copy>(r: &mut Rec, name: &str, d: D, f: &Filt, e: &DigraphEdgeSet) -> Res {
    let n = f.len();
    let cob = GrPPHCoboundary::<F, _>::build(d, e, n as u16);
    let nodes: Vec<PathHomCell> = (0..n).map(|i| PathHomCell::Node(i as u16)).collect();
    let mut edges = vec![];
    for (a, b) in pairs(n) {
        if let Some(t) = gtime(f, e, a, b) {
            edges.push((nt(t), PathHomCell::Edge(a as u16, b as u16)));
        }
    }
    let mut cols: BTreeMap<PathHomCell, Col<F>> = BTreeMap::new();
    let mut cells2: BTreeSet<PathHomCell> = BTreeSet::new();
    for c in nodes.iter().chain(edges.iter().map(|x| &x.1)) {
        let plain = sum_terms(cob.column(*c));
        let mut rich = vec![];
        for en in cob.column_with_filtration(*c) {
            let want = want_time(f, e, &en.row_index);
            ensure_eq!(Some(en.filtration_value.into_inner()), want, "{name}: filtration value of row {:?} in enriched coboundary of {c:?}", en.row_index);
            rich.push((en.coeff, en.row_index));
        }
        let rich = sum_terms(rich.into_iter());
        ensure!(rich == plain, "{name}: enriched coboundary of {c:?} is {rich:?} but plain is {plain:?}");
        for k in plain.keys() {
            ensure_eq!(k.dimension(), c.dimension() + 1, "{name}: dimension of {k:?} in coboundary of {c:?}");
            let t = cob.filtration_value(*k).into_inner();
            ensure_eq!(Some(t), want_time(f, e, k), "{name}: filtration value of {k:?}");
            if k.dimension() == 2 {
                cells2.insert(*k);
            }
        }
        r.step(plain.len() + 1);
        cols.insert(*c, plain);
    }
    for c in nodes.iter().chain(edges.iter().map(|x| &x.1)).chain(cells2.iter()) {
        let want = want_time(f, e, c);
        ensure_eq!(Some(cob.filtration_value(*c).into_inner()), want, "{name}: filtration value of {c:?}");
    }
    let basis = PathHomSingleBasis(edges.iter().copied().chain(cells2.iter().map(|c| (nt(0.0), *c))).collect());
    let bnd = GrPPHBoundary::<F, _>::build(d, e, basis);
    // transpose, signs against the definition, squares to zero, monotone
    let mut coltr: BTreeMap<PathHomCell, Col<F>> = BTreeMap::new();
    for (c, col) in &cols {
        for (k, x) in col {
            coltr.entry(*k).or_default().insert(*c, *x);
        }
    }
    let empty = Col::<F>::new();
    for c in nodes.iter().chain(edges.iter().map(|x| &x.1)).chain(cells2.iter()) {
        let b = sum_terms(bnd.column(*c));
        let want = bd(&chain(c));
        let mut wcol = Col::<F>::new();
        for (p, k) in &want {
            let cell = match p[..] {
                [a] => PathHomCell::Node(a as u16),
                [a, b] => PathHomCell::Edge(a as u16, b as u16),
                _ => unreachable!(),
            };
            if let Some(x) = F::int(*k) {
                wcol.insert(cell, x);
            }
        }
        ensure!(b == wcol, "{name}: boundary of {c:?} is {b:?}, by definition {wcol:?}");
        let tr = coltr.get(c).unwrap_or(&empty);
        ensure!(b == *tr, "{name}: boundary of {c:?} is {b:?} but the coboundary columns say {tr:?}");
        let t = cob.filtration_value(*c);
        ensure_eq!(bnd.filtration_value(*c), t, "{name}: filtration value of {c:?} in boundary");
        let mut rich = vec![];
        for en in bnd.column_with_filtration(*c) {
            ensure_eq!(en.filtration_value, cob.filtration_value(en.row_index), "{name}: enriched boundary of {c:?}");
            rich.push((en.coeff, en.row_index));
        }
        ensure!(sum_terms(rich.into_iter()) == b, "{name}: enriched boundary of {c:?} differs");
        let mut bb = vec![];
        for (k, x) in &b {
            ensure!(cob.filtration_value(*k) <= t, "{name}: face {k:?} of {c:?} comes later");
            for (y, l) in bnd.column(*k) {
                bb.push((*x * y, l));
            }
        }
        let bb = sum_terms(bb.into_iter());
        ensure!(bb.is_empty(), "{name}: boundary of boundary of {c:?} is {bb:?}");
        r.step(b.len() + 1);
    }
    r.outcome(&cells2.len());
    r.trace(1);
    Ok(())
}

fn g01_case<F: TF>(r: &mut Rec, f: &Filt, sets: &[DigraphEdgeSet], maps: bool) -> Res {
    let v = vec_filt(f);
    for e in sets {
        one::<F, _>(r, &format!("{} {}", F::NAME, show_set(e)), &v, f, e)?;
        if maps {
            let m = map_filt(f);
            one::<F, _>(r, &format!("{} {} (map)", F::NAME, show_set(e)), &m, f, e)?;
        }
    }
    r.state(&(f.iter().flatten().map(|x| x.map(f64::to_bits)).collect::<Vec<_>>()));
    Ok(())
}

pub fn bridges_family(fam: &mut Family, k: usize, vals: &[Time], shortcut: &[Time], back: &[Time], run: &mut dyn FnMut(&Filt, &mut Rec) -> Res) {
    // one source, one target, k middle nodes; the source/target labels vary
    let n = k + 2;
    for (src, dst) in [(0, n - 1), (n - 1, 0), (1, 0), (0, 1), (1, 2), (n - 1, n - 2)] {
        let mids: Vec<usize> = (0..n).filter(|x| *x != src && *x != dst).collect();
        words(vals.len(), 2 * k, |w| {
            for s in shortcut {
                for b in back {
                    let mut f = vec![vec![None; n]; n];
                    for (i, m) in mids.iter().enumerate() {
                        f[src][*m] = vals[w[2 * i]];
                        f[*m][dst] = vals[w[2 * i + 1]];
                    }
                    f[src][dst] = *s;
                    f[dst][src] = *b;
                    fam.case(|| show(&f), |r| run(&f, r));
                }
            }
        });
    }
}

/// Increasing lists of times of unlike magnitudes and spacings: close together, far apart, tiny, huge.
fn scales() -> Vec<(&'static str, [f64; 3])> {
    let up = |x: f64| f64::from_bits(x.to_bits() + 1);
    vec![
        ("quarters", [0.25, 0.5, 0.75]),
        ("neighbouring floats", [1.0, up(1.0), up(up(1.0))]),
        ("neighbouring floats at 1e6", [1e6, up(1e6), up(up(1e6))]),
        ("1e-3 apart", [2.0, 2.001, 2.002]),
        ("1e-6 apart", [7.0, 7.000001, 7.000002]),
        ("tiny", [1e-300, 2e-300, 3e-300]),
        ("smallest", [f64::MIN_POSITIVE / 4.0, f64::MIN_POSITIVE, 1e-12]),
        ("wide", [1.0, 100.0, 1e9]),
        ("huge", [1e15, 1e200, 1e308]),
        ("over 2^32", [4294967295.0, 4294967296.0, 4294967297.5]),
        ("single precision", [16777216.0, 16777217.0, 16777218.0]),
        ("non-dyadic", [0.1, 0.3, 0.7]),
    ]
}
/// Small complexes whose shape depends on comparing times, over each of `scales()`.
pub fn scaled_family(mc: &mut Mc, run: &dyn Fn(&Filt, &mut Rec) -> Res) {
    let t = mc.thorough;
    mc.family("scales", "12 triples of times of unlike magnitude and spacing a<b<c: all digraph filtrations on 3 nodes with times in {none,a,b} (thorough {none,a,b,c}); one source and one target joined through 2 middle nodes with times in {none,a,b,c}, shortcut in {none,a,b,c}, way back in {none,b}; through 3 middle nodes with times in {a,b,c}, no shortcut or one at c", |fam| {
        for (_, [a, b, c]) in scales() {
            let al = [None, Some(a), Some(b), Some(c)];
            words(if t { 4 } else { 3 }, 6, |w| {
                let f = filt_of(3, w, &al);
                fam.case(|| show(&f), |r| run(&f, r));
            });
            bridges_family(fam, 2, &al, &al, &[None, Some(b)], &mut |f, r| run(f, r));
            bridges_family(fam, 3, &al[1..], &[None, Some(c)], &[None], &mut |f, r| run(f, r));
        }
    });
}

fn complete_times(n: usize, f: impl Fn(usize, usize) -> f64) -> Filt {
    let mut o = vec![vec![None; n]; n];
    for (a, b) in pairs(n) {
        o[a][b] = Some(f(a, b));
    }
    o
}
pub fn structured() -> Vec<Filt> {
    let mut v = vec![];
    for n in [5usize, 6, 7, 9] {
        v.push(complete_times(n, |a, b| ((b + n - a) % n) as f64));
        v.push(complete_times(n, |_, _| 1.0));
        v.push(complete_times(n, |a, b| ((a * 3 + b * 5) % 7) as f64));
        v.push(complete_times(n, |a, b| (a as f64 - b as f64).abs()));
        v.push(complete_times(n, |a, b| 10.0 - ((a + b) % 4) as f64));
        let mut f = complete_times(n, |a, b| (a ^ b) as f64);
        for a in 0..n {
            f[a][(a + 2) % n] = None;
        }
        v.push(f);
        let mut f = vec![vec![None; n]; n];
        for a in 0..n / 2 {
            for b in n / 2..n {
                f[a][b] = Some(((a + b) % 3) as f64);
                f[b][(a + 1) % (n / 2)] = Some(((a * b) % 3 + 1) as f64);
            }
        }
        v.push(f);
    }
    v
}

/// Small patterns on far labels: two nodes joined both ways, or one way with a shortcut and a way back.
pub const PLACED: &str = "two nodes joined both ways through 2 middle nodes with all times in {none,1} and in {1,2}, shortcut at 3 or none; both ways through 3 middle nodes, each at any two of {none,1,2}; joined one way through 3 middle nodes with all times in {1,2}, shortcut in {none,1.5,3}, way back in {none,1}; placed on labels 41 to 45 of 48 nodes and on labels around 0 and 66 of 70 (thorough: also 6 of 140 and of 300)";
pub fn placed_family(mc: &mut Mc, run: &dyn Fn(&Filt, &mut Rec) -> Res) {
    let t = mc.thorough;
    mc.family("placed", PLACED, |fam| {
        let mut places: Vec<(usize, [usize; 5])> = vec![(48, [41, 42, 43, 44, 45]), (48, [46, 47, 42, 41, 45]), (70, [66, 1, 67, 0, 65])];
        if t {
            places.extend([(140, [129, 128, 2, 127, 139]), (300, [257, 299, 256, 255, 3])]);
        }
        for (n, l) in places {
            let mut go = |es: &[(usize, usize, Time)]| {
                let mut f = vec![vec![None; n]; n];
                for (a, b, t) in es {
                    f[l[*a]][l[*b]] = *t;
                }
                fam.case(|| show(&f), |r| run(&f, r));
            };
            for al in [[None, Some(1.0)], [Some(1.0), Some(2.0)]] {
                words(2, 8, |w| {
                    let mut es = vec![];
                    for m in 0..2 {
                        let x = |i: usize| al[w[4 * m + i]];
                        es.extend([(0, 2 + m, x(0)), (2 + m, 1, x(1)), (1, 2 + m, x(2)), (2 + m, 0, x(3))]);
                    }
                    go(&es);
                    es.push((0, 1, Some(3.0)));
                    go(&es);
                });
            }
            words(3, 6, |w| {
                let time = |k: usize| [Some(1.0), Some(2.0), None][k];
                let mut es = vec![];
                for m in 0..3 {
                    let (go, back) = (time(w[2 * m]), time(w[2 * m + 1]));
                    es.extend([(0, 2 + m, go), (2 + m, 1, Some(1.0)), (1, 2 + m, Some(1.0)), (2 + m, 0, back)]);
                }
                go(&es);
            });
            words(2, 6, |w| {
                for s in [None, Some(1.5), Some(3.0)] {
                    for b in [None, Some(1.0)] {
                        let mut es = vec![(0, 1, s), (1, 0, b)];
                        for m in 0..3 {
                            let x = |i: usize| Some(1.0 + w[2 * m + i] as f64);
                            es.extend([(0, 2 + m, x(0)), (2 + m, 1, x(1))]);
                        }
                        go(&es);
                    }
                }
            });
        }
    });
}

/// Filtrations with many nodes but few 2-paths, with a grounding set each.
pub fn big(t: bool) -> Vec<(String, Filt, DigraphEdgeSet)> {
    let mut v: Vec<(String, Filt)> = vec![];
    let mut sizes = vec![10usize, 18, 32, 40, 64, 66];
    if t {
        sizes.extend([130, 260]);
    }
    for m in sizes {
        for k in 0..4usize {
            let n = m + 2;
            let (src, dst) = [(0, n - 1), (n - 1, 0), (n / 2, n - 2), (3, 1)][k];
            let mut f = vec![vec![None; n]; n];
            for (i, x) in (0..n).filter(|x| *x != src && *x != dst).enumerate() {
                let i = if k == 1 { m - i } else { i };
                f[src][x] = Some([i as f64, (1 + i % 3) as f64, 1.0, (i / 5) as f64][k]);
                f[x][dst] = Some([1.0, (1 + i * 2 % 5) as f64, 1.0, (i % 7) as f64][k]);
            }
            if k > 1 {
                f[src][dst] = Some(3.0);
            }
            if k == 3 {
                f[dst][src] = Some(1.0);
            }
            v.push((format!("{m} bridges, pattern {k}"), f));
        }
    }
    // two sources, two targets, shared middle nodes
    for m in [6usize, 17, 30] {
        let n = m + 4;
        let mut f = vec![vec![None; n]; n];
        for x in 4..n {
            for s in 0..2 {
                f[s][x] = Some((1 + (x * (s + 1)) % 4) as f64);
                f[x][2 + s] = Some((1 + (x + s) % 3) as f64);
            }
        }
        f[0][3] = Some(2.5);
        f[3][1] = Some(1.5);
        v.push((format!("two sources and targets, {m} middle nodes"), f));
    }
    // one node in the middle of everything
    for n in [12usize, 40, 70] {
        let mut f = vec![vec![None; n]; n];
        for i in 1..n {
            if i % 3 != 0 {
                f[0][i] = Some((i % 5) as f64);
            }
            if i % 3 != 1 {
                f[i][0] = Some((i % 4) as f64);
            }
            if i % 3 == 1 && n <= 40 {
                for j in (3..n).step_by(3) {
                    f[j][i] = Some(1.0 + ((i + j) % 6) as f64);
                }
            }
        }
        v.push((format!("hub of {n} nodes"), f));
    }
    for n in [16usize, 20] {
        let mut f = vec![vec![None; n]; n];
        for a in 0..n {
            for j in [1, 2, 5] {
                f[a][(a + j) % n] = Some((1 + (a * j) % 4) as f64);
            }
        }
        v.push((format!("circulant of {n}"), f));
    }
    // small patterns on far labels
    for labels in [[0usize, 255, 256, 299, 17, 128], [256, 0, 299, 43, 257, 1], [299, 261, 5, 260, 4, 254]] {
        for k in 0..3u64 {
            let mut f = vec![vec![None; 300]; 300];
            for (i, (a, b)) in pairs(6).iter().enumerate() {
                if (k * 0x9d + 0x135) >> (i % 10) & 1 == 1 {
                    f[labels[*a]][labels[*b]] = Some(1.0 + ((i as u64 * (k + 3)) % 4) as f64);
                }
            }
            v.push((format!("pattern {k} on labels {labels:?}"), f));
        }
    }
    v.into_iter()
        .map(|(s, f)| {
            let n = f.len();
            let mut e = DigraphEdgeSet::default();
            for (a, b) in pairs(n) {
                let h = a * 31 + b * 17;
                if f[a][b].is_some() && h % 4 == 1 || f[a][b].is_none() && h % 97 == 5 && n < 100 {
                    e.insert((a as u16, b as u16));
                }
            }
            (s, f, e)
        })
        .collect()
}
pub const BIG: &str = "one source and one target joined through 10 to 66 (thorough 260) middle nodes, four patterns of times; two sources and targets with up to 30 shared middle nodes; hubs of up to 70 nodes; circulants; patterns on labels spread over 300 nodes; a mixed grounding set each";

pub fn g01(mc: &mut Mc) {
    let t = mc.thorough;
    mc.family("n<=2", "all digraph filtrations with times in {none,0,1,2.5,3.5} on 0, 1 and 2 nodes, all grounding sets, Z2 Z3 Z7 Z13 Q, list and map form", |fam| {
        let al = [None, Some(0.0), Some(1.0), Some(2.5), Some(3.5)];
        for n in 0..=2usize {
            let m = pairs(n).len();
            let sets: Vec<_> = (0..1u64 << m).map(|k| set_of(n, k)).collect();
            words(al.len(), m, |w| {
                let f = filt_of(n, w, &al);
                fam.case(
                    || show(&f),
                    |r| {
                        g01_case::<Z2>(r, &f, &sets, true)?;
                        g01_case::<Z3>(r, &f, &sets, true)?;
                        g01_case::<Z7>(r, &f, &sets, true)?;
                        g01_case::<Z13>(r, &f, &sets, true)?;
                        g01_case::<Q>(r, &f, &sets, true)
                    },
                );
            });
        }
    });
    let al: Vec<Time> = if t { vec![None, Some(0.0), Some(1.0), Some(2.0), Some(3.0)] } else { vec![None, Some(1.0), Some(2.0)] };
    mc.family("n3", &format!("all digraph filtrations with times in {al:?} on 3 nodes, all 64 grounding sets, Z2 Z3 (and Q, Z7 for a quarter of the sets)"), |fam| {
        let sets: Vec<_> = (0..64).map(|k| set_of(3, k)).collect();
        let few: Vec<_> = (0..64).step_by(4).map(|k| set_of(3, k)).collect();
        words(al.len(), 6, |w| {
            let f = filt_of(3, w, &al);
            fam.case(
                || show(&f),
                |r| {
                    g01_case::<Z3>(r, &f, &sets, false)?;
                    g01_case::<Z2>(r, &f, &few, true)?;
                    g01_case::<Q>(r, &f, &few, false)?;
                    g01_case::<Z7>(r, &f, &few, true)
                },
            );
        });
    });
    let al4 = [None, Some(1.0), Some(2.0)];
    mc.family("n4", "all digraph filtrations with times in {none,1,2} on 4 nodes, a mixed grounding set, Z3 (thorough: also no grounding, grounding at time 1, Z2, Z5, Q, map form)", |fam| {
        words(3, 12, |w| {
            let f = filt_of(4, w, &al4);
            fam.case(
                || show(&f),
                |r| {
                    let ones = w.iter().enumerate().filter(|(_, x)| **x == 1).map(|(i, _)| 1u64 << i).sum();
                    let sets = [set_of(4, 0b0110_1010_0101), set_of(4, ones)];
                    g01_case::<Z3>(r, &f, if t { &sets } else { &sets[..1] }, false)?;
                    if t {
                        let e = [set_of(4, 0)];
                        g01_case::<Z2>(r, &f, &e, true)?;
                        g01_case::<Z5>(r, &f, &sets, true)?;
                        g01_case::<Q>(r, &f, &e, false)?;
                    }
                    Ok(())
                },
            );
        });
    });
    mc.family("bridges", "one source and one target joined through 3 middle nodes with all times in {none,1,2} (thorough: {none,1,2,3}), all shortcuts in {none,0,1,2,3}, way back in {none,1.5}; Z3, Z7", |fam| {
        let vals: &[Time] = if t { &[None, Some(1.0), Some(2.0), Some(3.0)] } else { &[None, Some(1.0), Some(2.0)] };
        bridges_family(fam, 3, vals, &[None, Some(0.0), Some(1.0), Some(2.0), Some(3.0)], &[None, Some(1.5)], &mut |f, r| {
            let sets = [set_of(5, 0), set_of(5, 0b1010_0110_1001_0101_0011)];
            g01_case::<Z3>(r, f, &sets, false)?;
            g01_case::<Z7>(r, f, &sets[1..], true)
        });
    });
    scaled_family(mc, &|f, r| {
        let n = f.len();
        let sets = [set_of(n, 0), set_of(n, 0b10_0110_1001_0101_0011)];
        g01_case::<Z3>(r, f, &sets, false)?;
        g01_case::<Z5>(r, f, &sets[1..], true)
    });
    mc.family("structured", "28 larger filtrations (cyclic, constant, mixed, bipartite) on 5, 6, 7 and 9 nodes; Z2 Z3 Z5 Z11 Q", |fam| {
        for f in structured() {
            let n = f.len();
            fam.case(
                || show(&f),
                |r| {
                    let sets = [set_of(n, 0), set_of(n, 0x5a5a_a5a5_1234_5678)];
                    g01_case::<Z2>(r, &f, &sets, true)?;
                    g01_case::<Z3>(r, &f, &sets, true)?;
                    g01_case::<Z5>(r, &f, &sets, true)?;
                    g01_case::<Z11>(r, &f, &sets, false)?;
                    g01_case::<Q>(r, &f, &sets, false)
                },
            );
        }
    });
    mc.family("large", BIG, |fam| {
        for (name, f, e) in big(t) {
            fam.case(
                || name.clone(),
                |r| {
                    one::<Z3, _>(r, "Z3", &vec_filt(&f), &f, &e)?;
                    if f.len() <= 70 {
                        one::<Z7, _>(r, "Z7 (map)", &map_filt(&f), &f, &e)?;
                    }
                    r.state(&name);
                    Ok(())
                },
            );
        }
    });
    placed_family(mc, &|f, r| one::<Z3, _>(r, "Z3", &vec_filt(f), f, &set_of(f.len(), 0x8400_0001_0001_0000)));
    mc.family("wide labels", "a small pattern on labels spread over 300 nodes (map form), Z3", |fam| {
        for labels in [[0usize, 255, 256, 299], [1, 257, 280, 2], [299, 261, 5, 43]] {
            for k in 0..8u64 {
                let mut f = vec![vec![None; 300]; 300];
                for (i, (a, b)) in pairs(4).iter().enumerate() {
                    if (k * 0x9d + 0x35) >> (i % 9) & 1 == 1 {
                        f[labels[*a]][labels[*b]] = Some(1.0 + ((i as u64 * (k + 3)) % 4) as f64);
                    }
                }
                fam.case(
                    || format!("pattern {k} on labels {labels:?}"),
                    |r| {
                        // the same complex as on 4 nodes
                        let mut small = vec![vec![None; 4]; 4];
                        for (a, b) in pairs(4) {
                            small[a][b] = f[labels[a]][labels[b]];
                        }
                        let m = map_filt(&f);
                        let e: DigraphEdgeSet = [(labels[0] as u16, labels[1] as u16), (labels[3] as u16, labels[2] as u16)].into_iter().collect();
                        let cob = GrPPHCoboundary::<Z3, _>::build(&m, &e, 300);
                        let es: DigraphEdgeSet = [(0, 1), (3, 2)].into_iter().collect();
                        for (a, b) in pairs(4) {
                            if gtime(&small, &es, a, b).is_none() {
                                continue;
                            }
                            for en in cob.column_with_filtration(PathHomCell::Edge(labels[a] as u16, labels[b] as u16)) {
                                ensure_eq!(Some(en.filtration_value.into_inner()), want_time(&f, &e, &en.row_index), "time of {:?}", en.row_index);
                                let b2 = bd(&chain(&en.row_index));
                                let want = b2.get(&vec![labels[a], labels[b]]).copied();
                                ensure_eq!(Some(en.coeff.sc()), want.map(|k| Sc::int(k as i128, 3)), "coefficient of {:?}", en.row_index);
                                r.step(1);
                            }
                        }
                        r.state(&(k, labels));
                        Ok(())
                    },
                );
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------------------- G02

fn g02_case<F: TF, D: DigraphFiltration + Copy>(r: &mut Rec, d: D, f: &Filt) -> Res {
    let n = f.len();
    let e = DigraphEdgeSet::default();
    let cob = GrPPHCoboundary::<F, _>::build(d, &e, n as u16);
    let mut cells: BTreeMap<PathHomCell, f64> = BTreeMap::new();
    for (a, b) in pairs(n) {
        if f[a][b].is_none() {
            continue;
        }
        for en in cob.column_with_filtration(PathHomCell::Edge(a as u16, b as u16)) {
            let t = en.filtration_value.into_inner();
            let o = *cells.entry(en.row_index).or_insert(t);
            ensure_eq!(t, o, "two filtration values of {:?}", en.row_index);
        }
    }
    let q = rank_prime(F::P);
    let modq = |k: i64| k.rem_euclid(q as i64) as u64;
    // every regular 2-path present eventually, and every pair
    let mut paths = vec![];
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                if a != b && b != c && f[a][b].is_some() && f[b][c].is_some() {
                    paths.push(vec![a, b, c]);
                }
            }
        }
    }
    let ps = pairs(n);
    for t in times(f) {
        let has = |a: usize, b: usize| f[a][b].is_some_and(|x| x <= t);
        let here: Vec<&Vec<usize>> = paths.iter().filter(|p| has(p[0], p[1]) && has(p[1], p[2])).collect();
        // missing part of the boundary, as a matrix; its kernel is the space of invariant 2-paths
        let missing: Vec<Vec<u64>> = here
            .iter()
            .map(|p| {
                let b = bd(&[(1, p.to_vec())]);
                ps.iter().map(|(x, y)| if has(*x, *y) { 0 } else { modq(b.get(&vec![*x, *y]).copied().unwrap_or(0)) }).collect()
            })
            .collect();
        let dim = here.len() - rank(&missing, q);
        let born: Vec<&PathHomCell> = cells.iter().filter(|(_, x)| **x <= t).map(|(c, _)| c).collect();
        let mut ech = Echelon::new(q);
        for c in &born {
            let ch = chain(c);
            let mut v = vec![0u64; here.len()];
            for (k, p) in &ch {
                let Some(i) = here.iter().position(|x| *x == p) else {
                    return Err(format!("at time {t} the cell {c:?} uses the absent 2-path {p:?}"));
                };
                v[i] = (v[i] + modq(*k)) % q;
            }
            for p in bd(&ch).keys() {
                ensure!(has(p[0], p[1]), "at time {t} the boundary of {c:?} uses the absent edge {p:?}");
            }
            ensure!(ech.add(&v), "at time {t} the cells are linearly dependent: {c:?} in {born:?}");
        }
        ensure_eq!(born.len(), dim, "number of cells at time {t} against dimension of the invariant 2-paths; cells {born:?}");
        r.step(1);
        r.outcome(&(here.len(), dim));
    }
    r.trace(1);
    r.state(&(f.iter().flatten().map(|x| x.map(f64::to_bits)).collect::<Vec<_>>()));
    Ok(())
}

pub fn g02(mc: &mut Mc) {
    let t = mc.thorough;
    mc.family("n<=3", "all digraph filtrations with times in {none,0,1,2,3} on at most 3 nodes, Z2 and Z3, list and map form", |fam| {
        let al = [None, Some(0.0), Some(1.0), Some(2.0), Some(3.0)];
        for n in 0..=3usize {
            words(al.len(), pairs(n).len(), |w| {
                let f = filt_of(n, w, &al);
                fam.case(
                    || show(&f),
                    |r| {
                        g02_case::<Z3, _>(r, &vec_filt(&f), &f)?;
                        g02_case::<Z2, _>(r, &map_filt(&f), &f)
                    },
                );
            });
        }
    });
    mc.family("n4", "all digraph filtrations with times in {none,1,2} on 4 nodes, Z3", |fam| {
        words(3, 12, |w| {
            let f = filt_of(4, w, &[None, Some(1.0), Some(2.0)]);
            fam.case(|| show(&f), |r| g02_case::<Z3, _>(r, &vec_filt(&f), &f));
        });
    });
    mc.family("n4 three times", "all digraph filtrations with times in {none,1,2,3} on 4 nodes (quick: where 3->0 and 2->0 are missing), Z3", |fam| {
        let al = [None, Some(1.0), Some(2.0), Some(3.0)];
        let free: Vec<usize> = pairs(4).iter().enumerate().filter(|(_, p)| t || !matches!(p, (3, 0) | (2, 0))).map(|(i, _)| i).collect();
        words(4, free.len(), |w| {
            let mut x = vec![0; 12];
            for (i, v) in free.iter().zip(w) {
                x[*i] = *v;
            }
            let f = filt_of(4, &x, &al);
            fam.case(|| show(&f), |r| g02_case::<Z3, _>(r, &vec_filt(&f), &f));
        });
    });
    mc.family("n5 one time", "all digraphs on 5 nodes where 4->0 is missing (thorough: any), all edges at time 1, Z3", |fam| {
        words(2, if t { 20 } else { 19 }, |w| {
            let at = pairs(5).iter().position(|p| *p == (4, 0)).unwrap();
            let mut x = w.to_vec();
            if !t {
                x.insert(at, 0);
            }
            let f = filt_of(5, &x, &[None, Some(1.0)]);
            fam.case(|| show(&f), |r| g02_case::<Z3, _>(r, &vec_filt(&f), &f));
        });
    });
    mc.family("bridges", "one source and one target joined through 3 middle nodes with all times in {none,1,2,3} (4 middle nodes: {1,2}, thorough {none,1,2}), shortcut in {none,0,1,2,3}, way back in {none,1.5}; Z3", |fam| {
        let sc = [None, Some(0.0), Some(1.0), Some(2.0), Some(3.0)];
        let bk = [None, Some(1.5)];
        let mut run = |f: &Filt, r: &mut Rec| g02_case::<Z3, _>(r, &vec_filt(f), f);
        bridges_family(fam, 3, &[None, Some(1.0), Some(2.0), Some(3.0)], &sc, &bk, &mut run);
        let four = [None, Some(1.0), Some(2.0)];
        bridges_family(fam, 4, if t { &four } else { &four[1..] }, &[None, Some(2.0), Some(3.0)], &[None], &mut run);
    });
    mc.family("large", BIG, |fam| {
        for (name, f, _) in big(t) {
            fam.case(
                || name.clone(),
                |r| {
                    g02_case::<Z3, _>(r, &vec_filt(&f), &f)?;
                    if f.len() <= 70 {
                        g02_case::<Z2, _>(r, &map_filt(&f), &f)?;
                    }
                    Ok(())
                },
            );
        }
    });
    placed_family(mc, &|f, r| g02_case::<Z3, _>(r, &map_filt(f), f));
    scaled_family(mc, &|f, r| {
        g02_case::<Z3, _>(r, &vec_filt(f), f)?;
        g02_case::<Z2, _>(r, &map_filt(f), f)
    });
    mc.family("structured", "28 larger filtrations (cyclic, constant, mixed, bipartite) on 5, 6, 7 and 9 nodes; Z2, Z3", |fam| {
        for f in structured() {
            fam.case(
                || show(&f),
                |r| {
                    g02_case::<Z3, _>(r, &vec_filt(&f), &f)?;
                    g02_case::<Z2, _>(r, &map_filt(&f), &f)
                },
            );
        }
    });
}

// ------------------------------------------------------------------------------------------------------------- C09

fn c09_case<F: TF, D: DigraphFiltration + Copy>(r: &mut Rec, d: D, f: &Filt, e: &DigraphEdgeSet) -> Res {
    let n = f.len();
    let cob = GrPPHCoboundary::<F, _>::build(d, e, n as u16);
    let nodes: Vec<PathHomCell> = (0..n).map(|i| PathHomCell::Node(i as u16)).collect();
    let mut edges: Vec<(NotNan<f64>, PathHomCell)> = pairs(n)
        .iter()
        .filter_map(|(a, b)| Some((nt(gtime(f, e, *a, *b)?), PathHomCell::Edge(*a as u16, *b as u16))))
        .collect();
    edges.sort();
    let edges: Vec<PathHomCell> = edges.into_iter().map(|x| x.1).collect();
    let all: Vec<PathHomCell> = nodes.iter().chain(&edges).copied().collect();
    basis_is("path homology basis", &*cob.basis(), &all)?;
    lookup("path homology basis", &*cob.basis())?;
    let by_index = (&cob).using_col_basis_index();
    for (i, c) in all.iter().enumerate() {
        let x: Vec<_> = by_index.column(i).collect();
        let y: Vec<_> = cob.column(*c).collect();
        ensure!(sum_terms(x.into_iter()) == sum_terms(y.into_iter()), "column at index {i} is not the column of {c:?}");
    }
    for (dim, want) in [(0, &nodes), (1, &edges)] {
        basis_is("dimension", &*cob.basis().in_dimension(dim), want)?;
        let sub = (&cob).sub_matrix_in_dimension(dim);
        basis_is("restricted", &*sub.basis(), want)?;
        lookup("restricted", &*sub.basis())?;
        let su = (&sub).using_col_basis_index();
        for (i, c) in want.iter().enumerate() {
            ensure!(sum_terms(sub.column(*c)) == sum_terms(cob.column(*c)), "restricted column {c:?}");
            ensure!(sum_terms(su.column(i)) == sum_terms(cob.column(*c)), "restricted column {c:?} by index");
        }
        r.step(want.len() + 1);
    }
    // edges by time, whatever the order among equals
    r.state(&(f.iter().flatten().map(|x| x.map(f64::to_bits)).collect::<Vec<_>>(), show_set(e)));
    Ok(())
}

pub fn c09(mc: &mut Mc) {
    let t = mc.thorough;
    mc.family("path homology", "bases of all digraph filtrations with times in {none,0,1,2} (thorough {none,0,1,2,2.5}) on at most 3 nodes and all grounding sets, list and map form", |fam| {
        let al: Vec<Time> = if t { vec![None, Some(0.0), Some(1.0), Some(2.0), Some(2.5)] } else { vec![None, Some(0.0), Some(1.0), Some(2.0)] };
        for n in 0..=3usize {
            let m = pairs(n).len();
            let sets: Vec<_> = (0..1u64 << m).map(|k| set_of(n, k)).collect();
            words(al.len(), m, |w| {
                let f = filt_of(n, w, &al);
                fam.case(
                    || show(&f),
                    |r| {
                        let v = vec_filt(&f);
                        let m = map_filt(&f);
                        for e in &sets {
                            c09_case::<Z3, _>(r, &v, &f, e)?;
                            c09_case::<Z2, _>(r, &m, &f, e)?;
                        }
                        r.trace(sets.len());
                        Ok(())
                    },
                );
            });
        }
    });
    mc.family("path homology scales", "bases of all digraph filtrations on 3 nodes with times in {none,a,b} for 12 pairs a<b of unlike magnitude and spacing, a mixed grounding set", |fam| {
        for (_, [a, b, _]) in scales() {
            words(3, 6, |w| {
                let f = filt_of(3, w, &[None, Some(b), Some(a)]);
                fam.case(|| show(&f), |r| c09_case::<Z3, _>(r, &vec_filt(&f), &f, &set_of(3, 0b010010)));
            });
        }
    });
    mc.family("path homology large", BIG, |fam| {
        for (name, f, e) in big(t) {
            fam.case(|| name.clone(), |r| c09_case::<Z3, _>(r, &map_filt(&f), &f, &e));
        }
    });
    placed_family(mc, &|f, r| c09_case::<Z3, _>(r, &map_filt(f), f, &set_of(f.len(), 0x8400_0001_0001_0000)));
    mc.family("path homology many edges", "260 (thorough 300, 400) nodes, a star and a cycle with 5 times, every pair grounded: more than 65536 edges", |fam| {
        for n in if t { vec![257usize, 260, 300, 400] } else { vec![257, 260] } {
            fam.case(
                || format!("{n} nodes"),
                |r| {
                    let mut f = vec![vec![None; n]; n];
                    for i in 1..n {
                        f[i][(i + 1) % n] = Some(1.0 + (i % 5) as f64);
                        f[0][i] = Some(1.0 + (i % 4) as f64);
                    }
                    let e: DigraphEdgeSet = pairs(n).iter().map(|(a, b)| (*a as u16, *b as u16)).collect();
                    c09_case::<Z3, _>(r, &vec_filt(&f), &f, &e)
                },
            );
        }
    });
    mc.family("path homology structured", "bases of 28 larger filtrations", |fam| {
        for f in structured() {
            fam.case(|| show(&f), |r| c09_case::<Z3, _>(r, &vec_filt(&f), &f, &set_of(5, 0x5a5a5)));
        }
    });
}
