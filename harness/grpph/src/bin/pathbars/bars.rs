//! G03-G05: barcodes, representatives and presentations through the Python functions.
use grpph_checks::dg::*;
use grpph_checks::py::*;
use mc::*;
use std::collections::{BTreeSet, HashMap};

const INF: f64 = f64::INFINITY;

fn pairs(n: usize) -> Vec<(u32, u32)> {
    let mut v = vec![];
    for a in 0..n as u32 {
        for b in 0..n as u32 {
            if a != b {
                v.push((a, b));
            }
        }
    }
    v
}
/// One edge or none per ordered pair.
fn graph(n: usize, w: &[usize], al: &[Option<f64>]) -> Vec<E> {
    pairs(n).iter().zip(w).filter_map(|((a, b), x)| Some((*a, *b, al[*x]?))).collect()
}
fn show(n: usize, e: &[E]) -> String {
    format!("n={n} edges {e:?}")
}
fn state(r: &mut Rec, n: usize, e: &[E]) {
    let v: Vec<_> = e.iter().map(|(a, b, w)| (*a, *b, w.to_bits())).collect();
    r.state(&(n, v));
}

/// Larger digraphs: circulants, bipartite ones, suspensions, many bridges, cycles of every length.
fn structured(thorough: bool) -> Vec<(usize, Vec<E>)> {
    let mut v: Vec<(usize, Vec<E>)> = vec![];
    for n in 2..=11usize {
        // one cycle, weights 1, 2 and alternating
        for k in 0..3 {
            v.push((n, (0..n).map(|i| (i as u32, ((i + 1) % n) as u32, [1.0, 2.0, 1.0 + (i % 2) as f64][k])).collect()));
        }
        // chain back and forth, star out, star in
        v.push((n, (1..n as u32).flat_map(|i| [(i - 1, i, 1.0), (i, i - 1, 2.0)]).collect()));
        v.push((n, (1..n as u32).map(|i| (0, i, i as f64)).collect()));
        v.push((n, (1..n as u32).map(|i| (i, 0, 1.0)).collect()));
        v.push((n, (1..n as u32).map(|i| (i - 1, i, if i % 3 == 2 { INF } else { 1.5 })).collect()));
    }
    let top = if thorough { 8 } else { 7 };
    for n in 4..=top {
        for jumps in 1..(1u32 << (n - 1)) {
            let es: Vec<E> = (0..n)
                .flat_map(|i| (1..n).filter(move |j| jumps >> (j - 1) & 1 == 1).map(move |j| (i as u32, ((i + j) % n) as u32, (1 + (i + j) % 3) as f64)))
                .collect();
            v.push((n, es.clone()));
            if es.len() > 3 {
                // one edge missing, one infinite
                let mut x = es.clone();
                x.remove(1);
                v.push((n, x));
                let mut x = es;
                x[2].2 = INF;
                v.push((n, x));
            }
        }
    }
    // layered digraphs: layers of sizes k each, complete between consecutive layers
    for k in 1..=3u32 {
        for l in 2..=3u32 {
            let n = k * l;
            let mut es = vec![];
            for i in 0..l - 1 {
                for a in 0..k {
                    for b in 0..k {
                        es.push((i * k + a, (i + 1) * k + b, (1 + (a + 2 * b + i) % 3) as f64));
                    }
                }
            }
            v.push((n as usize, es.clone()));
            es.push((n - 1, 0, 4.0));
            v.push((n as usize, es));
        }
    }
    // many bridges between two nodes, with and without shortcuts
    for m in 2..=8u32 {
        for k in 0..4u32 {
            let n = m + 2;
            let mut es = vec![];
            for i in 0..m {
                es.push((0, i + 1, (1 + (i + k) % 3) as f64));
                es.push((i + 1, n - 1, (1 + (i * (k + 1)) % 4) as f64));
            }
            if k & 1 == 1 {
                es.push((0, n - 1, 2.5));
            }
            if k & 2 == 2 {
                es.push((n - 1, 0, 1.0));
            }
            v.push((n as usize, es));
        }
    }
    v
}

/// Digraphs whose size shows: many competing bridges, long cycles and paths, hubs, grids.
fn large(t: bool) -> Vec<(String, usize, Vec<E>)> {
    let mut v: Vec<(String, usize, Vec<E>)> = vec![];
    let mut list: Vec<u32> = vec![16, 33, 40, 64, 66, 130, 258];
    if t {
        list.extend([400, 520]);
    }
    for m in list {
        for k in 0..4u32 {
            let n = m + 2;
            let (src, dst) = [(0, n - 1), (n - 1, 0), (n / 2, n - 2), (3, 1)][k as usize];
            let mut es = vec![];
            for (i, x) in (0..n).filter(|x| *x != src && *x != dst).enumerate() {
                let i = i as u32;
                es.push((src, x, (1 + (i + k) % 3) as f64));
                es.push((x, dst, (1 + (i * (k + 1)) % 4) as f64));
            }
            if k & 1 == 1 {
                es.push((src, dst, 2.5));
            }
            if k & 2 == 2 && m <= 130 {
                es.push((dst, src, 1.0));
            }
            if k == 0 {
                // the latest bridges first
                es.reverse();
                es.iter_mut().for_each(|e| e.2 = 10000.0 - e.0.max(e.1) as f64);
            }
            v.push((format!("{m} bridges, pattern {k}"), n as usize, es));
        }
    }
    let cycles: &[u32] = if t { &[12, 20, 40, 64, 80, 130] } else { &[12, 20, 40] };
    for n in cycles.iter().copied() {
        for k in 0..3usize {
            v.push((format!("directed cycle of {n}, weights {k}"), n as usize, (0..n).map(|i| (i, (i + 1) % n, [1.0, (1 + i % 5) as f64, 1.0 + (i % 2) as f64][k])).collect()));
        }
    }
    // cycles of alternating direction, with and without a hub
    for n in [20u32, 64, 66, 130, 256, 258, 300] {
        let ring = |w: f64| (0..n).step_by(2).flat_map(move |i| [(i, i + 1, w), (i, (i + n - 1) % n, w + 1.0)]);
        v.push((format!("alternating cycle of {n}"), n as usize, ring(1.0).collect()));
        for k in 0..2u32 {
            let mut es: Vec<E> = ring(2.0).collect();
            for i in 0..n {
                let w = (1 + (i * 7 + k) % 6) as f64;
                es.push(if k == 0 { (n, i, w) } else { (i, n, w) });
            }
            v.push((format!("alternating cycle of {n} with hub {k}"), n as usize + 1, es));
        }
    }
    // grids
    let grids: &[u32] = if t { &[4, 5, 6, 8, 9] } else { &[4, 5, 6, 8] };
    for k in grids.iter().copied() {
        let mut es = vec![];
        for i in 0..k {
            for j in 0..k {
                if i + 1 < k {
                    es.push((i * k + j, i * k + j + k, (1 + (i + j) % 3) as f64));
                }
                if j + 1 < k {
                    es.push((i * k + j, i * k + j + 1, (1 + i * j % 2) as f64));
                }
            }
        }
        v.push((format!("grid of {k} by {k}"), (k * k) as usize, es));
    }
    // one source and one target of many components, infinite and zero edges between far labels
    for n in [65u32, 257, 300, 600] {
        let es: Vec<E> = (0..n - 3)
            .step_by(4)
            .flat_map(|i| {
                let w = [1.0, 2.0, 0.0, INF][(i / 4 % 4) as usize];
                [(i, i + 1, 1.0), (i, i + 2, 2.0), (i + 1, i + 3, 2.0), (i + 2, i + 3, w), (i + 3, i, INF)]
            })
            .collect();
        v.push((format!("{} squares", n / 4), n as usize, es));
    }
    v
}

/// One cycle of a + b edges made of two directed paths from node 0 to the last node: it bounds as soon as a middle node
/// of either path is near enough to both ends.
fn two_paths(a: u32, b: u32) -> (usize, Vec<E>, Bars) {
    let n = a + b;
    let mut es: Vec<E> = vec![];
    for (len, off) in [(a, 1), (b, a)] {
        let at = |i: u32| if i == 0 { 0 } else if i == len { n - 1 } else { off + i - 1 };
        es.extend((0..len).map(|i| (at(i), at(i + 1), 1.0)));
    }
    let bars = Bars { essential: vec![vec![0.0], vec![]], pairings: vec![vec![], vec![(0.0, a.max(b).div_ceil(2) as f64)]] };
    (n as usize, es, bars)
}
fn long_cycles(t: bool) -> Vec<(u32, u32)> {
    let mut v = vec![(2, 1), (3, 1), (2, 2), (4, 3), (10, 10), (20, 21), (33, 32), (40, 1), (64, 66), (130, 1), (130, 130), (260, 1)];
    if t {
        v.extend([(300, 1), (200, 200)]);
    }
    v
}
const LONG: &str = "two directed paths of a and b edges with common ends, forming one cycle of up to 261 (thorough 400) edges; bars from the formula, which the sparse reference confirms up to 130 edges";

fn bridges(fam: &mut Family, k: usize, vals: &[Option<f64>], shortcut: &[Option<f64>], back: &[Option<f64>], run: &mut dyn FnMut(usize, &[E], &mut Rec) -> Res) {
    let n = k + 2;
    for (src, dst) in [(0, n - 1), (n - 1, 0), (1, 0), (1, 2), (n - 1, 1)] {
        let mids: Vec<usize> = (0..n).filter(|x| *x != src && *x != dst).collect();
        words(vals.len(), 2 * k, |w| {
            for s in shortcut {
                for b in back {
                    let mut es: Vec<E> = vec![];
                    for (i, m) in mids.iter().enumerate() {
                        es.extend(vals[w[2 * i]].map(|x| (src as u32, *m as u32, x)));
                        es.extend(vals[w[2 * i + 1]].map(|x| (*m as u32, dst as u32, x)));
                    }
                    es.extend(s.map(|x| (src as u32, dst as u32, x)));
                    es.extend(b.map(|x| (dst as u32, src as u32, x)));
                    fam.case(|| show(n, &es), |r| run(n, &es, r));
                }
            }
        });
    }
}

/// Triples of weights of unlike magnitude and spacing; every sum of up to 5 of them is exact.
fn scales() -> Vec<[f64; 3]> {
    let p = |k: i32| (2.0f64).powi(k);
    vec![
        [0.25, 0.5, 0.75],
        [1.0, 1.0 + p(-10), 1.0 + p(-9)],
        [1.0, 1.0 + p(-20), 1.0 + p(-19)],
        [8.0, 8.0 + p(-45), 8.0 + p(-44)],
        [p(-60), p(-59), 3.0 * p(-60)],
        [p(-1000), p(-999), 3.0 * p(-1000)],
        [1.0, 128.0, p(30)],
        [p(32) - 1.0, p(32), p(32) + 0.5],
        [p(24), p(24) + 1.0, p(24) + 3.0],
        [p(900), p(901), 3.0 * p(900)],
    ]
}
fn scaled(fam: &mut Family, thorough: bool, run: &mut dyn FnMut(usize, &[E], &mut Rec) -> Res) {
    for [a, b, c] in scales() {
        let al = [None, Some(a), Some(b), Some(c)];
        words(if thorough { 4 } else { 3 }, 6, |w| {
            let es = graph(3, w, &al);
            fam.case(|| show(3, &es), |r| run(3, &es, r));
        });
        bridges(fam, 2, &al, &al, &[None, Some(b)], run);
        bridges(fam, 3, &al[1..if thorough { 4 } else { 3 }], &[None, Some(c + c)], &[None], run);
    }
}
const SCALES: &str = "10 triples of weights of unlike magnitude and spacing a<b<c: all digraphs on 3 nodes with weights in {none,a,b} (thorough {none,a,b,c}); one source and one target joined through 2 middle nodes with weights in {none,a,b,c}, shortcut in {none,a,b,c}, way back in {none,b}; through 3 middle nodes with weights in {a,b} (thorough {a,b,c}), shortcut in {none,2c}";

/// The spaces shared by G03 and G04.
fn spaces(mc: &mut Mc, big: bool, run: &dyn Fn(usize, &[E], &mut Rec) -> Res) {
    let t = mc.thorough;
    mc.family("n<=2", "all digraphs on at most 2 nodes with weights in {none,0,0.5,1,3,inf}", |fam| {
        let al = [None, Some(0.0), Some(0.5), Some(1.0), Some(3.0), Some(INF)];
        for n in 0..=2usize {
            words(al.len(), pairs(n).len(), |w| {
                let es = graph(n, w, &al);
                fam.case(|| show(n, &es), |r| run(n, &es, r));
            });
        }
    });
    let al: &[Option<f64>] = if t && big {
        &[None, Some(0.0), Some(1.0), Some(2.0), Some(3.5), Some(INF)]
    } else {
        &[None, Some(0.0), Some(1.0), Some(2.5), Some(INF)]
    };
    mc.family("n3", &format!("all digraphs on 3 nodes with one edge or none per ordered pair, weights in {al:?}"), |fam| {
        words(al.len(), 6, |w| {
            let es = graph(3, w, al);
            fam.case(|| show(3, &es), |r| run(3, &es, r));
        });
    });
    let len = if t { 4 } else { 3 };
    mc.family("edge lists", &format!("all lists of at most {len} edges (parallel edges included) on 3 nodes with weights in {{1, 2, inf}}"), |fam| {
        let mut letters: Vec<E> = vec![];
        for w in [1.0, 2.0, INF] {
            for (a, b) in pairs(3) {
                letters.push((a, b, w));
            }
        }
        words_upto(letters.len(), len, |w| {
            let es: Vec<E> = w.iter().map(|i| letters[*i]).collect();
            fam.case(|| show(3, &es), |r| run(3, &es, r));
        });
    });
    mc.family("n4", "all digraphs on 4 nodes with weights in {none, 1, 2}", |fam| {
        words(3, 12, |w| {
            let es = graph(4, w, &[None, Some(1.0), Some(2.0)]);
            fam.case(|| show(4, &es), |r| run(4, &es, r));
        });
    });
    mc.family("n4 zero and infinite", "all digraphs on 4 nodes with weights in {none, 1, 0} and in {none, 1, inf}", |fam| {
        for x in [0.0, INF] {
            words(3, 12, |w| {
                let es = graph(4, w, &[None, Some(1.0), Some(x)]);
                fam.case(|| show(4, &es), |r| run(4, &es, r));
            });
        }
    });
    mc.family("n5 unweighted", "all digraphs on 5 nodes with unit weights", |fam| {
        words(2, 20, |w| {
            let es = graph(5, w, &[None, Some(1.0)]);
            fam.case(|| show(5, &es), |r| run(5, &es, r));
        });
    });
    if t {
        mc.family("n4 three weights", "all digraphs on 4 nodes with weights in {none, 1, 2, 3.5}", |fam| {
            words(4, 12, |w| {
                let es = graph(4, w, &[None, Some(1.0), Some(2.0), Some(3.5)]);
                fam.case(|| show(4, &es), |r| run(4, &es, r));
            });
        });
    }
    mc.family("bridges", "one source and one target joined through 3 middle nodes, weights in {none,1,2} (thorough {none,1,2,3}), shortcut in {none,1,2.5,5,inf}, way back in {none,1}; five label patterns", |fam| {
        let vals: &[Option<f64>] = if t { &[None, Some(1.0), Some(2.0), Some(3.0)] } else { &[None, Some(1.0), Some(2.0)] };
        bridges(fam, 3, vals, &[None, Some(1.0), Some(2.5), Some(5.0), Some(INF)], &[None, Some(1.0)], &mut |n, es, r| run(n, es, r));
    });
    mc.family("scales", SCALES, |fam| scaled(fam, t, &mut |n, es, r| run(n, es, r)));
    mc.family("structured", "larger digraphs: cycles, chains, stars, all circulants on 4 to 7 (thorough 8) nodes with 3 weights (also with an edge missing or infinite), layered ones, up to 8 competing bridges", |fam| {
        for (n, es) in structured(t) {
            fam.case(|| show(n, &es), |r| run(n, &es, r));
        }
    });
}

/// A digraph moved to given labels among `n` nodes.
fn embed(es: &[E], labels: &[u32]) -> Vec<E> {
    es.iter().map(|(a, b, w)| (labels[*a as usize], labels[*b as usize], *w)).collect()
}
fn embeddings(thorough: bool) -> Vec<(usize, Vec<u32>)> {
    let mut v = vec![
        (40, vec![0, 39, 20, 7]),
        (40, vec![39, 38, 37, 36]),
        (260, vec![0, 255, 256, 259]),
        (260, vec![256, 0, 257, 1]),
        (300, vec![299, 43, 44, 298]),
    ];
    if thorough {
        v.push((520, vec![0, 256, 512, 513]));
        v.push((1030, vec![1024, 1029, 0, 5]));
        v.push((300, vec![17, 34, 273, 290]));
    }
    v
}
fn embedded_graphs() -> Vec<Vec<E>> {
    vec![
        vec![(0, 1, 1.0), (1, 2, 1.0), (2, 3, 1.0), (3, 0, 1.0)],
        vec![(0, 1, 1.0), (0, 2, 2.0), (1, 3, 2.0), (2, 3, 1.0)],
        vec![(0, 1, 1.0), (0, 2, 2.0), (1, 3, 3.0), (2, 3, 1.0), (0, 3, 2.5), (3, 0, INF)],
        vec![(0, 1, 2.0), (1, 0, 1.0), (2, 1, 1.0), (3, 2, 4.0), (1, 3, 0.5)],
        vec![(0, 1, 1.0), (1, 2, 2.0), (0, 2, INF)],
    ]
}

// ------------------------------------------------------------------------------------------------------------- G03

fn g03_case(n: usize, es: &[E], r: &mut Rec) -> Res {
    let o = Oracle::new(n, es);
    let want = o.bars();
    if n <= 3 || r_every(es) {
        assert_eq!(want, Sparse::new(n, es, 2).bars(), "the sparse reference differs");
        let w2 = o.bars_by_rank();
        assert_eq!(want, w2, "the two reference computations differ");
    }
    let got = grpph(n as u32, es)?.sorted();
    ensure_eq!(got, want, "barcode");
    r.step(1 + want.pairings[1].len() + want.essential[1].len() + want.essential[0].len());
    r.outcome(&format!("{want:?}"));
    state(r, n, es);
    Ok(())
}
/// A fixed fraction of the larger digraphs is also checked against the rank formula.
fn r_every(es: &[E]) -> bool {
    hash_of(&es.iter().map(|(a, b, w)| (*a, *b, w.to_bits())).collect::<Vec<_>>()) % 16 == 0
}

pub fn g03(mc: &mut Mc) {
    let t = mc.thorough;
    spaces(mc, true, &g03_case);
    mc.family("large", LARGE, |fam| {
        for (name, n, es) in large(t) {
            fam.case(|| name.clone(), |r| g03_large(n, &es, r));
        }
    });
    mc.family("long cycles", LONG, |fam| {
        for (a, b) in long_cycles(t) {
            fam.case(
                || format!("a={a} b={b}"),
                |r| {
                    let (n, es, want) = two_paths(a, b);
                    if n <= 66 || n == 130 {
                        assert_eq!(want, Sparse::new(n, &es, 2).bars(), "the formula is wrong");
                    }
                    ensure_eq!(grpph(n as u32, &es)?.sorted(), want, "barcode");
                    r.step(1);
                    state(r, n, &es);
                    Ok(())
                },
            );
        }
    });
    mc.family("embedded labels", "5 digraphs placed on 5 (thorough 8) choices of labels among 40 to 1030 nodes", |fam| {
        for (n, labels) in embeddings(t) {
            for g in embedded_graphs() {
                let es = embed(&g, &labels);
                fam.case(
                    || show(n, &es),
                    |r| {
                        let small = Oracle::new(4, &g).bars();
                        let mut want = small.clone();
                        want.essential[0] = vec![0.0; small.essential[0].len() + n - 4];
                        ensure_eq!(grpph(n as u32, &es)?.sorted(), want, "barcode");
                        r.step(1);
                        state(r, n, &es);
                        Ok(())
                    },
                );
            }
        }
    });
}

fn g03_large(n: usize, es: &[E], r: &mut Rec) -> Res {
    let want = Sparse::new(n, es, 2).bars();
    ensure_eq!(grpph(n as u32, es)?.sorted(), want, "barcode");
    r.step(1 + want.pairings[1].len() + want.essential[1].len());
    r.outcome(&format!("{want:?}"));
    state(r, n, es);
    Ok(())
}
const LARGE: &str = "16 to 258 competing bridges, directed cycles of up to 40 nodes, cycles of up to 300 edges of alternating direction with and without a hub, directed grids up to 8 by 8, up to 150 separate squares on 600 nodes; against a sparse reference reduction";

// ------------------------------------------------------------------------------------------------------------- G04

fn g04_check(o: &Oracle, reps: &Reps, bars: &Bars, map: &dyn Fn(u32) -> Option<usize>, r: &mut Rec) -> Res {
    let mut got = vec![];
    let mut vecs = vec![];
    for rep in reps {
        let set: BTreeSet<_> = rep.iter().collect();
        ensure!(!rep.is_empty(), "empty representative");
        ensure_eq!(set.len(), rep.len(), "distinct edges of {rep:?}");
        let mut v = 0u128;
        let mut ends = vec![0u8; o.n];
        let mut birth = 0.0f64;
        for (a, b) in rep {
            let (Some(a), Some(b)) = (map(*a), map(*b)) else {
                return Err(format!("representative {rep:?} uses a pair that never appears"));
            };
            let Some(p) = o.pos[a][b] else {
                return Err(format!("representative {rep:?} uses the pair {a}->{b} that never appears"));
            };
            v |= 1 << p;
            birth = birth.max(o.es[p as usize].0);
            ends[a] ^= 1;
            ends[b] ^= 1;
        }
        ensure!(ends.iter().all(|x| *x == 0), "representative {rep:?} is not a cycle");
        let Some(death) = o.death(v) else {
            return Err(format!("representative {rep:?} never becomes a boundary"));
        };
        got.push((birth, death));
        vecs.push((birth, death, v));
        r.step(1);
    }
    let key = |x: &(f64, f64)| (x.0.to_bits(), x.1.to_bits());
    let mut want = bars.pairings[1].clone();
    want.sort_by_key(key);
    let mut g = got.clone();
    g.sort_by_key(key);
    ensure_eq!(g, want, "births and deaths of the representatives {reps:?}");
    for (t, b) in o.times.iter().zip(&o.bounds) {
        let mut e = b.clone();
        for (i, (x, y, v)) in vecs.iter().enumerate() {
            if x <= t && t < y {
                ensure!(e.add(*v), "at time {t} representative {:?} depends on others alive", reps[i]);
            }
        }
    }
    Ok(())
}

fn g04_case(n: usize, es: &[E], r: &mut Rec) -> Res {
    let o = Oracle::new(n, es);
    let want = o.bars();
    let (bars, reps) = grpph_reps(n as u32, es)?;
    let bars = bars.sorted();
    ensure_eq!(bars, want, "barcode of the function with representatives");
    ensure_eq!(grpph(n as u32, es)?.sorted(), bars, "barcode without against with representatives");
    g04_check(&o, &reps, &bars, &|x| ((x as usize) < n).then_some(x as usize), r)?;
    r.step(2);
    r.outcome(&format!("{reps:?}"));
    state(r, n, es);
    Ok(())
}

fn g04_large(n: usize, es: &[E], r: &mut Rec) -> Res {
    let o = Sparse::new(n, es, 2);
    let want = o.bars();
    let (bars, reps) = grpph_reps(n as u32, es)?;
    ensure_eq!(bars.sorted(), want, "barcode of the function with representatives");
    let mut got = vec![];
    let mut chains = vec![];
    for rep in &reps {
        let (birth, c) = cycle_of(rep, &|a, b| o.pos.get(&(a as usize, b as usize)).copied(), &o.es)?;
        let Some(death) = o.death(&c) else {
            return Err(format!("representative {rep:?} never becomes a boundary"));
        };
        got.push((birth, death));
        chains.push(c);
        r.step(1);
    }
    let key = |x: &(f64, f64)| (x.0.to_bits(), x.1.to_bits());
    let mut sorted = got.clone();
    sorted.sort_by_key(key);
    ensure_eq!(sorted, want.pairings[1], "births and deaths of the representatives");
    // the representatives alive just before any death are independent of each other and the boundaries
    let mut deaths: Vec<f64> = got.iter().map(|x| x.1).collect();
    deaths.sort_by(|a, b| a.partial_cmp(b).unwrap());
    deaths.dedup();
    for d in deaths.into_iter().take(12) {
        let at = o.times.iter().copied().filter(|t| *t < d).fold(0.0, f64::max);
        let mut rows: HashMap<usize, Chain> = HashMap::new();
        for (i, c) in chains.iter().enumerate().filter(|(i, _)| got[*i].0 <= at && at < got[*i].1) {
            let mut c = c.clone();
            loop {
                o.reduce(&mut c, at);
                let Some((k, _)) = c.last_key_value() else {
                    return Err(format!("at time {at} representative {:?} depends on others alive", reps[i]));
                };
                let Some(row) = rows.get(k) else {
                    break;
                };
                for j in row.keys() {
                    if c.remove(j).is_none() {
                        c.insert(*j, 1);
                    }
                }
            }
            rows.insert(*c.last_key_value().unwrap().0, c);
        }
    }
    r.step(2);
    state(r, n, es);
    Ok(())
}
/// A representative as a cycle of distinct known edges: its birth and its edges.
fn cycle_of(rep: &[(u32, u32)], pos: &dyn Fn(u32, u32) -> Option<usize>, es: &[(f64, usize, usize)]) -> Result<(f64, Chain), String> {
    ensure!(!rep.is_empty(), "empty representative");
    let mut c = Chain::new();
    let mut birth = 0.0f64;
    let mut ends: HashMap<u32, usize> = HashMap::new();
    for (a, b) in rep {
        let Some(p) = pos(*a, *b) else {
            return Err(format!("representative {rep:?} uses the pair {a}->{b} that never appears"));
        };
        ensure!(c.insert(p, 1).is_none(), "repeated edge in {rep:?}");
        birth = birth.max(es[p].0);
        *ends.entry(*a).or_insert(0) += 1;
        *ends.entry(*b).or_insert(0) += 1;
    }
    ensure!(ends.values().all(|x| x % 2 == 0), "representative {rep:?} is not a cycle");
    Ok((birth, c))
}

pub fn g04(mc: &mut Mc) {
    let t = mc.thorough;
    spaces(mc, false, &g04_case);
    mc.family("large", LARGE, |fam| {
        for (name, n, es) in large(t) {
            fam.case(|| name.clone(), |r| g04_large(n, &es, r));
        }
    });
    mc.family("long cycles", LONG, |fam| {
        for (a, b) in long_cycles(t) {
            fam.case(
                || format!("a={a} b={b}"),
                |r| {
                    let (n, es, want) = two_paths(a, b);
                    let (bars, reps) = grpph_reps(n as u32, &es)?;
                    ensure_eq!(bars.sorted(), want, "barcode of the function with representatives");
                    // the only cycle born at 0 is the whole of it
                    let got: Vec<BTreeSet<(u32, u32)>> = reps.iter().map(|x| x.iter().copied().collect()).collect();
                    ensure_eq!(got, vec![es.iter().map(|e| (e.0, e.1)).collect::<BTreeSet<_>>()], "representatives");
                    ensure_eq!(reps[0].len(), es.len(), "edges of the representative");
                    r.step(1);
                    state(r, n, &es);
                    Ok(())
                },
            );
        }
    });
    mc.family("embedded labels", "5 digraphs placed on 5 (thorough 8) choices of labels among 40 to 1030 nodes", |fam| {
        for (n, labels) in embeddings(t) {
            for g in embedded_graphs() {
                let es = embed(&g, &labels);
                fam.case(
                    || show(n, &es),
                    |r| {
                        let o = Oracle::new(4, &g);
                        let mut want = o.bars();
                        want.essential[0] = vec![0.0; want.essential[0].len() + n - 4];
                        let (bars, reps) = grpph_reps(n as u32, &es)?;
                        let bars = bars.sorted();
                        ensure_eq!(bars, want, "barcode");
                        g04_check(&o, &reps, &bars, &|x| labels.iter().position(|l| *l == x), r)?;
                        state(r, n, &es);
                        Ok(())
                    },
                );
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------------------- G05

fn both(n: usize, es: &[E]) -> Result<Bars, String> {
    let a = grpph(n as u32, es)?.sorted();
    let (b, reps) = grpph_reps(n as u32, es)?;
    let b = b.sorted();
    ensure_eq!(b, a, "with against without representatives, n={n} {es:?}");
    ensure_eq!(reps.len(), a.pairings[1].len(), "number of representatives, n={n} {es:?}");
    Ok(a)
}
fn times_k(b: &Bars, k: f64) -> Bars {
    Bars {
        essential: b.essential.iter().map(|v| v.iter().map(|x| x * k).collect()).collect(),
        pairings: b.pairings.iter().map(|v| v.iter().map(|(x, y)| (x * k, y * k)).collect()).collect(),
    }
}

fn g05_case(n: usize, es: &[E], all_orders: bool, embed_to: &[(usize, Vec<u32>)], r: &mut Rec) -> Res {
    let base = both(n, es)?;
    let mut res = Ok(());
    if n <= 4 {
        perms(n, |p| {
            if res.is_err() {
                return;
            }
            let l: Vec<u32> = p.iter().map(|x| *x as u32).collect();
            res = (|| {
                ensure_eq!(both(n, &embed(es, &l))?, base, "relabelled by {p:?}");
                Ok(())
            })();
            r.step(1);
        });
    } else {
        for l in [(0..n as u32).rev().collect::<Vec<_>>(), (0..n as u32).map(|x| (x + 1) % n as u32).collect()] {
            ensure_eq!(both(n, &embed(es, &l))?, base, "relabelled by {l:?}");
            r.step(1);
        }
    }
    res?;
    let mut res = Ok(());
    let mut order = |o: &[E]| {
        if res.is_ok() {
            res = (|| {
                ensure_eq!(both(n, o)?, base, "edges listed as {o:?}");
                Ok(())
            })();
        }
        r.step(1);
    };
    if all_orders && es.len() <= 4 {
        perms(es.len(), |p| order(&p.iter().map(|i| es[*i]).collect::<Vec<_>>()));
    } else {
        let mut o = es.to_vec();
        o.reverse();
        order(&o);
        if !o.is_empty() {
            o.rotate_left(1);
            order(&o);
        }
    }
    // repeated edges, with the same and a larger weight, before and after
    for i in 0..es.len() {
        for w in [es[i].2, es[i].2 + 0.5, INF] {
            let e = (es[i].0, es[i].1, w);
            let mut o = es.to_vec();
            o.push(e);
            order(&o);
            o.pop();
            o.insert(0, e);
            order(&o);
        }
        if !all_orders {
            break;
        }
    }
    res?;
    // isolated nodes: at the end, at the start, in between
    let mut places: Vec<(usize, Vec<u32>)> = vec![
        (n + 1, (0..n as u32).collect()),
        (n + 2, (0..n as u32).map(|x| x + 1).collect()),
        (2 * n, (0..n as u32).map(|x| 2 * x).collect()),
    ];
    places.extend(embed_to.iter().filter(|(_, l)| l.len() >= n).cloned());
    for (m, l) in &places {
        let mut want = base.clone();
        want.essential[0].extend(std::iter::repeat_n(0.0, m - n));
        ensure_eq!(both(*m, &embed(es, l))?, want, "placed on nodes {l:?} of {m}");
        r.step(1);
    }
    for k in [2.0, 0.25, 1024.0, 2f64.powi(-60), 2f64.powi(300)] {
        let o: Vec<E> = es.iter().map(|(a, b, w)| (*a, *b, w * k)).collect();
        ensure_eq!(both(n, &o)?, times_k(&base, k), "weights multiplied by {k}");
        r.step(1);
    }
    r.outcome(&format!("{base:?}"));
    state(r, n, es);
    Ok(())
}

pub fn g05(mc: &mut Mc) {
    let t = mc.thorough;
    let al: &[Option<f64>] = if t { &[None, Some(0.0), Some(1.0), Some(2.0), Some(3.5), Some(INF)] } else { &[None, Some(0.0), Some(1.0), Some(2.0), Some(INF)] };
    mc.family("n<=3", &format!("all digraphs on at most 3 nodes, weights in {al:?}: all relabellings, all orders of at most 4 edges, every edge repeated with equal / larger / infinite weight before and after, isolated nodes before / after / between, five scalings (2^-60 to 2^300)"), |fam| {
        for n in 0..=3usize {
            words(al.len(), pairs(n).len(), |w| {
                let es = graph(n, w, al);
                fam.case(|| show(n, &es), |r| g05_case(n, &es, true, &[], r));
            });
        }
    });
    mc.family("n4", "all digraphs on 4 nodes with unit weights and all with weights in {none,1,2} whose first two pairs are absent (thorough: any): all 24 relabellings, reversed and rotated edge lists, isolated nodes, scalings", |fam| {
        words(2, 12, |w| {
            let es = graph(4, w, &[None, Some(1.0)]);
            fam.case(|| show(4, &es), |r| g05_case(4, &es, false, &[], r));
        });
        {
            let free = if t { 12 } else { 10 };
            words(3, free, |w| {
                let mut x = vec![0; 12 - free];
                x.extend_from_slice(w);
                let es = graph(4, &x, &[None, Some(1.0), Some(2.0)]);
                fam.case(|| show(4, &es), |r| g05_case(4, &es, false, &[], r));
            });
        }
    });
    mc.family("n4 squares", "all weights in {1,2,3} and orders of the edges of the square 0->1->3, 0->2->3, with shortcut 0->3 in {none,1,2.5,4}: everything above", |fam| {
        words(3, 4, |w| {
            for s in [None, Some(1.0), Some(2.5), Some(4.0)] {
                let ws = |i: usize| (w[i] + 1) as f64;
                let mut es = vec![(0, 1, ws(0)), (0, 2, ws(1)), (1, 3, ws(2)), (2, 3, ws(3))];
                es.extend(s.map(|x| (0, 3, x)));
                fam.case(|| show(4, &es), |r| g05_case(4, &es, true, &[], r));
            }
        });
    });
    mc.family("bridges", "many bridges (3 middle nodes, weights in {1,2}, shortcut in {none,2.5}, way back in {none,1}): two relabellings, edge orders, isolated nodes, scalings", |fam| {
        bridges(fam, 3, &[Some(1.0), Some(2.0)], &[None, Some(2.5)], &[None, Some(1.0)], &mut |n, es, r| g05_case(n, es, false, &[], r));
    });
    mc.family("structured", "the structured digraphs of G03", |fam| {
        for (n, es) in structured(t) {
            fam.case(|| show(n, &es), |r| g05_case(n, &es, false, &[], r));
        }
    });
    mc.family("large", "the large digraphs of G03 with at most 70 (thorough 140) nodes, cycles of up to 74 (128) edges", |fam| {
        let top = if t { 140 } else { 70 };
        for (name, n, es) in large(t) {
            if n <= top {
                fam.case(|| name.clone(), |r| g05_case(n, &es, false, &[], r));
            }
        }
        for (a, b) in long_cycles(t) {
            let (n, es, _) = two_paths(a, b);
            if n <= top {
                fam.case(|| format!("a={a} b={b}"), |r| g05_case(n, &es, false, &[], r));
            }
        }
    });
    mc.family("embedded labels", "5 digraphs on 5 (thorough 8) choices of labels among 40 to 1030 nodes against the same digraph on 4 nodes", |fam| {
        for place in embeddings(t) {
            for g in embedded_graphs() {
                fam.case(
                    || format!("{place:?} {}", show(4, &g)),
                    |r| {
                        let mut want = both(4, &g)?;
                        want.essential[0].extend(std::iter::repeat_n(0.0, place.0 - 4));
                        ensure_eq!(both(place.0, &embed(&g, &place.1))?, want, "embedded");
                        r.step(1);
                        Ok(())
                    },
                );
            }
        }
    });
}
