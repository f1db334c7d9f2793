//! G06: barcodes of grounded path homology through the Rust interface, over every field.
use crate::complex::*;
use core_checks::tf::*;
use grpph_checks::dg::{times, Filt, Sparse};
use mc::la::*;
use mc::*;
use phlite::fields::*;
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::*;
use std::collections::BTreeMap;

/// (degree, birth, death) with multiplicity; bars of positive length only.
type Code = BTreeMap<(usize, u64, Option<u64>), usize>;

fn put(c: &mut Code, k: usize, b: f64, d: Option<f64>) {
    if d != Some(b) {
        *c.entry((k, b.to_bits(), d.map(f64::to_bits))).or_insert(0) += 1;
    }
}

/// The grounded edges in order of time, the bars of degree 0 and the times of the edges that close a cycle.
struct Graph {
    es: Vec<(f64, usize, usize)>,
    code0: Code,
    births: Vec<(usize, f64)>,
}
fn graph(f: &Filt, e: &DigraphEdgeSet) -> Graph {
    let n = f.len();
    let mut es = vec![];
    for (a, b) in pairs(n) {
        if let Some(t) = gtime(f, e, a, b) {
            es.push((t, a, b));
        }
    }
    es.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut comp: Vec<usize> = (0..n).collect();
    let mut code0 = Code::new();
    let mut births = vec![];
    for (i, (t, a, b)) in es.iter().enumerate() {
        let (x, y) = (comp[*a], comp[*b]);
        if x == y {
            births.push((i, *t));
        } else {
            comp.iter_mut().for_each(|c| {
                if *c == x {
                    *c = y
                }
            });
            put(&mut code0, 0, 0.0, Some(*t));
        }
    }
    comp.sort();
    comp.dedup();
    for _ in comp {
        put(&mut code0, 0, 0.0, None);
    }
    Graph { es, code0, births }
}

/// Boundaries of generators of the invariant 2-paths at time t; the latest edge comes first.
fn boundaries(f: &Filt, g: &Graph, t: f64, q: u64, out: &mut dyn FnMut(Vec<u64>)) {
    let n = f.len();
    let m = g.es.len();
    let has = |a: usize, b: usize| f[a][b].is_some_and(|x| x <= t);
    let vec = |terms: &[(i64, usize, usize)]| {
        let mut v = vec![0u64; m];
        for (k, a, b) in terms {
            let i = g.es.iter().position(|(_, x, y)| (x, y) == (a, b)).expect("a finite pair is a grounded edge");
            v[m - 1 - i] = (v[m - 1 - i] + k.rem_euclid(q as i64) as u64) % q;
        }
        v
    };
    for a in 0..n {
        for c in 0..n {
            let mids: Vec<usize> = (0..n).filter(|b| *b != a && *b != c && has(a, *b) && has(*b, c)).collect();
            if a == c {
                for b in mids {
                    out(vec(&[(1, a, b), (1, b, a)]));
                }
            } else if has(a, c) {
                for b in mids {
                    out(vec(&[(1, a, b), (1, b, c), (-1, a, c)]));
                }
            } else {
                for w in mids.windows(2) {
                    out(vec(&[(1, a, w[0]), (1, w[0], c), (-1, a, w[1]), (-1, w[1], c)]));
                }
            }
        }
    }
}

/// Bars of degree 0 and 1: latest edges of an echelon basis of the growing space of boundaries.
fn reference(f: &Filt, e: &DigraphEdgeSet, q: u64) -> Code {
    let g = graph(f, e);
    let m = g.es.len();
    let mut code = g.code0.clone();
    let mut births = g.births.clone();
    let mut ech = Echelon::new(q);
    for t in times(f) {
        boundaries(f, &g, t, q, &mut |v| {
            let w = ech.reduce(&v);
            if let Some(lead) = w.iter().position(|x| *x != 0) {
                ech.add(&w);
                let i = m - 1 - lead;
                let at = births.iter().position(|x| x.0 == i).expect("the latest edge of a cycle closes one");
                let (_, b) = births.swap_remove(at);
                put(&mut code, 1, b, Some(t));
            }
        });
    }
    for (_, b) in births {
        put(&mut code, 1, b, None);
    }
    code
}

/// The same for many nodes.
fn sparse_reference(f: &Filt, e: &DigraphEdgeSet, q: u64) -> Code {
    let s = Sparse::of(f, &|a, b| e.contains(&(a as u16, b as u16)), q);
    let mut code = Code::new();
    let (comps, iv) = s.intervals();
    for _ in 0..comps {
        put(&mut code, 0, 0.0, None);
    }
    for t in s.joins() {
        put(&mut code, 0, 0.0, Some(t));
    }
    for (b, d) in iv {
        put(&mut code, 1, b, d);
    }
    code
}

/// The same from the ranks of the maps H1(s) -> H1(t).
fn by_ranks(f: &Filt, e: &DigraphEdgeSet, q: u64) -> Code {
    let g = graph(f, e);
    let m = g.es.len();
    let mut ts = times(f);
    ts.extend(g.es.iter().map(|x| x.0));
    ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ts.dedup();
    let k = ts.len();
    let rk: Vec<Vec<i64>> = (0..k)
        .map(|i| {
            let z = g.births.iter().filter(|b| b.1 <= ts[i]).count() as i64;
            let late = g.es.iter().filter(|x| x.0 > ts[i]).count();
            (0..k)
                .map(|j| {
                    let mut all = vec![];
                    boundaries(f, &g, ts[j], q, &mut |v| all.push(v));
                    let cut: Vec<Vec<u64>> = all.iter().map(|v| v[..late.min(m)].to_vec()).collect();
                    z - (rank(&all, q) - rank(&cut, q)) as i64
                })
                .collect()
        })
        .collect();
    let at = |i: isize, j: usize| if i < 0 { 0 } else { rk[i as usize][j] };
    let mut code = g.code0.clone();
    for i in 0..k as isize {
        for j in i as usize + 1..k {
            let c = at(i, j - 1) - at(i - 1, j - 1) - at(i, j) + at(i - 1, j);
            for _ in 0..c {
                put(&mut code, 1, ts[i as usize], Some(ts[j]));
            }
        }
        for _ in 0..at(i, k - 1) - at(i - 1, k - 1) {
            put(&mut code, 1, ts[i as usize], None);
        }
    }
    code
}

fn compute<F: TF, D: DigraphFiltration + Copy>(d: D, f: &Filt, e: &DigraphEdgeSet, want: &Code, all: bool) -> Res {
    let n = f.len();
    let cob = GrPPHCoboundary::<F, _>::build(d, e, n as u16);
    let rev = (&cob).reverse();
    let tm = |c: &PathHomCell| cob.filtration_value(*c).into_inner();
    let read = |dg: &Diagram<std::cmp::Reverse<PathHomCell>>| {
        let mut c = Code::new();
        for x in &dg.essential {
            put(&mut c, x.0.dimension(), tm(&x.0), None);
        }
        for (death, birth) in &dg.pairings {
            put(&mut c, birth.0.dimension(), tm(&birth.0), Some(tm(&death.0)));
        }
        c
    };
    let (_, dg) = ClearedReductionMatrix::build_with_diagram(&rev, 0..=1);
    ensure_eq!(read(&dg), *want, "{} reversed coboundary with clearing", F::NAME);
    if !all {
        return Ok(());
    }
    for order in [false, true] {
        let (_, dg) = standard_algo_with_diagram(&rev, order);
        ensure_eq!(read(&dg), *want, "{} reversed coboundary, standard, reverse_order={order}", F::NAME);
    }
    let (_, dg) = ClearedReductionMatrix::build_with_diagram(&rev, [0]);
    let mut w0 = want.clone();
    w0.retain(|k, _| k.0 == 0);
    ensure_eq!(read(&dg), w0, "{} reversed coboundary with clearing, degree 0 only", F::NAME);
    // the boundary matrix on all cells
    let mut cells: Vec<PathHomCell> = (0..n).map(|i| PathHomCell::Node(i as u16)).collect();
    for (a, b) in pairs(n) {
        if gtime(f, e, a, b).is_some() {
            let c = PathHomCell::Edge(a as u16, b as u16);
            cells.push(c);
            cells.extend(cob.column(c).map(|x| x.1));
        }
    }
    let mut list: Vec<_> = cells.into_iter().map(|c| (cob.filtration_value(c), c)).collect();
    list.sort();
    list.dedup();
    let bnd = GrPPHBoundary::<F, _>::build(d, e, PathHomSingleBasis(list));
    let (_, dg) = standard_algo_with_diagram(&bnd, false);
    let mut c = Code::new();
    for x in dg.essential.iter().filter(|x| x.dimension() < 2) {
        put(&mut c, x.dimension(), tm(x), None);
    }
    for (birth, death) in &dg.pairings {
        put(&mut c, birth.dimension(), tm(birth), Some(tm(death)));
    }
    ensure_eq!(c, *want, "{} boundary, standard", F::NAME);
    Ok(())
}

fn case<F: TF>(r: &mut Rec, f: &Filt, sets: &[DigraphEdgeSet], map: bool, ranks: bool) -> Res {
    let q = rank_prime(F::P);
    for e in sets {
        let want = reference(f, e, q);
        if ranks {
            assert_eq!(want, by_ranks(f, e, q), "the two reference computations differ");
        }
        if map {
            compute::<F, _>(&map_filt(f), f, e, &want, true)?;
        } else {
            compute::<F, _>(&vec_filt(f), f, e, &want, true)?;
        }
        r.outcome(&(F::NAME, &want));
        r.step(5);
        r.state(&(F::NAME, f.iter().flatten().map(|x| x.map(f64::to_bits)).collect::<Vec<_>>(), show_set(e)));
    }
    r.trace(sets.len() * 5);
    Ok(())
}

/// Order complex of the face poset of the 6-vertex projective plane, as a digraph: 31 nodes, edges from faces to cofaces.
fn projective_plane() -> Vec<(usize, usize)> {
    let tri: Vec<Vec<usize>> =
        ["013", "014", "024", "025", "035", "123", "125", "145", "234", "345"].iter().map(|s| s.chars().map(|c| c.to_digit(10).unwrap() as usize).collect()).collect();
    let mut faces: Vec<Vec<usize>> = vec![];
    for t in &tri {
        for m in 1..8usize {
            let s: Vec<usize> = (0..3).filter(|i| m >> i & 1 == 1).map(|i| t[i]).collect();
            if !faces.contains(&s) {
                faces.push(s);
            }
        }
    }
    faces.sort_by_key(|s| (s.len(), s.clone()));
    let mut es = vec![];
    for (i, a) in faces.iter().enumerate() {
        for (j, b) in faces.iter().enumerate() {
            if i != j && a.iter().all(|x| b.contains(x)) {
                es.push((i, j));
            }
        }
    }
    es
}

pub fn g06(mc: &mut Mc) {
    let t = mc.thorough;
    mc.family("n<=2", "all digraph filtrations with times in {none,0,1,2.5} on at most 2 nodes, all grounding sets, Z2 Z3 Z5 Z7 Z11 Z13 Q, list and map form; five reductions each", |fam| {
        let al = [None, Some(0.0), Some(1.0), Some(2.5)];
        for n in 0..=2usize {
            let m = pairs(n).len();
            let sets: Vec<_> = (0..1u64 << m).map(|k| set_of(n, k)).collect();
            words(al.len(), m, |w| {
                let f = filt_of(n, w, &al);
                fam.case(
                    || show(&f),
                    |r| {
                        for map in [false, true] {
                            case::<Z2>(r, &f, &sets, map, true)?;
                            case::<Z3>(r, &f, &sets, map, true)?;
                            case::<Z5>(r, &f, &sets, map, true)?;
                            case::<Z7>(r, &f, &sets, map, true)?;
                            case::<Z11>(r, &f, &sets, map, true)?;
                            case::<Z13>(r, &f, &sets, map, true)?;
                            case::<Q>(r, &f, &sets, map, true)?;
                        }
                        Ok(())
                    },
                );
            });
        }
    });
    let al: Vec<_> = if t { vec![None, Some(0.0), Some(1.0), Some(2.0), Some(2.5)] } else { vec![None, Some(0.0), Some(1.0), Some(2.0)] };
    mc.family("n3", &format!("all digraph filtrations with times in {al:?} on 3 nodes; Z3 with every grounding set, Z2 Z7 Q with every 3rd"), |fam| {
        let sets: Vec<_> = (0..64).map(|k| set_of(3, k)).collect();
        let few: Vec<_> = (0..64).step_by(3).map(|k| set_of(3, k)).collect();
        words(al.len(), 6, |w| {
            let f = filt_of(3, w, &al);
            fam.case(
                || show(&f),
                |r| {
                    case::<Z3>(r, &f, &sets, false, false)?;
                    case::<Z2>(r, &f, &few, true, true)?;
                    case::<Z7>(r, &f, &few, true, false)?;
                    case::<Q>(r, &f, &few, false, true)
                },
            );
        });
    });
    mc.family("n4", "all digraph filtrations with times in {none,1} on 4 nodes and all with times in {none,1,2} where 0->1 and 1->0 are missing (thorough: any), grounding set empty, all pairs, mixed; Z3, Z5", |fam| {
        let sets = [set_of(4, 0), set_of(4, 0b0110_1010_0101)];
        let full = [set_of(4, 0xfff), set_of(4, 0b1001_0100_1010)];
        let mut go = |f: Filt| {
            fam.case(
                || show(&f),
                |r| {
                    case::<Z3>(r, &f, &sets, false, false)?;
                    case::<Z5>(r, &f, &full, true, false)
                },
            );
        };
        words(2, 12, |w| go(filt_of(4, w, &[None, Some(1.0)])));
        {
            let free: Vec<usize> = pairs(4).iter().enumerate().filter(|(_, p)| t || !matches!(p, (0, 1) | (1, 0))).map(|(i, _)| i).collect();
            words(3, free.len(), |w| {
                let mut x = vec![0; 12];
                for (i, v) in free.iter().zip(w) {
                    x[*i] = *v;
                }
                go(filt_of(4, &x, &[None, Some(1.0), Some(2.0)]));
            });
        }
    });
    mc.family("bridges", "one source and one target joined through 3 middle nodes with all times in {none,1,2} (and with 2 middle nodes {none,1,2,3}), shortcut in {none,1,2,3}, way back in {none,1.5}; grounding set empty or mixed, Z3, Z7", |fam| {
        let mut run = |f: &Filt, r: &mut Rec| {
            let n = f.len();
            let sets = [set_of(n, 0), set_of(n, 0b1010_0110_1001_0101_0011)];
            case::<Z3>(r, f, &sets, false, false)?;
            case::<Z7>(r, f, &sets[1..], true, false)
        };
        let sc = [None, Some(1.0), Some(2.0), Some(3.0)];
        let bk = [None, Some(1.5)];
        bridges_family(fam, 2, &[None, Some(1.0), Some(2.0), Some(3.0)], &sc, &bk, &mut run);
        let three = [None, Some(1.0), Some(2.0)];
        bridges_family(fam, 3, &three, &sc, &bk, &mut run);
    });
    scaled_family(mc, &|f, r| case::<Z3>(r, f, &[set_of(f.len(), 0b10_0110_1001_0101_0010)], false, false));
    mc.family("structured", "28 larger filtrations (cyclic, constant, mixed, bipartite) on 5, 6, 7 and 9 nodes, grounding set empty or mixed; Z2 Z3 Z5 Z11 Z13 Q", |fam| {
        for f in structured() {
            let n = f.len();
            fam.case(
                || show(&f),
                |r| {
                    let sets = [set_of(n, 0), set_of(n, 0x5a5a_a5a5_1234_5678)];
                    case::<Z2>(r, &f, &sets, true, false)?;
                    case::<Z3>(r, &f, &sets, true, false)?;
                    case::<Z5>(r, &f, &sets, false, false)?;
                    case::<Z11>(r, &f, &sets, false, false)?;
                    case::<Z13>(r, &f, &sets[..1], false, false)?;
                    case::<Q>(r, &f, &sets, false, false)
                },
            );
        }
    });
    mc.family("large", BIG, |fam| {
        for (name, f, e) in big(t) {
            fam.case(
                || name.clone(),
                |r| {
                    let q = rank_prime(3);
                    let want = sparse_reference(&f, &e, q);
                    if f.len() <= 20 {
                        assert_eq!(want, reference(&f, &e, q), "the two references differ");
                    }
                    compute::<Z3, _>(&vec_filt(&f), &f, &e, &want, f.len() <= 44)?;
                    let q = rank_prime(0);
                    compute::<Q, _>(&map_filt(&f), &f, &e, &sparse_reference(&f, &e, q), false)?;
                    r.step(2);
                    r.state(&name);
                    Ok(())
                },
            );
        }
    });
    placed_family(mc, &|f, r| {
        let e = set_of(f.len(), 0x8400_0001_0001_0000);
        let want = sparse_reference(f, &e, 3);
        compute::<Z3, _>(&vec_filt(f), f, &e, &want, false)?;
        r.outcome(&want);
        r.step(1);
        Ok(())
    });
    mc.family("projective plane", "face poset of the 6-vertex projective plane as a digraph on 31 nodes (torsion: bars differ between fields), times by dimension, constant, mixed; grounding set empty, all edges, mixed; Z2 Z3 Z7 Q", |fam| {
        for kind in 0..3usize {
            for ground in 0..3usize {
                fam.case(
                    || format!("times {kind} grounding {ground}"),
                    |r| {
                        let es = projective_plane();
                        let mut f = vec![vec![None; 31]; 31];
                        let mut e = DigraphEdgeSet::default();
                        for (k, (a, b)) in es.iter().enumerate() {
                            f[*a][*b] = Some([1.0, if *b < 21 { 1.0 } else { 2.0 }, 1.0 + (k % 3) as f64 / 2.0][kind]);
                            if ground == 1 || ground == 2 && k % 2 == 0 {
                                e.insert((*a as u16, *b as u16));
                            }
                        }
                        let e = [e];
                        let (w2, w3) = (reference(&f, &e[0], 2), reference(&f, &e[0], 3));
                        assert_ne!(w2, w3, "the bars of a projective plane depend on the field");
                        case::<Z2>(r, &f, &e, false, false)?;
                        case::<Z3>(r, &f, &e, false, false)?;
                        case::<Z7>(r, &f, &e, true, false)?;
                        case::<Q>(r, &f, &e, false, false)
                    },
                );
            }
        }
    });
}
