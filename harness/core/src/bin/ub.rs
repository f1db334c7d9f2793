//! C13: no undefined behaviour.  Run under the Miri interpreter, which stops at the first undefined operation; the small
//! spaces below are enumerated completely.
#![allow(dead_code)]
#[path = "red/cx.rs"]
mod cx;
use core_checks::fuse;
use core_checks::pure::open;
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::Sc;
use mc::*;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::adaptors::{ReverseBasis, UnreverseBasis};
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

/// Only undefined behaviour counts here (it ends the process); wrong results and panics are the matter of other properties.
fn seen(fam: &mut Family, desc: impl FnOnce() -> String, body: impl FnOnce(&mut Rec) -> Res) {
    fam.case(desc, |r| {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body(r)));
        Ok(())
    });
}

fn field<F: TF>(mc: &mut Mc) {
    mc.family(&format!("field-{}", F::NAME), "all pairs of non-zero elements through sum, product, negation, inversion and comparison", |fam| {
        let p = F::P as i64;
        for a in 1..p {
            seen(fam, 
                || format!("{a} against all elements"),
                |r| {
                    r.state(&(p, a));
                    let x = F::int(a).expect("non-zero");
                    ensure_eq!(x.additive_inverse().sc(), Sc::int((p - a) as i128, F::P), "-{a}");
                    ensure!(x + x.additive_inverse() == None, "{a} - {a}");
                    ensure!(x * x.mult_inverse() == F::one(), "{a} / {a}");
                    for b in 1..p {
                        let y = F::int(b).expect("non-zero");
                        ensure_eq!((x + y).map(|z| z.sc()), Some(Sc::int((a + b) as i128 % p as i128, F::P)).filter(|z| !z.is_zero()), "{a} + {b}");
                        ensure_eq!((x * y).sc(), Sc::int((a * b) as i128 % p as i128, F::P), "{a} * {b}");
                        ensure_eq!(x == y, a == b, "{a} == {b}");
                        r.step(3);
                    }
                    Ok(())
                },
            );
        }
    });
}

/// Reads a whole view of a basis through references held together.
fn split_held<B: SplitByDimension>(what: &str, b: &B, want: &[Vec<B::ElemT>]) -> Res
where
    B::ElemT: std::fmt::Debug,
    B::SubBasisT: ColBasis<ElemT = B::ElemT>,
{
    let dims: Vec<&B::SubBasisT> = (0..want.len()).map(|d| b.in_dimension(d)).collect();
    for (d, s) in dims.iter().enumerate().rev() {
        basis_is(what, *s, &want[d])?;
    }
    for (d, s) in dims.iter().enumerate() {
        basis_is(what, *s, &want[d])?;
        ensure!(std::ptr::eq(b.in_dimension(d), *s) || b.in_dimension(d).size() == s.size(), "{what}: dimension {d} changed");
    }
    Ok(())
}

fn views(mc: &mut Mc, n: usize) {
    mc.family("basis views", &format!("all lists of <= {n} columns cut into 1..=3 dimensions: references into reversed, unreversed and restricted bases, held together, through references, boxes and shared pointers, outliving moves of their owner's handles"), |fam| {
        for len in 0..=n {
            let l: Vec<usize> = (0..len).map(|i| (i * 2 + 1) % (n + 1)).collect();
            for k in 1..=3 {
                for cut in cuts(&l, k) {
                    seen(fam, 
                        || format!("{cut:?}"),
                        |r| {
                            r.state(&cut);
                            let raw: Raw = (0..=n).map(|j| vec![(Sc::int(1, 3), j), (Sc::int(2, 3), (j + 1) % n)]).collect();
                            let mk = || build::<Z3>(&raw).with_filtration(|x: usize| x).with_basis(Split(cut.clone()));
                            let m = mk();
                            let back: Vec<Vec<Reverse<usize>>> = cut.iter().map(|c| rv(c)).collect();
                            let all: Vec<Reverse<usize>> = rv(&l);
                            // plain references
                            let rev = (&m).reverse();
                            split_held("reverse", &*rev.basis(), &back)?;
                            let un = MatrixOracle::unreverse(&rev);
                            split_held("unreverse", &*un.basis(), &cut)?;
                            let (b1, b2, b3) = (rev.basis(), un.basis(), rev.basis());
                            let (d1, d2, d3) = (&*b1, &*b2, &*b3);
                            split_held("first of two", d1, &back)?;
                            split_held("between", d2, &cut)?;
                            split_held("second of two", d3, &back)?;
                            basis_is("whole", d1, &all)?;
                            basis_is("whole", d2, &l)?;
                            // owned by the view
                            let owned = mk().reverse();
                            let boxed = Box::new(owned);
                            split_held("boxed", &*boxed.basis(), &back)?;
                            let moved = *boxed;
                            split_held("moved", &*moved.basis(), &back)?;
                            let un = MatrixOracle::unreverse(moved);
                            split_held("unreverse of owned", &*un.basis(), &cut)?;
                            // shared
                            let rc = Rc::new(build::<Z3>(&raw));
                            let rr = rc.clone().with_filtration(|x: usize| x).with_basis(Split(cut.clone())).reverse();
                            drop(rc);
                            split_held("shared", &*rr.basis(), &back)?;
                            let arc = Arc::new(build::<Z3>(&raw));
                            let ar = Arc::clone(&arc).with_filtration(|x: usize| x).with_basis(Split(cut.clone())).reverse();
                            drop(arc);
                            split_held("shared", &*ar.basis(), &back)?;
                            let cache = rr.cache_cols();
                            split_held("cached", &*cache.basis(), &back)?;
                            // bases alone, owned and borrowed
                            let s = Split(cut.clone());
                            let rs = ReverseBasis(&s);
                            split_held("ReverseBasis of a reference", &rs, &back)?;
                            split_held("dereferenced", &*rs, &back)?;
                            let bx = ReverseBasis(Box::new(s.clone()));
                            split_held("dereferenced box", &*bx, &back)?;
                            let ub = UnreverseBasis(Rc::new(ReverseBasis(s.clone())));
                            split_held("dereferenced shared unreverse", &*ub, &cut)?;
                            split_held("UnreverseBasis of ReverseBasis", &UnreverseBasis(ReverseBasis(s)), &cut)?;
                            for d in 0..k {
                                let sub = (&rev).sub_matrix_in_dimension(d);
                                basis_is("restricted", &*sub.basis(), &back[d])?;
                                let sr = (&m).sub_matrix_in_dimension(d).reverse();
                                let su = MatrixOracle::unreverse(&sr);
                                let (x, y) = (sr.basis(), su.basis());
                                basis_is("restricted then reversed", &*x, &back[d])?;
                                basis_is("restricted, reversed, unreversed", &*y, &cut[d])?;
                                basis_is("restricted then reversed again", &*x, &back[d])?;
                            }
                            r.step(20);
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

/// Every pair of readers (plain, enriched or heap) of two columns, opened together and advanced in turns, one abandoned.
fn readers<M>(m: &M, cols: &[M::ColT], r: &mut Rec)
where
    M: HasRowFiltration,
    M::CoefficientField: TF,
{
    let k = 3 * cols.len();
    for i in 0..k {
        for j in 0..k {
            let (mut a, mut b) = (open(m, i % 3, cols[i / 3].clone()), open(m, j % 3, cols[j / 3].clone()));
            let mut n = 0;
            while let (Some(_), Some(_)) = (a.next(), b.next()) {
                n += 1;
            }
            drop(b);
            n += a.count();
            r.step(n + 1);
        }
    }
}

fn columns(mc: &mut Mc) {
    mc.family("columns", "columns of 9 stored matrices over Z/3 and the wrappers: all pairs of readers (plain, enriched, heap) of two columns advanced in turns", |fam| {
        let c = Z3::coeffs();
        let lists: Vec<Vec<Term>> = vec![vec![], vec![(c[1], 1), (c[0], 0), (c[0], 1)], vec![(c[0], 1), (c[1], 0)]];
        words(3, 2, |w| {
            let raw: Raw = w.iter().map(|i| lists[*i].clone()).collect();
            seen(
                fam,
                || format!("{raw:?}"),
                |r| {
                    r.state(&raw);
                    let m = build::<Z3>(&raw).with_filtration(|x: usize| 3 - x);
                    readers(&m, &[0, 1], r);
                    let cache = (&m).cache_cols();
                    readers(&cache, &[0, 1], r);
                    readers(&(&m).consolidate(), &[0, 1], r);
                    readers(&(&m).reverse(), &[Reverse(0), Reverse(1)], r);
                    readers(&(&cache).reverse().cache_cols(), &[Reverse(0), Reverse(1)], r);
                    readers(&product(&cache, &cache), &[0, 1], r);
                    Ok(())
                },
            );
        });
    });
}

fn reductions<F: TF>(mc: &mut Mc, n: usize) {
    mc.family(&format!("reductions-{}", F::NAME), &format!("all filtered chain complexes of <= {n} elements of dimension <= 2: both algorithms, boundary and reversed coboundary, columns of V and R, cycle tests"), |fam| {
        cx::graded(F::P, n, 2, &mut |c| {
            seen(
                fam,
                || format!("{c:?}"),
                |r| {
                    r.state(c);
                    let split = || Split((0..=2).map(|d| c.of_dim(d)).collect());
                    let m = build::<F>(&c.bd).with_filtration(|x: usize| x).with_basis(split());
                    let (v, _) = standard_algo_with_diagram(&m, false);
                    let (vc, _) = ClearedReductionMatrix::build_with_diagram(&m, (0..=2).rev());
                    let co = build::<F>(&c.cob()).with_filtration(|x: usize| x).with_basis(split()).reverse();
                    let (w, _) = standard_algo_with_diagram(&co, true);
                    let (wc, _) = ClearedReductionMatrix::build_with_diagram(&co, 0..=2);
                    for x in 0..c.n() {
                        let _ = (col_sums(&v, x), col_sums(&vc, x), col_sums(&product(&m, &vc), x), vc.col_is_cycle(x));
                        let y = Reverse(x);
                        let _ = (col_sums(&w, y), col_sums(&wc, y), col_sums(&product(&co, &wc), y), wc.col_is_cycle(y));
                        r.step(8);
                    }
                    Ok(())
                },
            );
        });
    });
}

fn rips(mc: &mut Mc, nmax: usize) {
    mc.family("rips", &format!("metric spaces on <= {nmax} points with distances 1 and 2, maximum dimension 0..=2, coboundary and boundary: bases, columns, both algorithms, reversed and unreversed"), |fam| {
        for n in 1..=nmax {
            let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).collect();
            words(2, pairs.len(), |w| {
                let mut d = vec![vec![NotNan::new(0.0).unwrap(); n]; n];
                for ((i, j), x) in pairs.iter().zip(w) {
                    d[*i][*j] = NotNan::new(1.0 + *x as f64).unwrap();
                    d[*j][*i] = d[*i][*j];
                }
                for top in 0..=2usize.min(n - 1) {
                    seen(fam, 
                        || format!("{n} points {w:?} top {top}"),
                        |r| {
                            r.state(&(n, w, top));
                            let cob = build_rips_coboundary_matrix::<Z3>(d.clone(), top);
                            let co = (&cob).reverse();
                            let (v, dg) = ClearedReductionMatrix::build_with_diagram(&co, 0..=top);
                            let (_, sg) = standard_algo_with_diagram(&co, true);
                            let un = |d: Diagram<Reverse<RipsIndex>>| {
                                let a: BTreeSet<RipsIndex> = d.essential.iter().map(|x| x.0).collect();
                                let b: BTreeSet<(RipsIndex, RipsIndex)> = d.pairings.iter().map(|(x, y)| (y.0, x.0)).collect();
                                (a, b)
                            };
                            ensure_eq!(un(dg), un(sg), "diagrams of the two algorithms");
                            let bd = build_rips_boundary_matrix::<Z3>(d.clone(), top);
                            let (_, _) = ClearedReductionMatrix::build_with_diagram(&bd, (0..=top).rev());
                            let b = cob.basis();
                            let (x, y) = (b.in_dimension(0), co.basis());
                            let z = (*y).in_dimension(0);
                            for i in 0..x.size() {
                                ensure_eq!(Reverse(x.element(i)), z.element(x.size() - 1 - i), "element {i}");
                            }
                            let cells: Vec<RipsIndex> = (0..(*b).size()).map(|i| (*b).element(i)).collect();
                            for c in cells {
                                let _ = v.col_is_cycle(Reverse(c));
                                let down: BTreeMap<RipsIndex, Sc> = col_sums(&bd, c);
                                for (f, k) in down {
                                    ensure_eq!(col_sums(&cob, f).get(&c).copied(), Some(k), "transposed entry");
                                }
                                r.step(1);
                            }
                            Ok(())
                        },
                    );
                }
            });
        }
    });
}

/// Both at the same time.
fn both(a: impl FnOnce() + Send, b: impl FnOnce() + Send) {
    std::thread::scope(|s| {
        s.spawn(a);
        b();
    });
}

fn threads(mc: &mut Mc) {
    mc.family("threads", "two threads at once: reading columns of shared stored matrices, wrappers and products (9 matrices), reducing, building and reading Rips matrices of 3 points (8 metrics), reading reversed bases", |fam| {
        let c = Z3::coeffs();
        let lists: Vec<Vec<Term>> = vec![vec![], vec![(c[1], 1), (c[0], 0), (c[0], 1)], vec![(c[0], 1), (c[1], 0)]];
        words(3, 2, |w| {
            let raw: Raw = w.iter().map(|i| lists[*i].clone()).collect();
            seen(
                fam,
                || format!("{raw:?}"),
                |r| {
                    r.state(&raw);
                    let m = build::<Z3>(&raw).with_filtration(|x: usize| 3 - x);
                    let (cons, rev, sq) = ((&m).consolidate(), (&m).reverse(), product(&m, &m));
                    let go = |k: usize| {
                        for x in [k, 1 - k] {
                            let _ = (col_sums(&m, x), col_sums(&cons, x), col_sums(&rev, Reverse(x)), col_sums(&sq, x));
                            let _ = (m.column_with_filtration(x).count(), m.build_bhcol(x).to_sorted_vec().len(), (&m).eq_on_col(&cons, x));
                            let own = (&m).cache_cols();
                            let _ = (col_sums(&own, x), col_sums(&own, x));
                        }
                    };
                    both(|| go(0), || go(1));
                    r.step(16);
                    Ok(())
                },
            );
        });
        words(2, 3, |w| {
            let mut d = vec![vec![NotNan::new(0.0).unwrap(); 3]; 3];
            for ((i, j), x) in [(1, 0), (2, 0), (2, 1)].iter().zip(w) {
                d[*i][*j] = NotNan::new(1.0 + *x as f64).unwrap();
                d[*j][*i] = d[*i][*j];
            }
            seen(
                fam,
                || format!("3 points {w:?}"),
                |r| {
                    r.state(&w);
                    let cob = build_rips_coboundary_matrix::<Z3>(d.clone(), 1);
                    let bd = build_rips_boundary_matrix::<Z3>(d.clone(), 1);
                    let go = |k: usize| {
                        let co = (&cob).reverse();
                        let b = co.basis();
                        for dim in [k, 1 - k] {
                            let z = (*b).in_dimension(dim);
                            for i in 0..z.size() {
                                let _ = (col_sums(&co, z.element(i)), co.column_with_filtration(z.element(i)).count(), bd.column(z.element(i).0).count());
                            }
                        }
                        let _ = ClearedReductionMatrix::build_with_diagram(&co, 0..=1);
                        let own = build_rips_coboundary_matrix::<Z3>(d.clone(), 1).reverse();
                        let _ = standard_algo_with_diagram(&own, true);
                    };
                    both(|| go(0), || go(1));
                    r.step(4);
                    Ok(())
                },
            );
        });
    });
}

// ------------------------------------------------------------------------------------------- panics of the caller

const PARTS: u64 = 8;
/// Runs `f` with the caller's types panicking at their `part`th use and every 8th after it, until it comes through.
fn every_fuse(r: &mut Rec, part: u64, f: &mut dyn FnMut()) {
    for k in (part + 1..).step_by(PARTS as usize) {
        fuse::light(k);
        let done = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut *f)).is_ok();
        let left = fuse::out();
        r.step(1);
        if done || left != 0 || k > 5000 {
            return;
        }
    }
}

fn drain<T>(it: impl Iterator<Item = T>) -> usize {
    it.map(|x| drop(x)).count()
}

fn caller_panics(mc: &mut Mc) {
    use fuse::*;
    // a path on 3 vertices and a triangle: boundaries over Z/3
    let spaces: [(&str, Vec<Vec<(u8, usize)>>, Vec<Vec<usize>>); 2] = [
        ("path", vec![vec![], vec![], vec![], vec![(1, 1), (2, 0)], vec![(2, 1), (1, 2)]], vec![vec![0, 1, 2], vec![3, 4]]),
        (
            "triangle",
            vec![vec![], vec![], vec![], vec![(1, 1), (2, 0)], vec![(2, 0), (1, 2)], vec![(1, 2), (2, 1)], vec![(1, 3), (2, 4), (1, 5)]],
            vec![vec![0, 1, 2], vec![3, 4, 5], vec![6]],
        ),
    ];
    let make = move |i: usize| {
        let (_, cols, dims) = &spaces[i];
        Fm {
            cols: cols.iter().map(|c| c.iter().map(|(k, x)| (F3::new(*k), *x)).collect()).collect(),
            dims: Fb(dims.iter().map(|d| d.iter().map(|x| Ix::new(*x)).collect()).collect()),
        }
    };
    mc.family("panics of the caller", "a path and a triangle given by a caller's own field, indices, filtration values, matrix and basis, of which the 1st, 2nd, ... use panics, every k in turn: heaps, wrappers, caches, views, both reductions; what is left is used again and dropped", |fam| {
        for i in 0..2 {
            let tasks = 9;
            for (task, part) in (0..tasks).flat_map(|t| (0..PARTS).map(move |p| (t, p))) {
                let m = make(i);
                let n = m.cols.len();
                let top = m.dims.0.len() - 1;
                seen(
                    fam,
                    || format!("space {i} task {task}, uses {} modulo {PARTS}", part + 1),
                    |r| {
                        r.state(&(i, task, part));
                        match task {
                            0 => {
                                // the heap outlives the panic
                                every_fuse(r, part, &mut || {
                                    let mut h = (&m).build_bhcol(Ix::new(n - 1));
                                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                        h.add_entries((&m).column_with_filtration(Ix::new(n - 2)));
                                        h.add_entries((&m).column_with_filtration(Ix::new(n - 1)));
                                        let _ = h.clone_pivot();
                                        let _ = h.pop_pivot();
                                        let _ = h.clone().to_sorted_vec().len();
                                        let _ = h.clone().drain_sorted().take(1).count();
                                    }));
                                    let _ = h.clone_pivot();
                                    drain(h.drain_sorted());
                                });
                            }
                            1 => {
                                let cache = (&m).cache_cols();
                                every_fuse(r, part, &mut || {
                                    for c in 0..n {
                                        let mut a = cache.column(Ix::new(c));
                                        let _ = a.next();
                                        drain(cache.column_with_filtration(Ix::new((c + 1) % n)));
                                        drain(a);
                                    }
                                });
                                for c in 0..n {
                                    drain(cache.column(Ix::new(c)));
                                }
                            }
                            2 => {
                                let cons = (&m).consolidate();
                                every_fuse(r, part, &mut || {
                                    for c in 0..n {
                                        drain(cons.column(Ix::new(c)));
                                        let _ = (&m).eq_on_col(&cons, Ix::new(c));
                                    }
                                });
                            }
                            3 => {
                                let p = product(&m, &m);
                                let s = phlite::matrices::combinators::sum(&m, &m);
                                every_fuse(r, part, &mut || {
                                    drain(p.column_with_filtration(Ix::new(n - 1)));
                                    drain(s.column(Ix::new(n - 1)));
                                    let _ = (&p).build_bhcol(Ix::new(n - 1)).to_sorted_vec();
                                });
                            }
                            4 => {
                                let rev = (&m).reverse();
                                let un = MatrixOracle::unreverse(&rev);
                                every_fuse(r, part, &mut || {
                                    let (b, c) = (rev.basis(), un.basis());
                                    for d in 0..=top {
                                        let (x, y) = ((*b).in_dimension(d), (*c).in_dimension(d));
                                        for k in 0..x.size() {
                                            drain(rev.column_with_filtration(x.element(k)));
                                            drain(un.column_with_filtration(y.element(k)));
                                        }
                                    }
                                });
                            }
                            5 => every_fuse(r, part, &mut || {
                                let (v, _) = standard_algo_with_diagram(&m, false);
                                drain(v.column(Ix::new(n - 1)));
                            }),
                            6 => every_fuse(r, part, &mut || {
                                let (v, _) = ClearedReductionMatrix::build_with_diagram(&m, (0..=top).rev());
                                drain(v.column(Ix::new(n - 1)));
                                let _ = v.col_is_cycle(Ix::new(n - 1));
                            }),
                            7 => {
                                let cache = (&m).cache_cols();
                                every_fuse(r, part, &mut || {
                                    let (v, _) = ClearedReductionMatrix::build_with_diagram(&cache, (0..=top).rev());
                                    drain(v.column(Ix::new(0)));
                                });
                                drain(cache.column(Ix::new(n - 1)));
                            }
                            _ => {
                                // the reduction outlives the panic of a reader
                                let (v, dg) = ClearedReductionMatrix::build_with_diagram(&m, (0..=top).rev());
                                let (s, sg) = standard_algo_with_diagram(&m, true);
                                every_fuse(r, part, &mut || {
                                    for c in 0..n {
                                        drain(v.column(Ix::new(c)));
                                        drain(s.column(Ix::new(c)));
                                        let _ = v.col_is_cycle(Ix::new(c));
                                        drain(product(&m, &v).column(Ix::new(c)));
                                    }
                                    let _ = (dg.clone(), sg.clone());
                                });
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}

/// The index with number `k`.
fn far(k: usize) -> RipsIndex {
    let k = k.clamp(1, 1 << 60);
    RipsIndex::from_indices([k - 1].into_iter(), k).unwrap()
}

/// Calls outside of a contract may panic or return anything, but stay defined.
fn misuse(mc: &mut Mc) {
    mc.family("calls out of range", "positions, dimensions, columns, indices and sizes at and beyond the ends of stored matrices, their views and wrappers, reductions and Rips matrices; a field of non-prime order; orders of dimensions that leave some out, repeat or exceed them", |fam| {
        const FAR: [usize; 6] = [0, 1, 2, 3, 64, usize::MAX];
        let go = |f: &mut dyn FnMut()| {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        };
        for task in 0..8 {
            for k in FAR {
                seen(
                    fam,
                    || format!("task {task} at {k}"),
                    |r| {
                        r.state(&(task, k));
                        let c = Z3::coeffs();
                        let raw: Raw = vec![vec![], vec![(c[1], 0), (c[0], 1), (c[1], 1)]];
                        let cut = vec![vec![0], vec![1]];
                        let m = build::<Z3>(&raw).with_filtration(|x: usize| x).with_basis(Split(cut.clone()));
                        match task {
                            0 => {
                                go(&mut || drop(m.column(k).count()));
                                go(&mut || drop(m.column_with_filtration(k).count()));
                                go(&mut || drop((&m).cache_cols().column(k).count()));
                                go(&mut || drop((&m).consolidate().column(k).count()));
                                go(&mut || drop((&m).reverse().column(Reverse(k)).count()));
                                go(&mut || drop(product(&m, &m).column(k).count()));
                                go(&mut || drop((&m).build_bhcol(k).to_sorted_vec()));
                                go(&mut || drop((&m).using_col_basis_index().column(k).count()));
                            }
                            1 => {
                                let v: Vec<usize> = vec![4, 5];
                                go(&mut || drop(v.element(k)));
                                go(&mut || drop((&m).basis().element(k)));
                                go(&mut || drop((&m).basis().in_dimension(k).element(0)));
                                go(&mut || drop((&m).basis().in_dimension(0).element(k)));
                                let rev = (&m).reverse();
                                go(&mut || drop((*rev.basis()).element(k)));
                                go(&mut || drop((*rev.basis()).in_dimension(k).element(0)));
                                go(&mut || drop((*rev.basis()).in_dimension(1).element(k)));
                                let un = MatrixOracle::unreverse(&rev);
                                go(&mut || drop((*un.basis()).element(k)));
                                go(&mut || drop((*un.basis()).in_dimension(k).element(k)));
                                go(&mut || drop((&m).sub_matrix_in_dimension(k).basis().element(0)));
                                go(&mut || drop((&m).sub_matrix_in_dimension(1).basis().element(k)));
                            }
                            2 => {
                                let (v, _) = ClearedReductionMatrix::build_with_diagram(&m, (0..2).rev());
                                let (s, _) = standard_algo_with_diagram(&m, false);
                                go(&mut || drop(v.column(k).count()));
                                go(&mut || drop(v.col_is_cycle(k)));
                                go(&mut || drop(s.column(k).count()));
                                go(&mut || drop(product(&m, &v).column(k).count()));
                            }
                            3 => {
                                for l in [0, 1, 2] {
                                    go(&mut || drop(ClearedReductionMatrix::build_with_diagram(&m, [k, l, k])));
                                    go(&mut || drop(ClearedReductionMatrix::build_with_diagram(&m, [l, k])));
                                }
                                go(&mut || drop(ClearedReductionMatrix::build_with_diagram(&m, [])));
                            }
                            4 => {
                                // rows that are no columns
                                let bad = build::<Z3>(&vec![vec![(c[0], k)], vec![(c[1], k), (c[0], 0)]]).with_filtration(|x: usize| x).with_basis(Split(cut.clone()));
                                go(&mut || drop(standard_algo_with_diagram(&bad, false)));
                                go(&mut || drop(ClearedReductionMatrix::build_with_diagram(&bad, (0..2).rev())));
                                go(&mut || drop(product(&bad, &bad).column(1).count()));
                            }
                            5 => {
                                for n in [0, 1, 3, 5] {
                                    go(&mut || drop(far(k).to_vec(n)));
                                    go(&mut || drop(far(k).dimension(n)));
                                    go(&mut || drop(RipsIndex::from_indices([k].into_iter(), n).map(|x| x.to_vec(n))));
                                    go(&mut || drop(RipsIndex::from_indices([0, k, 1].into_iter(), n).map(|x| x.to_vec(n))));
                                    go(&mut || drop(RipsIndex::from_indices(std::iter::empty(), n)));
                                }
                            }
                            6 => {
                                let d = vec![vec![NotNan::new(0.0).unwrap(), NotNan::new(1.0).unwrap()], vec![NotNan::new(1.0).unwrap(), NotNan::new(0.0).unwrap()]];
                                for top in [0, 1, 2] {
                                    let (cob, bd) = (build_rips_coboundary_matrix::<Z3>(d.clone(), top), build_rips_boundary_matrix::<Z3>(d.clone(), top));
                                    go(&mut || drop(cob.column(far(k)).count()));
                                    go(&mut || drop(bd.column(far(k)).count()));
                                    go(&mut || drop(cob.column_with_filtration(far(k)).count()));
                                    go(&mut || drop(bd.column_with_filtration(far(k)).count()));
                                    go(&mut || drop(cob.filtration_value(far(k))));
                                    go(&mut || drop((*cob.basis()).element(k)));
                                    go(&mut || drop((*cob.basis()).in_dimension(k).element(0)));
                                    go(&mut || drop((*cob.basis()).in_dimension(0).element(k)));
                                }
                                // ragged and empty tables
                                let z = NotNan::new(1.0).unwrap();
                                for t in [vec![], vec![vec![]], vec![vec![z], vec![z]], vec![vec![z, z, z], vec![z]]] {
                                    go(&mut || drop(build_rips_coboundary_matrix::<Z3>(t.clone(), k.min(3))));
                                    go(&mut || drop(build_rips_boundary_matrix::<Z3>(t.clone(), k.min(3))));
                                }
                            }
                            _ => {
                                // the integers modulo 4, 9 and 16 are no fields
                                fn all<const P: u8>(k: usize) {
                                    let one = ZP::<P>::one();
                                    let mut x = Some(one);
                                    for _ in 0..k.min(20) {
                                        x = x.and_then(|x| one + x);
                                        if let Some(x) = x {
                                            let _ = std::panic::catch_unwind(|| x * x);
                                            let _ = std::panic::catch_unwind(|| x * x.additive_inverse());
                                        }
                                    }
                                }
                                go(&mut || all::<4>(k));
                                go(&mut || all::<9>(k));
                                go(&mut || all::<15>(k));
                            }
                        }
                        r.step(10);
                        Ok(())
                    },
                );
            }
        }
    });
}

/// Sizes beyond what a buffer of fixed size might hold.
fn sizes(mc: &mut Mc) {
    mc.family("sizes", "simplices of 1 to 18 vertices and their faces, cofaces; heaps and columns of 65 and 130 terms and bases of as many elements, through the wrappers, views and both reductions", |fam| {
        for k in 1..=18usize {
            seen(
                fam,
                || format!("simplex of {k} vertices"),
                |r| {
                    r.state(&k);
                    let n = k.min(9).max(k).min(18);
                    // (n + 1)^k has to fit
                    if ((n + 1) as f64).powi(k as i32) > 1e19 {
                        return Ok(());
                    }
                    let x = RipsIndex::from_indices(0..k, n).unwrap();
                    let _ = (x.to_vec(n), x.dimension(n));
                    let d: Vec<Vec<NotNan<f64>>> = (0..n).map(|i| (0..n).map(|j| NotNan::new((i != j) as u8 as f64).unwrap()).collect()).collect();
                    let cob = build_rips_coboundary_matrix::<Z3>(d.clone(), 0);
                    let bd = build_rips_boundary_matrix::<Z3>(d, 0);
                    let _ = (bd.column(x).count(), bd.column_with_filtration(x).count(), bd.filtration_value(x));
                    if k > 1 {
                        let y = RipsIndex::from_indices(0..k - 1, n).unwrap();
                        let _ = (cob.column(y).count(), cob.column_with_filtration(y).count());
                    }
                    r.step(5);
                    Ok(())
                },
            );
        }
        for n in [65usize, 130] {
            for shape in 0..3 {
                seen(
                    fam,
                    || format!("{n} terms, shape {shape}"),
                    |r| {
                        r.state(&(n, shape));
                        let c = Z3::coeffs();
                        let raw: Raw = match shape {
                            // one long column; a path; many columns of one pivot
                            0 => (0..n).map(|j| if j == n - 1 { (0..n - 1).map(|i| (c[i % 2], (i * 7) % (n - 1))).collect() } else { vec![] }).collect(),
                            1 => (0..n).map(|j| if j > n / 2 { vec![(c[0], j - n / 2), (c[1], j - n / 2 - 1)] } else { vec![] }).collect(),
                            _ => (0..n).map(|j| if j > n / 2 { vec![(c[0], 3), (c[1], j % 3)] } else { vec![] }).collect(),
                        };
                        let cut = vec![(0..=n / 2).collect::<Vec<_>>(), (n / 2 + 1..n).collect()];
                        let m = build::<Z3>(&raw).with_filtration(|x: usize| x).with_basis(Split(cut));
                        let cache = (&m).cache_cols();
                        for j in [n - 1, n - 2, n / 2 + 1, n - 1] {
                            let _ = (m.column(j).count(), cache.column(j).count(), (&m).consolidate().column(j).count(), (&m).build_bhcol(j).to_sorted_vec().len());
                        }
                        let rev = (&m).reverse();
                        let b = rev.basis();
                        for i in [0, 1, n / 2, n - 1] {
                            let _ = (*b).element(i);
                        }
                        let (v, _) = ClearedReductionMatrix::build_with_diagram(&m, (0..2).rev());
                        let (s, _) = standard_algo_with_diagram(&m, false);
                        for j in [n - 1, n / 2 + 1, 0] {
                            let _ = (v.column(j).count(), s.column(j).count(), v.col_is_cycle(j));
                        }
                        r.step(10);
                        Ok(())
                    },
                );
            }
        }
    });
}

pub fn c13(mc: &mut Mc) {
    let t = mc.thorough as usize;
    caller_panics(mc);
    misuse(mc);
    sizes(mc);
    threads(mc);
    field::<Z2>(mc);
    field::<Z3>(mc);
    field::<Z5>(mc);
    field::<Z7>(mc);
    field::<Z11>(mc);
    field::<Z13>(mc);
    views(mc, 3 + t);
    columns(mc);
    reductions::<Z2>(mc, 3 + t);
    reductions::<Z3>(mc, 3 + t);
    rips(mc, 3 + t);
}

fn main() {
    mc::main(&[("C13", c13)]);
}
