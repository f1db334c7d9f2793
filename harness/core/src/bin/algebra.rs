//! C04 products and sums, C05 consolidation, C06 cache, C10 storage, C11 column comparison.
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::Sc;
use mc::*;
use phlite::fields::*;
use phlite::matrices::adaptors::WithCachedCols;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::*;
use phlite::matrices::*;
use phlite::reduction::{standard_algo, standard_algo_with_diagram, ClearedReductionMatrix};
use rustc_hash::FxHashMap;
use std::borrow::Cow;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

type Sums = BTreeMap<usize, Sc>;

fn mul(a: &Raw, col: &Sums) -> Sums {
    let mut out = vec![];
    for (j, c) in col {
        for (k, r) in &a[*j] {
            out.push((k.mul(*c), *r));
        }
    }
    sums(out)
}
fn add(a: &Sums, b: &Sums) -> Sums {
    sums(a.iter().chain(b.iter()).map(|(r, c)| (*c, *r)))
}
fn s(c: &[Term]) -> Sums {
    sums(c.iter().copied())
}
fn few<F: TF>() -> Vec<Sc> {
    match F::P {
        0 => vec![Sc::int(1, 0), Sc::new(-1, 2, 0)],
        2 => vec![Sc::int(1, 2)],
        3 => vec![Sc::int(1, 3), Sc::int(2, 3)],
        p => vec![Sc::int(2, p), Sc::int(p - 2, p)],
    }
}

/// Sizes around the powers of two up to 2^17.
fn huge_sizes(t: bool) -> Vec<usize> {
    let mut v = vec![];
    for k in 8..=if t { 18u32 } else { 16 } {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.push(100_000);
    v
}

/// A very long column.
fn huge_col(n: usize, shape: usize, p: i128) -> Vec<Term> {
    let c = |k: usize| Sc::int(if p == 0 { (k % 3) as i128 + 1 } else { (k as i128 % (p - 1).max(1)) + 1 }, p);
    match shape {
        // every row once, increasing / decreasing
        0 => (0..n).map(|i| (c(i), i)).collect(),
        1 => (0..n).rev().map(|i| (c(i), i)).collect(),
        // one row only
        2 => vec![(c(0), 1); n],
        // runs of 300 equal rows
        3 => (0..n).map(|i| (c(0), i / 300)).collect(),
        // all cancels but one
        4 => (0..n).map(|i| if i % 2 == 0 { (c(0), i / 2) } else { (c(0).neg(), i / 2) }).collect(),
        // few rows, interleaved
        _ => (0..n).map(|i| (c(i), i * i % 5)).collect(),
    }
}

// ------------------------------------------------------------------------------------------------------------- C04

/// Products with a very long left column, a very long right column, and sums of very long columns.
fn huge_products<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(&format!("huge-product-{}", F::NAME), &format!("matrices with columns of up to {} terms on the left, on the right and in sums, 6 shapes", sizes.last().unwrap()), |fam| {
        for &n in sizes {
            for shape in 0..6 {
                fam.case(
                    || format!("{} n={n} shape={shape}", F::NAME),
                    |r| {
                        let one = Sc::int(1, F::P);
                        let long = huge_col(n, shape, F::P);
                        // long left column, short right columns
                        let left = vec![long.clone(), vec![(one, 0), (one, 2)]];
                        let right = vec![vec![(one, 0)], vec![(one, 1), (one, 0), (one, 1)], vec![]];
                        let (l, m) = (build::<F>(&left), build::<F>(&right));
                        let p = product(&l, &m);
                        for (j, rc) in right.iter().enumerate() {
                            ensure_eq!(p.column(j).count(), rc.iter().map(|(_, x)| left[*x].len()).sum::<usize>(), "number of terms of long-left column {j}");
                            let (g, w) = (col_sums(&p, j), mul(&left, &s(rc)));
                            ensure!(g == w, "column {j} of (long column) * (short columns)");
                        }
                        // short left columns, long right column
                        let nrows = long.iter().map(|(_, x)| x + 1).max().unwrap_or(1);
                        let shortl: Raw = (0..nrows).map(|i| if i % 3 == 0 { vec![(one, i % 7), (one, i)] } else { vec![(one, i)] }).collect();
                        let ls = build::<F>(&shortl);
                        let rl = build::<F>(&vec![long.clone()]);
                        let q = product(&ls, &rl);
                        let w = mul(&shortl, &s(&long));
                        ensure!(col_sums(&q, 0) == w, "(short columns) * (long column)");
                        let c = terms(&(&q).consolidate(), 0);
                        ensure_eq!(c.len(), w.len(), "number of terms of the consolidated product");
                        // sums
                        let a = build::<F>(&vec![long.clone(), right[1].clone(), long.clone()]);
                        let braw = vec![right[1].clone(), long.clone(), huge_col(n, (shape + 1) % 6, F::P)];
                        let b = build::<F>(&braw);
                        let sm = sum(&a, &b);
                        let araw = [&long, &right[1], &long];
                        for j in 0..3 {
                            ensure_eq!(sm.column(j).count(), araw[j].len() + braw[j].len(), "number of terms of sum column {j}");
                            ensure!(col_sums(&sm, j) == add(&s(araw[j]), &s(&braw[j])), "column {j} of the sum");
                        }
                        r.step(8);
                        r.state(&(F::NAME, n, shape));
                        Ok(())
                    },
                );
            }
        }
    });
}

fn product_lists<F: TF>(mc: &mut Mc, llen: usize, rlen: usize) {
    let cs = few::<F>();
    let lcols = term_lists(2, &cs, llen);
    let rcols = term_lists(2, &cs, rlen);
    mc.family(
        &format!("product-{}", F::NAME),
        &format!("left 2x2 with term lists <= {llen}, every right column with term list <= {rlen}, coefficients {cs:?}; sums of the same columns"),
        |fam| {
            for a in &lcols {
                for b in &lcols {
                    fam.case(
                        || format!("{} left columns {a:?} | {b:?}, all right columns", F::NAME),
                        |r| {
                            let left = vec![a.clone(), b.clone()];
                            let l = build::<F>(&left);
                            let rm = build::<F>(&rcols);
                            let lf = (&l).with_filtration(|row| 5 - row);
                            let p = product(&l, &rm);
                            let pf = product(&lf, &rm);
                            let bs = elems(&*p.basis());
                            ensure_eq!(bs, (0..rcols.len()).collect::<Vec<_>>(), "basis of the product");
                            for (j, rc) in rcols.iter().enumerate() {
                                let want = mul(&left, &s(rc));
                                ensure_eq!(col_sums(&p, j), want, "column of L*R with right column {rc:?}");
                                let m: Sums = sums(
                                    phlite::matrix_col_product!(l, rm.column(j)).map(|(c, r): (F, usize)| (c.sc(), r)),
                                );
                                ensure_eq!(m, want, "matrix_col_product with {rc:?}");
                                let rich: Vec<_> = pf.column_with_filtration(j).collect();
                                for e in &rich {
                                    ensure_eq!(e.filtration_value, 5 - e.row_index, "enriched product column {rc:?}");
                                }
                                let got: Sums = sums(rich.iter().map(|e| (e.coeff.sc(), e.row_index)));
                                ensure_eq!(got, want, "enriched product column with right column {rc:?}");
                                r.step(3);
                                r.state(&(F::NAME, a, b, rc));
                            }
                            ensure_eq!(pf.filtration_value(1), 4, "filtration of product is that of the left factor");
                            Ok(())
                        },
                    );
                }
            }
        },
    );
    mc.family(&format!("sum-{}", F::NAME), &format!("every pair of term lists <= {rlen}"), |fam| {
        for a in &rcols {
            fam.case(
                || format!("{} sum of {a:?} and every column", F::NAME),
                |r| {
                    let l = build::<F>(&vec![a.clone(); rcols.len()]);
                    let rm = build::<F>(&rcols);
                    let x = sum(&l, &rm);
                    let y = sum(&rm, &l);
                    for (j, b) in rcols.iter().enumerate() {
                        let want = add(&s(a), &s(b));
                        ensure_eq!(col_sums(&x, j), want, "sum with {b:?}");
                        ensure_eq!(col_sums(&y, j), want, "sum of {b:?} and it");
                        r.step(2);
                        r.state(&(F::NAME, a, b));
                    }
                    Ok(())
                },
            );
        }
    });
}

fn nestings<F: TF>(mc: &mut Mc, coeffs: &[Sc]) {
    let cols = dense_cols(2, coeffs);
    let mut mats: Vec<Raw> = vec![];
    for a in &cols {
        for b in &cols {
            mats.push(vec![a.clone(), b.clone()]);
        }
    }
    mc.family(
        &format!("nested-{}", F::NAME),
        &format!("all triples of 2x2 matrices with entries 0 or {coeffs:?}: 11 expressions of products and sums"),
        |fam| {
            for a in &mats {
                for b in &mats {
                    fam.case(
                        || format!("{} A={a:?} B={b:?}, every C", F::NAME),
                        |r| {
                            let (ma, mb) = (build::<F>(a), build::<F>(b));
                            for c in &mats {
                                let mc_ = build::<F>(c);
                                for j in 0..2 {
                                    let (ca, cb, cc) = (s(&a[j]), s(&b[j]), s(&c[j]));
                                    let chk = |got: Sums, want: Sums, e: &str| -> Res {
                                        ensure_eq!(got, want, "{e} column {j} with C={c:?}");
                                        Ok(())
                                    };
                                    chk(col_sums(&product(product(&ma, &mb), &mc_), j), mul(a, &mul(b, &cc)), "(AB)C")?;
                                    chk(col_sums(&product(&ma, product(&mb, &mc_)), j), mul(a, &mul(b, &cc)), "A(BC)")?;
                                    chk(col_sums(&product(&ma, sum(&mb, &mc_)), j), mul(a, &add(&cb, &cc)), "A(B+C)")?;
                                    chk(
                                        col_sums(&product(sum(&ma, &mb), &mc_), j),
                                        add(&mul(a, &cc), &mul(b, &cc)),
                                        "(A+B)C",
                                    )?;
                                    chk(col_sums(&sum(product(&ma, &mb), &mc_), j), add(&mul(a, &cb), &cc), "AB+C")?;
                                    chk(col_sums(&sum(&ma, product(&mb, &mc_)), j), add(&ca, &mul(b, &cc)), "A+BC")?;
                                    chk(col_sums(&sum(sum(&ma, &mb), &mc_), j), add(&add(&ca, &cb), &cc), "(A+B)+C")?;
                                    chk(col_sums(&sum(&ma, sum(&mb, &mc_)), j), add(&ca, &add(&cb, &cc)), "A+(B+C)")?;
                                    chk(
                                        col_sums(&product((&ma).consolidate(), product(&mb, &mc_).consolidate()), j),
                                        mul(a, &mul(b, &cc)),
                                        "cons(A)cons(BC)",
                                    )?;
                                    chk(
                                        col_sums(&product((&ma).cache_cols(), sum(&mb, (&mc_).cache_cols())), j),
                                        mul(a, &add(&cb, &cc)),
                                        "cache(A)(B+cache(C))",
                                    )?;
                                    chk(
                                        sums(
                                            terms(&product((&ma).reverse(), (&mb).reverse()), Reverse(j))
                                                .into_iter()
                                                .map(|(c, r)| (c, r.0)),
                                        ),
                                        mul(a, &cb),
                                        "rev(A)rev(B)",
                                    )?;
                                    r.step(11);
                                    r.state(&(F::NAME, a, b, c, j));
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        },
    );
}

/// Structured square matrices of size n.
fn shape(n: usize, kind: usize, p: i128) -> Raw {
    let c = |k: usize| Sc::int(if p == 0 { (k % 3) as i128 + 1 } else { (k as i128 % (p - 1).max(1)) + 1 }, p);
    match kind {
        // cyclic shift
        0 => (0..n).map(|i| vec![(c(0), (i + 1) % n)]).collect(),
        // full columns
        1 => (0..n).map(|i| (0..n).map(|r| (c(i + r), r)).collect()).collect(),
        // diagonal
        2 => (0..n).map(|i| vec![(c(i), i)]).collect(),
        // strictly upper bidiagonal
        3 => (0..n).map(|i| if i == 0 { vec![] } else { vec![(c(i), i), (c(1), i - 1)] }).collect(),
        // one full column, the rest empty
        4 => (0..n).map(|i| if i == n / 2 { (0..n).rev().map(|r| (c(r), r)).collect() } else { vec![] }).collect(),
        // the same row repeated many times
        _ => (0..n).map(|i| (0..n).map(|k| (c(k), (i * k) % 2)).collect()).collect(),
    }
}

fn tall_products<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(&format!("tall-product-{}", F::NAME), &format!("6x6 pairs of structured matrices of size up to {}", sizes.last().unwrap()), |fam| {
        for &n in sizes {
            for k in 0..6 {
                for l in 0..6 {
                    fam.case(
                        || format!("{} n={n} shapes {k},{l}", F::NAME),
                        |r| {
                            let (a, b) = (shape(n, k, F::P), shape(n, l, F::P));
                            let (ma, mb) = (build::<F>(&a), build::<F>(&b));
                            let p = product(&ma, &mb);
                            let c = product(&ma, &mb).consolidate();
                            let t = sum(&ma, &mb);
                            for j in [0, 1, n / 2, n.saturating_sub(2), n - 1] {
                                if j >= n {
                                    continue;
                                }
                                let want = mul(&a, &s(&b[j]));
                                ensure_eq!(col_sums(&p, j), want, "product column {j}");
                                let ct = terms(&c, j);
                                ensure_eq!(ct.len(), want.len(), "number of terms of consolidated product column {j}");
                                ensure_eq!(sums(ct), want, "consolidated product column {j}");
                                ensure_eq!(col_sums(&t, j), add(&s(&a[j]), &s(&b[j])), "sum column {j}");
                                r.step(3);
                            }
                            r.state(&(F::NAME, n, k, l));
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

/// Rectangular shapes and non-usize indices: left rows, inner and outer index of different kinds.
fn rectangles<F: TF>(mc: &mut Mc) {
    mc.family(&format!("rectangles-{}", F::NAME), "all shapes r x k x c with r,k,c <= 4 and staircase patterns; map storage keyed by negative and reversed labels", |fam| {
        for rr in 0..5usize {
            for kk in 0..5usize {
                for cc in 0..5usize {
                    for pat in 0..8usize {
                        fam.case(
                            || format!("{} {rr}x{kk} times {kk}x{cc}, pattern {pat}", F::NAME),
                            |r| {
                                let co = F::coeffs();
                                let on = |i: usize, j: usize| (i * 3 + j * 5 + pat) % 3 != pat % 3;
                                let a: Raw = (0..kk)
                                    .map(|j| (0..rr).filter(|i| on(*i, j)).map(|i| (co[(i + j + pat) % co.len()], i)).collect())
                                    .collect();
                                let b: Raw = (0..cc)
                                    .map(|j| (0..kk).filter(|i| on(*i, j + 1)).map(|i| (co[(i * 2 + j) % co.len()], i)).collect())
                                    .collect();
                                // left: columns keyed by isize -i, rows usize; right: columns Reverse<usize>, rows isize
                                let lm: FxHashMap<isize, Vec<(F, usize)>> =
                                    stored::<F>(&a).into_iter().enumerate().map(|(i, c)| (-(i as isize), c)).collect();
                                let rm: FxHashMap<Reverse<usize>, Vec<(F, isize)>> = stored::<F>(&b)
                                    .into_iter()
                                    .enumerate()
                                    .map(|(i, c)| (Reverse(i), c.into_iter().map(|(k, r)| (k, -(r as isize))).collect()))
                                    .collect();
                                let (l, m) = (MapVecMatrix::from(&lm), MapVecMatrix::from(&rm));
                                let p = product(&l, &m);
                                for j in 0..cc {
                                    ensure_eq!(col_sums(&p, Reverse(j)), mul(&a, &s(&b[j])), "column {j}");
                                    r.step(1);
                                }
                                r.state(&(F::NAME, rr, kk, cc, pat));
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    });
}

pub fn c04(mc: &mut Mc) {
    let t = mc.thorough;
    let d = t as usize;
    product_lists::<Z2>(mc, 4, 6 + d);
    product_lists::<Z3>(mc, 2 + d, 4);
    product_lists::<Z5>(mc, 2 + d, 4);
    product_lists::<Z13>(mc, 2 + d, 3);
    product_lists::<Z11>(mc, 2 + d, 3);
    product_lists::<Q>(mc, 2 + d, 3 + d);
    nestings::<Z2>(mc, &Z2::coeffs());
    nestings::<Z3>(mc, &Z3::coeffs());
    if t {
        nestings::<Z5>(mc, &[Sc::int(2, 5), Sc::int(4, 5)]);
        nestings::<Q>(mc, &[Sc::int(3, 0), Sc::new(-2, 3, 0)]);
    }
    product_lists::<Wide>(mc, 2 + d, 3);
    nestings::<Wide>(mc, &[Sc::int(256, 65_537)]);
    nestings::<Z7>(mc, &[Sc::int(3, 7)]);
    if !t {
        nestings::<Q>(mc, &[Sc::new(-1, 2, 0)]);
    }
    rectangles::<Z3>(mc);
    rectangles::<Q>(mc);
    let sizes: Vec<usize> = if t { (1..=200).chain([255, 256, 257, 300, 511, 513]).collect() } else { (1..=66).chain([100, 127, 128, 129, 255, 256, 257]).collect() };
    tall_products::<Z2>(mc, &sizes);
    tall_products::<Z3>(mc, &sizes);
    tall_products::<Z7>(mc, &sizes);
    tall_products::<Q>(mc, &sizes[..sizes.len() / 2]);
    huge_products::<Z2>(mc, &huge_sizes(t));
    huge_products::<Z7>(mc, &huge_sizes(t));
    huge_products::<Q>(mc, &huge_sizes(t));
}

// ------------------------------------------------------------------------------------------------------------- C05

fn consolidated<M>(what: &str, m: &M, col: M::ColT, want: &BTreeMap<M::RowT, Sc>) -> Res
where
    M: MatrixOracle,
    M::CoefficientField: TF,
    M::RowT: std::fmt::Debug,
{
    let t = terms(m, col);
    let mut rows: Vec<_> = t.iter().map(|(_, r)| r.clone()).collect();
    rows.sort();
    let n = rows.len();
    rows.dedup();
    ensure!(rows.len() == n, "{what}: a row is listed twice in {:?}", t);
    let got: BTreeMap<_, _> = t.iter().map(|(c, r)| (r.clone(), *c)).collect();
    ensure_eq!(got, *want, "{what}: consolidated column");
    Ok(())
}

fn consolidate_lists<F: TF>(mc: &mut Mc, rows: usize, coeffs: &[Sc], len: usize) {
    let lists = term_lists(rows, coeffs, len);
    mc.family(
        &format!("lists-{}-{rows}", F::NAME),
        &format!("all {} term lists of length <= {len} over {rows} rows and coefficients {coeffs:?}; alone, in a product, in a sum, twice, reversed", lists.len()),
        |fam| {
            for chunk in lists.chunks(50) {
                fam.case(
                    || format!("{} columns {:?} .. {:?}", F::NAME, chunk.first().unwrap(), chunk.last().unwrap()),
                    |r| {
                        let cols: Raw = chunk.to_vec();
                        let m = build::<F>(&cols);
                        // a square factor to multiply with: all rows swapped and scaled
                        let k = *coeffs.last().unwrap();
                        let sq: Raw = (0..rows).map(|i| vec![(k, (i + 1) % rows), (k, 0), (k.neg(), 0)]).collect();
                        let mq = build::<F>(&sq);
                        let filt = (&m).with_filtration(|r| (r + 1) % 2);
                        let basis: Vec<usize> = (0..cols.len()).rev().collect();
                        let cons = (&filt).with_basis(basis.clone()).consolidate();
                        ensure_eq!(elems(&*cons.basis()), basis, "basis of the consolidated matrix");
                        let p = product(&mq, &m).consolidate();
                        let p2 = product((&mq).consolidate(), (&m).consolidate());
                        let d = sum(&m, &m).consolidate();
                        let twice = (&m).consolidate().consolidate();
                        let rev = (&m).reverse().consolidate();
                        for (j, c) in cols.iter().enumerate() {
                            let want = s(c);
                            consolidated(&format!("{c:?}"), &cons, j, &want)?;
                            view(&format!("{c:?} consolidated"), &cons, j, &want.iter().map(|(r, c)| (*c, *r)).collect::<Vec<_>>(), &|r: &usize| (*r + 1) % 2, true)?;
                            consolidated(&format!("{c:?} in product"), &p, j, &mul(&sq, &want))?;
                            ensure_eq!(col_sums(&p2, j), mul(&sq, &want), "{c:?} consolidated before product");
                            consolidated(&format!("{c:?} doubled"), &d, j, &add(&want, &want))?;
                            consolidated(&format!("{c:?} twice"), &twice, j, &want)?;
                            let rw = want.iter().map(|(r, c)| (Reverse(*r), *c)).collect();
                            consolidated(&format!("{c:?} reversed"), &rev, Reverse(j), &rw)?;
                            r.step(7);
                            r.trace(1);
                            r.state(&(F::NAME, c));
                        }
                        Ok(())
                    },
                );
            }
        },
    );
}

fn tall_consolidate<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(&format!("tall-{}", F::NAME), &format!("columns of up to {} terms, every row repeated m times for m <= 15, 3 orders", sizes.last().unwrap()), |fam| {
        for &n in sizes {
            for m in 1..=15usize {
                for order in 0..3 {
                    fam.case(
                        || format!("{} {n} rows, {m} copies, order {order}", F::NAME),
                        |r| {
                            let mut col = vec![];
                            for k in 0..n * m {
                                let row = match order {
                                    0 => k % n,
                                    1 => k / m,
                                    _ => n - 1 - (k * 7 % n),
                                };
                                col.push((Sc::int(1, F::P), row));
                            }
                            let mat = build::<F>(&vec![col.clone()]);
                            consolidated("tall column", &(&mat).consolidate(), 0, &s(&col))?;
                            r.step(n * m);
                            r.state(&(n, m, order));
                            Ok(())
                        },
                    );
                }
            }
        }
    });
}

fn huge_consolidate<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(&format!("huge-{}", F::NAME), &format!("columns of up to {} terms, 6 shapes, consolidated alone, in a sum with themselves, cached, reversed", sizes.last().unwrap()), |fam| {
        for &n in sizes {
            for shape in 0..6 {
                fam.case(
                    || format!("{} n={n} shape={shape}", F::NAME),
                    |r| {
                        let long = huge_col(n, shape, F::P);
                        let want = s(&long);
                        let m = build::<F>(&vec![long.clone()]);
                        let chk = |what: &str, t: Vec<Term>, want: &Sums| -> Res {
                            ensure_eq!(t.len(), want.len(), "{what}: number of terms");
                            let got: Sums = t.iter().map(|(c, r)| (*r, *c)).collect();
                            ensure!(got == *want, "{what}: coefficients of the consolidated column");
                            Ok(())
                        };
                        chk("alone", terms(&(&m).consolidate(), 0), &want)?;
                        chk("with filtration", terms(&(&m).with_filtration(|x: usize| x % 3).consolidate(), 0), &want)?;
                        let e: Vec<_> = (&m).with_filtration(|x: usize| x % 3).consolidate().column_with_filtration(0).map(|e| (e.filtration_value, e.coeff.sc(), e.row_index)).collect();
                        for (f, _, x) in &e {
                            ensure_eq!(*f, x % 3, "filtration value of row {x}");
                        }
                        chk("enriched", e.iter().map(|(_, c, x)| (*c, *x)).collect(), &want)?;
                        let d = add(&want, &want);
                        chk("doubled", terms(&sum(&m, &m).consolidate(), 0), &d)?;
                        chk("cached", terms(&(&m).consolidate().cache_cols(), 0), &want)?;
                        chk("reversed", terms(&(&m).reverse().consolidate(), Reverse(0)).into_iter().map(|(c, x)| (c, x.0)).collect(), &want)?;
                        r.step(6);
                        r.state(&(F::NAME, n, shape));
                        Ok(())
                    },
                );
            }
        }
    });
}

pub fn c05(mc: &mut Mc) {
    let t = mc.thorough as usize;
    consolidate_lists::<Z2>(mc, 3, &Z2::coeffs(), 10 + 2 * t);
    consolidate_lists::<Z2>(mc, 4, &Z2::coeffs(), 9 + t);
    consolidate_lists::<Z3>(mc, 3, &Z3::coeffs(), 8 + t);
    consolidate_lists::<Z5>(mc, 2, &Z5::coeffs(), 7 + t);
    consolidate_lists::<Z7>(mc, 2, &[Sc::int(1, 7), Sc::int(3, 7), Sc::int(4, 7), Sc::int(6, 7)], 6 + t);
    consolidate_lists::<Z13>(mc, 2, &[Sc::int(1, 13), Sc::int(6, 13), Sc::int(7, 13), Sc::int(12, 13)], 6 + t);
    consolidate_lists::<Wide>(mc, 2, &[1, 65_536, 256].map(|k| Sc::int(k, 65_537)), 5 + t);
    consolidate_lists::<Q>(mc, 2, &[Sc::int(1, 0), Sc::int(-1, 0), Sc::new(1, 2, 0), Sc::new(-3, 2, 0)], 6 + t);
    let sizes: Vec<usize> = if t == 1 { (1..=200).collect() } else { (1..=65).chain([100, 127, 128, 129, 200]).collect() };
    tall_consolidate::<Z2>(mc, &sizes);
    tall_consolidate::<Z7>(mc, &sizes);
    tall_consolidate::<Q>(mc, &sizes);
    huge_consolidate::<Z2>(mc, &huge_sizes(t == 1));
    huge_consolidate::<Z3>(mc, &huge_sizes(t == 1));
    huge_consolidate::<Z13>(mc, &huge_sizes(t == 1));
    huge_consolidate::<Q>(mc, &huge_sizes(t == 1));
}

// ------------------------------------------------------------------------------------------------------------- C06

/// A key whose hash always collides.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Coll(usize);
impl Hash for Coll {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
impl BasisElement for Coll {}

/// An oracle that counts how often each column is computed.
struct Counting<F, C> {
    cols: Vec<Vec<(F, usize)>>,
    hits: RefCell<Vec<usize>>,
    key: fn(C) -> usize,
}
impl<F: TF, C: BasisElement> MatrixOracle for Counting<F, C> {
    type CoefficientField = F;
    type ColT = C;
    type RowT = usize;
    fn column(&self, col: C) -> impl Iterator<Item = (F, usize)> {
        let j = (self.key)(col);
        self.hits.borrow_mut()[j] += 1;
        self.cols[j].iter().cloned()
    }
}
impl<F: TF, C: BasisElement> HasRowFiltration for Counting<F, C> {
    type FiltrationT = usize;
    fn filtration_value(&self, row: usize) -> usize {
        (row * 2 + 1) % 5
    }
}

fn cache_cols_data<F: TF>() -> Raw {
    let c = F::coeffs();
    let k = |i: usize| c[i % c.len()];
    vec![
        vec![],
        vec![(k(0), 2), (k(1), 0), (k(0), 2)],
        vec![(k(2), 1)],
        vec![(k(0), 0), (k(1), 1), (k(2), 2), (k(0), 3)],
    ]
}

fn interleavings<F: TF, C: BasisElement + Hash + std::fmt::Debug>(
    mc: &mut Mc,
    name: &str,
    depth: usize,
    slots: usize,
    mk: fn(usize) -> C,
    key: fn(C) -> usize,
) {
    // operations: open column j in the lowest free slot / next of slot / drop slot
    let raw = cache_cols_data::<F>();
    let js = [0usize, 1, 2];
    let nops = js.len() + 2 * slots;
    mc.family(
        &format!("cache-{}-{name}", F::NAME),
        &format!("all sequences of {depth} open(3 columns)/next/drop over {slots} live iterators"),
        |fam| {
            let mut prefixes = vec![];
            words(nops, 3, |w| prefixes.push(w.to_vec()));
            for pre in &prefixes {
                fam.case(
                    || format!("cache {} {name}: histories of length {depth} starting {pre:?} (0-2 open column 1..3, then next/drop of slot)", F::NAME),
                    |r| {
                        let mut err = Ok(());
                        words(nops, depth - 3, |rest| {
                            if err.is_err() {
                                return;
                            }
                            let h: Vec<usize> = pre.iter().chain(rest).copied().collect();
                            err = run_history::<F, C>(&raw, &h, slots, mk, key, r).map_err(|e| format!("history {h:?}: {e}"));
                        });
                        err
                    },
                );
            }
        },
    );
}

/// Runs one history; histories with an impossible operation stop there (their prefix was explored).
fn run_history<F: TF, C: BasisElement + Hash + std::fmt::Debug>(
    raw: &Raw,
    h: &[usize],
    slots: usize,
    mk: fn(usize) -> C,
    key: fn(C) -> usize,
    r: &mut Rec,
) -> Res {
    let oracle = Counting::<F, C> { cols: stored::<F>(raw), hits: RefCell::new(vec![0; raw.len()]), key };
    let cache = (&oracle).cache_cols();
    let mut live: Vec<Option<(Box<dyn Iterator<Item = (F, usize)> + '_>, usize, usize)>> = (0..slots).map(|_| None).collect();
    let mut ever = [false; 8];
    for (i, &op) in h.iter().enumerate() {
        if op < 3 {
            let Some(sl) = live.iter().position(|x| x.is_none()) else { return Ok(()) };
            let j = op + 1;
            live[sl] = Some((Box::new(cache.column(mk(j))), j, 0));
            ever[j] = true;
        } else {
            let sl = (op - 3) / 2;
            let Some((it, j, pos)) = &mut live[sl] else { return Ok(()) };
            if (op - 3) % 2 == 0 {
                let want = raw[*j].get(*pos).copied();
                let got = it.next().map(|(c, r)| (c.sc(), r));
                ensure_eq!(got, want, "step {i}: entry {} of column {}", *pos, *j);
                *pos += 1;
            } else {
                live[sl] = None;
            }
        }
        r.step(1);
        r.state(&(i, ever, live.iter().map(|x| x.as_ref().map(|(_, j, p)| (*j, *p))).collect::<Vec<_>>()));
    }
    // finish everything that is still open, in slot order
    for sl in live.iter_mut() {
        if let Some((it, j, pos)) = sl {
            let got: Vec<_> = it.map(|(c, r)| (c.sc(), r)).collect();
            ensure_eq!(got, raw[*j].get(*pos..).unwrap_or(&[]).to_vec(), "rest of column {}", *j);
        }
    }
    for (j, c) in raw.iter().enumerate() {
        ensure_eq!(terms(&cache, mk(j)), c.clone(), "column {j} afterwards");
    }
    for (j, n) in oracle.hits.borrow().iter().enumerate() {
        ensure!(*n <= 1, "column {j} of the wrapped matrix was computed {n} times");
    }
    ensure_eq!(cache.filtration_value(3), 2, "filtration value through the cache");
    r.trace(1);
    Ok(())
}

fn cache_algebra<F: TF>(mc: &mut Mc) {
    let co = F::coeffs_small();
    let cols = dense_cols(2, &co[..co.len().min(2)]);
    mc.family(
        &format!("algebra-{}", F::NAME),
        "all 2x2 matrices: products and sums in which one cache is read several times at once, caches of caches, before and after warming",
        |fam| {
            for a in &cols {
                for b in &cols {
                    fam.case(
                        || format!("{} matrix columns {a:?} | {b:?}", F::NAME),
                        |r| {
                            let raw = vec![a.clone(), b.clone()];
                            for warm in 0..4usize {
                                let oracle = Counting::<F, usize> { cols: stored::<F>(&raw), hits: RefCell::new(vec![0; 2]), key: |x| x };
                                let c = (&oracle).cache_cols();
                                for j in 0..2 {
                                    if warm >> j & 1 == 1 {
                                        let _ = terms(&c, j);
                                    }
                                }
                                let p = product(&c, &c);
                                let pp = product(&c, product(&c, &c));
                                let sm = sum(&c, product(&c, &c));
                                let cc = (&c).cache_cols();
                                let cp = product(&cc, &c).cache_cols();
                                for j in 0..2 {
                                    let v = s(&raw[j]);
                                    let v2 = mul(&raw, &v);
                                    ensure_eq!(col_sums(&p, j), v2, "C*C column {j}, warmed {warm}");
                                    ensure_eq!(col_sums(&pp, j), mul(&raw, &v2), "C*(C*C) column {j}, warmed {warm}");
                                    ensure_eq!(col_sums(&sm, j), add(&v, &v2), "C+C*C column {j}, warmed {warm}");
                                    ensure_eq!(col_sums(&cp, j), v2, "cached product of caches column {j}, warmed {warm}");
                                    let two: Vec<_> = c.column(j).zip(c.column(1 - j)).map(|((x, i), (y, k))| (x.sc(), i, y.sc(), k)).collect();
                                    let want: Vec<_> =
                                        raw[j].iter().zip(&raw[1 - j]).map(|((x, i), (y, k))| (*x, *i, *y, *k)).collect();
                                    ensure_eq!(two, want, "both columns read in parallel");
                                    ensure!(c.eq_on_col(&c, j), "cached column differs from itself");
                                    r.step(6);
                                }
                                ensure!(oracle.hits.borrow().iter().all(|n| *n <= 1), "columns computed {:?} times", oracle.hits.borrow());
                                r.state(&(F::NAME, a, b, warm));
                            }
                            Ok(())
                        },
                    );
                }
            }
        },
    );
}

/// Reductions that read a cached boundary matrix.
fn cache_reductions(mc: &mut Mc) {
    // boundary matrices of all graphs on 4 vertices with edges in all sub-orders of up to 4
    mc.family("reductions", "standard and clearing reduction of the cached boundary matrix of every ordered list of <= 5 of the 6 edges on 4 vertices", |fam| {
        let edges = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)];
        ordered_sublists(6, &mut |w| {
            if w.len() > 5 {
                return;
            }
            let w = w.to_vec();
            fam.case(
                || format!("edges {:?}", w.iter().map(|i| edges[*i]).collect::<Vec<_>>()),
                |r| {
                    let one = Sc::int(1, 3);
                    let mut raw: Raw = vec![vec![]; 4];
                    for i in &w {
                        raw.push(vec![(one.neg(), edges[*i].0), (one, edges[*i].1)]);
                    }
                    let n = raw.len();
                    let plain = build::<Z3>(&raw);
                    let oracle = Counting::<Z3, usize> { cols: stored::<Z3>(&raw), hits: RefCell::new(vec![0; n]), key: |x| x };
                    let basis = Split(vec![(0..4).collect(), (4..n).collect()]);
                    let cached = (&oracle).cache_cols().with_filtration(|r| r).with_basis(basis.clone());
                    let direct = (&plain).with_filtration(|r| r).with_basis(basis.clone());
                    let (v1, d1) = standard_algo_with_diagram(&cached, false);
                    let (v2, d2) = standard_algo_with_diagram(&direct, false);
                    ensure_eq!(d1.pairings, d2.pairings, "standard pairings with and without cache");
                    ensure_eq!(d1.essential, d2.essential, "standard essential with and without cache");
                    for j in 0..n {
                        ensure_eq!(col_sums(&v1, j), col_sums(&v2, j), "V column {j} with and without cache");
                    }
                    let v3 = standard_algo((&oracle).cache_cols().with_trivial_filtration().with_basis(basis.clone()));
                    let v4 = standard_algo((&plain).with_trivial_filtration().with_basis(basis.clone()));
                    for j in 0..n {
                        ensure_eq!(col_sums(&v3, j), col_sums(&v4, j), "V column {j}, trivial filtration");
                    }
                    let (_, c1) = ClearedReductionMatrix::build_with_diagram(&cached, [1, 0]);
                    let (_, c2) = ClearedReductionMatrix::build_with_diagram(&direct, [1, 0]);
                    ensure_eq!(c1.pairings, c2.pairings, "clearing pairings with and without cache");
                    ensure_eq!(c1.essential, c2.essential, "clearing essential with and without cache");
                    ensure!(oracle.hits.borrow().iter().all(|n| *n <= 2), "two caches computed columns {:?} times", oracle.hits.borrow());
                    r.step(4 * n);
                    r.state(&w);
                    Ok(())
                },
            );
        });
    });
}

fn cache_clone(mc: &mut Mc) {
    mc.family("clones", "a cache cloned before or after each column was read serves the same columns", |fam| {
        for when in 0..8usize {
            fam.case(
                || format!("clone with columns {when:03b} cached"),
                |r| {
                    let raw = cache_cols_data::<Z5>();
                    let m = build::<Z5>(&raw);
                    let c: WithCachedCols<_> = (&m).cache_cols();
                    for j in 0..3 {
                        if when >> j & 1 == 1 {
                            let _ = terms(&c, j + 1);
                        }
                    }
                    let d = c.clone();
                    for j in [3, 1, 2, 0, 1] {
                        ensure_eq!(terms(&d, j), raw[j], "column {j} of the clone");
                        ensure_eq!(terms(&c, j), raw[j], "column {j} of the original");
                        r.step(2);
                    }
                    ensure_eq!(elems(&*d.basis()), vec![0, 1, 2, 3], "basis through the cache");
                    r.state(&when);
                    Ok(())
                },
            );
        }
    });
}

fn tall_cache(mc: &mut Mc) {
    mc.family("tall", "n columns opened in all 4 orders while all earlier iterators stay alive, n up to 300", |fam| {
        for n in (1..=40).chain([64, 100, 129, 300]) {
            for order in 0..4 {
                fam.case(
                    || format!("n={n} order={order}"),
                    |r| {
                        let raw: Raw = (0..n).map(|i| (0..i % 5).map(|k| (Sc::int(1 + (k as i128 % 2), 3), (i + k) % n)).collect()).collect();
                        let oracle = Counting::<Z3, Coll> { cols: stored::<Z3>(&raw), hits: RefCell::new(vec![0; n]), key: |c: Coll| c.0 };
                        let c = (&oracle).cache_cols();
                        let ord = tall_order(n, order);
                        let mut its: Vec<_> = vec![];
                        for j in &ord {
                            let mut it = c.column(Coll(*j));
                            let first = it.next().map(|(c, r)| (c.sc(), r));
                            ensure_eq!(first, raw[*j].first().copied(), "first entry of column {j}");
                            its.push((*j, it));
                        }
                        for (j, it) in its.into_iter().rev() {
                            let rest: Vec<_> = it.map(|(c, r)| (c.sc(), r)).collect();
                            ensure_eq!(rest, raw[j].iter().skip(1).copied().collect::<Vec<_>>(), "rest of column {j}");
                            r.step(1);
                        }
                        ensure!(oracle.hits.borrow().iter().all(|k| *k == 1), "column computed twice");
                        r.state(&(n, order));
                        Ok(())
                    },
                );
            }
        }
    });
}

/// Very many columns through one cache.
fn huge_cache(mc: &mut Mc, sizes: &[usize]) {
    mc.family("huge", &format!("caches of up to {} columns: read in 4 orders, all read again, partly read again through a product; a column of that many terms read by three iterators at once", sizes.last().unwrap()), |fam| {
        for &n in sizes {
            for order in 0..4 {
                fam.case(
                    || format!("n={n} order={order}"),
                    |r| {
                        let raw: Raw = (0..n).map(|i| (0..i % 3).map(|k| (Sc::int(1 + (k as i128 % 2), 3), (i + k) % n)).collect()).collect();
                        let oracle = Counting::<Z3, usize> { cols: stored::<Z3>(&raw), hits: RefCell::new(vec![0; n]), key: |c| c };
                        let c = (&oracle).cache_cols();
                        for pass in 0..3 {
                            for j in tall_order(n, (order + pass) % 4) {
                                let mut it = c.column(j);
                                for want in &raw[j] {
                                    let (x, row) = it.next().ok_or(format!("column {j} too short in pass {pass}"))?;
                                    ensure!((x.sc(), row) == *want, "column {j} in pass {pass}");
                                }
                                ensure!(it.next().is_none(), "column {j} too long in pass {pass}");
                                ensure_eq!(oracle.hits.borrow()[j], 1, "number of times column {j} was computed");
                            }
                        }
                        ensure!(oracle.hits.borrow().iter().all(|k| *k == 1), "a column was computed twice");
                        r.step(3 * n);
                        // one very long column
                        let long = huge_col(n, order, 3);
                        let o2 = Counting::<Z3, Coll> { cols: stored::<Z3>(&vec![long.clone(), vec![]]), hits: RefCell::new(vec![0; 2]), key: |c: Coll| c.0 };
                        let c2 = (&o2).cache_cols();
                        let (mut a, b, mut d) = (c2.column(Coll(0)), c2.column(Coll(0)), c2.column(Coll(0)));
                        for i in 0..n / 2 {
                            let x = a.next().map(|(x, row)| (x.sc(), row));
                            ensure_eq!(x, Some(long[i]), "term {i} of the long column");
                        }
                        ensure_eq!(b.count(), n, "terms of the long column");
                        for i in 0..n {
                            let x = d.next().map(|(x, row)| (x.sc(), row));
                            ensure_eq!(x, Some(long[i]), "term {i} of the long column, third iterator");
                        }
                        ensure_eq!(a.count(), n - n / 2, "rest of the long column");
                        ensure_eq!(o2.hits.borrow()[0], 1, "times the long column was computed");
                        r.step(n);
                        r.state(&(n, order));
                        Ok(())
                    },
                );
            }
        }
    });
}

pub fn c06(mc: &mut Mc) {
    let t = 1 + mc.thorough as usize;
    huge_cache(mc, &huge_sizes(t == 2));
    cache_algebra::<Z2>(mc);
    cache_algebra::<Z3>(mc);
    cache_algebra::<Q>(mc);
    interleavings::<Z2, usize>(mc, "usize", 8 + t, 2, |j| j, |j| j);
    interleavings::<Z3, Coll>(mc, "colliding", 8 + t, 2, Coll, |c: Coll| c.0);
    interleavings::<Z5, Reverse<usize>>(mc, "three-live", 7 + t, 3, Reverse, |c: Reverse<usize>| c.0);
    cache_clone(mc);
    cache_reductions(mc);
    tall_cache(mc);
}

// ------------------------------------------------------------------------------------------------------------- C10

fn storage<F: TF>(mc: &mut Mc, rows: usize, len: usize, coeffs: &[Sc]) {
    let lists = term_lists(rows, coeffs, len);
    mc.family(
        &format!("storage-{}", F::NAME),
        &format!("all pairs of columns out of {} term lists (length <= {len}, {rows} rows): every storage and pointer form", lists.len()),
        |fam| {
            for a in &lists {
                fam.case(
                    || format!("{} first column {a:?}, every second column", F::NAME),
                    |r| {
                        for b in &lists {
                            let raw = vec![a.clone(), b.clone(), vec![], a.clone()];
                            let st = stored::<F>(&raw);
                            let owned = VecVecMatrix::from(st.clone());
                            let borrowed = VecVecMatrix::from(&st);
                            let cow = VecVecMatrix::from(Cow::Borrowed(&st));
                            let newed = VecVecMatrix::new(st.iter().map(|c| c.iter().cloned()));
                            let newed2 = VecVecMatrix::<F, usize>::new(st.clone());
                            // map storage with keys in another order
                            let key = |i: usize| 7 - 3 * i as isize;
                            let map: FxHashMap<isize, Vec<(F, usize)>> =
                                st.iter().enumerate().map(|(i, c)| (key(i), c.clone())).collect();
                            let mb = MapVecMatrix::from(&map);
                            let mo = MapVecMatrix::from(map.clone());
                            let rc = Rc::new(VecVecMatrix::from(st.clone()));
                            let arc = Arc::new(VecVecMatrix::from(st.clone()));
                            let bx = Box::new(VecVecMatrix::from(st.clone()));
                            let nest = Rc::new(Box::new(&owned));
                            for (j, want) in raw.iter().enumerate() {
                                let chk = |w: &str, got: Vec<Term>| -> Res {
                                    ensure_eq!(got, *want, "{w}: column {j} of {raw:?}");
                                    Ok(())
                                };
                                chk("owned list", terms(&owned, j))?;
                                chk("borrowed list", terms(&borrowed, j))?;
                                chk("cow list", terms(&cow, j))?;
                                chk("new(iterators)", terms(&newed, j))?;
                                chk("new(vectors)", terms(&newed2, j))?;
                                chk("borrowed map", terms(&mb, key(j)))?;
                                chk("owned map", terms(&mo, key(j)))?;
                                chk("&", terms(&&owned, j))?;
                                chk("&&", terms(&&&owned, j))?;
                                chk("Rc", terms(&rc, j))?;
                                chk("Arc", terms(&arc, j))?;
                                chk("Box", terms(&bx, j))?;
                                chk("Rc<Box<&>>", terms(&nest, j))?;
                                chk("Rc<map>", terms(&Rc::new(MapVecMatrix::from(&map)), key(j)))?;
                                r.step(14);
                            }
                            for bs in [elems(&*owned.basis()), elems(&*borrowed.basis()), elems(&*newed.basis()), elems(&*HasColBasis::basis(&&owned))] {
                                ensure_eq!(bs, vec![0, 1, 2, 3], "standard basis");
                            }
                            let f = (&rc).with_filtration(|r| 9 - r);
                            view(&"Rc with filtration", &f, 1, &raw[1], &|r| 9 - *r, true)?;
                            r.state(&(F::NAME, a, b));
                            r.trace(1);
                        }
                        Ok(())
                    },
                );
            }
        },
    );
}

fn ones<F: TF>(mc: &mut Mc) {
    mc.family(&format!("all-one-{}", F::NAME), "all lists of two bare-row columns of length <= 3 over 3 rows", |fam| {
        let mut ls = vec![];
        words_upto(3, 3, |w| ls.push(w.to_vec()));
        for a in &ls {
            for b in &ls {
                fam.case(
                    || format!("{} rows {a:?} | {b:?}", F::NAME),
                    |r| {
                        let m = VecVecMatrix::<F, usize>::new_all_one(vec![a.clone(), b.clone()]);
                        let mr = VecVecMatrix::<F, Reverse<isize>>::new_all_one(
                            [a, b].into_iter().map(|c| c.iter().map(|x| Reverse(-(*x as isize)))),
                        );
                        for (j, c) in [a, b].into_iter().enumerate() {
                            let got: Vec<(F, usize)> = m.column(j).collect();
                            ensure_eq!(got, c.iter().map(|r| (F::one(), *r)).collect::<Vec<_>>(), "column {j}");
                            let got: Vec<(F, Reverse<isize>)> = mr.column(j).collect();
                            ensure_eq!(got, c.iter().map(|r| (F::one(), Reverse(-(*r as isize)))).collect::<Vec<_>>(), "reversed rows, column {j}");
                        }
                        ensure_eq!(elems(&*m.basis()), vec![0, 1], "basis");
                        r.step(4);
                        r.state(&(a, b));
                        Ok(())
                    },
                );
            }
        }
    });
}

/// Very many columns and very long columns in every storage form.
fn huge_storage<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(&format!("huge-{}", F::NAME), &format!("stored matrices with a column of up to {0} terms (6 shapes) and with up to {0} columns, every storage form", sizes.last().unwrap()), |fam| {
        for &n in sizes {
            for shape in 0..6 {
                fam.case(
                    || format!("{} n={n} shape={shape}", F::NAME),
                    |r| {
                        let long = huge_col(n, shape, F::P);
                        let mut raw: Raw = vec![long; 1];
                        if shape < 3 {
                            raw.extend((1..n).map(|j| (0..j % 3).map(|k| (Sc::int(1, F::P), (j * 7 + k) % n)).collect()));
                        }
                        let st = stored::<F>(&raw);
                        let owned = VecVecMatrix::from(st.clone());
                        let borrowed = VecVecMatrix::from(&st);
                        let newed = VecVecMatrix::new(st.iter().map(|c| c.iter().cloned()));
                        let map: FxHashMap<usize, Vec<(F, usize)>> = st.iter().enumerate().map(|(i, c)| (i.wrapping_mul(0x9E37_79B9_7F4A_7C15), c.clone())).collect();
                        let mb = MapVecMatrix::from(&map);
                        let ones: VecVecMatrix<F, usize> = VecVecMatrix::new_all_one(raw.iter().map(|c| c.iter().map(|(_, x)| *x)));
                        ensure_eq!(ColBasis::size(&owned.basis()), raw.len(), "basis size");
                        ensure_eq!(ColBasis::size(&newed.basis()), raw.len(), "basis size of collected columns");
                        for (j, want) in raw.iter().enumerate() {
                            let same = |it: &mut dyn Iterator<Item = (F, usize)>, what: &str| -> Res {
                                let mut k = 0;
                                for (x, row) in it {
                                    ensure!(k < want.len() && (x.sc(), row) == want[k], "{what}: entry {k} of column {j}");
                                    k += 1;
                                }
                                ensure_eq!(k, want.len(), "{what}: length of column {j}");
                                Ok(())
                            };
                            same(&mut owned.column(j), "owned list")?;
                            same(&mut borrowed.column(j), "borrowed list")?;
                            same(&mut newed.column(j), "collected list")?;
                            same(&mut mb.column(j.wrapping_mul(0x9E37_79B9_7F4A_7C15)), "map")?;
                            let mut k = 0;
                            for (x, row) in ones.column(j) {
                                ensure!(k < want.len() && x == F::one() && row == want[k].1, "all-one: entry {k} of column {j}");
                                k += 1;
                            }
                            ensure_eq!(k, want.len(), "all-one: length of column {j}");
                            ensure_eq!(ColBasis::element(&*owned.basis(), j), j, "basis element");
                        }
                        r.step(5 * raw.len());
                        r.state(&(F::NAME, n, shape));
                        Ok(())
                    },
                );
            }
        }
    });
}

pub fn c10(mc: &mut Mc) {
    let t = 1 + mc.thorough as usize;
    huge_storage::<Z2>(mc, &huge_sizes(t == 2));
    huge_storage::<Z7>(mc, &huge_sizes(t == 2));
    huge_storage::<Q>(mc, &huge_sizes(t == 2));
    storage::<Z2>(mc, 3, 5 + t, &Z2::coeffs());
    storage::<Z3>(mc, 2, 4 + t, &Z3::coeffs());
    storage::<Z13>(mc, 2, 4, &[Sc::int(1, 13), Sc::int(12, 13)]);
    storage::<Wide>(mc, 2, 3, &Wide::coeffs_small());
    storage::<Q>(mc, 2, 3, &[Sc::int(-1, 0), Sc::new(3, 2, 0)]);
    ones::<Z2>(mc);
    ones::<Z3>(mc);
    ones::<Q>(mc);
    mc.family("standard-basis", "standard bases and stored matrices with n columns, n up to 1000", |fam| {
        for n in (0..=64).chain([100, 127, 128, 129, 255, 256, 257, 1000]) {
            fam.case(
                || format!("n={n}"),
                |r| {
                    let b = StandardBasis::new(n);
                    ensure_eq!(ColBasis::size(&b), n, "size");
                    ensure_eq!(elems(&b), (0..n).collect::<Vec<_>>(), "elements");
                    ensure_eq!(elems(&&b), (0..n).collect::<Vec<_>>(), "elements through a reference");
                    let one = Sc::int(1, 2);
                    let raw: Raw = (0..n).map(|i| (0..(i % 4)).map(|k| (one, (i * 31 + k) % n)).collect()).collect();
                    let m = build::<Z2>(&raw);
                    ensure_eq!(ColBasis::size(&m.basis()), n, "basis size of stored matrix");
                    let map: FxHashMap<usize, Vec<(Z2, usize)>> = stored::<Z2>(&raw).into_iter().enumerate().map(|(i, c)| (i * 1000 + 5, c)).collect();
                    let mm = MapVecMatrix::from(map);
                    for j in 0..n {
                        ensure_eq!(terms(&m, j), raw[j], "list column {j}");
                        ensure_eq!(terms(&mm, j * 1000 + 5), raw[j], "map column {j}");
                        r.step(2);
                    }
                    r.state(&n);
                    Ok(())
                },
            );
        }
    });
}

// ------------------------------------------------------------------------------------------------------------- C11

fn compare<F: TF>(mc: &mut Mc, rows: usize, coeffs: &[Sc], len: usize) {
    let lists = term_lists(rows, coeffs, len);
    mc.family(
        &format!("pairs-{}-{rows}", F::NAME),
        &format!("all ordered pairs out of {} term lists (length <= {len}, {rows} rows, coefficients {coeffs:?}), several pairs of matrix kinds", lists.len()),
        |fam| {
            let all: Vec<Sums> = lists.iter().map(|l| s(l)).collect();
            for (i, a) in lists.iter().enumerate() {
                let all = &all;
                let lists = &lists;
                fam.case(
                    || format!("{} column {a:?} against every column", F::NAME),
                    |r| {
                        let n = lists.len();
                        let x = build::<F>(&vec![a.clone(); n]);
                        let y = build::<F>(lists);
                        let xf = (&x).with_filtration(|r| 100 - r);
                        let yf = (&y).with_filtration(|r| r * r);
                        let ym = MapVecMatrix::from(stored::<F>(lists).into_iter().enumerate().collect::<FxHashMap<_, _>>());
                        let yc = (&y).consolidate();
                        let ycache = (&y).cache_cols();
                        let xr = (&x).reverse();
                        let yr = (&y).reverse();
                        for j in 0..n {
                            let want = all[i] == all[j];
                            let b = &lists[j];
                            ensure_eq!(x.eq_on_col(&y, j), want, "{a:?} == {b:?}");
                            ensure_eq!(y.eq_on_col(&x, j), want, "{b:?} == {a:?}");
                            ensure_eq!(xf.eq_on_col(&yf, j), want, "{a:?} == {b:?} with filtrations");
                            ensure_eq!((&xf).eq_on_col(&ym, j), want, "{a:?} == map {b:?}");
                            ensure_eq!(x.eq_on_col(&yc, j), want, "{a:?} == consolidated {b:?}");
                            ensure_eq!(ycache.eq_on_col(&x, j), want, "cached {b:?} == {a:?}");
                            ensure_eq!(xr.eq_on_col(&yr, Reverse(j)), want, "reversed {a:?} == {b:?}");
                            r.step(7);
                            r.outcome(&want);
                            r.state(&(F::NAME, a, b));
                        }
                        r.trace(7 * n);
                        Ok(())
                    },
                );
            }
        },
    );
}

fn tall_compare<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(&format!("tall-{}", F::NAME), &format!("columns of up to {} terms: equal up to order and cancellation, or differing in one chosen place", sizes.last().unwrap()), |fam| {
        for &n in sizes {
            for order in 0..4 {
                fam.case(
                    || format!("{} n={n} order={order}", F::NAME),
                    |r| {
                        let k = F::coeffs();
                        let base: Vec<Term> = (0..n).map(|i| (k[i % k.len()], i)).collect();
                        let ord = tall_order(n, order);
                        // same sum, other order, with cancelling extra terms
                        let mut eq: Vec<Term> = ord.iter().map(|i| base[*i]).collect();
                        eq.push((k[0], n + 3));
                        eq.insert(n / 2, (k[0].neg(), n + 3));
                        let mut cols = vec![eq.clone()];
                        for pos in [0, n / 3, n / 2, n - 1] {
                            // drop one term / add one term / change one coefficient
                            let mut d = eq.clone();
                            d.retain(|(_, r)| *r != pos);
                            cols.push(d);
                            let mut e = eq.clone();
                            e.push((k[0], pos));
                            cols.push(e);
                            let mut g = eq.clone();
                            g.push((k[k.len() - 1], n + 1 + pos));
                            cols.push(g);
                        }
                        let x = build::<F>(&vec![base.clone(); cols.len()]);
                        let y = build::<F>(&cols);
                        for (j, c) in cols.iter().enumerate() {
                            let want = s(c) == s(&base);
                            ensure_eq!(x.eq_on_col(&y, j), want, "variant {j}");
                            ensure_eq!(y.eq_on_col(&x, j), want, "variant {j}, swapped");
                            r.outcome(&want);
                            r.step(2);
                        }
                        r.state(&(F::NAME, n, order));
                        Ok(())
                    },
                );
            }
        }
    });
}

pub fn c11(mc: &mut Mc) {
    let t = mc.thorough as usize;
    compare::<Z2>(mc, 3, &Z2::coeffs(), 6 + t);
    compare::<Z3>(mc, 2, &Z3::coeffs(), 5 + t);
    if t == 1 {
        compare::<Z3>(mc, 3, &Z3::coeffs(), 4);
    }
    compare::<Z5>(mc, 2, &Z5::coeffs(), 3 + t);
    compare::<Z13>(mc, 2, &[Sc::int(1, 13), Sc::int(5, 13), Sc::int(12, 13)], 4);
    compare::<Wide>(mc, 2, &Wide::coeffs_small(), 4);
    compare::<Q>(mc, 2, &[Sc::int(1, 0), Sc::int(-1, 0), Sc::new(1, 2, 0)], 4);
    let mut sizes: Vec<usize> = if t == 1 { (1..=130).collect() } else { vec![1, 2, 3, 4, 5, 8, 16, 17, 33, 64, 65, 129] };
    sizes.extend(huge_sizes(t == 1));
    tall_compare::<Z2>(mc, &sizes);
    tall_compare::<Z7>(mc, &sizes);
    tall_compare::<Q>(mc, &sizes);
}

fn main() {
    mc::main(&[("C04", c04), ("C05", c05), ("C06", c06), ("C10", c10), ("C11", c11)]);
}
