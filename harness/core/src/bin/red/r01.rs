//! R01: the standard algorithm on arbitrary square matrices.
use crate::run::*;
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::*;
use mc::*;
use phlite::fields::*;
use phlite::matrices::*;
use phlite::reduction::standard_algo;
use std::collections::BTreeMap;

pub fn residues(raw: &[Vec<Term>]) -> Vec<Vec<(u64, usize)>> {
    raw.iter().map(|c| c.iter().map(|(k, i)| (k.residue(), *i)).collect()).collect()
}

/// Rank of every row in (filtration, index) order.
pub fn row_rank(w: &[usize]) -> Vec<usize> {
    let mut o: Vec<usize> = (0..w.len()).collect();
    o.sort_by_key(|i| (w[*i], *i));
    let mut r = vec![0; w.len()];
    for (k, i) in o.iter().enumerate() {
        r[*i] = k;
    }
    r
}

fn one<F: TF>(raw: &Raw, res: &[Vec<(u64, usize)>], w: &[usize], basis: &[usize], r: &mut Rec) -> Res {
    let m = build::<F>(raw);
    let m = (&m).with_filtration(|i: usize| w[i]).with_basis(basis.to_vec());
    let v = standard_algo(&m);
    let q = rank_prime(F::P);
    let mut out = Out { v: BTreeMap::new(), ess: vec![], pairs: vec![], cyc: BTreeMap::new() };
    for b in basis {
        let mut t: BTreeMap<usize, u64> = BTreeMap::new();
        for (c, i) in v.column(*b) {
            let e = t.entry(i).or_insert(0);
            *e = ((*e as u128 + c.sc().residue() as u128) % q as u128) as u64;
        }
        t.retain(|_, c| *c != 0);
        out.v.insert(*b, t);
    }
    r.step(basis.len());
    decomposition(&"standard algorithm", &out, res, &[basis.to_vec()], &row_rank(w), true, q)
        .map(|_| ())
        .map_err(|e| format!("filtration {w:?} basis {basis:?}: {e}"))
}

fn all_bases(n: usize, all: bool) -> Vec<Vec<usize>> {
    let mut out = vec![];
    if all {
        ordered_sublists(n, &mut |l| out.push(l.to_vec()));
    } else {
        out.push((0..n).collect());
        out.push((0..n).rev().collect());
    }
    out
}

/// Full n x n matrices with entries 0 or one of the coefficients.
fn full<F: TF>(mc: &mut Mc, n: usize, coeffs: &[Sc], all_orders: bool, bases: bool) {
    let cols = dense_cols(n, coeffs);
    let mut ws = vec![];
    if all_orders {
        weak_orders(n, |w| ws.push(w.to_vec()));
    } else {
        ws.push((0..n).collect());
        ws.push((0..n).rev().collect());
        ws.push(vec![0; n]);
        ws.push((0..n).map(|i| i % 2).collect());
    }
    let bs = all_bases(n, bases);
    mc.family(
        &format!("full-{}-{n}x{n}", F::NAME),
        &format!(
            "all {n}x{n} matrices with entries 0 or {coeffs:?}; {} filtrations of the rows; {} ordered column bases",
            if all_orders { "all weak-order" } else { "4" },
            if bases { "all" } else { "2" }
        ),
        |fam| {
            words(cols.len(), n, |ix| {
                fam.case(
                    || format!("{} matrix {:?}", F::NAME, ix.iter().map(|i| &cols[*i]).collect::<Vec<_>>()),
                    |r| {
                        let raw: Raw = ix.iter().map(|i| cols[*i].clone()).collect();
                        let res = residues(&raw);
                        for w in &ws {
                            for b in &bs {
                                one::<F>(&raw, &res, w, b, r)?;
                            }
                            r.state(&(F::NAME, &raw, w));
                        }
                        r.trace(ws.len() * bs.len());
                        Ok(())
                    },
                );
            });
        },
    );
}

/// Strictly upper triangular n x n matrices.
fn upper<F: TF>(mc: &mut Mc, n: usize, coeffs: &[Sc]) {
    let cols: Vec<Vec<Vec<Term>>> = (0..n).map(|j| dense_cols(j, coeffs)).collect();
    let ws: Vec<Vec<usize>> = vec![(0..n).collect(), vec![0; n], (0..n).map(|i| i / 2).collect(), (0..n).rev().collect()];
    mc.family(
        &format!("upper-{}-{n}", F::NAME),
        &format!("all strictly upper triangular {n}x{n} matrices with entries 0 or {coeffs:?}; 4 row filtrations; basis in index order"),
        |fam| {
            let total: usize = cols.iter().map(|c| c.len()).product();
            let decode = |mut k: usize| -> Raw {
                cols.iter()
                    .map(|c| {
                        let i = k % c.len();
                        k /= c.len();
                        c[i].clone()
                    })
                    .collect()
            };
            for k in 0..total {
                fam.case(
                    || format!("{} matrix {:?}", F::NAME, decode(k)),
                    |r| {
                        let raw = decode(k);
                        let res = residues(&raw);
                        let b: Vec<usize> = (0..n).collect();
                        for w in &ws {
                            one::<F>(&raw, &res, w, &b, r)?;
                        }
                        r.state(&(F::NAME, &raw));
                        r.trace(ws.len());
                        Ok(())
                    },
                );
            }
        },
    );
}

/// Columns given as arbitrary term lists: repeated and cancelling rows.
fn lists<F: TF>(mc: &mut Mc, n: usize, coeffs: &[Sc], len: usize) {
    let cols = term_lists(n, coeffs, len);
    mc.family(
        &format!("lists-{}-{n}", F::NAME),
        &format!("all {n}x{n} matrices whose columns are term lists of length <= {len} with coefficients {coeffs:?}; 3 filtrations, 2 bases"),
        |fam| {
            words(cols.len(), n, |ix| {
                fam.case(
                    || format!("{} columns {:?}", F::NAME, ix.iter().map(|i| &cols[*i]).collect::<Vec<_>>()),
                    |r| {
                        let raw: Raw = ix.iter().map(|i| cols[*i].clone()).collect();
                        let res = residues(&raw);
                        let up: Vec<usize> = (0..n).collect();
                        let down: Vec<usize> = (0..n).rev().collect();
                        for w in [&up, &down, &vec![0; n]] {
                            for b in [&up, &down] {
                                one::<F>(&raw, &res, w, b, r)?;
                            }
                        }
                        r.state(&(F::NAME, &raw));
                        r.trace(6);
                        Ok(())
                    },
                );
            });
        },
    );
}

fn tall_matrix(n: usize, shape: usize, p: i128) -> Raw {
    let k = |x: usize| {
        let m = if p == 0 { 3 } else { p as usize };
        let c = x % m;
        if c == 0 {
            1
        } else {
            c as i128
        }
    };
    let s = |x: i128| Sc::int(x, p);
    (0..n)
        .map(|j| match shape {
            // path graph edges as a square matrix
            0 => {
                if j == 0 {
                    vec![]
                } else {
                    vec![(s(1), j), (s(-1), j - 1)]
                }
            }
            // every column the same
            1 => (0..n).map(|i| (s(k(i + 1)), i)).collect(),
            // column j: rows >= j
            2 => (j..n).map(|i| (s(k(i + j)), i)).collect(),
            // column j: rows <= j
            3 => (0..=j).rev().map(|i| (s(k(i * j + 1)), i)).collect(),
            // all pivots collide on the last row, then unwind one row at a time
            4 => {
                let mut c = vec![(s(1), n - 1)];
                if j > 0 && j < n {
                    c.push((s(k(j)), n - 1 - j));
                }
                c
            }
            // multiplication table
            5 => (0..n).filter(|i| (i * j) % 5 != 0).map(|i| (s(k(i * j)), i)).collect(),
            // cyclic shift plus identity
            6 => vec![(s(1), j), (s(-1), (j + 1) % n)],
            7 => vec![(s(1), n - 1 - j)],
            // pivots 0, 1, 2, ... and a last column that meets them all
            8 => {
                if j + 1 < n {
                    vec![(s(1), j)]
                } else {
                    (0..n).map(|i| (s(k(i + 1)), i)).collect()
                }
            }
            // the same with a chain: the last column needs n - 1 additions one after another
            9 => {
                if j + 1 < n {
                    vec![(s(1), j + 1), (s(-1), j)]
                } else {
                    vec![(s(1), n - 1)]
                }
            }
            // half of the columns repeat the other half
            _ => vec![(s(1), j / 2), (s(-1), (j / 2 + n / 2) % n)],
        })
        .collect()
}

fn tall<F: TF>(mc: &mut Mc, sizes: &[usize], shapes: &[usize]) {
    mc.family(
        &format!("tall-{}-{}..{}", F::NAME, sizes[0], sizes[sizes.len() - 1]),
        &format!("structured matrices of sizes {:?}..={:?}, shapes {shapes:?}, 4 filtrations x 3 bases", sizes[0], sizes[sizes.len() - 1]),
        |fam| {
            for &n in sizes {
                for &shape in shapes {
                    fam.case(
                        || format!("{} shape {shape} size {n}", F::NAME),
                        |r| {
                            let raw = tall_matrix(n, shape, F::P);
                            let res = residues(&raw);
                            let up: Vec<usize> = (0..n).collect();
                            let down: Vec<usize> = (0..n).rev().collect();
                            let mix: Vec<usize> = (0..n).step_by(2).chain((0..n).skip(1).step_by(2)).collect();
                            for w in [&up, &down, &vec![7; n], &(0..n).map(|i| i * 5 % 11).collect()] {
                                for b in [&up, &down, &mix] {
                                    one::<F>(&raw, &res, w, b, r)?;
                                }
                            }
                            r.state(&(F::NAME, n, shape));
                            r.trace(12);
                            Ok(())
                        },
                    );
                }
            }
        },
    );
}

/// Matrices with tens of thousands of columns.
fn huge<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(&format!("huge-{}", F::NAME), &format!("sparse structured matrices of sizes {sizes:?}, shapes 0, 4, 6, 7, 9, 10; 2 filtrations x 2 bases"), |fam| {
        for &n in sizes {
            for shape in [0usize, 6, 7, 9, 10] {
                fam.case(
                    || format!("{} shape {shape} size {n}", F::NAME),
                    |r| {
                        let raw = tall_matrix(n, shape, F::P);
                        let res = residues(&raw);
                        let up: Vec<usize> = (0..n).collect();
                        let down: Vec<usize> = (0..n).rev().collect();
                        // the order in which nearly no additions are needed, and one in which few are
                        one::<F>(&raw, &res, &up, &up, r)?;
                        one::<F>(&raw, &res, &vec![7; n], &up, r)?;
                        if shape == 7 {
                            one::<F>(&raw, &res, &down, &down, r)?;
                        }
                        r.state(&(F::NAME, n, shape));
                        r.trace(2);
                        Ok(())
                    },
                );
            }
        }
    });
}

pub fn r01(mc: &mut Mc) {
    let t = mc.thorough;
    let z2 = Z2::coeffs();
    let z3 = Z3::coeffs();
    for n in 0..=3 {
        full::<Z2>(mc, n, &z2, true, true);
    }
    for n in 1..=2 {
        full::<Z3>(mc, n, &z3, true, true);
        full::<Z5>(mc, n, &Z5::coeffs(), true, true);
        full::<Z7>(mc, n, &Z7::coeffs(), true, true);
        full::<Q>(mc, n, &Q::coeffs(), true, true);
    }
    full::<Wide>(mc, 2, &Wide::coeffs(), true, true);
    full::<Z11>(mc, 2, &Z11::coeffs(), true, false);
    full::<Z13>(mc, 2, &Z13::coeffs(), true, false);
    full::<Z3>(mc, 3, &z3, true, t);
    full::<Z2>(mc, 4, &z2, t, false);
    for n in 4..=if t { 8 } else { 7 } {
        upper::<Z2>(mc, n, &z2);
    }
    upper::<Z3>(mc, 4, &z3);
    upper::<Z3>(mc, 5, &z3);
    upper::<Z5>(mc, 4, &Z5::coeffs());
    upper::<Z7>(mc, 4, &Z7::coeffs());
    upper::<Q>(mc, 4, &Q::coeffs_small());
    upper::<Wide>(mc, 4, &Wide::coeffs_small());
    lists::<Z2>(mc, 2, &z2, 6);
    lists::<Z2>(mc, 3, &z2, 3);
    lists::<Z3>(mc, 2, &z3, 4);
    lists::<Z7>(mc, 2, &Z7::coeffs_small(), 3);
    lists::<Wide>(mc, 2, &Wide::coeffs_small(), 3);
    lists::<Q>(mc, 2, &Q::coeffs_small(), if t { 3 } else { 2 });
    full::<Q>(mc, 3, &[Sc::int(1, 0), Sc::int(-1, 0), Sc::int(2, 0)], t, false);
    full::<Z5>(mc, 3, &Z5::coeffs_small(), false, false);
    let shapes: Vec<usize> = (0..11).collect();
    let sizes: Vec<usize> = (1..=if t { 66 } else { 40 }).collect();
    tall::<Z2>(mc, &sizes, &shapes);
    tall::<Z3>(mc, &sizes, &shapes);
    tall::<Z13>(mc, &sizes, &shapes);
    tall::<Wide>(mc, &sizes, &shapes);
    tall::<Q>(mc, &(1..=if t { 9 } else { 6 }).collect::<Vec<_>>(), &[0, 4, 6, 7, 8, 9, 10]);
    let large: Vec<usize> = if t { vec![80, 120, 129, 200, 255, 256, 257, 258, 300, 520, 1030] } else { vec![80, 130, 257, 300, 520] };
    tall::<Z2>(mc, &large, &[0, 4, 6, 7, 8, 9, 10]);
    tall::<Z3>(mc, &large, &[0, 4, 6, 7, 8, 9, 10]);
    tall::<Z13>(mc, &large, &[8, 9]);
    huge::<Z2>(mc, &[32_769, 65_535, 65_536, 65_537, 100_000]);
    huge::<Z7>(mc, &[65_537, 100_000]);
    huge::<Q>(mc, &[65_537]);
}
