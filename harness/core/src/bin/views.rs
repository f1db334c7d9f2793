//! C07 reversal, C09 basis views.
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::Sc;
use mc::*;
use phlite::fields::*;
use phlite::matrices::adaptors::{ReverseBasis, UnreverseBasis};
use phlite::matrices::combinators::product;
use phlite::matrices::implementors::StandardBasis;
use phlite::matrices::*;
use std::cmp::Reverse;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------------------------- C07

fn least(f: &[usize], col: &BTreeMap<usize, Sc>) -> Option<(usize, usize, Sc)> {
    col.iter().map(|(r, c)| (f[*r], *r, *c)).min()
}

fn reverse_entries<F: TF>(mc: &mut Mc, rows: usize, len: usize) {
    let cs = F::coeffs_small();
    let lists = term_lists(rows, &cs, len);
    mc.family(
        &format!("entries-{}", F::NAME),
        &format!("all columns given as term lists <= {len} over {rows} rows, coefficients {cs:?}, all weak orders of the rows as filtration: reverse, unreverse (method and wrapper), nested"),
        |fam| {
            let mut wos = vec![];
            weak_orders(rows, |w| wos.push(w.to_vec()));
            for w in &wos {
                for chunk in lists.chunks(40) {
                    fam.case(
                        || format!("{} filtration {w:?} columns {chunk:?}", F::NAME),
                        |r| {
                            let raw: Raw = chunk.to_vec();
                            let m = build::<F>(&raw);
                            let f = |x: usize| w[x];
                            let m = (&m).with_filtration(f);
                            let rev = (&m).reverse();
                            let rr = (&rev).reverse();
                            let un = MatrixOracle::unreverse(&rev);
                            let rur = (&un).reverse();
                            let uu = MatrixOracle::unreverse(MatrixOracle::unreverse(&rr));
                            let back: &_ = rev.unreverse();
                            let rev2 = (&m).reverse();
                            let own = rev2.unreverse();
                            let rp = product(&rev, (&m).reverse().unreverse().using_col_basis_index().reverse());
                            let _ = &rp;
                            for (j, l) in raw.iter().enumerate() {
                                let rl = rterms(l);
                                view(&"reverse", &rev, Reverse(j), &rl, &|x| Reverse(f(x.0)), true)?;
                                view(&"unreverse wrapper of reverse", &un, j, l, &|x| f(*x), true)?;
                                view(&"unreverse method of reverse", back, j, l, &|x| f(*x), true)?;
                                view(&"unreverse method of reverse", &own, j, l, &|x| f(*x), true)?;
                                view(&"reverse of unreverse of reverse", &rur, Reverse(j), &rl, &|x| Reverse(f(x.0)), true)?;
                                view(&"unreverse twice of reverse twice", &uu, j, l, &|x| f(*x), true)?;
                                let piv = rev.build_bhcol(Reverse(j)).pop_pivot().map(|e| (e.filtration_value.0, e.row_index.0, e.coeff.sc()));
                                ensure_eq!(piv, least(w, &sums(l.iter().copied())), "leading term of reversed column {l:?}");
                                r.step(7);
                                r.state(&(F::NAME, w, l));
                            }
                            Ok(())
                        },
                    );
                }
            }
        },
    );
}

fn reverse_bases(mc: &mut Mc, n: usize) {
    mc.family(
        "bases",
        &format!("all ordered sub-lists of {n} columns cut into 1..=3 dimensions (empty ones included): reverse/unreverse of bases, matrices and each dimension"),
        |fam| {
            let mut lists = vec![];
            ordered_sublists(n, &mut |l| lists.push(l.to_vec()));
            for l in &lists {
                fam.case(
                    || format!("basis {l:?}, every cut"),
                    |r| {
                        let raw: Raw = (0..n).map(|j| vec![(Sc::int(1, 3), j), (Sc::int(2, 3), (j + 1) % n)]).collect();
                        let m = build::<Z3>(&raw);
                        let m = (&m).with_filtration(|x| x / 2);
                        basis_is("reverse of list", &ColBasis::reverse(l), &rv(l))?;
                        basis_is("unreverse method", &ColBasis::reverse(l).unreverse(), l)?;
                        basis_is("unreverse trait method", &ColBasis::unreverse(ColBasis::reverse(l)), l)?;
                        basis_is("UnreverseBasis", &UnreverseBasis(ReverseBasis(l)), l)?;
                        basis_is("reverse of unreverse of reverse", &ColBasis::reverse(ColBasis::unreverse(ColBasis::reverse(l))), &rv(l))?;
                        let native: Vec<Reverse<usize>> = rv1(l);
                        let un_native: Vec<usize> = l.iter().rev().copied().collect();
                        basis_is("unreverse of a list of reversed elements", &ColBasis::unreverse(&native), &un_native)?;
                        let mb = (&m).with_basis(l.clone());
                        let rev = (&mb).reverse();
                        basis_is("basis of reverse", &*rev.basis(), &rv(l))?;
                        let un = MatrixOracle::unreverse(&rev);
                        basis_is("basis of unreverse of reverse", &*un.basis(), l)?;
                        basis_is("basis of unreverse method", &*(&mb).reverse().unreverse().basis(), l)?;
                        r.step(8);
                        for k in 1..=3 {
                            for cut in cuts(l, k) {
                                let s = Split(cut.clone());
                                let rs = ReverseBasis(&s);
                                basis_is("reverse of split basis", &rs, &rv(l))?;
                                let us = UnreverseBasis(ReverseBasis(&s));
                                basis_is("unreverse of reverse of split basis", &us, l)?;
                                let ms = (&m).with_basis(s.clone());
                                let rev = (&ms).reverse();
                                let un = MatrixOracle::unreverse(&rev);
                                basis_is("split basis of reverse", &*rev.basis(), &rv(l))?;
                                for (d, part) in cut.iter().enumerate() {
                                    let rp = rv(part);
                                    basis_is("dimension of reversed split basis", rs.in_dimension(d), &rp)?;
                                    basis_is("dimension of unreversed split basis", us.in_dimension(d), part)?;
                                    basis_is("dimension of basis of reverse", rev.basis().in_dimension(d), &rp)?;
                                    basis_is("dimension of basis of unreverse", un.basis().in_dimension(d), part)?;
                                    let sub = (&rev).sub_matrix_in_dimension(d);
                                    basis_is("reverse then restrict", &*sub.basis(), &rp)?;
                                    let sub2 = (&ms).sub_matrix_in_dimension(d).reverse();
                                    basis_is("restrict then reverse", &*sub2.basis(), &rp)?;
                                    let sub3 = (&un).sub_matrix_in_dimension(d);
                                    basis_is("unreverse then restrict", &*sub3.basis(), part)?;
                                    let sub4 = MatrixOracle::unreverse(&sub2);
                                    basis_is("restrict then reverse then unreverse", &*sub4.basis(), part)?;
                                    for c in part {
                                        view(&"restricted reverse", &sub, Reverse(*c), &rterms(&raw[*c]), &|x| Reverse(x.0 / 2), true)?;
                                        view(&"reversed restriction", &sub2, Reverse(*c), &rterms(&raw[*c]), &|x| Reverse(x.0 / 2), true)?;
                                        view(&"unreversed", &sub4, *c, &raw[*c], &|x| x / 2, true)?;
                                    }
                                    r.step(8);
                                }
                                r.state(&cut);
                            }
                        }
                        Ok(())
                    },
                );
            }
        },
    );
    mc.family("standard-basis", "StandardBasis of every size 0..=40 and lists 0..size, reversed and unreversed", |fam| {
        for n in 0..=40usize {
            fam.case(
                || format!("size {n}"),
                |r| {
                    let l: Vec<usize> = (0..n).collect();
                    basis_is("reverse of standard basis", &ColBasis::reverse(StandardBasis::new(n)), &rv(&l))?;
                    basis_is("unreverse", &ReverseBasis::unreverse(ColBasis::reverse(StandardBasis::new(n))), &l)?;
                    basis_is("unreverse", &ColBasis::unreverse(ColBasis::reverse(StandardBasis::new(n))), &l)?;
                    let m = build::<Z2>(&vec![vec![]; n]);
                    let mb = (&m).reverse();
                    basis_is("basis of reversed stored matrix", &*mb.basis(), &rv(&l))?;
                    r.state(&n);
                    r.step(4);
                    Ok(())
                },
            );
        }
    });
}

fn huge_sizes(t: bool) -> Vec<usize> {
    let mut v = vec![];
    for k in 6..=if t { 18u32 } else { 16 } {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.push(100_000);
    v
}

/// A basis list of n columns, and a way to cut it in three dimensions.
fn huge_list(n: usize, kind: usize) -> (Vec<usize>, Split) {
    let l = tall_order(n, kind);
    let a = [n / 3, 0, n / 2, 1][kind].min(n);
    let b = [2 * n / 3, n, n / 2 + 1, n - 1][kind].max(a).min(n);
    let s = Split(vec![l[..a].to_vec(), l[a..b].to_vec(), l[b..].to_vec()]);
    (l, s)
}

fn list_is<B: ColBasis>(what: &str, b: &B, want: &mut dyn Iterator<Item = B::ElemT>, n: usize) -> Res
where
    B::ElemT: std::fmt::Debug,
{
    ensure_eq!(ColBasis::size(b), n, "{what}: size");
    for (i, w) in want.enumerate() {
        let g = b.element(i);
        ensure!(g == w, "{what}: element {i} is {g:?}, expected {w:?}");
    }
    Ok(())
}

/// Reversal of very long columns and very large bases.
fn huge_reverse<F: TF>(mc: &mut Mc, sizes: &[usize]) {
    mc.family(
        &format!("huge-{}", F::NAME),
        &format!("columns of up to {0} terms in 4 row orders with 3 filtrations, and bases of up to {0} elements cut into dimensions in 4 ways, reversed and unreversed", sizes.last().unwrap()),
        |fam| {
            for &n in sizes {
                for kind in 0..4usize {
                    fam.case(
                        || format!("{} n={n} kind={kind}", F::NAME),
                        |r| {
                            let cs = F::coeffs_small();
                            let (l, split) = huge_list(n, kind);
                            let long: Vec<Term> = l.iter().map(|x| (cs[x % cs.len()], *x)).collect();
                            let m = build::<F>(&vec![long.clone()]);
                            for k in 0..3usize {
                                let f = |x: usize| match k {
                                    0 => x,
                                    1 => n - x,
                                    _ => x % 3,
                                };
                                let m = (&m).with_filtration(f);
                                let rev = (&m).reverse();
                                let un = MatrixOracle::unreverse(&rev);
                                let mut i = 0;
                                for e in rev.column_with_filtration(Reverse(0)) {
                                    ensure!(i < n && (e.coeff.sc(), e.row_index.0) == long[i] && e.filtration_value.0 == f(long[i].1), "entry {i} of the reversed column");
                                    i += 1;
                                }
                                ensure_eq!(i, n, "length of the reversed column");
                                let mut i = 0;
                                for e in un.column_with_filtration(0) {
                                    ensure!(i < n && (e.coeff.sc(), e.row_index) == long[i] && e.filtration_value == f(long[i].1), "entry {i} of the unreversed column");
                                    i += 1;
                                }
                                ensure_eq!(i, n, "length of the unreversed column");
                                let mut want: Vec<_> = long.iter().map(|(c, x)| (f(*x), *x, *c)).collect();
                                want.sort();
                                let got: Vec<_> = rev.build_bhcol(Reverse(0)).to_sorted_vec().iter().map(|e| (e.filtration_value.0, e.row_index.0, e.coeff.sc())).collect();
                                ensure!(got == want, "sorted reversed column");
                                want.reverse();
                                let got: Vec<_> = un.build_bhcol(0).to_sorted_vec().iter().map(|e| (e.filtration_value, e.row_index, e.coeff.sc())).collect();
                                ensure!(got == want, "sorted unreversed column");
                                r.step(4 * n);
                            }
                            let rl = || l.iter().rev().copied().map(Reverse);
                            list_is("ReverseBasis of list", &ReverseBasis(&l), &mut rl(), n)?;
                            list_is("unreverse of reverse", &UnreverseBasis(ReverseBasis(&l)), &mut l.iter().copied(), n)?;
                            list_is("reverse of standard basis", &ColBasis::reverse(StandardBasis::new(n)), &mut (0..n).rev().map(Reverse), n)?;
                            list_is("unreverse of reverse of standard basis", &ColBasis::unreverse(ColBasis::reverse(StandardBasis::new(n))), &mut (0..n), n)?;
                            let e = build::<F>(&vec![vec![]; n]);
                            let mb = (&e).with_basis(split.clone());
                            let rev = (&mb).reverse();
                            let un = MatrixOracle::unreverse(&rev);
                            for d in 0..3 {
                                let part = &split.0[d];
                                list_is("dimension of the reversed basis", rev.basis().in_dimension(d), &mut part.iter().rev().copied().map(Reverse), part.len())?;
                                list_is("dimension of the unreversed basis", un.basis().in_dimension(d), &mut part.iter().copied(), part.len())?;
                                let sub = (&rev).sub_matrix_in_dimension(d);
                                list_is("restriction of the reverse", &*sub.basis(), &mut part.iter().rev().copied().map(Reverse), part.len())?;
                            }
                            r.step(10);
                            r.state(&(F::NAME, n, kind));
                            Ok(())
                        },
                    );
                }
            }
        },
    );
}

fn huge_bases(mc: &mut Mc, sizes: &[usize]) {
    mc.family(
        "huge",
        &format!("bases of up to {} columns in 4 orders cut into dimensions in 4 ways: elements, reverse lookup, restriction, re-indexing, through references, attachment and reversal", sizes.last().unwrap()),
        |fam| {
            for &n in sizes {
                for kind in 0..4usize {
                    fam.case(
                        || format!("n={n} kind={kind}"),
                        |r| {
                            let (l, split) = huge_list(n, kind);
                            let raw: Raw = (0..n).map(|j| vec![(Sc::int(1 + j as i128 % 2, 3), j + 10)]).collect();
                            let m = build::<Z3>(&raw);
                            list_is("list", &l, &mut l.iter().copied(), n)?;
                            lookup("list", &l)?;
                            lookup("reversed list", &ReverseBasis(&l))?;
                            lookup("standard basis", &StandardBasis::new(n))?;
                            list_is("standard basis of stored matrix", &*m.basis(), &mut (0..n), n)?;
                            let mb = (&m).with_basis(l.clone());
                            list_is("attached list", &*mb.basis(), &mut l.iter().copied(), n)?;
                            let u = (&mb).using_col_basis_index();
                            let ru = (&mb).reverse().using_col_basis_index();
                            let su = (&m).using_col_basis_index();
                            let ms = (&m).with_basis(split.clone());
                            for (i, c) in l.iter().enumerate() {
                                ensure!(terms(&u, i) == raw[*c], "column at index {i}");
                                ensure!(terms(&ru, n - 1 - i) == rterms(&raw[*c]), "reversed column at index {}", n - 1 - i);
                                ensure!(terms(&su, i) == raw[i], "column at standard index {i}");
                            }
                            for d in 0..3 {
                                let part = &split.0[d];
                                let sub = (&ms).sub_matrix_in_dimension(d);
                                list_is("restriction", &*sub.basis(), &mut part.iter().copied(), part.len())?;
                                lookup("restriction", &*sub.basis())?;
                                let u = (&sub).using_col_basis_index();
                                for (i, c) in part.iter().enumerate() {
                                    ensure!(terms(&u, i) == raw[*c], "restricted column at index {i}");
                                }
                            }
                            r.step(5 * n);
                            r.state(&(n, kind));
                            Ok(())
                        },
                    );
                }
            }
        },
    );
}

/// Rips bases with many simplices.
fn huge_rips(mc: &mut Mc, cases: &[(usize, usize)]) {
    use phlite_rips::homology::build_rips_boundary_matrix;
    mc.family("huge-rips", &format!("flattened Rips bases of equidistant points, (points, dimension) in {cases:?}: elements against dimensions, reverse lookup, reversal"), |fam| {
        for &(n, max_dim) in cases {
            for shape in 0..2usize {
                fam.case(
                    || format!("n={n} max_dim={max_dim} shape={shape}"),
                    |r| {
                        let d: Vec<Vec<ordered_float::NotNan<f64>>> = (0..n)
                            .map(|i| (0..n).map(|j| ordered_float::NotNan::new(if shape == 0 { (i != j) as usize } else { i.abs_diff(j) } as f64).unwrap()).collect())
                            .collect();
                        let bd = build_rips_boundary_matrix::<Z2>(d, max_dim);
                        let b = bd.basis();
                        let mut flat = vec![];
                        for k in 0..=max_dim {
                            flat.extend(elems(b.in_dimension(k)));
                        }
                        list_is("flattened Rips basis", &*b, &mut flat.iter().copied(), flat.len())?;
                        lookup("flattened Rips basis", &*b)?;
                        list_is("reversed Rips basis", &*(&bd).reverse().basis(), &mut flat.iter().rev().copied().map(Reverse), flat.len())?;
                        let u = (&bd).using_col_basis_index();
                        for (i, c) in flat.iter().enumerate().step_by(37) {
                            ensure!(terms(&u, i) == terms(&bd, *c), "column at index {i}");
                        }
                        r.step(3 * flat.len());
                        r.state(&(n, max_dim, shape));
                        Ok(())
                    },
                );
            }
        }
    });
}

pub fn c07(mc: &mut Mc) {
    let t = mc.thorough;
    huge_reverse::<Z2>(mc, &huge_sizes(t));
    huge_reverse::<Z7>(mc, &huge_sizes(t));
    huge_reverse::<Q>(mc, &huge_sizes(t));
    reverse_entries::<Z2>(mc, 3, if t { 8 } else { 6 });
    reverse_entries::<Z3>(mc, 3, if t { 5 } else { 4 });
    reverse_entries::<Z7>(mc, 3, if t { 4 } else { 3 });
    reverse_entries::<Q>(mc, 3, if t { 4 } else { 3 });
    reverse_bases(mc, if t { 7 } else { 6 });
}

// ------------------------------------------------------------------------------------------------------------- C09

fn basis_views(mc: &mut Mc, n: usize) {
    mc.family(
        "lists",
        &format!("all ordered sub-lists of {n} columns, cut into 1..=3 dimensions: elements, size, reverse lookup, restriction, re-indexing; through references and reversal"),
        |fam| {
            let mut lists = vec![];
            ordered_sublists(n, &mut |l| lists.push(l.to_vec()));
            for l in &lists {
                fam.case(
                    || format!("basis {l:?}"),
                    |r| {
                        let raw: Raw = (0..n).map(|j| vec![(Sc::int(1, 3), j + 10), (Sc::int(2, 3), 3), (Sc::int(1, 3), 3)]).collect();
                        let m = build::<Z3>(&raw);
                        basis_is("list", l, l)?;
                        basis_is("reference to list", &&l, l)?;
                        lookup("list", l)?;
                        lookup("reference", &&l)?;
                        lookup("reverse", &ReverseBasis(l))?;
                        lookup("unreverse", &UnreverseBasis(ReverseBasis(l)))?;
                        let mb = (&m).with_basis(l.clone());
                        basis_is("attached basis", &*mb.basis(), l)?;
                        let rb = (&m).with_basis(l);
                        basis_is("attached reference", &*rb.basis(), l)?;
                        basis_is("through reference", &*(&&mb).basis(), l)?;
                        let u = (&mb).using_col_basis_index();
                        let ru = (&mb).reverse().using_col_basis_index();
                        for (i, c) in l.iter().enumerate() {
                            ensure_eq!(terms(&u, i), raw[*c], "column at basis index {i}");
                            ensure_eq!(terms(&ru, l.len() - 1 - i), rterms(&raw[*c]), "column of reverse at index");
                        }
                        r.step(10);
                        for k in 1..=3 {
                            for cut in cuts(l, k) {
                                let s = Split(cut.clone());
                                basis_is("split", &s, l)?;
                                basis_is("split by reference", &&s, l)?;
                                lookup("split", &s)?;
                                let ms = (&m).with_basis(s.clone());
                                let mr = (&m).with_basis(&s);
                                let mut all = vec![];
                                for (d, part) in cut.iter().enumerate() {
                                    basis_is("dimension", s.in_dimension(d), part)?;
                                    basis_is("dimension by reference", (&&s).in_dimension(d), part)?;
                                    let sub = (&ms).sub_matrix_in_dimension(d);
                                    basis_is("restricted", &*sub.basis(), part)?;
                                    basis_is("restricted twice by reference", &*(&sub).basis(), part)?;
                                    lookup("restricted", &*sub.basis())?;
                                    let subr = (&mr).sub_matrix_in_dimension(d);
                                    basis_is("restricted reference basis", &*subr.basis(), part)?;
                                    for c in 0..n {
                                        ensure_eq!(terms(&sub, c), raw[c], "restricted column {c}");
                                    }
                                    let su = (&sub).using_col_basis_index();
                                    for (i, c) in part.iter().enumerate() {
                                        ensure_eq!(terms(&su, i), raw[*c], "restricted column at index {i}");
                                    }
                                    let sr = (&sub).reverse();
                                    basis_is("restricted reversed", &*sr.basis(), &rv(part))?;
                                    all.extend(part.iter().copied());
                                    r.step(6);
                                }
                                ensure_eq!(&all, l, "concatenation of the dimensions");
                                r.state(&cut);
                            }
                        }
                        Ok(())
                    },
                );
            }
        },
    );
    mc.family("standard", "standard bases of every size 0..=300", |fam| {
        for n in 0..=300usize {
            fam.case(
                || format!("size {n}"),
                |r| {
                    let l: Vec<usize> = (0..n).collect();
                    basis_is("standard basis", &StandardBasis::new(n), &l)?;
                    lookup("standard basis", &StandardBasis::new(n))?;
                    lookup("reversed standard basis", &ColBasis::reverse(StandardBasis::new(n)))?;
                    let m = build::<Z2>(&vec![vec![(Sc::int(1, 2), 4)]; n]);
                    basis_is("basis of stored matrix", &*m.basis(), &l)?;
                    let u = (&m).using_col_basis_index();
                    for i in 0..n {
                        ensure_eq!(terms(&u, i), vec![(Sc::int(1, 2), 4)], "column at index {i}");
                    }
                    r.state(&n);
                    r.step(3);
                    Ok(())
                },
            );
        }
    });
}

fn rips_views(mc: &mut Mc, nmax: usize) {
    use phlite_rips::cohomology::build_rips_coboundary_matrix;
    use phlite_rips::homology::build_rips_boundary_matrix;
    use phlite_rips::build_rips_bases;
    mc.family(
        "rips",
        &format!("Rips bases of n<={nmax} points on a line / equidistant / in two clusters, max_dim 0..=n+1: flattening, dimensions, restriction, reversal, re-indexing"),
        |fam| {
            for n in 0..=nmax {
                for shape in 0..3usize {
                    for max_dim in 0..=n + 1 {
                        fam.case(
                            || format!("n={n} shape={shape} max_dim={max_dim}"),
                            |r| {
                                let d: Vec<Vec<ordered_float::NotNan<f64>>> = (0..n)
                                    .map(|i| {
                                        (0..n)
                                            .map(|j| {
                                                let x = match shape {
                                                    0 => i.abs_diff(j) as f64,
                                                    1 => (i != j) as usize as f64,
                                                    _ => (i % 2 != j % 2) as usize as f64,
                                                };
                                                ordered_float::NotNan::new(x).unwrap()
                                            })
                                            .collect()
                                    })
                                    .collect();
                                let b = build_rips_bases(&d, max_dim);
                                let parts: Vec<Vec<_>> = (0..=max_dim).map(|k| elems(b.in_dimension(k))).collect();
                                let flat: Vec<_> = parts.iter().flatten().copied().collect();
                                basis_is("flattened Rips basis", &b, &flat)?;
                                lookup("flattened Rips basis", &b)?;
                                basis_is("reverse of Rips basis", &ReverseBasis(&b), &rv(&flat))?;
                                let cob = build_rips_coboundary_matrix::<Z3>(d.clone(), max_dim);
                                let bd = build_rips_boundary_matrix::<Z3>(d.clone(), max_dim);
                                basis_is("basis of coboundary", &*cob.basis(), &flat)?;
                                basis_is("basis of boundary", &*bd.basis(), &flat)?;
                                let rc = (&cob).reverse();
                                basis_is("basis of reversed coboundary", &*rc.basis(), &rv(&flat))?;
                                for (k, part) in parts.iter().enumerate() {
                                    basis_is("restricted coboundary", &*(&cob).sub_matrix_in_dimension(k).basis(), part)?;
                                    basis_is("restricted boundary", &*(&bd).sub_matrix_in_dimension(k).basis(), part)?;
                                    basis_is("restricted reversed coboundary", &*(&rc).sub_matrix_in_dimension(k).basis(), &rv(part))?;
                                    basis_is("dimension of reversed basis", rc.basis().in_dimension(k), &rv(part))?;
                                    lookup("restricted boundary", &*(&bd).sub_matrix_in_dimension(k).basis())?;
                                    let sub = (&bd).sub_matrix_in_dimension(k);
                                    let u = (&sub).using_col_basis_index();
                                    for (i, c) in part.iter().enumerate() {
                                        ensure_eq!(terms(&u, i), terms(&bd, *c), "column at index {i}");
                                    }
                                    r.step(part.len() + 5);
                                }
                                let u = (&bd).using_col_basis_index();
                                for (i, c) in flat.iter().enumerate() {
                                    ensure_eq!(terms(&u, i), terms(&bd, *c), "column at index {i}");
                                }
                                r.state(&(n, shape, max_dim));
                                Ok(())
                            },
                        );
                    }
                }
            }
        },
    );
}

pub fn c09(mc: &mut Mc) {
    let t = mc.thorough;
    basis_views(mc, if t { 7 } else { 6 });
    rips_views(mc, if t { 12 } else { 10 });
    // Split elements are found in linear time
    huge_bases(mc, &huge_sizes(t));
    huge_rips(mc, &[(20, 3), (40, 2), (80, 2), (363, 1)]);

}

fn main() {
    mc::main(&[("C07", c07), ("C09", c09)]);
}
