//! C08 filtration-enriched columns through wrapper stacks.
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::Sc;
use mc::*;
use phlite::fields::*;
use phlite::matrices::adaptors::MatrixWithBasis;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::*;
use std::cmp::Reverse;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------------------------------------------------- C08

/// Everything a filtered matrix with a basis shows.
struct Want<'a, C, R, FT> {
    cols: Vec<(C, Vec<(Sc, R)>)>,
    basis: Vec<C>,
    fil: &'a dyn Fn(&R) -> FT,
}

fn full<M>(what: &What, m: &M, w: &Want<M::ColT, M::RowT, M::FiltrationT>, exact: bool, r: &mut Rec) -> Res
where
    M: HasRowFiltration + HasColBasis,
    M::CoefficientField: TF,
    M::ColT: Debug,
    M::RowT: Debug,
    M::FiltrationT: Debug,
{
    for (c, l) in &w.cols {
        view(what, m, c.clone(), l, w.fil, exact)?;
        r.step(1);
    }
    let b = m.basis();
    let n = ColBasis::size(&*b);
    let got: Vec<_> = (0..n).map(|i| b.element(i)).collect();
    ensure_eq!(got, w.basis, "{what}: basis");
    Ok(())
}

macro_rules! layer {
    ($name:ident, $next:ident) => {
        /// Checks `m` and every further wrapper on it that must not change anything.
        fn $name<M>(what: &What, m: &M, w: &Want<M::ColT, M::RowT, M::FiltrationT>, exact: bool, r: &mut Rec) -> Res
        where
            M: HasRowFiltration + HasColBasis,
            M::CoefficientField: TF,
            M::ColT: Debug + Hash,
            M::RowT: Debug + Hash,
            M::FiltrationT: Debug,
        {
            full(what, m, w, exact, r)?;
            let n = |l| What(Some(what), l);
            let cached = m.cache_cols();
            $next(&n("cache_cols"), &cached, w, exact, r)?;
            full(&n("cache_cols read again"), &cached, w, exact, r)?;
            $next(&n("consolidate"), &m.consolidate(), w, false, r)?;
            $next(&n("with_basis"), &m.with_basis(w.basis.clone()), w, exact, r)?;
            let f = m.with_filtration(|x| (w.fil)(&x));
            $next(&n("with_filtration"), &f, w, exact, r)?;
            $next(&n("reverse.unreverse"), &MatrixOracle::unreverse(m.reverse()), w, exact, r)?;
            $next(
                &n("with_trivial_filtration.with_filtration"),
                &m.with_trivial_filtration().with_filtration(|x| (w.fil)(&x)),
                w,
                exact,
                r,
            )
        }
    };
}
layer!(layer3, layer2);
layer!(layer2, layer1);
layer!(layer1, full);

/// Three further wrappers on a matrix and its reversal.
#[inline(never)]
fn deep_stacks<F: TF>(raw: &Raw, w: &[usize], r: &mut Rec) -> Res {
    let m0 = build::<F>(raw);
    let fil = |x: &usize| w[*x];
    let idx: Vec<usize> = (0..raw.len()).collect();
    let want = Want { cols: raw.iter().cloned().enumerate().collect(), basis: idx.clone(), fil: &fil };
    let m = (&m0).with_filtration(|x: usize| w[x]);
    layer3(&What(None, "filtered"), &m, &want, true, r)?;
    let rcols: Vec<_> = raw.iter().enumerate().map(|(c, l)| (Reverse(c), rterms(l))).collect();
    let rfil = |x: &Reverse<usize>| Reverse(w[x.0]);
    let wr = Want { cols: rcols, basis: rv(&idx), fil: &rfil };
    layer2(&What(None, "reversed"), &(&m).reverse(), &wr, true, r)
}

/// All the stacks on one raw matrix.
#[inline(never)]
fn stacks<F: TF>(raw: &Raw, rights: &[Raw], w: &[usize], r: &mut Rec) -> Res {
    let n = raw.len();
    let m0 = build::<F>(raw);
    let fil = |x: &usize| w[*x];
    let f = |x: usize| w[x];
    let idx: Vec<usize> = (0..n).collect();
    let cols: Vec<_> = raw.iter().cloned().enumerate().collect();
    let want = Want { cols: cols.clone(), basis: idx.clone(), fil: &fil };
    let m = (&m0).with_filtration(f);
    layer1(&What(None, "filtered"), &m, &want, true, r)?;
    // pointers
    layer1(&What(None, "filtered Rc"), &Rc::new(build::<F>(raw)).with_basis(idx.clone()).with_filtration(f), &want, true, r)?;
    layer1(&What(None, "filtered Arc"), &Arc::new(build::<F>(raw)).with_filtration(f).with_basis(idx.clone()), &want, true, r)?;
    layer1(&What(None, "filtered Box"), &Box::new(build::<F>(raw)).with_filtration(f).with_basis(idx.clone()), &want, true, r)?;
    // a different filtration type and order put on top wins
    let over = |x: &usize| -(*x as isize);
    let wo = Want { cols: cols.clone(), basis: idx.clone(), fil: &over };
    layer1(&What(None, "filtration replaced"), &(&m).with_filtration(|x: usize| -(x as isize)), &wo, true, r)?;
    layer1(&What(None, "filtration replaced under a cache"), &(&m).cache_cols().with_filtration(|x: usize| -(x as isize)), &wo, true, r)?;
    let triv = |_: &usize| ();
    let wt = Want { cols: cols.clone(), basis: idx.clone(), fil: &triv };
    layer1(&What(None, "trivial filtration"), &(&m).with_trivial_filtration(), &wt, true, r)?;
    layer1(&What(None, "trivial filtration of consolidation"), &(&m).consolidate().with_trivial_filtration(), &wt, false, r)?;
    // a different basis
    let back: Vec<usize> = idx.iter().rev().copied().collect();
    let wb = Want { cols: cols.clone(), basis: back.clone(), fil: &fil };
    layer1(&What(None, "basis replaced"), &(&m).with_basis(back.clone()), &wb, true, r)?;
    layer1(&What(None, "basis replaced by constructor"), &MatrixWithBasis::new(&m, back.clone()), &wb, true, r)?;
    let w1 = Want { cols: cols.clone(), basis: vec![n - 1], fil: &fil };
    layer1(&What(None, "one-element basis"), &(&m).with_basis(vec![n - 1]).cache_cols(), &w1, true, r)?;
    // reversed
    let rcols: Vec<_> = cols.iter().map(|(c, l)| (Reverse(*c), rterms(l))).collect();
    let rfil = |x: &Reverse<usize>| Reverse(w[x.0]);
    let wr = Want { cols: rcols.clone(), basis: rv(&idx), fil: &rfil };
    layer1(&What(None, "reversed"), &(&m).reverse(), &wr, true, r)?;
    layer1(&What(None, "reversed cache"), &(&m).cache_cols().reverse(), &wr, true, r)?;
    layer1(&What(None, "reversed consolidation"), &(&m).consolidate().reverse(), &wr, false, r)?;
    layer1(&What(None, "reversed with basis"), &(&m).with_basis(idx.clone()).reverse(), &wr, true, r)?;
    let rtriv = |_: &Reverse<usize>| Reverse(());
    let wrt = Want { cols: rcols.clone(), basis: rv(&idx), fil: &rtriv };
    layer1(&What(None, "reversed trivial filtration"), &(&m).with_trivial_filtration().reverse(), &wrt, true, r)?;
    let rrcols: Vec<_> = rcols.iter().map(|(c, l)| (Reverse(*c), l.iter().map(|(k, x)| (*k, Reverse(*x))).collect())).collect();
    let rrfil = |x: &Reverse<Reverse<usize>>| Reverse(Reverse(w[x.0 .0]));
    let wrr = Want { cols: rrcols, basis: rv(&rv(&idx)), fil: &rrfil };
    layer1(&What(None, "reversed twice"), &(&m).reverse().reverse(), &wrr, true, r)?;
    // reversed matrix with its own filtration and basis on top
    let wro = Want { cols: rcols.clone(), basis: rv1(&idx), fil: &|x: &Reverse<usize>| x.0 };
    layer1(&What(None, "reversed, then filtered and based"), &(&m0).reverse().with_filtration(|x: Reverse<usize>| x.0).with_basis(rv1(&idx)), &wro, true, r)?;
    // dimensions
    for cut in cuts(&idx, 2) {
        let ms = (&m).with_basis(Split(cut.clone()));
        let ws = Want { cols: cols.clone(), basis: idx.clone(), fil: &fil };
        full(&What(None, "split basis"), &ms, &ws, true, r)?;
        for d in 0..2 {
            let wd = Want { cols: cols.clone(), basis: cut[d].clone(), fil: &fil };
            layer1(&What(None, "restricted"), &(&ms).sub_matrix_in_dimension(d), &wd, true, r)?;
            full(&What(None, "restricted cache"), &(&ms).cache_cols().sub_matrix_in_dimension(d), &wd, true, r)?;
            full(&What(None, "restricted consolidation"), &(&ms).consolidate().sub_matrix_in_dimension(d), &wd, false, r)?;
            full(&What(None, "restricted unreverse"), &MatrixOracle::unreverse((&ms).reverse()).sub_matrix_in_dimension(d), &wd, true, r)?;
            let wrd = Want { cols: rcols.clone(), basis: rv(&cut[d]), fil: &rfil };
            layer1(&What(None, "restricted reverse"), &(&ms).reverse().sub_matrix_in_dimension(d), &wrd, true, r)?;
        }
        let u = (&ms).reverse().using_col_basis_index();
        for (i, c) in idx.iter().rev().enumerate() {
            view(&"reversed, by index", &u, i, &rterms(&raw[*c]), &|x| Reverse(w[x.0]), true)?;
        }
    }
    // by index
    let u = (&m).with_basis(back.clone()).using_col_basis_index();
    let uc = (&m).with_basis(back.clone()).cache_cols().using_col_basis_index();
    let cu = (&m).with_basis(back.clone()).using_col_basis_index().consolidate();
    for (i, c) in back.iter().enumerate() {
        view(&"by basis index", &u, i, &raw[*c], &fil, true)?;
        view(&"cached, by basis index", &uc, i, &raw[*c], &fil, true)?;
        view(&"by basis index, consolidated", &cu, i, &raw[*c], &fil, false)?;
    }
    // products: the filtration of the left factor, the basis of the right one
    for right in rights {
        let rm = build::<F>(right);
        let p = |raw: &Raw| -> Vec<(usize, Vec<Term>)> {
            right
                .iter()
                .enumerate()
                .map(|(j, rc)| (j, rc.iter().flat_map(|(k, x)| raw[*x].iter().map(move |(c, row)| (c.mul(*k), *row))).collect()))
                .collect()
        };
        let pc = p(raw);
        let wp = Want { cols: pc.clone(), basis: (0..right.len()).collect(), fil: &fil };
        layer1(&What(None, "product"), &product(&m, &rm), &wp, true, r)?;
        full(&What(None, "product, right cached"), &product(&m, (&rm).cache_cols()), &wp, true, r)?;
        full(&What(None, "product, left cached"), &product((&m).cache_cols(), &rm), &wp, true, r)?;
        full(&What(None, "product, left consolidated"), &product((&m).consolidate(), &rm), &wp, false, r)?;
        full(&What(None, "product, right filtered otherwise"), &product(&m, (&rm).with_filtration(|x: usize| 100 - x)), &wp, true, r)?;
        full(&What(None, "product, left with another basis"), &product((&m).with_basis(vec![0usize]), &rm), &wp, true, r)?;
        let lb: Vec<usize> = (0..right.len()).rev().collect();
        let wpb = Want { cols: pc.clone(), basis: lb.clone(), fil: &fil };
        full(&What(None, "product, right with another basis"), &product(&m, (&rm).with_basis(lb.clone())), &wpb, true, r)?;
        let wpr = Want {
            cols: pc.iter().map(|(c, l)| (Reverse(*c), rterms(l))).collect(),
            basis: rv(&wp.basis),
            fil: &rfil,
        };
        layer1(&What(None, "product of reversed"), &product((&m).reverse(), (&rm).reverse()), &wpr, true, r)?;
        full(&What(None, "reversed product"), &product(&m, &rm).reverse(), &wpr, true, r)?;
        full(&What(None, "unreversed product of reversed"), &MatrixOracle::unreverse(product((&m).reverse(), (&rm).reverse())), &wp, true, r)?;
        if raw.len() == right.len() && raw.iter().flatten().all(|(_, x)| *x < n) {
            let s = sum(&m0, &m0);
            let sc: Vec<_> = cols.iter().map(|(c, l)| (*c, l.iter().chain(l.iter()).copied().collect::<Vec<_>>())).collect();
            let ws = Want { cols: sc, basis: idx.clone(), fil: &fil };
            layer1(&What(None, "sum, filtered and based"), &s.with_filtration(f).with_basis(idx.clone()), &ws, true, r)?;
        }
    }
    Ok(())
}

type StackFn = fn(&Raw, &[Raw], &[usize], &mut Rec) -> Res;

fn c08_family<F: TF>(mc: &mut Mc, rows: usize, ncols: usize, len: usize, label: &str, go: StackFn) {
    let cs = F::coeffs_small();
    let lists = term_lists(rows, &cs, len);
    let one = cs[0];
    let last = *cs.last().unwrap();
    let rights: Vec<Raw> = vec![
        vec![vec![(last, 0)], vec![(one, 1), (last, 0)], vec![]],
        vec![vec![(one, 1), (one, 1), (last, 0)], vec![(last, 1)]],
    ];
    mc.family(
        &format!("{label}-{}", F::NAME),
        &format!(
            "all matrices of {ncols} columns, term lists <= {len} over {rows} rows, coefficients {cs:?}, all weak orders of the rows as filtration"
        ),
        |fam| {
            let mut wos = vec![];
            weak_orders(rows, |w| wos.push(w.to_vec()));
            for w in &wos {
                words(lists.len(), ncols, |ix| {
                    let raw: Raw = ix.iter().map(|i| lists[*i].clone()).collect();
                    fam.case(
                        || format!("{} filtration {w:?} columns {raw:?}", F::NAME),
                        |r| {
                            r.state(&(F::NAME, w, &raw));
                            go(&raw, &rights, w, r)
                        },
                    );
                });
            }
        },
    );
}

pub fn c08(mc: &mut Mc) {
    let t = mc.thorough;
    let shallow = "stacks (about 300 of depth 1-3)";
    let deep = "stacks (all 250 of three transparent wrappers, plain and reversed)";
    c08_family::<Z2>(mc, 3, 2, if t { 4 } else { 3 }, shallow, stacks::<Z2>);
    c08_family::<Z3>(mc, 3, 2, if t { 3 } else { 2 }, shallow, stacks::<Z3>);
    c08_family::<Z3>(mc, 2, 2, if t { 3 } else { 2 }, deep, |a, _, c, d| deep_stacks::<Z3>(a, c, d));
    if t {
        c08_family::<Z3>(mc, 3, 2, 2, deep, |a, _, c, d| deep_stacks::<Z3>(a, c, d));
    }
    // larger columns
    let mut lens: Vec<usize> = (0..=120).collect();
    lens.extend(if t { 121..=300 } else { 255..=257 });
    lens.extend([511, 512, 513, 1023, 1024, 1025]);
    if t {
        lens.extend([2047, 2048, 2049, 4095, 4096, 4097, 8193]);
    }
    // one pass of transparent wrappers over very long columns
    mc.family("huge", "columns of up to 100000 terms (three shapes): the five transparent wrappers, a product and the reversal on a filtered matrix", |fam| {
        for n in [4095usize, 4096, 4097, 16385, 32769, 65535, 65536, 65537, 100_000] {
            for shape in 0..3 {
                fam.case(
                    || format!("length {n} shape {shape}"),
                    |r| {
                        let rows = n.max(1);
                        let raw: Raw = (0..2)
                            .map(|j| {
                                (0..n)
                                    .map(|i| {
                                        let row = match shape {
                                            0 => (i * 7 + j) % rows,
                                            1 => i / 300,
                                            _ => rows - 1 - i,
                                        };
                                        (Sc::int((i % 2 + 1) as i128, 3), row)
                                    })
                                    .collect()
                            })
                            .collect();
                        let m0 = build::<Z3>(&raw);
                        let w = |x: usize| x / 5;
                        let fil = |x: &usize| x / 5;
                        let want = Want { cols: raw.iter().cloned().enumerate().collect(), basis: vec![0, 1], fil: &fil };
                        layer1(&What(None, "filtered"), &(&m0).with_filtration(w), &want, true, r)?;
                        let rfil = |x: &Reverse<usize>| Reverse(x.0 / 5);
                        let wr = Want {
                            cols: raw.iter().enumerate().map(|(c, l)| (Reverse(c), rterms(l))).collect(),
                            basis: vec![Reverse(1), Reverse(0)],
                            fil: &rfil,
                        };
                        full(&What(None, "reversed"), &(&m0).with_filtration(w).reverse(), &wr, true, r)?;
                        let right = build::<Z3>(&vec![vec![(Sc::int(2, 3), 0)], vec![(Sc::int(1, 3), 1), (Sc::int(2, 3), 0)]]);
                        let two = Sc::int(2, 3);
                        let scaled: Vec<Term> = raw[0].iter().map(|(k, x)| (k.mul(two), *x)).collect();
                        let both: Vec<Term> = raw[1].iter().chain(&scaled).copied().collect();
                        let wp = Want { cols: vec![(0, scaled), (1, both)], basis: vec![0, 1], fil: &fil };
                        full(&What(None, "product"), &product((&m0).with_filtration(w), &right), &wp, true, r)?;
                        r.state(&(n, shape));
                        Ok(())
                    },
                );
            }
        }
    });
    mc.family("tall", "columns of every length 0..=120 and around 256, 512, 1024 (three shapes), filtrations row/7, 2000-row, constant", |fam| {
        for &n in &lens {
            for shape in 0..3 {
                fam.case(
                    || format!("length {n} shape {shape}"),
                    |r| {
                        let rows = n.max(121);
                        let raw: Raw = (0..3)
                            .map(|j| {
                                (0..n)
                                    .map(|i| {
                                        let row = match shape {
                                            0 => (i * 7 + j) % rows,
                                            1 => (i / 2) % rows,
                                            _ => rows - 1 - i,
                                        };
                                        (Sc::int((i % 2 + 1) as i128, 3), row)
                                    })
                                    .collect()
                            })
                            .collect();
                        let rights = vec![vec![vec![(Sc::int(2, 3), 0), (Sc::int(1, 3), 1)], vec![(Sc::int(1, 3), 2)], vec![]]];
                        for k in 0..3usize {
                            let w: Vec<usize> = (0..rows)
                                .map(|x| match k {
                                    0 => x / 7,
                                    1 => 20_000 - x,
                                    _ => 3,
                                })
                                .collect();
                            stacks::<Z3>(&raw, &rights, &w, r)?;
                        }
                        r.state(&(n, shape));
                        Ok(())
                    },
                );
            }
        }
    });
}


fn main() {
    mc::main(&[("C08", c08)]);
}
