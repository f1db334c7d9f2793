//! R06: the same complex in different presentations.
use crate::rc::*;
use crate::cx::*;
use crate::r01::residues;
use crate::run::*;
use core_checks::raw::*;
use core_checks::tf::*;
use mc::la::*;
use mc::*;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::implementors::*;
use phlite::matrices::*;
use rustc_hash::FxHashMap;
use std::cmp::Reverse;
use std::rc::Rc;
use std::sync::Arc;
use Dir::*;

// ------------------------------------------------------------------------------------------------------------- R06

/// Labels of another type.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Lab(u32, i64);
impl BasisElement for Lab {}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Fil(String, Reverse<u8>);
impl FiltrationValue for Fil {}
/// A basis of any label type, split by dimension.
#[derive(Clone)]
struct Sp<C>(Vec<Vec<C>>);
impl<C: BasisElement> ColBasis for Sp<C> {
    type ElemT = C;
    fn element(&self, mut index: usize) -> C {
        for part in &self.0 {
            if index < part.len() {
                return part[index].clone();
            }
            index -= part.len();
        }
        panic!("index within basis")
    }
    fn size(&self) -> usize {
        self.0.iter().map(|x| x.len()).sum()
    }
}
impl<C: BasisElement> SplitByDimension for Sp<C> {
    type SubBasisT = Vec<C>;
    fn in_dimension(&self, d: usize) -> &Vec<C> {
        &self.0[d]
    }
}

/// Both algorithms on one presentation.  `m` is the boundary or (not reversed) coboundary matrix with basis.
fn present<M>(what: &str, m: &M, s: &Setup, dir: Dir, id: &dyn Fn(&M::ColT) -> usize, r: &mut Rec) -> Res
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M::BasisT: SplitByDimension,
    M::CoefficientField: TF,
    M::ColT: std::hash::Hash + std::fmt::Debug + 'static,
    M::FiltrationT: 'static,
    phlite::columns::ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>: Clone,
    phlite::columns::ColumnEntry<Reverse<M::FiltrationT>, Reverse<M::RowT>, M::CoefficientField>: Clone,
{
    let top = s.cx.top();
    let (pairs, ess) = s.want(dir, 0, top);
    let order = s.dims(0, top).concat();
    let dims: Vec<usize> = (0..=top).collect();
    let rdims: Vec<usize> = (0..=top).rev().collect();
    let (o1, o2) = match dir {
        Hom => (run_std(m, false, id), run_clr(m, &rdims, id)),
        _ => {
            let rev = m.reverse();
            (run_std(&rev, true, &|x| id(&x.0)), run_clr(&rev, &dims, &|x| id(&x.0)))
        }
    };
    let group: Vec<usize> = if dir == Coh { order.iter().rev().copied().collect() } else { order };
    r.step(2 * s.cx.n());
    r.trace(2);
    judge(&format!("{what}, standard {dir:?}"), &o1, s.cols(dir), &[group], &s.rank(dir), s.cx.q(), false, &pairs, &ess)?;
    judge(&format!("{what}, clearing {dir:?}"), &o2, s.cols(dir), &clr_groups(s, dir, 0, top), &s.rank(dir), s.cx.q(), true, &pairs, &ess)
}

fn presentations<F: TF>(s: &Setup, r: &mut Rec) -> Res {
    let cx = s.cx;
    let n = cx.n();
    let split = Sp(s.dims(0, cx.top()));
    let me = |x: &usize| *x;
    for dir in [Hom, Coh] {
        let cols = s.labelled::<F>(dir, &modes(cx)[0]);
        let f = |x: usize| x;
        let base: VecVecMatrix<F, usize> = VecVecMatrix::from(&cols);
        let b = (&base).with_filtration(f).with_basis(split.clone());
        present("borrowed storage", &b, s, dir, &me, r)?;
        present("reference", &&b, s, dir, &me, r)?;
        present("cache", &(&b).cache_cols(), s, dir, &me, r)?;
        present("cache below filtration", &(&base).cache_cols().with_filtration(f).with_basis(split.clone()), s, dir, &me, r)?;
        present("consolidation", &(&b).consolidate(), s, dir, &me, r)?;
        present("reversed and unreversed", &MatrixOracle::unreverse((&b).reverse()), s, dir, &me, r)?;
        // term order and splitting
        let rcols: Vec<Vec<(F, usize)>> = cols.iter().map(|c| c.iter().rev().cloned().collect()).collect();
        present("terms in reverse order", &VecVecMatrix::from(rcols).with_filtration(f).with_basis(split.clone()), s, dir, &me, r)?;
        let rot: Vec<Vec<(F, usize)>> = cols
            .iter()
            .map(|c| {
                let mut c = c.clone();
                if c.len() > 1 {
                    c.rotate_left(1);
                }
                c
            })
            .collect();
        present("terms rotated", &VecVecMatrix::from(rot).with_filtration(f).with_basis(split.clone()), s, dir, &me, r)?;
        // every term t as t, x, t, -t, -x ... with all rows of that dimension appearing and cancelling
        let mut noisy: Vec<Vec<(F, usize)>> = vec![vec![]; n];
        for j in 0..n {
            let want_dim = if dir == Hom { cx.dim[j].checked_sub(1) } else { Some(cx.dim[j] + 1) };
            for i in (0..n).filter(|i| Some(cx.dim[*i]) == want_dim) {
                noisy[j].push((F::one(), i));
            }
            for (c, i) in &cols[j] {
                noisy[j].push((*c, *i));
                noisy[j].push((*c, *i));
                noisy[j].push((c.additive_inverse(), *i));
            }
            for i in (0..n).rev().filter(|i| Some(cx.dim[*i]) == want_dim) {
                noisy[j].push((F::one().additive_inverse(), i));
            }
        }
        let nm = VecVecMatrix::from(noisy);
        let nm = (&nm).with_filtration(f).with_basis(split.clone());
        present("repeated and cancelling terms", &nm, s, dir, &me, r)?;
        present("repeated terms, cached", &(&nm).cache_cols(), s, dir, &me, r)?;
        present("repeated terms, consolidated", &(&nm).consolidate(), s, dir, &me, r)?;
        present("repeated terms, consolidated, cached", &(&nm).consolidate().cache_cols(), s, dir, &me, r)?;
        // storage
        let hm: FxHashMap<usize, Vec<(F, usize)>> = cols.iter().cloned().enumerate().collect();
        let mv: MapVecMatrix<F, usize, usize> = MapVecMatrix::from(&hm);
        present("map storage", &mv.with_filtration(f).with_basis(split.clone()), s, dir, &me, r)?;
        let own = || -> VecVecMatrix<'static, F, usize> { VecVecMatrix::from(cols.clone()) };
        present("Rc", &Rc::new(own()).with_filtration(f).with_basis(split.clone()), s, dir, &me, r)?;
        present("Arc", &Arc::new(own()).with_filtration(f).with_basis(split.clone()), s, dir, &me, r)?;
        present("Box", &Box::new(own()).with_filtration(f).with_basis(split.clone()), s, dir, &me, r)?;
        let ident: VecVecMatrix<F, usize> = VecVecMatrix::from((0..n).map(|i| vec![(F::one(), i)]).collect::<Vec<_>>());
        present("product with identity", &product(&b, &ident).with_basis(split.clone()), s, dir, &me, r)?;
        present("identity times matrix", &product((&ident).with_filtration(f), &b), s, dir, &me, r)?;
        // other filtrations inducing the same order
        present("trivial filtration", &(&b).with_trivial_filtration(), s, dir, &me, r)?;
        present("f64", &(&b).with_filtration(|x: usize| NotNan::new(x as f64 * 1e-9 - 3.0).unwrap()), s, dir, &me, r)?;
        present("f32", &(&b).with_filtration(|x: usize| NotNan::new((x as f32).powi(3)).unwrap()), s, dir, &me, r)?;
        present("isize", &(&b).with_filtration(|x: usize| x as isize - 4), s, dir, &me, r)?;
        present("reversed usize", &(&b).with_filtration(|x: usize| Reverse(usize::MAX - x)), s, dir, &me, r)?;
        present("coarse", &(&b).with_filtration(|x: usize| x / 3), s, dir, &me, r)?;
        present("own type", &(&b).with_filtration(|x: usize| Fil("x".repeat(x / 2), Reverse(9 - (x % 2) as u8))), s, dir, &me, r)?;
        // other labels in the same order
        let big = |x: usize| usize::MAX - 100 + 2 * x.min(49);
        if n < 49 {
            let hm: FxHashMap<usize, Vec<(F, usize)>> =
                cols.iter().enumerate().map(|(j, c)| (big(j), c.iter().map(|(k, i)| (*k, big(*i))).collect())).collect();
            let bs = Sp(split.0.iter().map(|l| l.iter().map(|x| big(*x)).collect()).collect());
            let unbig = |x: &usize| (*x - (usize::MAX - 100)) / 2;
            present("huge labels", &MapVecMatrix::from(hm).with_filtration(|x: usize| x).with_basis(bs), s, dir, &unbig, r)?;
        }
        let neg = |x: usize| x as isize * 7 - 20;
        let hm: FxHashMap<isize, Vec<(F, isize)>> =
            cols.iter().enumerate().map(|(j, c)| (neg(j), c.iter().map(|(k, i)| (*k, neg(*i))).collect())).collect();
        let bs = Sp(split.0.iter().map(|l| l.iter().map(|x| neg(*x)).collect()).collect());
        present("negative labels", &MapVecMatrix::from(hm).with_trivial_filtration().with_basis(bs), s, dir, &|x: &isize| ((x + 20) / 7) as usize, r)?;
        let lab = |x: usize| Lab((x / 4) as u32, (x % 4) as i64 - 2);
        let hm: FxHashMap<Lab, Vec<(F, Lab)>> =
            cols.iter().enumerate().map(|(j, c)| (lab(j), c.iter().map(|(k, i)| (*k, lab(*i))).collect())).collect();
        let bs = Sp(split.0.iter().map(|l| l.iter().map(|x| lab(*x)).collect()).collect());
        let unlab = |x: &Lab| x.0 as usize * 4 + (x.1 + 2) as usize;
        present("own label type", &MapVecMatrix::from(hm).with_trivial_filtration().with_basis(bs), s, dir, &unlab, r)?;
        // labels in the opposite order, the filtration decides
        let opp = |x: usize| n - 1 - x;
        let mut oc: Vec<Vec<(F, usize)>> = vec![vec![]; n];
        for (j, c) in cols.iter().enumerate() {
            oc[opp(j)] = c.iter().map(|(k, i)| (*k, opp(*i))).collect();
        }
        let bs = Sp(split.0.iter().map(|l| l.iter().map(|x| opp(*x)).collect()).collect());
        present("opposite labels", &VecVecMatrix::from(oc).with_filtration(|x: usize| Reverse(x)).with_basis(bs), s, dir, &|x: &usize| opp(*x), r)?;
    }
    Ok(())
}

fn pres(s: &Setup, _all: bool, r: &mut Rec) -> Res {
    match s.cx.p {
        2 => presentations::<Z2>(s, r),
        3 => presentations::<Z3>(s, r),
        _ => presentations::<Q>(s, r),
    }
}

pub fn r06(mc: &mut Mc) {
    let t = mc.thorough;
    fam_graded(mc, 2, 6, 3, true, pres);
    fam_graded(mc, 3, 5, 2, true, pres);
    fam_blocks(mc, 2, &[3, 3, 2], true, pres);
    fam_blocks(mc, 3, &[2, 2, 2], true, pres);
    fam_graded(mc, 0, 4, 2, true, pres);
    if t {
        fam_graded(mc, 2, 7, 2, true, pres);
        fam_blocks(mc, 2, &[3, 3, 3], true, pres);
        fam_blocks(mc, 3, &[2, 3, 2], true, pres);
    }
    fam_named(mc, 2, pres);
    fam_named(mc, 3, pres);
    fam_named(mc, 0, pres);
    fam_wide_upto(mc, 2, if t { 300 } else { 60 }, pres);
    fam_big_upto(mc, 2, if t { 2000 } else { 400 }, pres);
    fam_big_upto(mc, 0, if t { 1000 } else { 250 }, pres);
}
