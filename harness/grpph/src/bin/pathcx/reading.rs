//! C12 for path homology: reading a column has no effect on what is read next or at the same time.
use crate::complex::*;
use core_checks::pure::interleaved;
use core_checks::tf::*;
use grpph_checks::dg::Filt;
use mc::*;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::*;
use std::cmp::Reverse;
use std::collections::BTreeSet;

fn case<F: TF>(r: &mut Rec, f: &Filt, e: &DigraphEdgeSet, depth: usize) -> Res {
    let n = f.len();
    let d = vec_filt(f);
    let fresh = || GrPPHCoboundary::<F, _>::build(&d, e, n as u16);
    let cob = fresh();
    let low: Vec<PathHomCell> = (0..cob.basis().size()).map(|i| cob.basis().element(i)).collect();
    let cells: BTreeSet<PathHomCell> = low.iter().flat_map(|c| fresh().column(*c).map(|x| x.1).collect::<Vec<_>>()).collect();
    let cells: Vec<PathHomCell> = cells.into_iter().collect();
    let basis = PathHomSingleBasis(cells.iter().filter(|c| c.dimension() > 0).map(|c| (NotNan::new(0.0).unwrap(), *c)).collect());
    let bnd = GrPPHBoundary::<F, _>::build(&d, e, basis);
    r.state(&(f.iter().flatten().map(|x| x.map(f64::to_bits)).collect::<Vec<_>>(), show_set(e)));
    let k = &[0usize, 1, 2][..];
    let rev = (&cob).reverse();
    let cache = (&cob).cache_cols();
    let square = product(&bnd, &bnd);
    for i in 0..low.len() {
        let two = [low[i], low[(i + 1) % low.len()]];
        interleaved(&"coboundary", &|| &cob, &two, k, depth, r)?;
        interleaved(&"cached coboundary", &|| &cache, &two, &[0, 2], 2, r)?;
        interleaved(&"consolidated coboundary", &|| (&cob).consolidate(), &two, &[0, 1], 2, r)?;
        let back = two.map(Reverse);
        interleaved(&"reversed coboundary", &|| &rev, &back, k, 2, r)?;
    }
    for i in 0..cells.len() {
        let two = [cells[i], cells[(i + 1) % cells.len()]];
        interleaved(&"boundary", &|| &bnd, &two, k, depth, r)?;
        interleaved(&"squared boundary", &|| &square, &two, k, 2, r)?;
    }
    Ok(())
}

pub fn c12(mc: &mut Mc) {
    let t = mc.thorough;
    let deep = if t { 4 } else { 3 };
    mc.family("path homology", &format!("larger filtrations with mixed and full grounding sets over Z/3: coboundary and boundary columns, bare, cached, consolidated, reversed, squared; all histories of <= {deep} operations (2 for the wrappers and beyond 5 nodes) on two readers of neighbouring columns"), |fam| {
        let fs = structured();
        let m = if t { fs.len() } else { 14 };
        for f in fs.into_iter().take(m) {
            fam.case(
                || show(&f),
                |r| {
                    let depth = if f.len() == 5 { deep } else { 2 };
                    for e in [set_of(f.len(), 0x5a5a5), set_of(f.len(), u64::MAX)] {
                        case::<Z3>(r, &f, &e, depth)?;
                    }
                    Ok(())
                },
            );
        }
    });
}
