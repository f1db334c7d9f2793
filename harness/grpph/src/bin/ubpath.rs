//! C13 for path homology: no undefined behaviour.  Run under the Miri interpreter.
#![allow(dead_code)]
#[path = "pathcx/complex.rs"]
mod complex;
use complex::*;
use core_checks::tf::*;
use grpph_checks::dg::{Filt, Time};
use mc::*;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::*;
use std::cmp::Reverse;
use std::collections::BTreeSet;

fn case<F: TF>(r: &mut Rec, f: &Filt, e: &DigraphEdgeSet) {
    let n = f.len();
    let d = vec_filt(f);
    let cob = GrPPHCoboundary::<F, _>::build(&d, e, n as u16);
    let co = (&cob).reverse();
    let (v, dg) = ClearedReductionMatrix::build_with_diagram(&co, 0..=1);
    let b = cob.basis();
    let (b0, b1) = ((*b).in_dimension(0), (*b).in_dimension(1));
    let low: Vec<PathHomCell> = (0..b0.size()).map(|i| b0.element(i)).chain((0..b1.size()).map(|i| b1.element(i))).collect();
    let mut cells = BTreeSet::new();
    for c in &low {
        cells.extend(cob.column(*c).map(|x| x.1).filter(|x| x.dimension() == 2));
        let _ = cob.column_with_filtration(*c).count();
        let _ = (v.col_is_cycle(Reverse(*c)), product(&co, &v).column(Reverse(*c)).count());
        r.step(3);
    }
    let basis = PathHomSingleBasis(cells.iter().map(|c| (NotNan::new(0.0).unwrap(), *c)).collect());
    let bd = GrPPHBoundary::<F, _>::build(&d, e, basis);
    for c in &cells {
        let _ = (bd.column(*c).count(), bd.column_with_filtration(*c).count(), bd.filtration_value(*c));
        r.step(1);
    }
    let _ = standard_algo_with_diagram(&bd, false);
    r.outcome(&dg.pairings.len());
}

pub fn c13(mc: &mut Mc) {
    let t = mc.thorough;
    mc.family("path homology", "filtrations with times {none,1,2} on 2 nodes and {none,1} on 3 nodes with a mixed grounding set (thorough: all sets on 2 nodes): coboundary, boundary, bases, reductions", |fam| {
        let mut run = |n: usize, al: &[Time], sets: &[u64]| {
            words(al.len(), n * (n - 1), |w| {
                let f = filt_of(n, w, al);
                for s in sets {
                    fam.case(
                        || format!("{} set {s:b}", show(&f)),
                        |r| {
                            let e = set_of(n, *s);
                            r.state(&(f.iter().flatten().map(|x| x.map(f64::to_bits)).collect::<Vec<_>>(), *s));
                            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case::<Z3>(r, &f, &e)));
                            Ok(())
                        },
                    );
                }
            });
        };
        run(2, &[None, Some(1.0), Some(2.0)], if t { &[0, 1, 2, 3] } else { &[2] });
        run(3, &[None, Some(1.0)], &[0b010010]);
    });
    mc.family("path homology threads", "two threads at once building, reducing and reading coboundary and boundary matrices of 8 (thorough 64) filtrations on 3 nodes", |fam| {
        let mut k = 0;
        words(2, 6, |w| {
            k += 1;
            if !t && k % 8 != 5 {
                return;
            }
            let f = filt_of(3, w, &[None, Some(1.0)]);
            fam.case(
                || show(&f),
                |r| {
                    let e = set_of(3, 0b010010);
                    r.state(&w);
                    let d = vec_filt(&f);
                    let cob = GrPPHCoboundary::<Z3, _>::build(&d, &e, 3);
                    let go = || {
                        let b = cob.basis();
                        for i in 0..(*b).size() {
                            let c = (*b).element(i);
                            let _ = (cob.column(c).count(), cob.column_with_filtration(c).count());
                        }
                        let mine = GrPPHCoboundary::<Z3, _>::build(&d, &e, 3);
                        let _ = ClearedReductionMatrix::build_with_diagram((&mine).reverse(), 0..=1);
                    };
                    std::thread::scope(|s| {
                        s.spawn(go);
                        go();
                    });
                    r.step(2);
                    Ok(())
                },
            );
        });
    });
}

fn main() {
    mc::main(&[("C13", c13)]);
}
