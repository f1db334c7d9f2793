//! C14 for path homology: several threads at once.
#![allow(dead_code)]
#[path = "pathcx/complex.rs"]
mod complex;
use complex::*;
use core_checks::conc::*;
use core_checks::tf::TF;
use core_checks::user::Y5;
use phlite::fields::*;
use grpph_checks::dg::{Filt, Time};
use mc::sched::*;
use mc::*;
use ordered_float::NotNan;
use phlite::matrices::combinators::product;
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::*;
use std::cmp::Reverse;
use std::collections::BTreeSet;

/// A user's filtration, which lets another thread take over when it is asked for a time.
#[derive(Clone, Copy)]
struct Uf<'a>(&'a Filt);
impl DigraphFiltration for Uf<'_> {
    fn edge_time(&self, s: &u16, t: &u16) -> Option<NotNan<f64>> {
        point(TIME);
        self.0[*s as usize][*t as usize].map(|x| NotNan::new(x).unwrap())
    }
}

fn filtrations(t: bool) -> Vec<Filt> {
    let al: [Time; 3] = [None, Some(1.0), Some(2.0)];
    let mut v = vec![];
    words(2, 6, |w| {
        if w.iter().sum::<usize>() >= 2 {
            let x: Vec<usize> = w.iter().enumerate().map(|(i, k)| k * (1 + i % 2)).collect();
            v.push(filt_of(3, &x, &al));
        }
    });
    // a source and a target joined through two middle nodes
    for w in 0..if t { 16 } else { 4usize } {
        for s in [None, Some(1.5), Some(3.0)] {
            let mut f = vec![vec![None; 4]; 4];
            for (i, (a, b)) in [(0, 1), (2, 3), (0, 2), (1, 3)].into_iter().enumerate() {
                f[a][b] = Some(1.0 + (w >> i & 1) as f64);
            }
            f[0][3] = s;
            f[3][0] = s.map(|_| 1.0);
            v.push(f);
        }
    }
    v
}

fn diagram(d: Uf, e: &DigraphEdgeSet, clearing: bool) -> (Vec<(PathHomCell, PathHomCell)>, Vec<PathHomCell>) {
    let cob = GrPPHCoboundary::<Y5, _>::build(d, e, d.0.len() as u16);
    let m = (&cob).reverse();
    let dg = if clearing { ClearedReductionMatrix::build_with_diagram(&m, 0..=1).1 } else { standard_algo_with_diagram(&m, true).1 };
    let mut p: Vec<_> = dg.pairings.iter().map(|(a, b)| (a.0, b.0)).collect();
    let mut l: Vec<_> = dg.essential.iter().map(|a| a.0).collect();
    p.sort();
    l.sort();
    (p, l)
}

/// Everything there is to read of the matrices of a filtration, or one of the diagrams.
fn whole<F: TF, D: DigraphFiltration + Copy>(d: D, e: &DigraphEdgeSet, n: u16, task: usize) -> Vec<String> {
    let cob = GrPPHCoboundary::<F, _>::build(d, e, n);
    let low: Vec<PathHomCell> = (0..cob.basis().size()).map(|i| cob.basis().element(i)).collect();
    let mut out = vec![];
    match task {
        0 | 3 => {
            let mut cells = BTreeSet::new();
            for c in &low {
                point(STEP);
                let mut l: Vec<String> = cob.column_with_filtration(*c).map(|x| format!("{:?} {:?} {:?}", x.filtration_value, x.row_index, x.coeff.sc())).collect();
                cells.extend(cob.column(*c).map(|x| x.1));
                l.sort();
                out.push(format!("{c:?}: {l:?}"));
            }
            if task == 3 {
                out.clear();
                let basis = PathHomSingleBasis(cells.iter().map(|c| (NotNan::new(0.0).unwrap(), *c)).collect());
                let bnd = GrPPHBoundary::<F, _>::build(d, e, basis);
                for c in &cells {
                    point(STEP);
                    let mut l: Vec<String> = bnd.column_with_filtration(*c).map(|x| format!("{:?} {:?} {:?}", x.filtration_value, x.row_index, x.coeff.sc())).collect();
                    l.sort();
                    out.push(format!("{c:?}: {l:?}"));
                }
            }
        }
        _ => {
            let m = (&cob).reverse();
            let dg = if task == 1 { ClearedReductionMatrix::build_with_diagram(&m, 0..=1).1 } else { standard_algo_with_diagram(&m, true).1 };
            out.extend(dg.pairings.iter().map(|(a, b)| format!("{:?} {:?}", a.0, b.0)));
            out.extend(dg.essential.iter().map(|a| format!("{:?}", a.0)));
            out.sort();
        }
    }
    out
}

fn c14(mc: &mut Mc) {
    pin(mc.shard as u64, mc.thorough);
    let t = mc.thorough;
    let fs = filtrations(t);
    mc.family("path homology readers", &format!("digraph filtrations on 3 nodes, squares on 4 nodes with a shortcut, mixed and full grounding sets, user-defined field and filtration: two threads reading columns of one coboundary or boundary matrix, bare, in wrappers and squared: all interleavings of entries read and edge times asked with <= {} preemptions", if t { 2 } else { 1 }), |fam| {
        for f in &fs {
            for g in [0x5a5a5u64, u64::MAX] {
                fam.case(|| format!("{} grounding {g:x}", show(f)), |r| {
                    let n = f.len();
                    let e = set_of(n, g);
                    let d = Uf(f);
                    let cob = GrPPHCoboundary::<Y5, _>::build(d, &e, n as u16);
                    let low: Vec<PathHomCell> = (0..cob.basis().size()).map(|i| cob.basis().element(i)).collect();
                    let cells: BTreeSet<PathHomCell> = low.iter().flat_map(|c| cob.column(*c).map(|x| x.1).collect::<Vec<_>>()).collect();
                    let cells: Vec<PathHomCell> = cells.into_iter().collect();
                    let basis = PathHomSingleBasis(cells.iter().filter(|c| c.dimension() > 0).map(|c| (NotNan::new(0.0).unwrap(), *c)).collect());
                    let bnd = GrPPHBoundary::<Y5, _>::build(d, &e, basis);
                    let rev = (&cob).reverse();
                    let cons = (&cob).consolidate();
                    let square = product(&bnd, &bnd);
                    r.state(&(show(f), g));
                    let how = How { bound: if t { 2 } else { 1 }, mask: STEP | TIME, threads: 2 };
                    let every = How { bound: 1, mask: ALL, threads: 2 };
                    let step = if t { 1 } else { 2 };
                    elements("basis", cob.basis(), How { bound: if t { 3 } else { 2 }, mask: STEP, threads: 2 }, r)?;
                    for d in 0..2 {
                        elements("basis of one dimension", cob.basis().in_dimension(d), How { bound: 2, mask: STEP, threads: 2 }, r)?;
                    }
                    for i in (0..low.len()).step_by(step) {
                        let two = [low[i], low[(i + 1) % low.len()]];
                        readers("coboundary", &|| &cob, &two, &[0, 1, 2], how, r)?;
                        readers("coboundary", &|| &cob, &two, &[1, 2], every, r)?;
                        readers("cached coboundary", &|| (&cob).cache_cols(), &two, &[0, 2], how, r)?;
                        readers("consolidated coboundary", &|| &cons, &two, &[0, 1], how, r)?;
                        readers("reversed coboundary", &|| &rev, &two.map(Reverse), &[1], how, r)?;
                    }
                    for i in (0..cells.len()).step_by(step) {
                        let two = [cells[i], cells[(i + 1) % cells.len()]];
                        readers("boundary", &|| &bnd, &two, &[0, 1, 2], how, r)?;
                        readers("squared boundary", &|| &square, &two, &[0, 1], how, r)?;
                    }
                    Ok(())
                });
            }
        }
    });
    mc.family("path homology over built-in types", &format!("pairs of these filtrations and of larger ones on 4 to 6 nodes, as tables and maps: each thread builds the matrices over Z2, Z3 or Q and reads all columns or reduces by clearing or the standard algorithm: <= {} preemption{} (for 3 nodes) between columns read and at atomic operations and static memory in the library", if t { "2" } else { "1" }, if t { "s, 3" } else { ", 2" }), |fam| {
        let mut e: Vec<Filt> = fs.iter().enumerate().filter(|(i, _)| t || i % 9 == 0).map(|x| x.1.clone()).collect();
        for n in 4..=6usize {
            e.push((0..n).map(|i| (0..n).map(|j| (i != j && (i * 5 + j * 3) % 4 != 0).then(|| 1.0 + ((i * 2 + j) % 3) as f64)).collect()).collect());
        }
        for i in 0..e.len() {
            for j in if t { (0..e.len()).collect() } else { vec![i, (i + 1) % e.len(), e.len() - 1] } {
                let (a, b) = (&e[i], &e[j]);
                fam.case(|| format!("{} and {}", show(a), show(b)), |r| {
                    r.state(&(show(a), show(b)));
                    let (ea, eb) = (set_of(a.len(), 0x5a5a5), set_of(b.len(), 0x12345));
                    let (va, vb) = (vec_filt(a), vec_filt(b));
                    let (ma, mb) = (map_filt(a), map_filt(b));
                    let bound = (if t { 2 } else { 1 }) + (a.len() + b.len() < 7) as usize;
                    let (na, nb) = (a.len() as u16, b.len() as u16);
                    for (x, y) in [(0, 0), (0, 1), (1, 1), (1, 2), (0, 3), (3, 3)] {
                        job2("tables, Z3", bound, STEP, &|| whole::<Z3, _>(&va, &ea, na, x), &|| whole::<Z3, _>(&vb, &eb, nb, y), r)?;
                        job2("maps, Z2 and Q", 1, STEP, &|| whole::<Z2, _>(&ma, &ea, na, x), &|| whole::<Q, _>(&mb, &eb, nb, y), r)?;
                        job2("one table", 1, STEP, &|| whole::<Z2, _>(&va, &ea, na, x), &|| whole::<Z2, _>(&va, &ea, na, y), r)?;
                    }
                    Ok(())
                });
            }
        }
    });
    mc.family("path homology reductions", "two threads building the coboundary matrices of two of these filtrations and reducing them by clearing or the standard algorithm: <= 1 preemption in edge times asked, comparisons and coefficient operations", |fam| {
        let e: Vec<Filt> = fs.iter().enumerate().filter(|(i, _)| t || i % 5 == 0 || *i > 60).map(|x| x.1.clone()).collect();
        for (i, a) in e.iter().enumerate() {
            for b in [&e[i], &e[(i * 7 + 3) % e.len()], &e[(i * 3 + 5) % e.len()]] {
                fam.case(|| format!("{} and {}", show(a), show(b)), |r| {
                    r.state(&(show(a), show(b)));
                    for (x, y) in [(true, true), (true, false)] {
                        let (ea, eb) = (set_of(a.len(), 0x5a5a5), set_of(b.len(), 0x12345));
                        let (wa, wb) = (diagram(Uf(a), &ea, x), diagram(Uf(b), &eb, y));
                        r.outcome(&(wa.0.len(), wb.0.len()));
                        let (ea, eb, wa, wb) = (&ea, &eb, &wa, &wb);
                        let bodies = || -> Vec<Body> {
                            vec![
                                Box::new(move || {
                                    ensure_eq!(&diagram(Uf(a), ea, x), wa, "diagram of {}, clearing={x}", show(a));
                                    Ok(())
                                }),
                                Box::new(move || {
                                    ensure_eq!(&diagram(Uf(b), eb, y), wb, "diagram of {}, clearing={y}", show(b));
                                    Ok(())
                                }),
                            ]
                        };
                        let (s, p) = explore(1, TIME | FIELD | INDEX, &bodies)?;
                        r.trace(s);
                        r.step(p);
                    }
                    Ok(())
                });
            }
        }
    });
}

fn main() {
    mc::main(&[("C14", c14)]);
}
