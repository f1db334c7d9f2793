//! Several threads reading columns.
use crate::pure::open;
use crate::raw::*;
use crate::tf::*;
use mc::la::Sc;
use mc::sched::*;
use mc::*;
use phlite::matrices::{ColBasis, HasRowFiltration};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// How many preemptions and at which points.
#[derive(Clone, Copy)]
pub struct How {
    pub bound: usize,
    pub mask: u32,
    pub threads: usize,
}

/// `make` is called by every thread for the matrix it reads; every thread reads one column to the end and takes a step after
/// each entry.  Whatever the other threads do, it must be the linear combination read by a single reader.
pub fn readers<'a, N>(what: &str, make: &(dyn Fn() -> N + Sync + 'a), cols: &[N::ColT], kinds: &[usize], how: How, r: &mut Rec) -> Res
where
    N: HasRowFiltration,
    N::CoefficientField: TF,
    N::ColT: Debug + Sync,
    N::RowT: Debug + Sync,
{
    let jobs: Vec<(usize, usize)> = (0..cols.len()).flat_map(|c| kinds.iter().map(move |k| (*k, c))).collect();
    let totals: Vec<BTreeMap<N::RowT, Sc>> = jobs.iter().map(|(k, c)| sums(open(&make(), *k, cols[*c].clone()))).collect();
    let (jobs, totals) = (&jobs, &totals);
    let mut res = Ok(());
    multisets(jobs.len(), how.threads, &mut |w| {
        if res.is_err() {
            return;
        }
        let bodies = || -> Vec<Body> {
            w.iter()
                .map(|j| {
                    let j = *j;
                    Box::new(move || {
                        let m = make();
                        let (kind, c) = jobs[j];
                        let mut got = vec![];
                        for x in open(&m, kind, cols[c].clone()) {
                            got.push(x);
                            point(STEP);
                        }
                        ensure_eq!(sums(got), totals[j], "{what}: column {:?} (reader kind {kind})", cols[c]);
                        Ok(())
                    }) as Body
                })
                .collect()
        };
        match explore(how.bound, how.mask, &bodies) {
            Ok((s, p)) => {
                r.trace(s);
                r.step(p);
            }
            Err(e) => res = Err(format!("{what}, readers {w:?}: {e}")),
        }
    });
    res
}

/// Two threads ask one basis for its elements, each in an order of its own.
pub fn elements<B>(what: &str, b: &B, how: How, r: &mut Rec) -> Res
where
    B: ColBasis + Sync,
    B::ElemT: Debug + Sync + Send,
{
    let n = b.size();
    let want: Vec<B::ElemT> = (0..n).map(|i| b.element(i)).collect();
    let orders: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect(), (0..n).map(|i| (i * 2) % (n | 1)).filter(|i| *i < n).collect()];
    let (want, orders) = (&want, &orders);
    for x in 0..orders.len() {
        for y in x..orders.len() {
            let job = move |o: usize| -> Res {
                for i in &orders[o] {
                    let e = b.element(*i);
                    ensure!(e == want[*i], "{what}: element {i} is {e:?}, alone {:?}", want[*i]);
                    point(STEP);
                }
                ensure_eq!(b.size(), n, "{what}: size");
                Ok(())
            };
            let bodies = || -> Vec<Body> { vec![Box::new(move || job(x)), Box::new(move || job(y))] };
            let (s, p) = explore(how.bound, how.mask, &bodies)?;
            r.trace(s);
            r.step(p);
        }
    }
    Ok(())
}

pub fn job2<T: PartialEq + Debug + Send + Sync>(what: &str, bound: usize, mask: u32, a: &(dyn Fn() -> T + Sync), b: &(dyn Fn() -> T + Sync), r: &mut Rec) -> Res {
    let (wa, wb) = (a(), b());
    let (wa, wb) = (&wa, &wb);
    let bodies = || -> Vec<Body> {
        vec![
            Box::new(move || {
                ensure_eq!(&a(), wa, "{what}: first thread");
                Ok(())
            }),
            Box::new(move || {
                ensure_eq!(&b(), wb, "{what}: second thread");
                Ok(())
            }),
        ]
    };
    let (s, p) = explore(bound, mask, &bodies)?;
    r.trace(s);
    r.step(p);
    Ok(())
}

/// Every multiset of `k` numbers below `n`.
pub fn multisets(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(n: usize, k: usize, w: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if w.len() == k {
            return f(w);
        }
        for i in w.last().copied().unwrap_or(0)..n {
            w.push(i);
            rec(n, k, w, f);
            w.pop();
        }
    }
    rec(n, k, &mut vec![], f)
}
