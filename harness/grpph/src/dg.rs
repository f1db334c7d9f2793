//! Reference side: digraphs, shortest paths, path chains and barcodes from their definitions.
use crate::py::{Bars, E};
use mc::la::{mulm, powm, Bits};
use std::collections::{BTreeMap, HashMap, HashSet};

pub type Time = Option<f64>;
/// Times of ordered pairs, `None` = never.
pub type Filt = Vec<Vec<Time>>;

/// Lengths of shortest paths over the finite edges (Bellman-Ford from every source; weights are such that sums are exact).
pub fn shortest(n: usize, edges: &[E]) -> Filt {
    let mut out = vec![vec![None; n]; n];
    for (s, row) in out.iter_mut().enumerate() {
        let mut d: Vec<Time> = vec![None; n];
        d[s] = Some(0.0);
        for _ in 0..n {
            let mut change = false;
            for (a, b, w) in edges {
                if !w.is_finite() {
                    continue;
                }
                if let Some(x) = d[*a as usize] {
                    let y = x + w;
                    if d[*b as usize].is_none_or(|z| y < z) {
                        d[*b as usize] = Some(y);
                        change = true;
                    }
                }
            }
            if !change {
                break;
            }
        }
        d[s] = None;
        *row = d;
    }
    out
}

/// Edges of the grounded filtration, sorted by time: (time, source, target).
pub fn grounded(f: &Filt, in_set: &dyn Fn(usize, usize) -> bool) -> Vec<(f64, usize, usize)> {
    let n = f.len();
    let mut es = vec![];
    for s in 0..n {
        for t in 0..n {
            if s == t {
                continue;
            }
            if in_set(s, t) {
                es.push((0.0, s, t));
            } else if let Some(x) = f[s][t] {
                es.push((x, s, t));
            }
        }
    }
    es.sort_by(|a, b| a.partial_cmp(b).unwrap());
    assert!(es.len() <= 128);
    es
}

pub fn times(f: &Filt) -> Vec<f64> {
    let mut ts: Vec<f64> = f.iter().flatten().flatten().copied().chain([0.0]).collect();
    ts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ts.dedup();
    ts
}

/// Position of each grounded edge (bit index, in order of time).
pub fn positions(n: usize, es: &[(f64, usize, usize)]) -> Vec<Vec<Option<u32>>> {
    let mut p = vec![vec![None; n]; n];
    for (i, (_, s, t)) in es.iter().enumerate() {
        p[*s][*t] = Some(i as u32);
    }
    p
}

/// Generators over GF(2) of the boundaries of boundary-invariant 2-paths of the digraph {pairs with time <= t}.
///
/// A combination of 2-paths has boundary in the digraph iff for every missing pair (a,c), a != c, the coefficients of
/// the 2-paths a->.->c sum to zero (the middle face a->c of a 2-path abc is the only one that can be missing).
pub fn invariant_boundaries(f: &Filt, pos: &[Vec<Option<u32>>], t: f64, out: &mut Vec<u128>) {
    let n = f.len();
    let has = |a: usize, b: usize| f[a][b].is_some_and(|x| x <= t);
    let bit = |a: usize, b: usize| 1u128 << pos[a][b].expect("a finite pair is a grounded edge");
    for a in 0..n {
        for c in 0..n {
            let direct = a != c && has(a, c);
            let mut first: Option<u128> = None;
            for b in 0..n {
                if b == a || b == c || !has(a, b) || !has(b, c) {
                    continue;
                }
                let sides = bit(a, b) ^ bit(b, c);
                if a == c {
                    out.push(sides);
                } else if direct {
                    out.push(sides ^ bit(a, c));
                } else if let Some(x) = first {
                    out.push(x ^ sides);
                } else {
                    first = Some(sides);
                }
            }
        }
    }
}

pub struct Oracle {
    pub n: usize,
    pub es: Vec<(f64, usize, usize)>,
    pub pos: Vec<Vec<Option<u32>>>,
    pub times: Vec<f64>,
    /// Basis of the boundaries at each time.
    pub bounds: Vec<Bits>,
}

fn find(p: &mut [usize], x: usize) -> usize {
    let mut r = x;
    while p[r] != r {
        r = p[r];
    }
    let mut y = x;
    while p[y] != r {
        let z = p[y];
        p[y] = r;
        y = z;
    }
    r
}

impl Oracle {
    pub fn new(n: usize, edges: &[E]) -> Oracle {
        let f = shortest(n, edges);
        let mut set = vec![vec![false; n]; n];
        for (a, b, _) in edges {
            set[*a as usize][*b as usize] = true;
        }
        let es = grounded(&f, &|a, b| set[a][b]);
        let pos = positions(n, &es);
        let times = times(&f);
        let mut bounds = vec![];
        let mut b = Bits::default();
        for t in &times {
            let mut g = vec![];
            invariant_boundaries(&f, &pos, *t, &mut g);
            for v in g {
                b.add(v);
            }
            bounds.push(b.clone());
        }
        Oracle { n, es, pos, times, bounds }
    }

    /// (components, times of the edges that close a cycle)
    pub fn births(&self) -> (usize, Vec<f64>) {
        let mut p: Vec<usize> = (0..self.n).collect();
        let mut comps = self.n;
        let mut births = vec![];
        for (t, a, b) in &self.es {
            let (x, y) = (find(&mut p, *a), find(&mut p, *b));
            if x == y {
                births.push(*t);
            } else {
                p[x] = y;
                comps -= 1;
            }
        }
        (comps, births)
    }

    /// dim Z(s) - dim Z(s) n B(t)  at times number i <= j.
    fn r(&self, i: usize, j: usize) -> usize {
        let s = self.times[i];
        let k = self.es.iter().filter(|e| e.0 <= s).count();
        let (_, births) = self.births();
        let z = births.iter().filter(|t| **t <= s).count();
        // B(t) n C(s): kernel of the projection to the edges after s
        let mask = if k >= 128 { 0 } else { !0u128 << k };
        let b = &self.bounds[j];
        let mut pr = Bits::default();
        for v in b.rows() {
            pr.add(v & mask);
        }
        z - (b.rank() - pr.rank())
    }

    /// Barcode from the ranks of the maps H(s) -> H(t).
    pub fn bars_by_rank(&self) -> Bars {
        let m = self.times.len();
        let (comps, _) = self.births();
        let rk = |i: isize, j: usize| if i < 0 { 0i64 } else { self.r(i as usize, j) as i64 };
        let mut ess = vec![];
        let mut pairs = vec![];
        for i in 0..m {
            let ii = i as isize;
            for j in i + 1..m {
                let c = rk(ii, j - 1) - rk(ii - 1, j - 1) - rk(ii, j) + rk(ii - 1, j);
                assert!(c >= 0);
                for _ in 0..c {
                    pairs.push((self.times[i], self.times[j]));
                }
            }
            let c = rk(ii, m - 1) - rk(ii - 1, m - 1);
            assert!(c >= 0);
            for _ in 0..c {
                ess.push(self.times[i]);
            }
        }
        Bars { essential: vec![vec![0.0; comps], ess], pairings: vec![vec![], pairs] }.sorted()
    }

    /// The same barcode, faster: latest edges of an echelon basis of the growing boundaries.
    pub fn bars(&self) -> Bars {
        let (comps, mut births) = self.births();
        let mut pairs = vec![];
        let mut done = 0;
        for (t, b) in self.times.iter().zip(&self.bounds) {
            // rows are kept with distinct highest bits, and later bases extend earlier ones
            for v in &b.rows()[done..] {
                let birth = self.es[127 - v.leading_zeros() as usize].0;
                let at = births.iter().position(|x| *x == birth).expect("the last edge of a cycle closes one");
                births.swap_remove(at);
                if birth != *t {
                    pairs.push((birth, *t));
                }
            }
            done = b.rows().len();
        }
        Bars { essential: vec![vec![0.0; comps], births], pairings: vec![vec![], pairs] }.sorted()
    }

    /// Time at which a chain becomes a boundary, if ever.
    pub fn death(&self, v: u128) -> Option<f64> {
        self.times.iter().zip(&self.bounds).find(|(_, b)| b.reduce(v) == 0).map(|(t, _)| *t)
    }
}

/// The same for digraphs with many edges, over GF(q): sparse, with times that vary little.
/// Cross-checked against [`Oracle`] wherever both apply.
pub struct Sparse {
    pub n: usize,
    pub q: u64,
    pub es: Vec<(f64, usize, usize)>,
    pub pos: HashMap<(usize, usize), usize>,
    pub times: Vec<f64>,
    comps: usize,
    /// edges that close a cycle
    births: Vec<usize>,
    /// echelon basis of the boundaries by latest edge: (time, monic rows from latest to earliest edge)
    rows: HashMap<usize, (f64, Vec<(usize, u64)>)>,
}
pub type Chain = BTreeMap<usize, u64>;

impl Sparse {
    pub fn new(n: usize, edges: &[E], q: u64) -> Sparse {
        let f = shortest(n, edges);
        let set: HashSet<(usize, usize)> = edges.iter().map(|(a, b, _)| (*a as usize, *b as usize)).collect();
        Sparse::of(&f, &|a, b| set.contains(&(a, b)), q)
    }

    pub fn of(f: &Filt, in_set: &dyn Fn(usize, usize) -> bool, q: u64) -> Sparse {
        let n = f.len();
        let mut es = vec![];
        for s in 0..n {
            for t in 0..n {
                if s != t && in_set(s, t) {
                    es.push((0.0, s, t));
                } else if let (true, Some(x)) = (s != t, f[s][t]) {
                    es.push((x, s, t));
                }
            }
        }
        es.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let pos: HashMap<(usize, usize), usize> = es.iter().enumerate().map(|(i, (_, a, b))| ((*a, *b), i)).collect();
        let mut p: Vec<usize> = (0..n).collect();
        let (mut comps, mut births) = (n, vec![]);
        for (i, (_, a, b)) in es.iter().enumerate() {
            let (x, y) = (find(&mut p, *a), find(&mut p, *b));
            if x == y {
                births.push(i);
            } else {
                p[x] = y;
                comps -= 1;
            }
        }
        // generators of the invariant 2-paths: whenever a middle node or the direct edge appears
        let out: Vec<Vec<usize>> = (0..n).map(|a| (0..n).filter(|b| a != *b && f[a][*b].is_some()).collect()).collect();
        let mut mids: BTreeMap<(usize, usize), Vec<(f64, usize)>> = BTreeMap::new();
        for a in 0..n {
            for b in &out[a] {
                for c in &out[*b] {
                    mids.entry((a, *c)).or_default().push((f[a][*b].unwrap().max(f[*b][*c].unwrap()), *b));
                }
            }
        }
        let mut gens: Vec<(f64, Vec<(usize, usize, u64)>)> = vec![];
        for ((a, c), mut m) in mids {
            m.sort_by(|x, y| x.partial_cmp(y).unwrap());
            let direct = if a == c { Some(0.0) } else { f[a][c] };
            let mut first: Option<usize> = None;
            for (t, b) in m {
                if direct.is_some_and(|d| d <= t) {
                    let mut v = vec![(a, b, 1), (b, c, 1)];
                    if a != c {
                        v.push((a, c, q - 1));
                    }
                    gens.push((t, v));
                } else if let Some(o) = first {
                    gens.push((t, vec![(a, b, 1), (b, c, 1), (a, o, q - 1), (o, c, q - 1)]));
                } else {
                    first = Some(b);
                    if let Some(d) = direct {
                        gens.push((d, vec![(a, b, 1), (b, c, 1), (a, c, q - 1)]));
                    }
                }
            }
        }
        gens.sort_by_cached_key(|(t, v)| {
            let mut p: Vec<usize> = v.iter().map(|(a, b, _)| pos[&(*a, *b)]).collect();
            p.sort_by(|a, b| b.cmp(a));
            (t.to_bits(), p)
        });
        let mut s = Sparse { n, q, es, pos, times: times(f), comps, births, rows: HashMap::new() };
        for (t, v) in gens {
            // every cycle bounds already
            if s.rows.len() == s.births.len() {
                break;
            }
            let mut c = Chain::new();
            for (a, b, k) in v {
                let e = c.entry(s.pos[&(a, b)]).or_insert(0);
                *e = (*e + k) % q;
            }
            c.retain(|_, k| *k != 0);
            s.reduce(&mut c, f64::INFINITY);
            if let Some((&i, &k)) = c.last_key_value() {
                let inv = powm(k, q - 2, q);
                s.rows.insert(i, (t, c.iter().rev().map(|(i, k)| (*i, mulm(*k, inv, q))).collect()));
            }
        }
        s
    }

    /// Subtract boundaries known at `until` as long as the latest edge allows; the latest time of a boundary used.
    pub fn reduce(&self, c: &mut Chain, until: f64) -> f64 {
        let mut last = f64::NEG_INFINITY;
        while let Some((&i, &k)) = c.last_key_value() {
            let Some((t, row)) = self.rows.get(&i).filter(|r| r.0 <= until) else {
                break;
            };
            last = last.max(*t);
            for (j, x) in row {
                let e = c.entry(*j).or_insert(0);
                *e = (*e + self.q - mulm(k, *x, self.q)) % self.q;
                if *e == 0 {
                    c.remove(j);
                }
            }
        }
        last
    }

    /// Time at which a cycle becomes a boundary, if ever.
    pub fn death(&self, c: &Chain) -> Option<f64> {
        let mut c = c.clone();
        let t = self.reduce(&mut c, f64::INFINITY);
        c.is_empty().then_some(t)
    }

    /// Number of components, and (birth edge time, death time) of degree 1.
    pub fn intervals(&self) -> (usize, Vec<(f64, Option<f64>)>) {
        (self.comps, self.births.iter().map(|i| (self.es[*i].0, self.rows.get(i).map(|r| r.0))).collect())
    }

    /// Times of the edges that join components.
    pub fn joins(&self) -> Vec<f64> {
        let b: HashSet<usize> = self.births.iter().copied().collect();
        (0..self.es.len()).filter(|i| !b.contains(i)).map(|i| self.es[i].0).collect()
    }

    pub fn bars(&self) -> Bars {
        let (comps, iv) = self.intervals();
        let ess = iv.iter().filter(|x| x.1.is_none()).map(|x| x.0).collect();
        let pairs = iv.iter().filter_map(|(b, d)| Some((*b, (*d)?))).filter(|(b, d)| b != d).collect();
        // edges that join components: finite bars of degree 0
        let zero = self.joins().into_iter().filter(|t| *t > 0.0).map(|t| (0.0, t)).collect();
        Bars { essential: vec![vec![0.0; comps], ess], pairings: vec![zero, pairs] }.sorted()
    }
}
