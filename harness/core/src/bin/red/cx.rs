//! Filtered chain complexes: exhaustive enumeration and named examples.
use core_checks::raw::Term;
use mc::la::*;
use mc::words;

/// A filtered chain complex.  Element ids are positions in the filtration.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cx {
    pub p: i128,
    pub dim: Vec<usize>,
    pub bd: Vec<Vec<Term>>,
}

impl Cx {
    pub fn new(p: i128) -> Cx {
        Cx { p, dim: vec![], bd: vec![] }
    }
    pub fn n(&self) -> usize {
        self.dim.len()
    }
    pub fn q(&self) -> u64 {
        rank_prime(self.p)
    }
    pub fn top(&self) -> usize {
        self.dim.iter().copied().max().unwrap_or(0)
    }
    pub fn cob(&self) -> Vec<Vec<Term>> {
        let mut t = vec![vec![]; self.n()];
        for (j, c) in self.bd.iter().enumerate() {
            for (k, i) in c {
                t[*i].push((*k, j));
            }
        }
        t
    }
    pub fn of_dim(&self, d: usize) -> Vec<usize> {
        (0..self.n()).filter(|i| self.dim[*i] == d).collect()
    }
    /// (birth, death) pairs by an independent sparse reduction, for complexes too large for ranks.
    pub fn sparse_pairs(&self) -> Vec<(usize, usize)> {
        let mut out = vec![];
        for d in 1..=self.top() {
            let cols = self.of_dim(d);
            let sparse: Vec<Vec<(u64, usize)>> = cols.iter().map(|j| self.bd[*j].iter().map(|(c, i)| (c.residue(), *i)).collect()).collect();
            out.extend(sparse_pairing(&sparse, self.q()).into_iter().map(|(i, j)| (i, cols[j])));
        }
        out.sort();
        out
    }
    /// (birth, death) pairs from ranks of lower-left sub-matrices, one dimension at a time.
    pub fn pairs(&self) -> Vec<(usize, usize)> {
        let sparse = self.sparse_pairs();
        if self.n() > 120 {
            return sparse;
        }
        let out = self.rank_pairs();
        assert_eq!(out, sparse, "the two reference computations of the pairs disagree");
        out
    }
    fn rank_pairs(&self) -> Vec<(usize, usize)> {
        let mut out = vec![];
        for d in 1..=self.top() {
            let rows = self.of_dim(d - 1);
            let cols = self.of_dim(d);
            let pos: std::collections::HashMap<usize, usize> = rows.iter().enumerate().map(|(k, i)| (*i, k)).collect();
            let dense: Vec<Vec<u64>> = cols
                .iter()
                .map(|j| {
                    let mut v = vec![0; rows.len()];
                    for (c, i) in &self.bd[*j] {
                        v[pos[i]] = (v[pos[i]] + c.residue()) % self.q();
                    }
                    v
                })
                .collect();
            for (i, j) in pairing(rows.len(), &dense, self.q()) {
                out.push((rows[i], cols[j]));
            }
        }
        out.sort();
        out
    }
    /// The same with the elements in another filtration order: `perm[k]` is the old id at the new position k.
    pub fn reorder(&self, perm: &[usize]) -> Cx {
        let mut new = vec![0; self.n()];
        for (k, i) in perm.iter().enumerate() {
            new[*i] = k;
        }
        Cx {
            p: self.p,
            dim: perm.iter().map(|i| self.dim[*i]).collect(),
            bd: perm.iter().map(|i| self.bd[*i].iter().map(|(c, r)| (*c, new[*r])).collect()).collect(),
        }
    }
}

/// All cycles of dimension `d` (chains of dimension d with zero boundary) of `cx` as term lists.  Over the rationals
/// those with coefficients 0, 1, -1, 2.
pub fn cycles(cx: &Cx, d: usize) -> Vec<Vec<Term>> {
    let el = cx.of_dim(d);
    let q = cx.q();
    let n = cx.n();
    let img: Vec<Vec<u64>> = el
        .iter()
        .map(|j| {
            let mut v = vec![0; n];
            for (c, i) in &cx.bd[*j] {
                v[*i] = (v[*i] + c.residue()) % q;
            }
            v
        })
        .collect();
    let mut out = vec![];
    if cx.p == 0 {
        let cs = [Sc::zero(0), Sc::int(1, 0), Sc::int(-1, 0), Sc::int(2, 0)];
        words(cs.len(), el.len(), |w| {
            let mut sum = vec![0u64; n];
            for (k, v) in w.iter().zip(&img) {
                let c = cs[*k].residue() as u128;
                for (s, x) in sum.iter_mut().zip(v) {
                    *s = ((*s as u128 + c * *x as u128) % q as u128) as u64;
                }
            }
            if sum.iter().all(|x| *x == 0) {
                out.push(w.iter().zip(&el).filter(|(k, _)| **k > 0).map(|(k, i)| (cs[*k], *i)).collect());
            }
        });
        return out;
    }
    let ker = kernel(&img, q);
    let ker = if n == 0 { vec![] } else { ker };
    span(&ker, el.len(), q, |v| {
        out.push(v.iter().zip(&el).filter(|(c, _)| **c != 0).map(|(c, i)| (Sc::int(*c as i128, cx.p), *i)).collect());
    });
    out
}

/// Explores every filtered chain complex with up to `n` elements of dimension at most `top`: from each one, every
/// element that can be appended (any dimension, any cycle as its boundary).
pub fn graded(p: i128, n: usize, top: usize, f: &mut dyn FnMut(&Cx)) {
    fn rec(cx: &mut Cx, n: usize, top: usize, f: &mut dyn FnMut(&Cx)) {
        f(cx);
        if cx.n() == n {
            return;
        }
        for d in 0..=top {
            let zs = if d == 0 { vec![vec![]] } else { cycles(cx, d - 1) };
            for z in zs {
                // an element of dimension d > 0 without faces is allowed
                cx.dim.push(d);
                cx.bd.push(z);
                rec(cx, n, top, f);
                cx.dim.pop();
                cx.bd.pop();
            }
        }
    }
    rec(&mut Cx::new(p), n, top, f)
}

/// Every strictly upper triangular n x n matrix D with D*D = 0 (no grading): `dim` is all zero and not meaningful.
pub fn ungraded(p: i128, n: usize, f: &mut dyn FnMut(&Cx)) {
    fn rec(cx: &mut Cx, n: usize, f: &mut dyn FnMut(&Cx)) {
        f(cx);
        if cx.n() == n {
            return;
        }
        for z in cycles(cx, 0) {
            cx.dim.push(0);
            cx.bd.push(z);
            rec(cx, n, f);
            cx.dim.pop();
            cx.bd.pop();
        }
    }
    rec(&mut Cx::new(p), n, f)
}

/// Every chain complex with `sizes[d]` elements in dimension d, the elements ordered by dimension.
pub fn blocks(p: i128, sizes: &[usize], f: &mut dyn FnMut(&Cx)) {
    fn rec(cx: &mut Cx, sizes: &[usize], d: usize, left: usize, zs: &[Vec<Term>], f: &mut dyn FnMut(&Cx)) {
        if left == 0 {
            if d + 1 == sizes.len() {
                f(cx);
                return;
            }
            let zs = cycles(cx, d);
            return rec(cx, sizes, d + 1, sizes[d + 1], &zs, f);
        }
        for z in zs {
            cx.dim.push(d);
            cx.bd.push(z.clone());
            rec(cx, sizes, d, left - 1, zs, f);
            cx.dim.pop();
            cx.bd.pop();
        }
    }
    rec(&mut Cx::new(p), sizes, 0, sizes[0], &[vec![]], f)
}

/// The simplicial complex with the given facets, simplices ordered by `key(simplex)` with faces first.
pub fn simplicial(p: i128, facets: &[Vec<usize>], key: &dyn Fn(&[usize]) -> Vec<usize>) -> Cx {
    let mut all = std::collections::BTreeSet::new();
    for f in facets {
        for mask in 1u32..1 << f.len() {
            let mut s: Vec<usize> = (0..f.len()).filter(|i| mask >> i & 1 == 1).map(|i| f[i]).collect();
            s.sort();
            all.insert(s);
        }
    }
    let mut all: Vec<Vec<usize>> = all.into_iter().collect();
    all.sort_by_key(|s| (key(s), s.len(), s.clone()));
    let pos: std::collections::HashMap<Vec<usize>, usize> = all.iter().cloned().enumerate().map(|(i, s)| (s, i)).collect();
    let mut cx = Cx::new(p);
    for s in &all {
        let mut b = vec![];
        if s.len() > 1 {
            for i in 0..s.len() {
                let mut face = s.clone();
                face.remove(i);
                assert!(pos[&face] < pos[s], "faces first");
                b.push((Sc::int(if i % 2 == 0 { 1 } else { -1 }, p), pos[&face]));
            }
        }
        cx.dim.push(s.len() - 1);
        cx.bd.push(b);
    }
    cx
}

/// A direct sum of intervals, disguised by changes of basis that respect the filtration.  `list` holds the elements in
/// filtration order: the dimension and the element it kills, if any.
pub fn intervals(p: i128, list: &[(usize, Option<usize>)], disguise: bool) -> Cx {
    let n = list.len();
    let mut bd: Vec<std::collections::BTreeMap<usize, Sc>> = vec![Default::default(); n];
    for (j, (d, k)) in list.iter().enumerate() {
        if let Some(i) = k {
            assert!(*i < j && list[*i].0 + 1 == *d);
            bd[j].insert(*i, Sc::int(1 + (j % 2) as i128, p));
            if bd[j][i].is_zero() {
                bd[j].insert(*i, Sc::int(1, p));
            }
        }
    }
    fn add(v: &mut std::collections::BTreeMap<usize, Sc>, i: usize, c: Sc) {
        let e = v.entry(i).or_insert(Sc::zero(c.p));
        *e = e.add(c);
        if e.is_zero() {
            v.remove(&i);
        }
    }
    for j in (0..n).filter(|_| disguise) {
        for back in [1, 2, 7, 19] {
            // the `back`-th element of the same dimension before j
            let Some(i) = (0..j).rev().filter(|i| list[*i].0 == list[j].0).nth(back - 1) else { continue };
            if (i * 3 + j * 5) % 4 == 0 {
                continue;
            }
            let c = Sc::int(if j % 3 == 0 { -1 } else { 1 }, p);
            let from: Vec<(usize, Sc)> = bd[i].iter().map(|(k, x)| (*k, *x)).collect();
            for (k, x) in from {
                add(&mut bd[j], k, x.mul(c));
            }
            for b in bd.iter_mut() {
                if let Some(a) = b.get(&j).copied() {
                    add(b, i, a.mul(c).neg());
                }
            }
        }
    }
    Cx { p, dim: list.iter().map(|x| x.0).collect(), bd: bd.into_iter().map(|b| b.into_iter().map(|(i, c)| (c, i)).collect()).collect() }
}

/// One wide dimension: all of its elements but one are of one kind, the other one is of another kind and stands first,
/// last or in the middle.
pub fn wide(p: i128, t: bool) -> Vec<(String, Cx)> {
    let mut out = vec![];
    let sizes: &[usize] = if t { &[2, 4, 8, 15, 16, 17, 18, 31, 32, 33, 34, 63, 64, 65, 66, 100, 128, 129, 130] } else { &[4, 17, 18, 33, 66, 129] };
    for &m in sizes {
        for d in [0usize, 1, 2] {
            // kinds: 0 killed later, 1 kills, 2 essential
            for (kind, odd) in [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)] {
                if d == 0 && (kind == 1 || odd == 1) {
                    continue;
                }
                for at in [0, m / 2, m - 1] {
                    for together in [false, true] {
                        let kinds: Vec<i32> = (0..m).map(|i| if i == at { odd } else { kind }).collect();
                        let mut l: Vec<(usize, Option<usize>)> = vec![];
                        let kills = kinds.iter().filter(|k| **k == 1).count();
                        for _ in 0..kills {
                            l.push((d - 1, None));
                        }
                        let mut low: Vec<usize> = (0..kills).collect();
                        let mut alive = vec![];
                        for k in kinds {
                            match k {
                                1 => {
                                    let i = low.remove(low.len() * 2 / 3);
                                    l.push((d, Some(i)));
                                }
                                0 => {
                                    alive.push(l.len());
                                    l.push((d, None));
                                    if together && l.len() % 3 > 0 {
                                        let i = alive.pop().unwrap();
                                        l.push((d + 1, Some(i)));
                                    }
                                }
                                _ => l.push((d, None)),
                            }
                        }
                        while !alive.is_empty() {
                            let i = alive.remove(alive.len() / 3);
                            l.push((d + 1, Some(i)));
                        }
                        let x = |k: i32| ["killed", "killing", "essential"][k as usize];
                        for disguise in [false, true] {
                            // (the disguise would overflow rationals; the largest are only disguised in the thorough run)
                            if disguise && (p == 0 || m > 100 && !t) || !disguise && m > 20 && m < 100 && !t {
                                continue;
                            }
                            out.push((
                                format!("{m} elements of dimension {d}, {} but number {at} {}, deaths {}, disguised={disguise} p={p}", x(kind), x(odd), if together { "soon" } else { "late" }),
                                intervals(p, &l, disguise),
                            ));
                        }
                    }
                }
            }
        }
    }
    out
}

/// A graph given by edges; `key` orders the vertices and edges (vertices first at equal key).
pub fn graph(p: i128, nv: usize, edges: &[(usize, usize)], key: &dyn Fn(&[usize]) -> usize) -> Cx {
    let mut all: Vec<Vec<usize>> = (0..nv).map(|v| vec![v]).collect();
    all.extend(edges.iter().map(|(a, b)| vec![*a, *b]));
    let mut ord: Vec<usize> = (0..all.len()).collect();
    ord.sort_by_key(|i| (key(&all[*i]), all[*i].len(), *i));
    let mut pos = vec![0; nv];
    let mut cx = Cx::new(p);
    for (k, i) in ord.iter().enumerate() {
        let s = &all[*i];
        if s.len() == 1 {
            pos[s[0]] = k;
            cx.dim.push(0);
            cx.bd.push(vec![]);
        } else {
            cx.dim.push(1);
            cx.bd.push(vec![(Sc::int(-1, p), pos[s[0]]), (Sc::int(1, p), pos[s[1]])]);
        }
    }
    cx
}

pub fn facets(name: &str) -> Vec<Vec<usize>> {
    let s = match name {
        "rp2" => "124 125 136 134 156 235 236 246 345 456",
        "cross" => "024 025 034 035 124 125 134 135",
        _ => panic!("no such complex"),
    };
    s.split_whitespace().map(|t| t.chars().map(|c| c.to_digit(16).unwrap() as usize).collect()).collect()
}
/// 7-vertex torus (Moebius/Csaszar): triangles {i,i+1,i+3} and {i,i+2,i+3} modulo 7.
pub fn torus7() -> Vec<Vec<usize>> {
    (0..7).flat_map(|i| [vec![i, (i + 1) % 7, (i + 3) % 7], vec![i, (i + 2) % 7, (i + 3) % 7]]).collect()
}
/// A 3x3 grid with opposite sides glued, one pair with a flip: the Klein bottle; without the flip a torus.
pub fn grid_surface(flip: bool, k: usize) -> Vec<Vec<usize>> {
    let v = |i: usize, j: usize| {
        let (mut i, mut j) = (i, j);
        if i == k {
            i = 0;
            if flip {
                j = (k - j % k) % k;
            }
        }
        j %= k;
        i * k + j
    };
    let mut out = vec![];
    for i in 0..k {
        for j in 0..k {
            out.push(vec![v(i, j), v(i + 1, j), v(i + 1, j + 1)]);
            out.push(vec![v(i, j), v(i, j + 1), v(i + 1, j + 1)]);
        }
    }
    out
}
