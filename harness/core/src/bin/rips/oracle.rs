//! Rips complexes and their barcodes from the definitions.
use mc::la::*;
use mc::*;
use std::collections::{BTreeMap, HashMap};

pub type Dist = Vec<Vec<f64>>;
/// (dimension, birth, death) with multiplicities; infinite deaths of essential classes are `None`.
pub type Barcode = BTreeMap<(usize, Ord64, Option<Ord64>), usize>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Ord64(pub f64);
impl Eq for Ord64 {}
impl PartialOrd for Ord64 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ord64 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.partial_cmp(&o.0).expect("no NaN")
    }
}
impl std::hash::Hash for Ord64 {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.to_bits().hash(h)
    }
}

pub fn diam(s: &[usize], d: &Dist) -> f64 {
    let mut m = 0.0;
    for (k, i) in s.iter().enumerate() {
        for j in &s[k + 1..] {
            if d[*i][*j] > m {
                m = d[*i][*j];
            }
        }
    }
    m
}

pub fn simplices(n: usize, dim: usize) -> Vec<Vec<usize>> {
    let mut v = vec![];
    if dim + 1 <= n {
        subsets(n, dim + 1, |s| v.push(s.to_vec()));
    }
    v
}

/// Symmetric matrix from its strict upper triangle, row by row.
pub fn dist(n: usize, tri: &[f64]) -> Dist {
    let mut d = vec![vec![0.0; n]; n];
    let mut k = 0;
    for i in 0..n {
        for j in i + 1..n {
            d[i][j] = tri[k];
            d[j][i] = tri[k];
            k += 1;
        }
    }
    d
}

struct Level {
    simp: Vec<Vec<usize>>,
    diam: Vec<f64>,
}

/// Barcode in dimensions 0..=max_dim from the ranks of the maps between homology groups of the Rips complexes.
pub fn barcode(d: &Dist, max_dim: usize, p: i128) -> Barcode {
    let q = rank_prime(p);
    let n = d.len();
    let mut out = Barcode::new();
    if n == 0 {
        return out;
    }
    let levels: Vec<Level> = (0..=max_dim + 1)
        .map(|k| {
            let simp = simplices(n, k);
            let diam = simp.iter().map(|s| diam(s, d)).collect();
            Level { simp, diam }
        })
        .collect();
    let mut times: Vec<Ord64> = levels.iter().flat_map(|l| l.diam.iter().map(|x| Ord64(*x))).collect();
    times.push(Ord64(0.0));
    times.sort();
    times.dedup();
    let t = times.len();
    for k in 0..=max_dim {
        let lk = &levels[k];
        // boundary of k- and (k+1)-simplices
        let column = |s: &Vec<usize>, below: &HashMap<&Vec<usize>, usize>, rows: usize| {
            let mut v = vec![0u64; rows];
            if s.len() > 1 {
                for i in 0..s.len() {
                    let mut f = s.clone();
                    f.remove(i);
                    v[below[&f]] = if i % 2 == 0 { 1 } else { q - 1 };
                }
            }
            v
        };
        let index_k: HashMap<&Vec<usize>, usize> = lk.simp.iter().enumerate().map(|(i, s)| (s, i)).collect();
        let dk: Vec<Vec<u64>> = if k == 0 {
            vec![vec![]; lk.simp.len()]
        } else {
            let b = &levels[k - 1].simp;
            let idx: HashMap<&Vec<usize>, usize> = b.iter().enumerate().map(|(i, s)| (s, i)).collect();
            lk.simp.iter().map(|s| column(s, &idx, b.len())).collect()
        };
        let up = &levels[k + 1];
        let dk1: Vec<Vec<u64>> = up.simp.iter().map(|s| column(s, &index_k, lk.simp.len())).collect();
        // dim Z_k at each time
        let z: Vec<i64> = times
            .iter()
            .map(|s| {
                let cols: Vec<Vec<u64>> = (0..lk.simp.len()).filter(|i| lk.diam[*i] <= s.0).map(|i| dk[i].clone()).collect();
                (cols.len() - rank(&cols, q)) as i64
            })
            .collect();
        // rank of the boundary at time t in the rows that are not there at time s
        let outside = |s: Option<Ord64>, t: Ord64| -> i64 {
            let rows: Vec<usize> = (0..lk.simp.len()).filter(|i| s.is_none_or(|s| lk.diam[*i] > s.0)).collect();
            let cols: Vec<Vec<u64>> = (0..up.simp.len())
                .filter(|j| up.diam[*j] <= t.0)
                .map(|j| rows.iter().map(|i| dk1[j][*i]).collect())
                .collect();
            rank(&cols, q) as i64
        };
        // beta(s, t) = rank of H_k(s) -> H_k(t)
        let mut beta = vec![vec![0i64; t]; t + 1];
        for b in 0..t {
            let full = outside(None, times[b]);
            for a in 0..=b {
                beta[a + 1][b] = z[a] - (full - outside(Some(times[a]), times[b]));
            }
        }
        for a in 0..t {
            let (ba, prev) = (&beta[a + 1], |b: usize| if a == 0 { 0 } else { beta[a][b] });
            for b in a + 1..t {
                let m = (ba[b - 1] - prev(b - 1)) - (ba[b] - prev(b));
                assert!(m >= 0);
                if m > 0 {
                    out.insert((k, times[a], Some(times[b])), m as usize);
                }
            }
            let m = ba[t - 1] - prev(t - 1);
            assert!(m >= 0);
            if m > 0 {
                out.insert((k, times[a], None), m as usize);
            }
        }
    }
    out
}

/// The same barcode for larger point sets: reduction of the filtered boundary matrix, dimension by dimension from above,
/// without the columns of simplices known to be births.  Cross-checked against [`barcode`] on every small space.
pub fn barcode_sparse(d: &Dist, max_dim: usize, p: i128) -> Barcode {
    let q = rank_prime(p);
    let n = d.len();
    let mut out = Barcode::new();
    let mut births: Vec<HashMap<Vec<usize>, bool>> = vec![HashMap::new(); max_dim + 3];
    let sorted = |k: usize| {
        let mut v: Vec<(Ord64, Vec<usize>)> = simplices(n, k).into_iter().map(|s| (Ord64(diam(&s, d)), s)).collect();
        v.sort();
        v
    };
    let mut above = sorted(max_dim + 1);
    for k in (0..=max_dim).rev() {
        // `above`: the simplices of dimension k + 1 in order
        let here = sorted(k);
        let index: HashMap<&Vec<usize>, usize> = here.iter().enumerate().map(|(i, (_, s))| (s, i)).collect();
        let known = &births[k + 1];
        let cols: Vec<&(Ord64, Vec<usize>)> = above.iter().filter(|(_, s)| !known.contains_key(s)).collect();
        let mat: Vec<Vec<(u64, usize)>> = cols
            .iter()
            .map(|(_, s)| {
                (0..s.len())
                    .map(|i| {
                        let mut f = s.clone();
                        f.remove(i);
                        (if i % 2 == 0 { 1 } else { q - 1 }, index[&f])
                    })
                    .collect()
            })
            .collect();
        let pairs = sparse_pairing(&mat, q);
        // columns of dimension k + 1 that neither die nor kill are essential one dimension up
        if k < max_dim {
            let killers: std::collections::HashSet<usize> = pairs.iter().map(|x| x.1).collect();
            for (j, c) in cols.iter().enumerate() {
                if !killers.contains(&j) {
                    *out.entry((k + 1, c.0, None)).or_insert(0) += 1;
                }
            }
        }
        let mut mine = HashMap::new();
        for (i, j) in pairs {
            mine.insert(here[i].1.clone(), true);
            if here[i].0 != cols[j].0 {
                *out.entry((k, here[i].0, Some(cols[j].0))).or_insert(0) += 1;
            }
        }
        if k == 0 {
            for (t, s) in &here {
                if !mine.contains_key(s) {
                    *out.entry((0, *t, None)).or_insert(0) += 1;
                }
            }
        }
        births[k] = mine;
        above = here;
    }
    out
}
