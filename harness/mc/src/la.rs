//! Reference linear algebra, deliberately plain.  Independent of the code under test.

/// A scalar of the reference field with `p` elements (p > 0, 0 <= n < p, d = 1) or of the rationals (p = 0, d > 0, gcd 1).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sc {
    pub n: i128,
    pub d: i128,
    pub p: i128,
}
impl std::fmt::Debug for Sc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
impl Sc {
    pub fn new(n: i128, d: i128, p: i128) -> Sc {
        if p > 0 {
            assert_eq!(d, 1);
            Sc { n: n.rem_euclid(p), d: 1, p }
        } else {
            let g = gcd(n, d);
            let s = if d < 0 { -1 } else { 1 };
            Sc { n: s * n / g, d: s * d / g, p }
        }
    }
    pub fn int(n: i128, p: i128) -> Sc {
        Sc::new(n, 1, p)
    }
    pub fn zero(p: i128) -> Sc {
        Sc { n: 0, d: 1, p }
    }
    pub fn is_zero(self) -> bool {
        self.n == 0
    }
    pub fn add(self, o: Sc) -> Sc {
        Sc::new(self.n * o.d + o.n * self.d, self.d * o.d, self.p)
    }
    pub fn mul(self, o: Sc) -> Sc {
        Sc::new(self.n * o.n, self.d * o.d, self.p)
    }
    pub fn neg(self) -> Sc {
        Sc::new(-self.n, self.d, self.p)
    }
    pub fn inv(self) -> Sc {
        assert!(!self.is_zero());
        if self.p == 0 {
            Sc::new(self.d, self.n, 0)
        } else {
            (1..self.p).map(|k| Sc::int(k, self.p)).find(|k| self.mul(*k).n == 1).expect("field")
        }
    }
    /// Residue modulo the prime used for rank computations.
    pub fn residue(self) -> u64 {
        let q = rank_prime(self.p) as i128;
        let n = self.n.rem_euclid(q) as u64;
        let d = self.d.rem_euclid(q) as u64;
        mulm(n, powm(d, q as u64 - 2, q as u64), q as u64)
    }
}
/// Ranks over the rationals are computed modulo a large prime: all matrices here are so small with such small entries
/// that no non-zero minor can be divisible by it (Hadamard bound).
pub fn rank_prime(p: i128) -> u64 {
    if p == 0 {
        2_305_843_009_213_693_951 // 2^61 - 1
    } else {
        p as u64
    }
}
pub fn mulm(a: u64, b: u64, q: u64) -> u64 {
    if q < (1 << 31) {
        a * b % q
    } else {
        ((a as u128 * b as u128) % q as u128) as u64
    }
}
pub fn powm(mut a: u64, mut e: u64, q: u64) -> u64 {
    let mut r = 1 % q;
    a %= q;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, q)
        }
        a = mulm(a, a, q);
        e >>= 1;
    }
    r
}

/// Incremental row echelon basis over GF(q).
pub struct Echelon {
    q: u64,
    rows: Vec<(usize, Vec<u64>)>,
}
impl Echelon {
    pub fn new(q: u64) -> Self {
        Echelon { q, rows: vec![] }
    }
    pub fn rank(&self) -> usize {
        self.rows.len()
    }
    pub fn reduce(&self, v: &[u64]) -> Vec<u64> {
        let mut v = v.to_vec();
        for (lead, r) in &self.rows {
            let c = v[*lead];
            if c != 0 {
                for (x, y) in v.iter_mut().zip(r) {
                    if *y != 0 {
                        *x = (*x + self.q - mulm(c, *y, self.q)) % self.q;
                    }
                }
            }
        }
        v
    }
    /// Returns true if the rank grew.
    pub fn add(&mut self, v: &[u64]) -> bool {
        let mut v = self.reduce(v);
        let Some(lead) = v.iter().position(|x| *x != 0) else {
            return false;
        };
        let inv = powm(v[lead], self.q - 2, self.q);
        for x in v.iter_mut() {
            *x = mulm(*x, inv, self.q);
        }
        self.rows.push((lead, v));
        true
    }
}
pub fn rank(vs: &[Vec<u64>], q: u64) -> usize {
    let mut e = Echelon::new(q);
    for v in vs {
        e.add(v);
    }
    e.rank()
}

/// Incremental basis over GF(2), vectors as bit masks.
#[derive(Default, Clone)]
pub struct Bits {
    rows: Vec<u128>,
}
impl Bits {
    pub fn rank(&self) -> usize {
        self.rows.len()
    }
    pub fn rows(&self) -> &[u128] {
        &self.rows
    }
    pub fn reduce(&self, mut v: u128) -> u128 {
        for r in &self.rows {
            // each row keeps its highest bit as leading bit
            if v & (1u128 << (127 - r.leading_zeros())) != 0 {
                v ^= r;
            }
        }
        v
    }
    pub fn add(&mut self, v: u128) -> bool {
        let v = self.reduce(v);
        if v == 0 {
            return false;
        }
        self.rows.push(v);
        true
    }
}

/// The pairing determined by ranks of lower-left sub-matrices: (row, column) pairs such that
/// r(i,j) - r(i+1,j) - r(i,j-1) + r(i+1,j-1) = 1 where r(i,j) is the rank of rows >= i in columns <= j.
/// `cols[j][i]` is the entry in row i (rows in increasing filtration order) of column j.
pub fn pairing(nrows: usize, cols: &[Vec<u64>], q: u64) -> Vec<(usize, usize)> {
    let n = cols.len();
    // r[i][j] with j columns taken
    let mut r = vec![vec![0i64; n + 1]; nrows + 1];
    for i in 0..nrows {
        if q == 2 && nrows <= 128 {
            let mut e = Bits::default();
            for j in 0..n {
                let mut m = 0u128;
                for (k, x) in cols[j].iter().enumerate().skip(i) {
                    if *x != 0 {
                        m |= 1 << k;
                    }
                }
                e.add(m);
                r[i][j + 1] = e.rank() as i64;
            }
        } else {
            let mut e = Echelon::new(q);
            for j in 0..n {
                e.add(&cols[j][i..]);
                r[i][j + 1] = e.rank() as i64;
            }
        }
    }
    let mut out = vec![];
    for i in 0..nrows {
        for j in 0..n {
            if r[i][j + 1] - r[i + 1][j + 1] - r[i][j] + r[i + 1][j] == 1 {
                out.push((i, j));
            }
        }
    }
    out
}

/// The same pairing for large sparse matrices: columns as (value, row) lists over GF(q), reduced from left to right.
/// Cross-checked against [`pairing`] wherever that is affordable.
pub fn sparse_pairing(cols: &[Vec<(u64, usize)>], q: u64) -> Vec<(usize, usize)> {
    // every stored column: rows strictly decreasing, leading value 1
    let mut by_pivot: std::collections::HashMap<usize, Vec<(usize, u64)>> = Default::default();
    let mut out = vec![];
    for (j, c) in cols.iter().enumerate() {
        let mut acc: std::collections::BTreeMap<usize, u64> = Default::default();
        for (v, i) in c {
            let e = acc.entry(*i).or_insert(0);
            *e = ((*e as u128 + *v as u128) % q as u128) as u64;
        }
        acc.retain(|_, v| *v != 0);
        while let Some((&i, &v)) = acc.last_key_value() {
            let Some(red) = by_pivot.get(&i) else {
                let inv = powm(v, q - 2, q);
                by_pivot.insert(i, acc.iter().rev().map(|(r, x)| (*r, mulm(*x, inv, q))).collect());
                out.push((i, j));
                break;
            };
            for (r, x) in red {
                let e = acc.entry(*r).or_insert(0);
                *e = ((*e as u128 + q as u128 - mulm(v, *x, q) as u128) % q as u128) as u64;
                if *e == 0 {
                    acc.remove(r);
                }
            }
        }
    }
    out.sort();
    out
}

/// Basis of the kernel of a linear map given by the images of the standard basis vectors (`cols[j]` = image of e_j).
pub fn kernel(cols: &[Vec<u64>], q: u64) -> Vec<Vec<u64>> {
    let n = cols.len();
    let m = cols.first().map_or(0, |c| c.len());
    // rows of the matrix
    let mut a: Vec<Vec<u64>> = (0..m).map(|i| (0..n).map(|j| cols[j][i]).collect()).collect();
    let mut piv: Vec<usize> = vec![];
    let mut row = 0;
    for j in 0..n {
        let Some(k) = (row..m).find(|&k| a[k][j] != 0) else {
            continue;
        };
        a.swap(row, k);
        let inv = powm(a[row][j], q - 2, q);
        for x in a[row].iter_mut() {
            *x = mulm(*x, inv, q);
        }
        for k in 0..m {
            if k != row && a[k][j] != 0 {
                let c = a[k][j];
                for t in 0..n {
                    let y = mulm(c, a[row][t], q);
                    a[k][t] = (a[k][t] + q - y) % q;
                }
            }
        }
        piv.push(j);
        row += 1;
    }
    let mut out = vec![];
    for f in (0..n).filter(|f| !piv.contains(f)) {
        let mut v = vec![0; n];
        v[f] = 1;
        for (r, &j) in piv.iter().enumerate() {
            v[j] = (q - a[r][f]) % q;
        }
        out.push(v);
    }
    out
}

/// All elements of the span of `basis` over GF(q).
pub fn span(basis: &[Vec<u64>], dim: usize, q: u64, mut f: impl FnMut(&[u64])) {
    crate::words(q as usize, basis.len(), |w| {
        let mut v = vec![0u64; dim];
        for (c, b) in w.iter().zip(basis) {
            for (x, y) in v.iter_mut().zip(b) {
                *x = (*x + *c as u64 * y) % q;
            }
        }
        f(&v)
    })
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basics() {
        assert_eq!(Sc::new(2, 4, 0).inv(), Sc::new(2, 1, 0));
        assert_eq!(Sc::int(3, 5).inv(), Sc::int(2, 5));
        assert_eq!(rank(&[vec![1, 1], vec![2, 2], vec![0, 1]], 5), 2);
        assert_eq!(kernel(&[vec![1], vec![1], vec![0]], 3).len(), 2);
        // filled triangle
        let z = vec![0u64; 7];
        let col = |r: &[usize]| {
            let mut v = z.clone();
            for i in r {
                v[*i] = 1
            }
            v
        };
        let cols = vec![z.clone(), z.clone(), z.clone(), col(&[0, 1]), col(&[1, 2]), col(&[0, 2]), col(&[3, 4, 5])];
        assert_eq!(pairing(7, &cols, 2), vec![(1, 3), (2, 4), (5, 6)]);
        assert_eq!(Sc::new(1, 3, 0).residue() as u128 * 3 % ((1 << 61) - 1), 1);
    }
}
