//! The coefficient fields under test, tied to the reference scalars `Sc`.
use mc::la::Sc;
use phlite::fields::*;
use std::fmt::Debug;

pub trait TF: Invertible + Debug + 'static {
    /// Characteristic, 0 for the rationals.
    const P: i128;
    const NAME: &'static str;
    /// Sum of |k| ones (negated if k < 0); None if that is zero.
    fn int(k: i64) -> Option<Self>;
    fn sc(self) -> Sc;
    fn of(s: Sc) -> Self {
        Self::of_opt(s).expect("non-zero scalar")
    }
    fn of_opt(s: Sc) -> Option<Self> {
        assert_eq!(s.p, Self::P);
        let n = Self::int(s.n as i64)?;
        if s.d == 1 {
            return Some(n);
        }
        Some(n * Self::int(s.d as i64).unwrap().mult_inverse())
    }
    /// Coefficients used in enumerations of matrices: all non-zero ones, or a few rationals.
    fn coeffs() -> Vec<Sc> {
        if Self::P > 0 {
            (1..Self::P).map(|k| Sc::int(k, Self::P)).collect()
        } else {
            vec![Sc::int(1, 0), Sc::int(-1, 0), Sc::int(2, 0), Sc::new(-1, 2, 0)]
        }
    }
    fn coeffs_small() -> Vec<Sc> {
        let mut c = Self::coeffs();
        if Self::P > 5 {
            let p = Self::P;
            c = vec![1, 2, p - 1].into_iter().map(|k| Sc::int(k, p)).collect();
        } else if Self::P == 0 {
            c = vec![Sc::int(1, 0), Sc::int(-1, 0), Sc::int(2, 0)];
        }
        c
    }
}

/// k * 1 by doubling, using only the operations under test.
fn times<F: Invertible>(k: u64) -> Option<F> {
    let mut acc: Option<F> = None;
    let mut pow: Option<F> = Some(F::one());
    let mut k = k;
    while k > 0 {
        if k & 1 == 1 {
            acc = match (acc, pow) {
                (None, p) => p,
                (Some(a), p) => a + p,
            };
        }
        k >>= 1;
        if k > 0 {
            pow = pow.and_then(|p| p + p);
        }
    }
    acc
}

impl TF for Z2 {
    const P: i128 = 2;
    const NAME: &'static str = "Z2";
    fn int(k: i64) -> Option<Z2> {
        (k.rem_euclid(2) == 1).then(Z2::one)
    }
    fn sc(self) -> Sc {
        Sc { n: 1, d: 1, p: 2 }
    }
}

macro_rules! zp {
    ($t:ident, $p:expr) => {
        impl TF for $t {
            const P: i128 = $p;
            const NAME: &'static str = stringify!($t);
            fn int(k: i64) -> Option<$t> {
                thread_local! {
                    static T: Vec<$t> = (1..$p as u64).map(|k| {
                        let mut x = Some($t::one());
                        for _ in 1..k { x = $t::one() + x; }
                        x.expect("multiples of one below p are non-zero")
                    }).collect();
                }
                let r = k.rem_euclid($p as i64);
                if r == 0 {
                    return None;
                }
                Some(T.with(|t| t[r as usize - 1]))
            }
            fn sc(self) -> Sc {
                for k in 1..$p as i64 {
                    if Some(self) == Self::int(k) {
                        return Sc::int(k as i128, $p);
                    }
                }
                panic!("element of {} that is no multiple of one: {:?}", Self::NAME, self)
            }
        }
    };
}
zp!(Z3, 3);
zp!(Z5, 5);
zp!(Z7, 7);
zp!(Z11, 11);
zp!(Z13, 13);

impl TF for Q {
    const P: i128 = 0;
    const NAME: &'static str = "Q";
    fn int(k: i64) -> Option<Q> {
        let x = times::<Q>(k.unsigned_abs())?;
        Some(if k < 0 { x.additive_inverse() } else { x })
    }
    fn sc(self) -> Sc {
        // candidate from the debug form, then confirmed (or searched for) with the operations and equality only
        let s = format!("{self:?}");
        let nums: Vec<i128> = s
            .split(|c: char| !(c.is_ascii_digit() || c == '-'))
            .filter(|x| !x.is_empty())
            .filter_map(|x| x.parse().ok())
            .collect();
        let cand = match nums[..] {
            [n, d] if d > 0 && n != 0 => Some(Sc::new(n, d, 0)),
            [n] if n != 0 => Some(Sc::int(n, 0)),
            _ => None,
        };
        if let Some(c) = cand {
            if Q::of(c) == self {
                return c;
            }
        }
        for d in 1..200i128 {
            for n in 1..400i128 {
                for s in [n, -n] {
                    if mc::la::gcd(s, d) == 1 && Q::of(Sc::new(s, d, 0)) == self {
                        return Sc::new(s, d, 0);
                    }
                }
            }
        }
        panic!("cannot identify rational {self:?}")
    }
}

/// Sum of an optional coefficient and a term.
pub fn sc_opt<F: TF>(x: Option<F>) -> Sc {
    x.map_or(Sc::zero(F::P), |x| x.sc())
}

/// A caller's own field: the integers modulo 65537, stored with a check word, wide and over-aligned.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(align(32))]
pub struct Wide {
    k: u32,
    check: [u64; 4],
}
impl Wide {
    const Q: u64 = 65_537;
    fn mk(k: u64) -> Option<Wide> {
        let k = k % Self::Q;
        (k != 0).then(|| Wide { k: k as u32, check: [k * 3, !k, k << 40, k ^ 0x5555] })
    }
    fn k(self) -> u64 {
        let k = self.k as u64;
        assert_eq!(Some(self), Self::mk(k), "a coefficient of the caller's field that the field never made");
        k
    }
}
impl std::ops::Add for Wide {
    type Output = Option<Wide>;
    fn add(self, o: Wide) -> Option<Wide> {
        Wide::mk(self.k() + o.k())
    }
}
impl std::ops::Add<Option<Wide>> for Wide {
    type Output = Option<Wide>;
    fn add(self, o: Option<Wide>) -> Option<Wide> {
        Wide::mk(self.k() + o.map_or(0, Wide::k))
    }
}
impl std::ops::Mul for Wide {
    type Output = Wide;
    fn mul(self, o: Wide) -> Wide {
        Wide::mk(self.k() * o.k()).expect("no divisors of zero")
    }
}
impl NonZeroCoefficient for Wide {
    fn one() -> Wide {
        Wide::mk(1).unwrap()
    }
    fn additive_inverse(self) -> Wide {
        Wide::mk(Self::Q - self.k()).unwrap()
    }
}
impl Invertible for Wide {
    fn mult_inverse(self) -> Wide {
        Wide::mk(mc::la::powm(self.k(), Self::Q - 2, Self::Q)).unwrap()
    }
}
impl TF for Wide {
    const P: i128 = 65_537;
    const NAME: &'static str = "caller's Z65537";
    fn int(k: i64) -> Option<Wide> {
        Wide::mk(k.rem_euclid(Self::Q as i64) as u64)
    }
    fn sc(self) -> Sc {
        Sc::int(self.k() as i128, Self::P)
    }
    fn coeffs() -> Vec<Sc> {
        [1, 2, 256, 40_503, 65_536].map(|k| Sc::int(k, Self::P)).to_vec()
    }
}
