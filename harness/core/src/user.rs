//! A user's own coefficient field, index type, matrix and basis, all of which let another thread take over when they are used.
use crate::tf::TF;
use mc::la::Sc;
use mc::sched::*;
use phlite::fields::*;
use phlite::matrices::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::{Add, Mul};

/// The integers modulo 5, written by a user.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Y5(u8);

impl Add for Y5 {
    type Output = Option<Y5>;
    fn add(self, o: Y5) -> Option<Y5> {
        point(FIELD);
        let s = (self.0 + o.0) % 5;
        (s != 0).then_some(Y5(s))
    }
}
impl Add<Option<Y5>> for Y5 {
    type Output = Option<Y5>;
    fn add(self, o: Option<Y5>) -> Option<Y5> {
        point(FIELD);
        match o {
            None => Some(self),
            Some(o) => {
                let s = (self.0 + o.0) % 5;
                (s != 0).then_some(Y5(s))
            }
        }
    }
}
impl Mul for Y5 {
    type Output = Y5;
    fn mul(self, o: Y5) -> Y5 {
        point(FIELD);
        Y5(self.0 * o.0 % 5)
    }
}
impl NonZeroCoefficient for Y5 {
    fn one() -> Y5 {
        point(FIELD);
        Y5(1)
    }
    fn additive_inverse(self) -> Y5 {
        point(FIELD);
        Y5(5 - self.0)
    }
}
impl Invertible for Y5 {
    fn mult_inverse(self) -> Y5 {
        point(FIELD);
        Y5([0, 1, 3, 2, 4][self.0 as usize])
    }
}
impl TF for Y5 {
    const P: i128 = 5;
    const NAME: &'static str = "user's Z5";
    fn int(k: i64) -> Option<Y5> {
        let r = k.rem_euclid(5) as u8;
        (r != 0).then_some(Y5(r))
    }
    fn sc(self) -> Sc {
        Sc::int(self.0 as i128, 5)
    }
}

/// A user's index type.
#[derive(Debug)]
pub struct Yr(pub usize);
impl Clone for Yr {
    fn clone(&self) -> Yr {
        point(INDEX);
        Yr(self.0)
    }
}
impl PartialEq for Yr {
    fn eq(&self, o: &Yr) -> bool {
        point(INDEX);
        self.0 == o.0
    }
}
impl Eq for Yr {}
impl PartialOrd for Yr {
    fn partial_cmp(&self, o: &Yr) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Yr {
    fn cmp(&self, o: &Yr) -> Ordering {
        point(INDEX);
        self.0.cmp(&o.0)
    }
}
impl Hash for Yr {
    fn hash<H: Hasher>(&self, h: &mut H) {
        point(INDEX);
        self.0.hash(h)
    }
}
impl BasisElement for Yr {}

pub struct Yb(pub Vec<Vec<Yr>>);
impl ColBasis for Yb {
    type ElemT = Yr;
    fn element(&self, index: usize) -> Yr {
        point(ORACLE);
        Yr(self.0.iter().flatten().nth(index).expect("index below the size").0)
    }
    fn size(&self) -> usize {
        self.0.iter().map(|b| b.len()).sum()
    }
}
impl SplitByDimension for Yb {
    type SubBasisT = Vec<Yr>;
    fn in_dimension(&self, d: usize) -> &Vec<Yr> {
        point(ORACLE);
        &self.0[d]
    }
}

/// A square matrix whose columns are handed out entry by entry.
pub struct Ym {
    pub cols: Vec<Vec<(Y5, Yr)>>,
    pub basis: Yb,
}
impl MatrixOracle for Ym {
    type CoefficientField = Y5;
    type ColT = Yr;
    type RowT = Yr;
    fn column(&self, c: Yr) -> impl Iterator<Item = (Y5, Yr)> {
        point(ORACLE);
        self.cols[c.0].iter().map(|(k, i)| {
            point(ORACLE);
            (*k, Yr(i.0))
        })
    }
}
impl HasRowFiltration for Ym {
    type FiltrationT = ();
    fn filtration_value(&self, _: Yr) {
        point(TIME);
    }
}
impl HasColBasis for Ym {
    type BasisT = Yb;
    type BasisRef<'a> = &'a Yb;
    fn basis(&self) -> &Yb {
        &self.basis
    }
}
