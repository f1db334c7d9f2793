//! A caller's own types whose every operation may panic: the `k`th use of any of them after `light(k)` does.
//! The indices and filtration values own memory, so that one dropped twice or read after its end is noticed.
use phlite::fields::*;
use phlite::matrices::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::{Add, Mul};

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// The `k`th use from now panics.
pub fn light(k: u64) {
    LEFT.with(|l| l.set(k));
}
/// Uses left before the panic; none panics any more.
pub fn out() -> u64 {
    LEFT.with(|l| l.replace(u64::MAX))
}
fn tick() {
    LEFT.with(|l| match l.get() {
        0 => {}
        1 => {
            l.set(0);
            panic!("the caller's own panic");
        }
        k => l.set(k - 1),
    })
}

/// The integers modulo 3.
#[derive(Clone, Copy, Debug)]
pub struct F3(u8);
impl F3 {
    pub fn new(k: u8) -> F3 {
        F3(k)
    }
    fn of(k: u8) -> Option<F3> {
        (k % 3 != 0).then_some(F3(k % 3))
    }
}
impl PartialEq for F3 {
    fn eq(&self, o: &F3) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for F3 {}
impl Add for F3 {
    type Output = Option<F3>;
    fn add(self, o: F3) -> Option<F3> {
        tick();
        F3::of(self.0 + o.0)
    }
}
impl Add<Option<F3>> for F3 {
    type Output = Option<F3>;
    fn add(self, o: Option<F3>) -> Option<F3> {
        tick();
        F3::of(self.0 + o.map_or(0, |o| o.0))
    }
}
impl Mul for F3 {
    type Output = F3;
    fn mul(self, o: F3) -> F3 {
        tick();
        F3(self.0 * o.0 % 3)
    }
}
impl NonZeroCoefficient for F3 {
    fn one() -> F3 {
        tick();
        F3(1)
    }
    fn additive_inverse(self) -> F3 {
        tick();
        F3(3 - self.0)
    }
}
impl Invertible for F3 {
    fn mult_inverse(self) -> F3 {
        tick();
        self
    }
}

/// An index, also used as a filtration value.
#[derive(Debug)]
pub struct Ix(Box<usize>);
impl Ix {
    pub fn new(k: usize) -> Ix {
        Ix(Box::new(k))
    }
    pub fn get(&self) -> usize {
        *self.0
    }
}
impl Clone for Ix {
    fn clone(&self) -> Ix {
        tick();
        Ix(self.0.clone())
    }
}
impl PartialEq for Ix {
    fn eq(&self, o: &Ix) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Ix {}
impl PartialOrd for Ix {
    fn partial_cmp(&self, o: &Ix) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ix {
    fn cmp(&self, o: &Ix) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl Hash for Ix {
    fn hash<H: Hasher>(&self, h: &mut H) {
        tick();
        self.0.hash(h)
    }
}
impl BasisElement for Ix {}
impl FiltrationValue for Ix {}

/// A square matrix in dimensions: its basis lists the indices of each dimension.
pub struct Fm {
    pub cols: Vec<Vec<(F3, usize)>>,
    pub dims: Fb,
}
pub struct Fb(pub Vec<Vec<Ix>>);
impl ColBasis for Fb {
    type ElemT = Ix;
    fn element(&self, index: usize) -> Ix {
        tick();
        self.0.iter().flatten().nth(index).expect("an index below the size").clone()
    }
    fn size(&self) -> usize {
        tick();
        self.0.iter().map(Vec::len).sum()
    }
}
impl SplitByDimension for Fb {
    type SubBasisT = Vec<Ix>;
    fn in_dimension(&self, d: usize) -> &Vec<Ix> {
        tick();
        &self.0[d]
    }
}
impl MatrixOracle for Fm {
    type CoefficientField = F3;
    type ColT = Ix;
    type RowT = Ix;
    fn column(&self, c: Ix) -> impl Iterator<Item = (F3, Ix)> {
        tick();
        self.cols[c.get()].iter().map(|(k, i)| {
            tick();
            (*k, Ix::new(*i))
        })
    }
}
impl HasRowFiltration for Fm {
    type FiltrationT = Ix;
    fn filtration_value(&self, x: Ix) -> Ix {
        tick();
        x
    }
}
impl HasColBasis for Fm {
    type BasisT = Fb;
    type BasisRef<'a> = &'a Fb;
    fn basis(&self) -> &Fb {
        tick();
        &self.dims
    }
}
