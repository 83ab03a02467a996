//! Number types the probability analyses are instantiated with: an exact prime field, an
//! interval, and a counting number.
use std::cell::Cell;
use std::ops::{Add, Mul, Sub};

pub const P61: u64 = (1 << 61) - 1;

/// Exact arithmetic modulo 2^61-1. The analyses are polynomial identities, so they hold in
/// any commutative ring; here equality is exact, whatever the order of summation.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Zp(pub u64);
fn mulp(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P61 as u128) as u64
}
fn powp(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulp(r, a);
        }
        a = mulp(a, a);
        e >>= 1;
    }
    r
}
impl Add for Zp {
    type Output = Zp;
    fn add(self, o: Zp) -> Zp {
        Zp((self.0 + o.0) % P61)
    }
}
impl Sub for Zp {
    type Output = Zp;
    fn sub(self, o: Zp) -> Zp {
        Zp((self.0 + P61 - o.0) % P61)
    }
}
impl Mul for Zp {
    type Output = Zp;
    fn mul(self, o: Zp) -> Zp {
        Zp(mulp(self.0, o.0))
    }
}
impl From<f64> for Zp {
    // any dyadic rational of moderate size
    fn from(mut x: f64) -> Zp {
        let neg = x < 0.0;
        x = x.abs();
        let mut den = 0;
        while x.fract() != 0.0 && den < 60 {
            x *= 2.0;
            den += 1;
        }
        let n = (x as u64) % P61;
        let inv = powp(powp(2, den), P61 - 2);
        let r = Zp(mulp(n, inv));
        if neg {
            Zp(0) - r
        } else {
            r
        }
    }
}

/// Closed interval.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Iv(pub f64, pub f64);
impl Add for Iv {
    type Output = Iv;
    fn add(self, o: Iv) -> Iv {
        Iv(self.0 + o.0, self.1 + o.1)
    }
}
impl Sub for Iv {
    type Output = Iv;
    fn sub(self, o: Iv) -> Iv {
        Iv(self.0 - o.1, self.1 - o.0)
    }
}
impl Mul for Iv {
    type Output = Iv;
    fn mul(self, o: Iv) -> Iv {
        let v = [self.0 * o.0, self.0 * o.1, self.1 * o.0, self.1 * o.1];
        Iv(v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
    }
}
impl From<f64> for Iv {
    fn from(x: f64) -> Iv {
        Iv(x, x)
    }
}

thread_local! { pub static OPS: Cell<u64> = const { Cell::new(0) }; }
/// A number that counts the arithmetic done with it.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Cnt(pub f64);
fn tick() {
    OPS.with(|c| c.set(c.get() + 1))
}
impl Add for Cnt {
    type Output = Cnt;
    fn add(self, o: Cnt) -> Cnt {
        tick();
        Cnt(self.0 + o.0)
    }
}
impl Sub for Cnt {
    type Output = Cnt;
    fn sub(self, o: Cnt) -> Cnt {
        tick();
        Cnt(self.0 - o.0)
    }
}
impl Mul for Cnt {
    type Output = Cnt;
    fn mul(self, o: Cnt) -> Cnt {
        tick();
        Cnt(self.0 * o.0)
    }
}
impl From<f64> for Cnt {
    fn from(x: f64) -> Cnt {
        Cnt(x)
    }
}
