//! Number types used to instantiate the generic probability code.

use std::ops::{Add, Mul, Sub};

pub const PRIME: u64 = (1 << 61) - 1;

/// The field of integers modulo 2^61-1: exact arithmetic, so two ways of computing the same
/// polynomial agree exactly, and different polynomials agree with negligible probability.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Zp(pub u64);

impl Add for Zp {
    type Output = Zp;
    fn add(self, o: Zp) -> Zp {
        Zp((self.0 + o.0) % PRIME)
    }
}
impl Sub for Zp {
    type Output = Zp;
    fn sub(self, o: Zp) -> Zp {
        Zp((self.0 + PRIME - o.0) % PRIME)
    }
}
impl Mul for Zp {
    type Output = Zp;
    fn mul(self, o: Zp) -> Zp {
        Zp((self.0 as u128 * o.0 as u128 % PRIME as u128) as u64)
    }
}
impl Zp {
    pub fn int(x: i64) -> Zp {
        Zp(x.rem_euclid(PRIME as i64) as u64)
    }
    pub fn pow(self, mut e: u64) -> Zp {
        let (mut b, mut r) = (self, Zp(1));
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
}
impl From<f64> for Zp {
    /// Every finite f64 is m·2^e; the image is exact.
    fn from(x: f64) -> Zp {
        if x == 0.0 {
            return Zp(0);
        }
        let bits = x.abs().to_bits();
        let ex = (bits >> 52) as i64;
        let (m, e) = if ex == 0 { (bits & ((1 << 52) - 1), -1074) } else { ((bits & ((1 << 52) - 1)) | (1 << 52), ex - 1075) };
        let two = Zp(2);
        let scale = if e >= 0 { two.pow(e as u64) } else { two.pow(PRIME - 2).pow((-e) as u64) };
        let v = Zp(m % PRIME) * scale;
        if x < 0.0 {
            Zp(0) - v
        } else {
            v
        }
    }
}

/// Closed intervals.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv(pub f64, pub f64);

impl Add for Iv {
    type Output = Iv;
    fn add(self, o: Iv) -> Iv {
        Iv(self.0 + o.0, self.1 + o.1)
    }
}
impl Sub for Iv {
    type Output = Iv;
    fn sub(self, o: Iv) -> Iv {
        Iv(self.0 - o.1, self.1 - o.0)
    }
}
impl Mul for Iv {
    type Output = Iv;
    fn mul(self, o: Iv) -> Iv {
        let c = [self.0 * o.0, self.0 * o.1, self.1 * o.0, self.1 * o.1];
        Iv(c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max))
    }
}
impl From<f64> for Iv {
    fn from(x: f64) -> Iv {
        Iv(x, x)
    }
}
impl Iv {
    pub fn has(&self, x: f64) -> bool {
        self.0 - 1e-9 <= x && x <= self.1 + 1e-9
    }
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9
}

impl From<u32> for Zp {
    fn from(x: u32) -> Zp {
        Zp(x as u64)
    }
}

macro_rules! wrapped {
    ($n:ident, $t:ty) => {
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $n(pub $t);
        impl Add for $n {
            type Output = $n;
            fn add(self, o: $n) -> $n {
                $n(self.0 + o.0)
            }
        }
        impl Sub for $n {
            type Output = $n;
            fn sub(self, o: $n) -> $n {
                $n(self.0 - o.0)
            }
        }
        impl Mul for $n {
            type Output = $n;
            fn mul(self, o: $n) -> $n {
                $n(self.0 * o.0)
            }
        }
        impl From<u32> for $n {
            fn from(x: u32) -> $n {
                $n(x as $t)
            }
        }
    };
}
wrapped!(U, u128);
wrapped!(Zi, i128);
wrapped!(F, f64);
