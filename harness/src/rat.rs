//! An exact rational number that implements `num_traits::Float`, so that the real generic
//! interpolation code runs in exact arithmetic. 128-bit numerator/denominator; an overflow
//! sets a thread-local flag ("poisoned"), and the recorded event is then marked as skipped.
use num_traits::{Float, FromPrimitive, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

thread_local! { static POISON: Cell<bool> = const { Cell::new(false) }; }
pub fn take_poison() -> bool {
    POISON.with(|p| p.replace(false))
}
fn set_poison() -> Q {
    POISON.with(|p| p.set(true));
    Q::NAN
}

/// n/d in lowest terms, d > 0; d == 0 encodes +inf (n=1), -inf (n=-1), NaN (n=0).
#[derive(Clone, Copy, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    if a == 0 {
        return b as i128;
    }
    if b == 0 {
        return a as i128;
    }
    if (a | b) >> 64 == 0 {
        let (mut x, mut y) = (a as u64, b as u64);
        while y != 0 {
            (x, y) = (y, x % y);
        }
        return x as i128;
    }
    let sh = (a | b).trailing_zeros();
    a >>= a.trailing_zeros();
    loop {
        b >>= b.trailing_zeros();
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        b -= a;
        if b == 0 {
            return (a << sh) as i128;
        }
    }
}

impl Q {
    pub const NAN: Q = Q { n: 0, d: 0 };
    pub const INF: Q = Q { n: 1, d: 0 };
    pub const NINF: Q = Q { n: -1, d: 0 };
    pub const fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Q {
        if d == 0 {
            return match n.signum() {
                0 => Q::NAN,
                1 => Q::INF,
                _ => Q::NINF,
            };
        }
        let g = gcd(n, d);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        Q { n, d }
    }
    pub fn from_dyadic(x: f64) -> Q {
        if x.is_nan() {
            return Q::NAN;
        }
        if x.is_infinite() {
            return if x > 0.0 { Q::INF } else { Q::NINF };
        }
        let (m, e, s) = Float::integer_decode(x);
        let (mut m, mut e) = (m as i128, e as i32);
        if m == 0 {
            return Q::int(0);
        }
        let tz = m.trailing_zeros() as i32;
        m >>= tz;
        e += tz;
        if e >= 0 {
            if e > 70 {
                return set_poison();
            }
            Q::int((s as i128) * (m << e))
        } else {
            if e < -120 {
                return set_poison();
            }
            Q { n: (s as i128) * m, d: 1i128 << (-e) }
        }
    }
    fn fin(self) -> bool {
        self.d != 0
    }
    fn f(self) -> f64 {
        if self.d == 0 {
            match self.n {
                0 => f64::NAN,
                1 => f64::INFINITY,
                _ => f64::NEG_INFINITY,
            }
        } else {
            self.n as f64 / self.d as f64
        }
    }
    fn via(self, g: impl Fn(f64) -> f64) -> Q {
        Q::from_dyadic(g(self.f()))
    }
    fn trunc_i(self) -> i128 {
        self.n / self.d
    }
    fn floor_i(self) -> i128 {
        self.n.div_euclid(self.d)
    }
    fn cmpq(self, o: Q) -> Option<Ordering> {
        if self.fin() && o.fin() {
            if self.d == o.d {
                return Some(self.n.cmp(&o.n));
            }
            // cross-multiply; on overflow compare by continued fractions
            if let (Some(a), Some(b)) = (self.n.checked_mul(o.d), o.n.checked_mul(self.d)) {
                return Some(a.cmp(&b));
            }
            return Some(cmp_cf(self.n, self.d, o.n, o.d));
        }
        if (self.d == 0 && self.n == 0) || (o.d == 0 && o.n == 0) {
            return None;
        }
        self.f().partial_cmp(&o.f())
    }
}
fn cmp_cf(mut a: i128, mut b: i128, mut c: i128, mut d: i128) -> Ordering {
    let mut flip = false;
    loop {
        let (q1, q2) = (a.div_euclid(b), c.div_euclid(d));
        if q1 != q2 {
            let o = q1.cmp(&q2);
            return if flip { o.reverse() } else { o };
        }
        let (r1, r2) = (a.rem_euclid(b), c.rem_euclid(d));
        if r1 == 0 || r2 == 0 {
            let o = if r1 == 0 && r2 == 0 {
                Ordering::Equal
            } else if r1 == 0 {
                Ordering::Less
            } else {
                Ordering::Greater
            };
            return if flip { o.reverse() } else { o };
        }
        (a, b, c, d) = (b, r1, d, r2);
        flip = !flip;
    }
}
fn addq(a: Q, b: Q) -> Q {
    if !(a.fin() && b.fin()) {
        return Q::from_dyadic(a.f() + b.f());
    }
    if a.d == b.d {
        return match a.n.checked_add(b.n) {
            Some(n) => {
                if a.d == 1 {
                    Q { n, d: 1 }
                } else {
                    Q::new(n, a.d)
                }
            }
            None => set_poison(),
        };
    }
    let g = gcd(a.d, b.d);
    let (ad, bd) = (a.d / g, b.d / g);
    let r = (|| {
        let n = a.n.checked_mul(bd)?.checked_add(b.n.checked_mul(ad)?)?;
        let d = a.d.checked_mul(bd)?;
        Some(Q::new(n, d))
    })();
    r.unwrap_or_else(set_poison)
}
fn mulq(a: Q, b: Q) -> Q {
    if !(a.fin() && b.fin()) {
        return Q::from_dyadic(a.f() * b.f());
    }
    if a.n == 0 || b.n == 0 {
        return Q::int(0);
    }
    let (g1, g2) = (gcd(a.n, b.d), gcd(b.n, a.d));
    match ((a.n / g1).checked_mul(b.n / g2), (a.d / g2).checked_mul(b.d / g1)) {
        (Some(n), Some(d)) => Q { n, d },
        _ => set_poison(),
    }
}
fn divq(a: Q, b: Q) -> Q {
    if !(a.fin() && b.fin()) || b.n == 0 {
        return Q::from_dyadic(a.f() / b.f());
    }
    let r = if b.n > 0 { Q { n: b.d, d: b.n } } else { Q { n: -b.d, d: -b.n } };
    mulq(a, r)
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.cmpq(*o) == Some(Ordering::Equal)
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        self.cmpq(*o)
    }
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        addq(self, o)
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        addq(self, -o)
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        mulq(self, o)
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        divq(self, o)
    }
}
impl Rem for Q {
    type Output = Q;
    fn rem(self, o: Q) -> Q {
        if !(self.fin() && o.fin()) || o.n == 0 {
            return Q::NAN;
        }
        self - Q::int((self / o).trunc_i()) * o
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q { n: -self.n, d: self.d }
    }
}
macro_rules! asg { ($($t:ident $f:ident $op:tt),*) => { $(impl $t for Q { fn $f(&mut self, o: Q) { *self = *self $op o; } })* } }
asg!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
impl std::iter::Sum for Q {
    fn sum<I: Iterator<Item = Q>>(i: I) -> Q {
        i.fold(Q::int(0), |a, b| a + b)
    }
}
impl std::iter::Product for Q {
    fn product<I: Iterator<Item = Q>>(i: I) -> Q {
        i.fold(Q::int(1), |a, b| a * b)
    }
}
impl Default for Q {
    fn default() -> Q {
        Q::int(0)
    }
}
impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match (self.n, self.d) {
            (0, 0) => write!(f, "nan"),
            (1, 0) => write!(f, "inf"),
            (_, 0) => write!(f, "-inf"),
            (n, 1) => write!(f, "{n}"),
            (n, d) => write!(f, "{n}/{d}"),
        }
    }
}
impl Zero for Q {
    fn zero() -> Q {
        Q::int(0)
    }
    fn is_zero(&self) -> bool {
        self.fin() && self.n == 0
    }
}
impl One for Q {
    fn one() -> Q {
        Q::int(1)
    }
}
impl Num for Q {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Q, ()> {
        i128::from_str_radix(s, r).map(Q::int).map_err(|_| ())
    }
}
impl ToPrimitive for Q {
    fn to_i64(&self) -> Option<i64> {
        if !self.fin() {
            return None;
        }
        self.trunc_i().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        if !self.fin() {
            return None;
        }
        self.trunc_i().to_u64()
    }
    fn to_i128(&self) -> Option<i128> {
        if !self.fin() {
            return None;
        }
        Some(self.trunc_i())
    }
    fn to_u128(&self) -> Option<u128> {
        if !self.fin() {
            return None;
        }
        self.trunc_i().to_u128()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.f())
    }
}
impl FromPrimitive for Q {
    fn from_i64(n: i64) -> Option<Q> {
        Some(Q::int(n as i128))
    }
    fn from_u64(n: u64) -> Option<Q> {
        Some(Q::int(n as i128))
    }
    fn from_f64(n: f64) -> Option<Q> {
        Some(Q::from_dyadic(n))
    }
}
impl NumCast for Q {
    fn from<T: ToPrimitive>(n: T) -> Option<Q> {
        let f = n.to_f64()?;
        if !f.is_finite() {
            return Some(Q::from_dyadic(f));
        }
        if f == f.trunc() {
            if let Some(i) = n.to_i128() {
                return Some(Q::int(i));
            }
        }
        Some(Q::from_dyadic(f))
    }
}
impl Float for Q {
    fn nan() -> Q {
        Q::NAN
    }
    fn infinity() -> Q {
        Q::INF
    }
    fn neg_infinity() -> Q {
        Q::NINF
    }
    fn neg_zero() -> Q {
        Q::int(0)
    }
    fn min_value() -> Q {
        Q::int(-(1i128 << 100))
    }
    fn min_positive_value() -> Q {
        Q { n: 1, d: 1i128 << 100 }
    }
    fn epsilon() -> Q {
        Q { n: 1, d: 1i128 << 60 }
    }
    fn max_value() -> Q {
        Q::int(1i128 << 100)
    }
    fn is_nan(self) -> bool {
        self.d == 0 && self.n == 0
    }
    fn is_infinite(self) -> bool {
        self.d == 0 && self.n != 0
    }
    fn is_finite(self) -> bool {
        self.fin()
    }
    fn is_normal(self) -> bool {
        self.fin() && self.n != 0
    }
    fn classify(self) -> FpCategory {
        self.f().classify()
    }
    fn floor(self) -> Q {
        if self.fin() { Q::int(self.floor_i()) } else { self }
    }
    fn ceil(self) -> Q {
        if self.fin() { Q::int(-((-self).floor_i())) } else { self }
    }
    fn round(self) -> Q {
        if !self.fin() {
            return self;
        }
        let h = Q { n: 1, d: 2 };
        if self.n >= 0 { (self + h).floor() } else { -((-self + h).floor()) }
    }
    fn trunc(self) -> Q {
        if self.fin() { Q::int(self.trunc_i()) } else { self }
    }
    fn fract(self) -> Q {
        self - self.trunc()
    }
    fn abs(self) -> Q {
        Q { n: self.n.abs(), d: self.d }
    }
    fn signum(self) -> Q {
        if self.is_nan() { self } else if self.n < 0 { Q::int(-1) } else { Q::int(1) }
    }
    fn is_sign_positive(self) -> bool {
        self.n >= 0
    }
    fn is_sign_negative(self) -> bool {
        self.n < 0
    }
    fn mul_add(self, a: Q, b: Q) -> Q {
        self * a + b
    }
    fn recip(self) -> Q {
        Q::int(1) / self
    }
    fn powi(self, n: i32) -> Q {
        let mut r = Q::int(1);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 { r.recip() } else { r }
    }
    fn max(self, o: Q) -> Q {
        if self.is_nan() { o } else if o.is_nan() || self >= o { self } else { o }
    }
    fn min(self, o: Q) -> Q {
        if self.is_nan() { o } else if o.is_nan() || self <= o { self } else { o }
    }
    fn abs_sub(self, o: Q) -> Q {
        Float::max(self - o, Q::int(0))
    }
    fn clamp(self, lo: Q, hi: Q) -> Q {
        if self < lo { lo } else if self > hi { hi } else { self }
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.f())
    }
    fn powf(self, n: Q) -> Q {
        Q::from_dyadic(self.f().powf(n.f()))
    }
    fn hypot(self, o: Q) -> Q {
        Q::from_dyadic(self.f().hypot(o.f()))
    }
    fn atan2(self, o: Q) -> Q {
        Q::from_dyadic(self.f().atan2(o.f()))
    }
    fn log(self, b: Q) -> Q {
        Q::from_dyadic(self.f().log(b.f()))
    }
    fn sin_cos(self) -> (Q, Q) {
        (self.via(f64::sin), self.via(f64::cos))
    }
    fn sqrt(self) -> Q {
        self.via(f64::sqrt)
    }
    fn exp(self) -> Q {
        self.via(f64::exp)
    }
    fn exp2(self) -> Q {
        self.via(f64::exp2)
    }
    fn ln(self) -> Q {
        self.via(f64::ln)
    }
    fn log2(self) -> Q {
        self.via(f64::log2)
    }
    fn log10(self) -> Q {
        self.via(f64::log10)
    }
    fn cbrt(self) -> Q {
        self.via(f64::cbrt)
    }
    fn sin(self) -> Q {
        self.via(f64::sin)
    }
    fn cos(self) -> Q {
        self.via(f64::cos)
    }
    fn tan(self) -> Q {
        self.via(f64::tan)
    }
    fn asin(self) -> Q {
        self.via(f64::asin)
    }
    fn acos(self) -> Q {
        self.via(f64::acos)
    }
    fn atan(self) -> Q {
        self.via(f64::atan)
    }
    fn exp_m1(self) -> Q {
        self.via(f64::exp_m1)
    }
    fn ln_1p(self) -> Q {
        self.via(f64::ln_1p)
    }
    fn sinh(self) -> Q {
        self.via(f64::sinh)
    }
    fn cosh(self) -> Q {
        self.via(f64::cosh)
    }
    fn tanh(self) -> Q {
        self.via(f64::tanh)
    }
    fn asinh(self) -> Q {
        self.via(f64::asinh)
    }
    fn acosh(self) -> Q {
        self.via(f64::acosh)
    }
    fn atanh(self) -> Q {
        self.via(f64::atanh)
    }
}
