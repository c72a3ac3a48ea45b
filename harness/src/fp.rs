//! Element type: the prime field GF(p), p chosen at run time.
//!
//! The library only ever obtains constants through FromPrimitive/Zero/One; its f64 twiddles are mapped to the
//! field elements that represent the same algebraic numbers (cos of a rational angle, optionally scaled by
//! sqrt2, 1/sqrt2, 2, 1/2; rationals; 1/n).  A constant that is none of these makes the instance "unrecognised":
//! nothing is claimed about it over GF(p) (the floating-point checks still apply).
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use std::ops::*;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub static P: AtomicU64 = AtomicU64::new(3);
pub static M: AtomicU64 = AtomicU64::new(1);
pub static Z: AtomicU64 = AtomicU64::new(1); // primitive M-th root of unity
thread_local! { static UNREC: std::cell::Cell<u64> = const { std::cell::Cell::new(0) } }
/// constants not recognised on this thread so far
pub fn unrec() -> u64 {
    UNREC.with(|u| u.get())
}
fn strange() {
    UNREC.with(|u| u.set(u.get() + 1))
}
pub static CMP: AtomicU64 = AtomicU64::new(0);
pub static NONLIN: AtomicU64 = AtomicU64::new(0);

/// v: residue, d: 1 if the value (syntactically) depends on transformed data
#[derive(Copy, Clone)]
pub struct Fp {
    pub v: u32,
    pub d: u32,
}
impl std::fmt::Debug for Fp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
#[inline]
pub fn p() -> u64 {
    P.load(Relaxed)
}
pub fn powm(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1u64;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
pub fn inv(a: u64, p: u64) -> u64 {
    powm(a, p - 2, p)
}
fn c(v: u64) -> Fp {
    Fp { v: v as u32, d: 0 }
}
pub fn data(v: i64) -> Fp {
    let p = p() as i64;
    Fp { v: v.rem_euclid(p) as u32, d: 1 }
}
#[inline]
fn tick() {
    crate::sched::tick();
}
impl Add for Fp {
    type Output = Fp;
    #[inline]
    fn add(self, o: Fp) -> Fp {
        tick();
        let p = p();
        Fp { v: ((self.v as u64 + o.v as u64) % p) as u32, d: self.d | o.d }
    }
}
impl Sub for Fp {
    type Output = Fp;
    #[inline]
    fn sub(self, o: Fp) -> Fp {
        tick();
        let p = p();
        Fp { v: ((self.v as u64 + p - o.v as u64) % p) as u32, d: self.d | o.d }
    }
}
impl Mul for Fp {
    type Output = Fp;
    #[inline]
    fn mul(self, o: Fp) -> Fp {
        tick();
        let p = p();
        if self.d & o.d != 0 {
            NONLIN.fetch_add(1, Relaxed);
        }
        Fp { v: (self.v as u64 * o.v as u64 % p) as u32, d: self.d | o.d }
    }
}
impl Div for Fp {
    type Output = Fp;
    fn div(self, o: Fp) -> Fp {
        tick();
        let p = p();
        if o.d != 0 {
            NONLIN.fetch_add(1, Relaxed);
        }
        if o.v == 0 {
            strange();
        }
        Fp { v: (self.v as u64 * inv(o.v as u64, p) % p) as u32, d: self.d | o.d }
    }
}
impl Rem for Fp {
    type Output = Fp;
    fn rem(self, o: Fp) -> Fp {
        strange();
        NONLIN.fetch_add(1, Relaxed);
        Fp { v: 0, d: self.d | o.d }
    }
}
impl Neg for Fp {
    type Output = Fp;
    fn neg(self) -> Fp {
        tick();
        let p = p();
        Fp { v: ((p - self.v as u64) % p) as u32, d: self.d }
    }
}
impl PartialEq for Fp {
    fn eq(&self, o: &Fp) -> bool {
        CMP.fetch_add(1, Relaxed);
        self.v == o.v
    }
}
impl Zero for Fp {
    fn zero() -> Fp {
        c(0)
    }
    fn is_zero(&self) -> bool {
        CMP.fetch_add(1, Relaxed);
        self.v == 0
    }
}
impl One for Fp {
    fn one() -> Fp {
        c(1)
    }
}
impl Num for Fp {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Fp, ()> {
        Err(())
    }
}
fn neg(x: &Fp) -> bool {
    x.v as u64 > p() / 2
}
impl Signed for Fp {
    // There is no order on GF(p); the upper half of the residues counts as negative, so that a branch on signs takes both ways.
    fn abs(&self) -> Fp {
        CMP.fetch_add(1, Relaxed);
        strange();
        if neg(self) { -*self } else { *self }
    }
    fn abs_sub(&self, o: &Fp) -> Fp {
        CMP.fetch_add(1, Relaxed);
        strange();
        *self - *o
    }
    fn signum(&self) -> Fp {
        CMP.fetch_add(1, Relaxed);
        strange();
        if self.v == 0 { c(0) } else if neg(self) { c(p() - 1) } else { c(1) }
    }
    fn is_positive(&self) -> bool {
        CMP.fetch_add(1, Relaxed);
        strange();
        self.v != 0 && !neg(self)
    }
    fn is_negative(&self) -> bool {
        CMP.fetch_add(1, Relaxed);
        strange();
        neg(self)
    }
}

fn field_cos(k: u64) -> u64 {
    let (p, m, z) = (p(), M.load(Relaxed), Z.load(Relaxed));
    let a = powm(z, k % m, p);
    let b = powm(z, (m - k % m) % m, p);
    (a + b) % p * inv(2, p) % p
}
/// cos(2 pi k / m), accurately
fn real_cos(k: u64, m: u64) -> f64 {
    let k = k % m;
    let k = if 2 * k > m { m - k } else { k };
    // now 0 <= k/m <= 1/2
    let tau = 2.0 * std::f64::consts::PI;
    if 8 * k <= m {
        (tau * k as f64 / m as f64).cos()
    } else if 8 * k <= 3 * m {
        (tau * (m as f64 - 4.0 * k as f64) / (4.0 * m as f64)).sin()
    } else {
        -(tau * (m as f64 - 2.0 * k as f64) / (2.0 * m as f64)).cos()
    }
}
/// v as cos(2 pi k / M)?
fn as_cos(v: f64, tol: f64) -> Option<u64> {
    let m = M.load(Relaxed);
    if v.abs() > 1.0 + tol {
        return None;
    }
    let k0 = (v.clamp(-1.0, 1.0).acos() * m as f64 / (2.0 * std::f64::consts::PI)).round() as i64;
    for k in [k0, k0 - 1, k0 + 1] {
        if k >= 0 && (real_cos(k as u64, m) - v).abs() <= tol {
            return Some(field_cos(k as u64));
        }
    }
    None
}
fn as_rational(v: f64) -> Option<u64> {
    let p = p();
    let a = v.abs();
    let fin = |num: u64, den: u64| {
        if den % p == 0 {
            return None;
        }
        let r = num % p * inv(den, p) % p;
        Some(if v < 0.0 { (p - r) % p } else { r })
    };
    if a == 0.0 {
        return Some(0);
    }
    if a.fract() == 0.0 && a < 9.0e15 {
        return fin(a as u64, 1);
    }
    // 1/n
    let n = (1.0 / a).round();
    if n >= 2.0 && n < 4.0e6 && (a * n - 1.0).abs() < 6e-16 {
        return fin(1, n as u64);
    }
    // small denominators, by continued fractions
    let (mut h0, mut h1, mut k0, mut k1) = (0u64, 1u64, 1u64, 0u64);
    let mut x = a;
    for _ in 0..12 {
        let f = x.floor();
        if f > 1e7 {
            break;
        }
        let (h2, k2) = (f as u64 * h1 + h0, f as u64 * k1 + k0);
        if k2 > 64 || h2 > 10_000 {
            break;
        }
        h0 = h1;
        h1 = h2;
        k0 = k1;
        k1 = k2;
        if (h1 as f64 / k1 as f64 - a).abs() <= 3e-16 * a {
            return fin(h1, k1);
        }
        x = 1.0 / (x - f);
    }
    None
}
fn recognise(v: f64) -> Option<u64> {
    if !v.is_finite() {
        return None;
    }
    let p = p();
    if let Some(r) = as_rational(v) {
        return Some(r);
    }
    let s2 = std::f64::consts::SQRT_2;
    let m = M.load(Relaxed);
    let tol = 1.2e-15;
    if let Some(r) = as_cos(v, tol) {
        return Some(r);
    }
    if m % 8 == 0 {
        let root2 = 2 * field_cos(m / 8) % p;
        let i2 = inv(2, p);
        // a rounded f32 sqrt(1/2) still denotes sqrt(1/2)
        if v == 0.5f32.sqrt() as f64 {
            return Some(root2 * i2 % p);
        }
        if v == 2f32.sqrt() as f64 {
            return Some(root2);
        }
        // scaled cosines; near zero 2 sin x and sin 2x cannot be told apart, and nothing is claimed then
        let scaled = [(v / s2, root2), (v * s2, root2 * i2 % p), (v / 2.0, 2), (v * 2.0, i2)];
        let mut found = scaled.iter().filter_map(|&(u, f)| as_cos(u, tol).map(|r| r * f % p));
        if let Some(r) = found.next() {
            return found.all(|x| x == r).then_some(r);
        }
    }
    None
}
impl FromPrimitive for Fp {
    fn from_i64(n: i64) -> Option<Fp> {
        Some(c(n.rem_euclid(p() as i64) as u64))
    }
    fn from_u64(n: u64) -> Option<Fp> {
        Some(c(n % p()))
    }
    fn from_f32(n: f32) -> Option<Fp> {
        Self::from_f64(n as f64)
    }
    fn from_f64(v: f64) -> Option<Fp> {
        tick();
        match recognise(v) {
            Some(r) => Some(c(r)),
            None => {
                strange();
                if std::env::var("DHT_DEBUG_UNREC").is_ok() {
                    eprintln!("unrecognised constant {v:?} (m={})", M.load(Relaxed));
                }
                Some(c(1))
            }
        }
    }
}
