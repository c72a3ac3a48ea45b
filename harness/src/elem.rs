use crate::fp::{self, Fp};
use rustfft::FftNum;

pub fn mix(a: u64) -> u64 {
    let mut z = a.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub trait Elem: FftNum {
    const TY: &'static str;
    /// integer a, scaled by 2^sc (floats only)
    fn mk(a: i64, sc: i32) -> Self;
    /// contents of stale cells
    /// (near: the input; kinds 6, 8, 12..15 repeat parts of it)
    fn fill(kind: u64, i: usize, near: &[Self]) -> Self;
    fn trash(t: u64) -> Self;
    fn poison(i: usize) -> Self;
    fn bits(self) -> u64;
    /// equal for values that count as equal (any NaN; either zero)
    fn canon(self) -> u64 {
        self.bits()
    }
}
/// does stale cell i repeat the input?
fn echo(kind: u64, i: usize, n: usize) -> bool {
    i < n
        && match kind {
            4 => true,
            6 => i == 0 || i + 1 == n,
            8 => i % 2 == 0,
            12 => i != n / 2,
            13 => i + 1 != n,
            14 => i != 0,
            15 => i < n / 2,
            _ => false,
        }
}
impl Fp {
    pub fn fill_at(kind: u64, i: usize, n: usize, near: Fp) -> Fp {
        let p = fp::p();
        match kind {
            0 => Fp { v: 0, d: 0 },
            1 => Fp { v: (100 % p) as u32, d: 1 },
            _ if echo(kind, i, n) => near,
            _ => Fp { v: (mix(kind * 1_000_003 + i as u64) % p) as u32, d: 1 },
        }
    }
}
impl Elem for Fp {
    const TY: &'static str = "fp";
    fn mk(a: i64, _: i32) -> Fp {
        fp::data(a)
    }
    fn fill(kind: u64, i: usize, near: &[Fp]) -> Fp {
        Fp::fill_at(kind, i, near.len(), near.get(i).copied().unwrap_or(Fp { v: 0, d: 0 }))
    }
    fn trash(t: u64) -> Fp {
        Fp { v: (mix(t) % fp::p()) as u32, d: 1 }
    }
    fn poison(i: usize) -> Fp {
        Fp { v: (mix(77 + i as u64) % fp::p()) as u32, d: 1 }
    }
    fn bits(self) -> u64 {
        self.v as u64
    }
}
macro_rules! felem {
    ($t:ident, $ty:expr) => {
        impl Elem for $t {
            const TY: &'static str = $ty;
            fn mk(a: i64, sc: i32) -> $t {
                a as $t * (2.0 as $t).powi(sc)
            }
            fn fill(kind: u64, i: usize, near: &[$t]) -> $t {
                match kind {
                    0 => 0.0,
                    1 => 100.0,
                    3 => $t::NAN,
                    _ if echo(kind, i, near.len()) => near[i],
                    5 => {
                        if i % 2 == 0 {
                            $t::INFINITY
                        } else {
                            -1.0e30
                        }
                    }
                    _ => (mix(kind * 1_000_003 + i as u64) % 20001) as $t / 7.0 - 1400.0,
                }
            }
            fn trash(_: u64) -> $t {
                $t::NAN
            }
            fn poison(i: usize) -> $t {
                match i % 3 {
                    0 => $t::NAN,
                    1 => $t::INFINITY,
                    _ => $t::NEG_INFINITY,
                }
            }
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
            fn canon(self) -> u64 {
                if self.is_nan() {
                    1
                } else if self == 0.0 {
                    0
                } else {
                    self.to_bits() as u64
                }
            }
        }
    };
}
felem!(f32, "f32");
felem!(f64, "f64");
