//! Elements of unusual size and alignment: a field element and redundant bytes that have to travel with it.  Values
//! whose bytes do not belong together (torn or partial copies) are reported as such by `bits`.
use crate::elem::{mix, Elem};
use crate::fp::{self, Fp};
use rustfft::num_traits::{FromPrimitive, Num, One, Signed, Zero};
use std::ops::*;

macro_rules! wide {
    ($(#[$m:meta])* $name:ident, $pad:ty, $mk:expr) => {
        $(#[$m])*
        #[derive(Clone, Copy, Debug)]
        pub struct $name {
            head: $pad,
            f: Fp,
            tail: $pad,
        }
        impl $name {
            fn of(f: Fp) -> Self {
                let h = mix(f.v as u64);
                $name { head: $mk(h), f, tail: $mk(!h) }
            }
            fn whole(&self) -> bool {
                let h = mix(self.f.v as u64);
                self.head == $mk(h) && self.tail == $mk(!h)
            }
            /// the field element; garbage if the bytes do not belong together
            pub fn get(self) -> Fp {
                if self.whole() {
                    self.f
                } else {
                    Fp { v: ((self.f.v as u64 + 1 + mix(self.f.v as u64) % (fp::p() - 1)) % fp::p()) as u32, d: 1 }
                }
            }
        }
        wide!(@op $name, Add, add);
        wide!(@op $name, Sub, sub);
        wide!(@op $name, Mul, mul);
        wide!(@op $name, Div, div);
        wide!(@op $name, Rem, rem);
        impl Neg for $name {
            type Output = Self;
            fn neg(self) -> Self {
                Self::of(-self.get())
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                self.get() == o.get()
            }
        }
        impl Zero for $name {
            fn zero() -> Self {
                Self::of(Fp::zero())
            }
            fn is_zero(&self) -> bool {
                self.get().is_zero()
            }
        }
        impl One for $name {
            fn one() -> Self {
                Self::of(Fp::one())
            }
        }
        impl Num for $name {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
                Err(())
            }
        }
        impl Signed for $name {
            fn abs(&self) -> Self {
                Self::of(self.get().abs())
            }
            fn abs_sub(&self, o: &Self) -> Self {
                Self::of(self.get().abs_sub(&o.get()))
            }
            fn signum(&self) -> Self {
                Self::of(self.get().signum())
            }
            fn is_positive(&self) -> bool {
                self.get().is_positive()
            }
            fn is_negative(&self) -> bool {
                self.get().is_negative()
            }
        }
        impl FromPrimitive for $name {
            fn from_i64(n: i64) -> Option<Self> {
                Fp::from_i64(n).map(Self::of)
            }
            fn from_u64(n: u64) -> Option<Self> {
                Fp::from_u64(n).map(Self::of)
            }
            fn from_f32(n: f32) -> Option<Self> {
                Fp::from_f32(n).map(Self::of)
            }
            fn from_f64(n: f64) -> Option<Self> {
                Fp::from_f64(n).map(Self::of)
            }
        }
        impl Elem for $name {
            const TY: &'static str = "fp";
            fn mk(a: i64, sc: i32) -> Self {
                Self::of(Fp::mk(a, sc))
            }
            fn fill(kind: u64, i: usize, near: &[Self]) -> Self {
                let n = near.get(i).map(|x| x.f).unwrap_or(Fp { v: 0, d: 0 });
                // only the cell at the same place matters
                Self::of(Fp::fill_at(kind, i, near.len(), n))
            }
            fn trash(t: u64) -> Self {
                Self::of(Fp::trash(t))
            }
            fn poison(i: usize) -> Self {
                Self::of(Fp::poison(i))
            }
            fn bits(self) -> u64 {
                if self.whole() {
                    self.f.v as u64
                } else {
                    fp::p() + self.f.v as u64
                }
            }
        }
    };
    (@op $name:ident, $t:ident, $f:ident) => {
        impl $t for $name {
            type Output = Self;
            #[inline]
            fn $f(self, o: Self) -> Self {
                Self::of(self.get().$f(o.get()))
            }
        }
    };
}
wide!(
    /// 24 bytes
    W24, u64, |h: u64| h);
wide!(
    /// 64 bytes, on 32-byte boundaries
    #[repr(align(32))] W64, [u64; 3], |h: u64| [h, h ^ 1, h.rotate_left(7)]);
