//! A user-written transform: conforming to the documented contract of `Dht`, but using every licence it gives
//! (arbitrary scratch demands, trashing all scratch it receives and its out-of-place input), and recording how it
//! is called.
use crate::elem::Elem;
use rustdht::Dht;
use rustfft::Length;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

static TRASH: AtomicU64 = AtomicU64::new(1);
/// calls of user transforms since the last `take`: (length, mode, buffer, output, scratch, advertised scratch)
static CALLS: Mutex<BTreeSet<(usize, &'static str, usize, usize, usize, usize)>> = Mutex::new(BTreeSet::new());

/// segments transformed by user transforms so far
pub static SEGS: AtomicU64 = AtomicU64::new(0);

pub fn take() -> Vec<String> {
    let s = std::mem::take(&mut *CALLS.lock().unwrap());
    s.into_iter().map(|(n, m, b, o, s, a)| format!("{{\"n\":{n},\"m\":\"{m}\",\"b\":{b},\"o\":{o},\"s\":{s},\"a\":{a}}}")).collect()
}
fn called(n: usize, m: &'static str, b: usize, o: usize, s: usize, a: usize) {
    crate::fence::records(|| record(n, m, b, o, s, a))
}
fn record(n: usize, m: &'static str, b: usize, o: usize, s: usize, a: usize) {
    let mut c = CALLS.lock().unwrap();
    // whether the call was valid is for the specification to say; valid ones beyond the first hundred are dropped
    if c.len() < 100 || s < a || b < n {
        c.insert((n, m, b, o, s, a));
    }
}
pub struct User<T> {
    pub len: usize,
    pub ip: usize,
    pub oop: usize,
    pub noop: bool,
    pub cas: Vec<T>,
}
impl<T: Elem> User<T> {
    pub fn new(len: usize, ip: usize, oop: usize, noop: bool) -> Self {
        let cas = if noop {
            vec![]
        } else {
            (0..len)
                .map(|k| {
                    let (c, s) = cos_sin(k, len);
                    T::from_f64(c).unwrap() + T::from_f64(s).unwrap()
                })
                .collect()
        };
        User { len, ip, oop, noop, cas }
    }
    fn dht(&self, x: &[T]) -> Vec<T> {
        let n = self.len;
        (0..n)
            .map(|k| {
                let mut s = T::zero();
                for j in 0..n {
                    s = s + x[j] * self.cas[j * k % n];
                }
                s
            })
            .collect()
    }
}
pub fn cos_sin(k: usize, n: usize) -> (f64, f64) {
    let a = 2.0 * std::f64::consts::PI * k as f64 / n as f64;
    (a.cos(), a.sin())
}
fn trash<T: Elem>(s: &mut [T]) {
    for c in s {
        let t = TRASH.fetch_add(1, Relaxed);
        *c = T::trash(t);
    }
}
impl<T: Elem> Length for User<T> {
    fn len(&self) -> usize {
        self.len
    }
}
impl<T: Elem> Dht<T> for User<T> {
    fn process_with_scratch(&self, buffer: &mut [T], scratch: &mut [T]) {
        crate::sched::users(|| self.ip_call(buffer, scratch))
    }
    fn process_outofplace_with_scratch(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        crate::sched::users(|| self.oop_call(input, output, scratch))
    }
    fn get_inplace_scratch_len(&self) -> usize {
        self.ip
    }
    fn get_outofplace_scratch_len(&self) -> usize {
        self.oop
    }
}
impl<T: Elem> User<T> {
    fn ip_call(&self, buffer: &mut [T], scratch: &mut [T]) {
        crate::sched::tick();
        if self.noop || self.len == 0 {
            return;
        }
        called(self.len, "ip", buffer.len(), 0, scratch.len(), self.ip);
        if buffer.len() < self.len || buffer.len() % self.len != 0 {
            return;
        }
        trash(scratch);
        SEGS.fetch_add((buffer.len() / self.len) as u64, Relaxed);
        for c in buffer.chunks_exact_mut(self.len) {
            let r = self.dht(c);
            c.copy_from_slice(&r);
        }
        trash(scratch);
    }
    fn oop_call(&self, input: &mut [T], output: &mut [T], scratch: &mut [T]) {
        crate::sched::tick();
        if self.noop || self.len == 0 {
            return;
        }
        called(self.len, "oop", input.len(), output.len(), scratch.len(), self.oop);
        if input.len() < self.len || input.len() % self.len != 0 || input.len() != output.len() {
            return;
        }
        trash(scratch);
        SEGS.fetch_add((input.len() / self.len) as u64, Relaxed);
        for (i, o) in input.chunks_exact(self.len).zip(output.chunks_exact_mut(self.len)) {
            let r = self.dht(i);
            o.copy_from_slice(&r);
        }
        trash(scratch);
        trash(input);
    }
}
