//! Cooperative scheduler driven from inside the element type's arithmetic: a schedule is a list of thread numbers,
//! each with the number of arithmetic operations (and calls of user transforms) that thread may run in its turn.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::{Condvar, Mutex, MutexGuard};
use std::time::Duration;

pub static ON: AtomicBool = AtomicBool::new(false);
thread_local! {
    static ME: Cell<usize> = Cell::new(usize::MAX);
    static LEFT: Cell<u64> = Cell::new(0);
    pub static COUNT: Cell<u64> = Cell::new(0);
    static USERS: Cell<u64> = Cell::new(0);
    static CUT: Cell<u64> = const { Cell::new(u64::MAX) };
}
/// payload of the panic that user code raises at a chosen operation
pub struct Cut;
/// the k-th operation of this thread from now on panics (the user's arithmetic or transform fails there)
pub fn cut_after(k: u64) {
    CUT.with(|c| c.set(COUNT.with(|n| n.get()) + k));
}
/// call it off; did it happen?
pub fn uncut() -> bool {
    CUT.with(|c| c.replace(u64::MAX)) == 0
}
#[cold]
fn fail() -> ! {
    CUT.with(|c| c.set(0));
    std::panic::resume_unwind(Box::new(Cut))
}
struct S {
    schedule: Vec<(usize, u64)>,
    pos: usize,
    done: Vec<bool>,
    free: bool,
}
static ST: Mutex<Option<S>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

/// operations of this thread so far, apart from those of user-supplied transforms
pub fn ops() -> u64 {
    COUNT.with(|c| c.get()) - USERS.with(|u| u.get())
}
/// the enclosed code is the user's, not the library's
pub fn users<R>(f: impl FnOnce() -> R) -> R {
    struct G(u64);
    impl Drop for G {
        fn drop(&mut self) {
            USERS.with(|u| u.set(u.get() + COUNT.with(|c| c.get()) - self.0));
        }
    }
    let _g = G(COUNT.with(|c| c.get()));
    crate::fence::users(f)
}
#[inline]
pub fn tick() {
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n == CUT.with(|c| c.get()) {
        fail()
    }
    if ON.load(Relaxed) {
        slow()
    }
}
fn slow() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    let left = LEFT.with(|l| l.get());
    if left > 1 {
        LEFT.with(|l| l.set(left - 1));
        return;
    }
    let mut g = ST.lock().unwrap();
    g.as_mut().unwrap().pos += 1;
    CV.notify_all();
    wait_turn(g, me);
}
fn current(s: &mut S) -> Option<(usize, u64)> {
    while s.pos < s.schedule.len() && s.done[s.schedule[s.pos].0] {
        s.pos += 1;
    }
    s.schedule.get(s.pos).copied()
}
/// Waits until it is our turn; after a while without progress of the others everybody runs freely (a thread may be
/// legitimately blocked on a lock held by a descheduled one).
fn wait_turn(mut g: MutexGuard<Option<S>>, me: usize) {
    let mut last = usize::MAX;
    loop {
        let s = g.as_mut().unwrap();
        if s.free {
            LEFT.with(|l| l.set(u64::MAX));
            return;
        }
        match current(s) {
            None => {
                LEFT.with(|l| l.set(u64::MAX));
                return;
            }
            Some((t, quota)) if t == me => {
                LEFT.with(|l| l.set(quota));
                return;
            }
            _ => {}
        }
        let pos = s.pos;
        let (g2, to) = CV.wait_timeout(g, Duration::from_millis(150)).unwrap();
        g = g2;
        let s = g.as_mut().unwrap();
        if to.timed_out() && s.pos == pos {
            if last == pos {
                s.free = true;
                CV.notify_all();
            }
            last = pos;
        }
    }
}

pub fn start(schedule: Vec<(usize, u64)>, n: usize) {
    *ST.lock().unwrap() = Some(S { schedule, pos: 0, done: vec![false; n], free: false });
    ON.store(true, SeqCst);
}
pub fn enter(me: usize) {
    ME.with(|m| m.set(me));
    let g = ST.lock().unwrap();
    wait_turn(g, me);
}
pub fn leave() {
    let me = ME.with(|m| m.get());
    ME.with(|m| m.set(usize::MAX));
    let mut g = ST.lock().unwrap();
    let s = g.as_mut().unwrap();
    s.done[me] = true;
    CV.notify_all();
}
/// returns true if the schedule had to be abandoned (some thread blocked)
pub fn stop() -> bool {
    ON.store(false, SeqCst);
    let g = ST.lock().unwrap();
    g.as_ref().unwrap().free
}
