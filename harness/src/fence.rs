//! Memory with inaccessible pages next to it: slices whose first or last cell touches a guard page, and a global
//! allocator that (while switched on for the current thread) does the same for every allocation of the library.
//! An access outside a slice or allocation kills the process; the runner logs that as a "crash" event.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::*};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
}
const PAGE: usize = 4096;
const NONE: i32 = 0;
const RW: i32 = 3;
const ANON: i32 = 0x22; // MAP_PRIVATE | MAP_ANONYMOUS
const NORESERVE: i32 = 0x4000;

fn up(x: usize) -> usize {
    (x + PAGE - 1) / PAGE * PAGE
}

/// [guard page][data ...][guard page], the slice flush with the upper (end) or lower (start) guard page
pub struct Fenced<T> {
    base: *mut u8,
    map: usize,
    ptr: *mut T,
    len: usize,
}
impl<T: Copy> Fenced<T> {
    pub fn new(len: usize, end: bool) -> Self {
        let bytes = len * std::mem::size_of::<T>();
        let data = up(bytes).max(PAGE);
        let map = data + 2 * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), map, NONE, ANON, -1, 0);
            assert!(base as isize != -1, "mmap failed");
            assert!(mprotect(base.add(PAGE), data, RW) == 0, "mprotect failed");
            let ptr = if end { base.add(PAGE + data - bytes) } else { base.add(PAGE) } as *mut T;
            Fenced { base, map, ptr, len }
        }
    }
    pub fn slice(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}
impl<T> Drop for Fenced<T> {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.map);
        }
    }
}

pub struct Alloc;
thread_local! {
    static HEAP: Cell<[i64; 3]> = const { Cell::new([0; 3]) };
    static NET: Cell<i64> = const { Cell::new(0) };
    static HIDE: Cell<bool> = const { Cell::new(false) };
    static USER: Cell<bool> = const { Cell::new(false) };
}
/// allocations, bytes and net bytes of this thread so far, apart from those of user-supplied transforms
pub fn heap() -> [i64; 3] {
    HEAP.with(|h| h.get())
}
/// the enclosed code is the user's, not the library's
pub fn users<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            USER.with(|u| u.set(self.0));
        }
    }
    let _g = G(USER.with(|u| u.replace(true)));
    f()
}
/// net bytes of this thread so far, whoever used them, apart from the harness's own records
pub fn net() -> i64 {
    NET.with(|n| n.get())
}
/// the enclosed code keeps the harness's records
pub fn records<R>(f: impl FnOnce() -> R) -> R {
    let was = HIDE.with(|u| u.replace(true));
    let r = users(f);
    HIDE.with(|u| u.set(was));
    r
}
fn note(n: i64, bytes: i64) {
    if !HIDE.try_with(|u| u.get()).unwrap_or(true) {
        let _ = NET.try_with(|h| h.set(h.get() + bytes));
    }
    if USER.try_with(|u| u.get()).unwrap_or(true) {
        return;
    }
    let _ = HEAP.try_with(|h| {
        let x = h.get();
        h.set([x[0] + n, x[1] + bytes.max(0), x[2] + bytes]);
    });
}
thread_local! { static ON: Cell<bool> = const { Cell::new(false) } }
static ARENA: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
const ARENA_LEN: usize = 1 << 40;
/// requested by the current context
pub static WANTED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Scope(bool);
/// fenced allocation on this thread until the guard is dropped
pub fn scope() -> Scope {
    if WANTED.load(Relaxed) {
        if ARENA.load(SeqCst) == 0 {
            unsafe {
                let a = mmap(std::ptr::null_mut(), ARENA_LEN, NONE, ANON | NORESERVE, -1, 0);
                if a as isize != -1 {
                    NEXT.store(a as usize, SeqCst);
                    ARENA.store(a as usize, SeqCst);
                }
            }
        }
        Scope(ON.with(|o| o.replace(ARENA.load(SeqCst) != 0)))
    } else {
        Scope(ON.with(|o| o.get()))
    }
}
impl Drop for Scope {
    fn drop(&mut self) {
        ON.with(|o| o.set(self.0));
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(1, l.size() as i64);
        let on = ON.try_with(|o| o.get()).unwrap_or(false);
        if !on || l.align() > PAGE {
            return System.alloc(l);
        }
        let data = up(l.size());
        let at = NEXT.fetch_add(data + PAGE, SeqCst);
        if at + data + PAGE > ARENA.load(SeqCst) + ARENA_LEN || mprotect(at as *mut u8, data, RW) != 0 {
            return System.alloc(l);
        }
        // the page after the data stays inaccessible (and so does the last one of the previous allocation)
        let p = (at + data - l.size()) / l.align() * l.align();
        std::ptr::write_bytes(at as *mut u8, 0xA5, data);
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, -(l.size() as i64));
        let a = ARENA.load(SeqCst);
        let x = p as usize;
        if a == 0 || x < a || x >= a + ARENA_LEN {
            return System.dealloc(p, l);
        }
        let at = x / PAGE * PAGE;
        let data = up(l.size());
        // the block ends at at most align-1 bytes before a page boundary, so it starts in its first page
        madvise(at as *mut u8, data, 4);
        mprotect(at as *mut u8, data, NONE);
    }
}
