//! Conformance driver: executes a scenario file against the library in /repo and logs what happened.
//! usage: dhtconf SCENARIOS TRACE [--from K] [--skip a,b,c]
mod elem;
mod fence;
mod fp;
mod proc;
mod sched;
mod tree;
mod user;
mod wide;

use elem::{mix, Elem};
use fp::Fp;
use rustdht::Dht;
#[allow(unused_imports)]
use rustfft::Length;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use tree::{build, panic_text, Built, Inst};

#[global_allocator]
static ALLOC: fence::Alloc = fence::Alloc;

type Vecs = HashMap<u32, Vec<(usize, i64)>>;

struct Args<'a>(HashMap<&'a str, &'a str>);
impl<'a> Args<'a> {
    fn s(&self, k: &str) -> Option<&'a str> {
        self.0.get(k).copied()
    }
    fn i(&self, k: &str) -> Option<i64> {
        self.s(k).map(|v| v.parse().unwrap_or_else(|_| panic!("bad number {k}={v}")))
    }
    fn u(&self, k: &str, d: i64) -> i64 {
        self.i(k).unwrap_or(d)
    }
}

struct Engine<T> {
    insts: HashMap<String, Inst<T>>,
    rec: HashMap<String, bool>,
    expr: HashMap<String, String>,
    /// as given, in order of creation
    raw: Vec<(String, String)>,
    arena: Vec<T>,
}
impl<T> Engine<T> {
    fn new() -> Self {
        Engine { insts: HashMap::new(), rec: HashMap::new(), expr: HashMap::new(), raw: vec![], arena: vec![] }
    }
}

struct Ctx {
    n: usize,
    rs: Vec<u64>,
    ks: Vec<usize>,
    vecs: Vecs,
    /// log the composition of the transform with every call
    tree: bool,
}

#[derive(Clone)]
struct CallSpec {
    inst: String,
    mode: String,
    chunks: Vec<u32>, // vector ids; 0 = poison
    basis: bool,
    b: Option<usize>,
    o: Option<usize>,
    s: Option<String>,
    fs: u64,
    fo: u64,
    fg: u64,
    sc: i32,
    pl: i64,
    al: u64,
    rep: usize,
    /// the operation at which the user's code panics (0: none)
    cut: u64,
}
struct Outcome<T> {
    res: &'static str,
    msg: String,
    out: Vec<T>,
    guard: bool,
    n: usize,
    b: usize,
    o: usize,
    s: usize,
    adv: usize,
    cmp: u64,
    nl: u64,
    inner: Vec<String>,
    unchanged: bool,
    rec: bool,
    /// heap use by the library during the call: allocations, bytes, bytes not given back
    heap: [i64; 3],
    /// arithmetic operations by the library
    ops: u64,
    /// segments transformed by user-supplied transforms
    useg: u64,
    /// the user's code did panic
    fired: bool,
}

fn esc(s: &str) -> String {
    s.chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { '\'' } else { c }).collect()
}

fn input_data<T: Elem>(c: &CallSpec, cx: &Ctx, n: usize) -> Vec<T> {
    let mut d: Vec<T> = vec![];
    if c.basis {
        for j in 0..n {
            for k in 0..n {
                d.push(T::mk((j == k) as i64, c.sc));
            }
        }
    } else {
        for &id in &c.chunks {
            if id == 0 {
                for k in 0..n {
                    d.push(T::poison(k));
                }
            } else {
                let v = cx.vecs.get(&id).expect("unknown vector");
                let b = d.len();
                for _ in 0..n {
                    d.push(T::mk(0, c.sc));
                }
                for &(j, a) in v {
                    if j < n {
                        d[b + j] = T::mk(a, c.sc);
                    }
                }
            }
        }
    }
    d
}

fn run_call<T: Elem>(inst: &dyn Dht<T>, c: &CallSpec, data: &[T]) -> Outcome<T> {
    let n = inst.len();
    let b = c.b.unwrap_or(data.len());
    let mode = c.mode.as_str();
    let adv = if mode == "oop" { inst.get_outofplace_scratch_len() } else { inst.get_inplace_scratch_len() };
    let o = if mode == "oop" { c.o.unwrap_or(b) } else { 0 };
    let s = match (mode, &c.s) {
        ("p", _) => 0,
        (_, None) => adv,
        (_, Some(t)) => {
            if let Some(k) = t.strip_prefix('+') {
                adv + k.parse::<usize>().unwrap()
            } else if let Some(k) = t.strip_prefix('-') {
                adv.saturating_sub(k.parse::<usize>().unwrap())
            } else if let Some(k) = t.strip_prefix('x') {
                adv * k.parse::<usize>().unwrap()
            } else {
                t.parse::<usize>().unwrap()
            }
        }
    };
    // guard | buffer | guard | output | guard | scratch | guard; al = how many elements the three regions start
    // after a 64-byte boundary, base 16
    let g = 8 + b.max(n).min(4096);
    let up = |x: usize| (x + 15) / 16 * 16;
    let al = |q: u32| (c.al >> (4 * q)) as usize & 15;
    let size = up(b + g + 16) + up(o + g + 16) + up(s + g + 16) + up(g) + 48;
    let mut arena: Vec<T> = (0..size).map(|i| T::fill(20 + c.fg, i, &[])).collect();
    let z = (0..16).find(|&z| (arena.as_ptr() as usize + z * std::mem::size_of::<T>()) % 64 == 0).unwrap_or(0);
    let at_b = z + up(g) + al(0);
    let at_o = z + up(at_b - z + b + g) + al(1);
    let at_s = z + up(at_o - z + o + g) + al(2);
    let total = (at_s + s + g).min(size);
    for i in 0..b {
        arena[at_b + i] = if i < data.len() { data[i] } else { T::mk(0, 0) };
    }
    for i in 0..o {
        arena[at_o + i] = T::fill(c.fo, i, data);
    }
    for i in 0..s {
        arena[at_s + i] = T::fill(c.fs, i, data);
    }
    let before: Vec<u64> = arena.iter().map(|x| x.bits()).collect();
    let u0 = fp::unrec();
    let (cmp0, nl0) = (fp::CMP.load(Relaxed), fp::NONLIN.load(Relaxed));
    user::take();
    let used = std::cell::Cell::new(([0i64; 3], 0u64));
    let segs = std::cell::Cell::new(0);
    let net0 = std::cell::Cell::new(0);
    let go = |buf: &mut [T], out: &mut [T], scr: &mut [T]| {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _f = fence::scope();
            segs.set(user::SEGS.load(Relaxed));
            let (h0, o0) = (fence::heap(), sched::ops());
            if c.cut > 0 {
                net0.set(fence::net());
                sched::cut_after(c.cut);
            }
            match mode {
                "p" => inst.process(buf),
                "ip" => inst.process_with_scratch(buf, scr),
                "oop" => inst.process_outofplace_with_scratch(buf, out, scr),
                _ => panic!("bad mode"),
            }
            let (h1, o1) = (fence::heap(), sched::ops());
            used.set(([h1[0] - h0[0], h1[1] - h0[1], h1[2] - h0[2]], o1 - o0));
        }));
        match r {
            Err(e) if e.is::<sched::Cut>() => {
                drop(e);
                used.set(([0, 0, fence::net() - net0.get()], 0));
                Err(None)
            }
            r => r.map_err(Some),
        }
    };
    let r = if c.pl != 0 {
        // every slice in memory of its own, flush with an inaccessible page
        let end = c.pl == 1;
        let at = [(at_b, b), (at_o, o), (at_s, s)];
        let mut f: Vec<fence::Fenced<T>> = at.iter().map(|x| fence::Fenced::new(x.1, end)).collect();
        for (m, x) in f.iter_mut().zip(&at) {
            m.slice().copy_from_slice(&arena[x.0..x.0 + x.1]);
        }
        let r = {
            let mut it = f.iter_mut();
            let (b, o, s) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
            go(b.slice(), o.slice(), s.slice())
        };
        for (m, x) in f.iter_mut().zip(&at) {
            arena[x.0..x.0 + x.1].copy_from_slice(m.slice());
        }
        r
    } else {
        let (head, r) = arena.split_at_mut(at_o);
        let (out, r) = r.split_at_mut(at_s - at_o);
        go(&mut head[at_b..at_b + b], &mut out[..o], &mut r[..s])
    };
    let fired = c.cut > 0 && sched::uncut();
    let (res, msg) = match r {
        Ok(()) => ("ok", String::new()),
        Err(None) => ("cut", String::new()),
        Err(Some(e)) => ("panic", panic_text(e)),
    };
    let (cmp, nl) = (fp::CMP.load(Relaxed) - cmp0, fp::NONLIN.load(Relaxed) - nl0);
    let inner = user::take();
    let same = |lo: usize, len: usize| (lo..lo + len).all(|i| arena[i].bits() == before[i]);
    let guard = same(0, at_b) && same(at_b + b, at_o - at_b - b) && same(at_o + o, at_s - at_o - o) && same(at_s + s, total - at_s - s);
    let unchanged = (0..total).all(|i| arena[i].bits() == before[i]);
    let out = if mode == "oop" { arena[at_o..at_o + o].to_vec() } else { arena[at_b..at_b + b].to_vec() };
    let (heap, ops) = used.get();
    let useg = user::SEGS.load(Relaxed) - segs.get();
    Outcome { fired, useg, res, msg, out, guard, n, b, o, s, adv, cmp, nl, inner, unchanged, rec: fp::unrec() == u0, heap, ops }
}

/// `reps` calls in quick succession on pre-allocated memory; one Outcome per distinct result
fn hammer<T: Elem>(inst: &dyn Dht<T>, c: &CallSpec, data: &[T], reps: usize, start: &AtomicUsize, k: usize) -> Vec<Outcome<T>> {
    let n = inst.len();
    let mode = c.mode.as_str();
    let adv = if mode == "oop" { inst.get_outofplace_scratch_len() } else { inst.get_inplace_scratch_len() };
    let s = if mode == "p" { 0 } else { adv };
    let mut buf = data.to_vec();
    let mut out: Vec<T> = (0..if mode == "oop" { data.len() } else { 0 }).map(|i| T::fill(c.fo, i, &[])).collect();
    let mut scr: Vec<T> = (0..s).map(|i| T::fill(c.fs, i, &[])).collect();
    let mut seen = std::collections::HashSet::new();
    let mut r = vec![];
    start.fetch_add(1, SeqCst);
    while start.load(SeqCst) < k {
        std::hint::spin_loop();
    }
    let u0 = fp::unrec();
    for _ in 0..reps {
        buf.copy_from_slice(data);
        let alone = k == 1;
        let (h0, o0, s0) = (fence::heap(), sched::ops(), user::SEGS.load(Relaxed));
        let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mode {
            "p" => inst.process(&mut buf),
            "ip" => inst.process_with_scratch(&mut buf, &mut scr),
            _ => inst.process_outofplace_with_scratch(&mut buf, &mut out, &mut scr),
        }));
        let (h1, o1, s1) = (fence::heap(), sched::ops(), user::SEGS.load(Relaxed));
        let heap = [0, 1, 2].map(|q| h1[q] - h0[q]);
        let (ops, useg) = (o1 - o0, if alone { s1 - s0 } else { 0 });
        if alone {
            user::take();
        }
        let res = if mode == "oop" { &out } else { &buf };
        let mut h = e.is_err() as u64;
        if e.is_ok() {
            for x in res {
                h = (h ^ x.canon()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
            }
        }
        if seen.len() < 10 && seen.insert((h, heap, ops, useg)) {
            let (res_, msg) = match e {
                Ok(()) => ("ok", String::new()),
                Err(e) => ("panic", panic_text(e)),
            };
            r.push(Outcome { fired: false, useg, res: res_, msg, out: res.clone(), guard: true, n, b: data.len(), o: out.len(), s, adv, cmp: 0, nl: 0, inner: vec![], unchanged: false, rec: fp::unrec() == u0, heap, ops });
        }
    }
    r
}

/// Encoding of results; per element type.
trait Enc: Elem {
    fn encode(c: &CallSpec, cx: &Ctx, out: &[Self], n: usize) -> String;
}
impl Enc for Fp {
    /// per segment, one fingerprint sum_i r^i * out[i] for every r of the context (the basis batch is one segment)
    fn encode(c: &CallSpec, cx: &Ctx, out: &[Fp], n: usize) -> String {
        let p = fp::p();
        let seg = if c.basis { out.len() } else { n }.max(1);
        let mut segs = vec![];
        for ch in out.chunks(seg) {
            let mut fps = vec![];
            for &r in &cx.rs {
                let (mut acc, mut pw) = (0u64, 1u64);
                for x in ch {
                    acc = (acc + pw * x.v as u64) % p;
                    pw = pw * r % p;
                }
                fps.push(acc.to_string());
            }
            segs.push(format!("[{}]", fps.join(",")));
        }
        let ex: Vec<String> = if out.len() <= 12 { out.iter().map(|x| x.v.to_string()).collect() } else { vec![] };
        format!("\"fp\":[{}],\"ex\":[{}]", segs.join(","), ex.join(","))
    }
}
macro_rules! enc_wide {
    ($t:ty) => {
        impl Enc for $t {
            fn encode(c: &CallSpec, cx: &Ctx, out: &[Self], n: usize) -> String {
                Fp::encode(c, cx, &out.iter().map(|x| x.get()).collect::<Vec<_>>(), n)
            }
        }
    };
}
enc_wide!(wide::W24);
enc_wide!(wide::W64);
fn limbs(v: f64, sc: i32, s: &mut String) -> bool {
    // 2^-48 fixed point, three limbs base 2^16 (top one signed)
    let q = v * 2f64.powi(48 - sc);
    if !q.is_finite() || q.abs() >= 2f64.powi(62) {
        s.push_str("0,0,0,");
        return false;
    }
    let q = q.round() as i64;
    let _ = write!(s, "{},{},{},", q >> 32, (q >> 16) & 0xffff, q & 0xffff);
    true
}
fn enc_float(c: &CallSpec, cx: &Ctx, out: impl Iterator<Item = f64>, n: usize) -> String {
    let out: Vec<f64> = out.collect();
    let mut nf = 0;
    let mut s = String::new();
    s.push('[');
    for (i, ch) in out.chunks(n.max(1)).enumerate() {
        let mut t = String::new();
        if !(i < c.chunks.len() && c.chunks[i] == 0) {
            let mut skip = String::new();
            for (k, &v) in ch.iter().enumerate() {
                let logged = n != cx.n || cx.ks.is_empty() || cx.ks.binary_search(&k).is_ok();
                if !limbs(v, c.sc, if logged { &mut t } else { &mut skip }) {
                    nf += 1;
                }
                skip.clear();
            }
        }
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "[{}]", t.trim_end_matches(','));
    }
    s.push(']');
    format!("\"out\":{},\"nf\":{}", s, nf)
}
impl Enc for f64 {
    fn encode(c: &CallSpec, cx: &Ctx, out: &[f64], n: usize) -> String {
        enc_float(c, cx, out.iter().copied(), n)
    }
}
impl Enc for f32 {
    fn encode(c: &CallSpec, cx: &Ctx, out: &[f32], n: usize) -> String {
        enc_float(c, cx, out.iter().map(|&x| x as f64), n)
    }
}

fn call_spec(a: &Args, inst: &str) -> CallSpec {
    let v = a.s("v").unwrap_or("");
    let basis = v == "basis";
    CallSpec {
        inst: inst.into(),
        mode: a.s("mode").unwrap_or("ip").into(),
        chunks: if basis || v.is_empty() { vec![] } else { chunk_ids(v) },
        basis,
        b: a.i("b").map(|x| x as usize),
        o: a.i("o").map(|x| x as usize),
        s: a.s("s").map(|x| x.to_string()),
        fs: a.u("fs", 0) as u64,
        fo: a.u("fo", 0) as u64,
        fg: a.u("fg", 0) as u64,
        sc: a.u("sc", 0) as i32,
        pl: a.u("pl", 0),
        al: a.u("al", 0) as u64,
        rep: a.u("rep", 1) as usize,
        cut: 0,
    }
}
/// 1,2,0  or  rnd:<count>:<seed>:<id>.<id>...
fn chunk_ids(v: &str) -> Vec<u32> {
    if let Some(r) = v.strip_prefix("rnd:") {
        let f: Vec<&str> = r.split(':').collect();
        let ids: Vec<u32> = f[2].split('.').map(|x| x.parse().unwrap()).collect();
        let seed: u64 = f[1].parse().unwrap();
        (0..f[0].parse::<u64>().unwrap()).map(|q| ids[(mix(mix(seed) + q) % ids.len() as u64) as usize]).collect()
    } else {
        v.split(',').map(|x| x.parse().unwrap()).collect()
    }
}
fn list(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
/// a batch of many segments is logged as the set of distinct <<input vector, result>> pairs (order is immaterial)
fn distinct<T: Enc>(c: &CallSpec, out: &[T], n: usize) -> (Vec<u32>, Vec<T>) {
    if c.basis || c.chunks.len() <= 24 || out.len() != n * c.chunks.len() {
        return (c.chunks.clone(), out.to_vec());
    }
    let (mut ids, mut data) = (vec![], vec![]);
    let mut seen = std::collections::HashSet::new();
    for (id, seg) in c.chunks.iter().zip(out.chunks(n)) {
        // poisoned segments have no specified result
        let key: Vec<u64> = if *id == 0 { vec![] } else { seg.iter().map(|x| x.bits()).collect() };
        if seen.len() < 200 && seen.insert((*id, key)) {
            ids.push(*id);
            data.extend_from_slice(seg);
        }
    }
    (ids, data)
}
fn clip(x: i64) -> i64 {
    x.clamp(-1 << 30, 1 << 30)
}
fn event<T: Enc>(e: &str, sc: usize, th: i64, c: &CallSpec, cx: &Ctx, en: &Engine<T>, o: &Outcome<T>) -> String {
    let nout = if o.n == 0 { o.out.len() } else { o.n };
    let cnt = c.chunks.len();
    let full = c;
    let (ids, data) = distinct(c, &o.out, nout);
    let c = &CallSpec { chunks: if o.res == "ok" { ids } else { c.chunks.iter().copied().take(24).collect() }, ..full.clone() };
    let enc = if o.res == "ok" && o.n > 0 { T::encode(c, cx, &data, nout) } else { T::encode(c, cx, &[], nout) };
    format!(
        "{{\"e\":\"{}\",\"sc\":{},\"th\":{},\"ty\":\"{}\",\"i\":\"{}\",\"t\":\"{}\",\"mode\":\"{}\",\"n\":{},\"b\":{},\"o\":{},\"s\":{},\"adv\":{},\"v\":[{}],\"cnt\":{},\"bas\":{},\"res\":\"{}\",\"g\":{},\"rec\":{},\"rad\":{},\"cmp\":{},\"nl\":{},\"inner\":[{}],\"unch\":{},\"heap\":[{},{},{}],\"es\":{},\"ops\":{},\"useg\":{}{},{},\"msg\":\"{}\"}}",
        e, sc, th, T::TY, c.inst, en.expr[&c.inst], c.mode, o.n, o.b, o.o, o.s, o.adv, list(&c.chunks), cnt, c.basis as u8, o.res, o.guard as u8,
        (en.rec[&c.inst] && o.rec) as u8, en.expr[&c.inst].contains("p(") as u8, o.cmp, o.nl, o.inner.join(","), o.unchanged as u8,
        clip(o.heap[0]), clip(o.heap[1]), clip(o.heap[2]), std::mem::size_of::<T>(), clip(o.ops as i64), clip(o.useg as i64), if cx.tree { format!(",\"tree\":{}", tree::json(&en.expr[&c.inst])) } else { String::new() }, enc, esc(&o.msg)
    )
}

fn new_event<T: Elem>(sc: usize, th: usize, id: &str, t: &str, shape: &tree::Shape, kids_ok: bool, ok: u8, len: i64, rec: bool, msg: &str) -> String {
    let kids: Vec<String> = shape.kids.iter().map(|x| x.to_string()).collect();
    format!(
        "{{\"e\":\"new\",\"sc\":{},\"th\":{},\"ty\":\"{}\",\"i\":\"{}\",\"t\":\"{}\",\"ctor\":\"{}\",\"arg\":{},\"kids\":[{}],\"ko\":{},\"ok\":{},\"len\":{},\"rec\":{},\"msg\":\"{}\"}}",
        sc, th, T::TY, id, t, shape.ctor, shape.arg, kids.join(","), kids_ok as u8, ok, len, rec as u8, esc(msg)
    )
}
/// build th=t1;t2|t3;t1 v=1 fine=7 : one thread per |-separated list, each building its transforms in turn and using
/// each once in place and once out of place; interleaved at random arithmetic operations (fine), or running freely.
/// The transforms stay alive until all threads are done.
fn build_call(id: &str, mode: &str, v: u32) -> CallSpec {
    let mut c = call_spec(&Args(HashMap::new()), id);
    c.mode = mode.to_string();
    c.chunks = vec![v];
    c.fs = 2;
    c.fo = 2;
    c
}
fn concurrent_builds<T: Enc>(a: &Args, sc: usize, cx: &Ctx, en: &mut Engine<T>, ev: &mut Vec<String>) {
    let lists: Vec<Vec<&str>> = a.s("th").unwrap().split('|').map(|l| l.split(';').collect()).collect();
    let vs: Vec<u32> = chunk_ids(a.s("v").unwrap_or("1"));
    let k = lists.len();
    let fine = a.i("fine");
    if let Some(seed) = fine {
        let m = a.u("turn", 3) as u64;
        sched::start((0..4000).map(|q| {
            let h = mix(mix(seed as u64) + q);
            ((h % k as u64) as usize, 1 + (h >> 32) % m)
        }).collect(), k);
    }
    let spin = AtomicUsize::new(0);
    let cut = a.i("cut");
    let rounds = a.u("ham", 1);
    let logs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let done: Vec<Vec<(String, String, Inst<T>, Vec<(CallSpec, Outcome<T>)>, bool)>> = std::thread::scope(|s| {
        let hs: Vec<_> = lists
            .iter()
            .enumerate()
            .map(|(th, l)| {
                let (spin, logs, en, vs) = (&spin, &logs, &*en, &vs);
                s.spawn(move || {
                    let mut r = vec![];
                    let mut log = vec![];
                    if fine.is_some() {
                        sched::enter(th);
                    } else {
                        spin.fetch_add(1, SeqCst);
                        while spin.load(SeqCst) < k {
                            std::hint::spin_loop();
                        }
                    }
                    let mut seen = std::collections::HashSet::new();
                    for round in 0..rounds {
                        for (q, t) in l.iter().enumerate() {
                            if let (Some(seed), 0) = (cut, th) {
                                // constructions cut short by a panic of the user's code
                                for z in 0..12 {
                                    let h = mix(mix(seed as u64) + z);
                                    sched::cut_after(1 + (h >> 32) % (1 << (1 + h % 8)));
                                    let _ = build::<T>(t, &en.insts);
                                    sched::uncut();
                                }
                            }
                            let u0 = fp::unrec();
                            let (b, shape, kids_ok) = build::<T>(t, &en.insts);
                            let rec = fp::unrec() == u0 && refs_rec(t, en);
                            let id = if round == 0 { format!("T{th}x{q}") } else { format!("T{th}x{q}x{round}") };
                            match b {
                                Built::Ok(i) => {
                                    if rounds > 1 {
                                        // many rounds: keep what differs from what was seen
                                        let c = build_call(&id, "ip", vs[(th + q) % vs.len()]);
                                        let data = input_data::<T>(&c, cx, i.len());
                                        let mut h = (q as u64, i.len() as u64, 0u64);
                                        for o in hammer(&*i, &c, &data, 1, &AtomicUsize::new(0), 1) {
                                            h.2 = o.out.iter().fold((o.res == "ok") as u64, |h, x| (h ^ x.canon()).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23));
                                        }
                                        if seen.len() > 200 || !seen.insert(h) {
                                            continue;
                                        }
                                    }
                                    log.push(new_event::<T>(sc, th, &id, t, &shape, kids_ok, 1, i.len() as i64, rec, ""));
                                    let mut calls = vec![];
                                    for (z, m) in ["ip", "oop"].iter().enumerate() {
                                        let c = build_call(&id, m, vs[(th + q + z) % vs.len()]);
                                        let data = input_data::<T>(&c, cx, i.len());
                                        let o = run_call(&*i, &c, &data);
                                        calls.push((c, o));
                                    }
                                    r.push((id, t.to_string(), i, calls, rec));
                                }
                                Built::Panic(m) => {
                                    if seen.insert((q as u64, u64::MAX, 0)) {
                                        log.push(new_event::<T>(sc, th, &id, t, &shape, kids_ok, 0, -1, rec, &m));
                                    }
                                }
                            }
                        }
                    }
                    if fine.is_some() {
                        sched::leave();
                    }
                    logs.lock().unwrap().extend(log);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    if fine.is_some() {
        sched::stop();
    }
    ev.extend(logs.into_inner().unwrap());
    for (id, t, i, calls, rec) in done.into_iter().flatten() {
        let full = expand(&t, en);
        en.insts.insert(id.clone(), i);
        en.rec.insert(id.clone(), rec);
        en.expr.insert(id.clone(), full);
        for (c, o) in calls {
            ev.push(event("call", sc, 0, &c, cx, en, &o));
        }
        // and once more, now that every thread is done
        if let Some(inst) = en.insts.get(&id).cloned() {
            let mut c = call_spec(&Args(HashMap::new()), &id);
            c.mode = "p".into();
            c.chunks = vec![vs[0]];
            let data = input_data::<T>(&c, cx, inst.len());
            let o = run_call(&*inst, &c, &data);
            ev.push(event("call", sc, 0, &c, cx, en, &o));
        }
        en.insts.remove(&id);
    }
}

/// executes one state-independent command for element type T; returns event lines
fn exec<T: Enc>(cmd: &str, a: &Args, sc: usize, cx: &Ctx, en: &mut Engine<T>) -> Vec<String> {
    let mut ev = vec![];
    match cmd {
        "inst" => {
            let id = a.s("id").unwrap();
            let t = a.s("t").unwrap();
            let u0 = fp::unrec();
            let (b, shape, kids_ok) = {
                let _f = fence::scope();
                build::<T>(t, &en.insts)
            };
            let rec = fp::unrec() == u0 && refs_rec(t, en);
            let (ok, len, msg) = match b {
                Built::Ok(i) => {
                    let l = i.len();
                    en.insts.insert(id.into(), i);
                    en.rec.insert(id.into(), rec);
                    let full = expand(t, en);
                    en.expr.insert(id.into(), full);
                    en.raw.retain(|x| x.0 != id);
                    en.raw.push((id.into(), t.into()));
                    (1, l as i64, String::new())
                }
                Built::Panic(m) => {
                    en.insts.remove(id);
                    (0, -1, m)
                }
            };
            ev.push(new_event::<T>(sc, 0, id, t, &shape, kids_ok, ok, len, rec, &msg));
        }
        "call" => {
            let id = a.s("i").unwrap();
            let Some(inst) = en.insts.get(id).cloned() else { return ev };
            let c = call_spec(a, id);
            let data = input_data::<T>(&c, cx, inst.len());
            // earlier calls with the same arguments, of which the distinct outcomes are logged
            if c.rep > 1 {
                for o in hammer(&*inst, &c, &data, c.rep - 1, &AtomicUsize::new(0), 1) {
                    ev.push(event("call", sc, 0, &c, cx, en, &o));
                }
            }
            let o = run_call(&*inst, &c, &data);
            ev.push(event("call", sc, 0, &c, cx, en, &o));
        }
        "instbig" => {
            // a construction that must be refused; lengths as digits in base 2^15
            let dig = |mut k: u64| {
                let mut d = vec![];
                while k > 0 {
                    d.push((k & 0x7fff).to_string());
                    k >>= 15;
                }
                format!("[{}]", d.join(","))
            };
            let (b, shape, _) = build::<T>(a.s("t").unwrap(), &en.insts);
            let lens: Vec<String> = if shape.kids.is_empty() { vec![dig(shape.arg as u64)] } else { shape.kids.iter().map(|&k| dig(k as u64)).collect() };
            let fac: Vec<String> = a.s("fac").map(|f| f.split(',').map(|x| dig(x.parse().unwrap())).collect()).unwrap_or_default();
            let (ok, msg) = match b {
                Built::Ok(_) => (1, String::new()),
                Built::Panic(m) => (0, m),
            };
            ev.push(format!("{{\"e\":\"newbig\",\"sc\":{},\"ty\":\"{}\",\"t\":\"{}\",\"ctor\":\"{}\",\"lens\":[{}],\"fac\":[{}],\"ok\":{},\"msg\":\"{}\"}}", sc, T::TY, a.s("t").unwrap(), shape.ctor, lens.join(","), fac.join(","), ok, esc(&msg)));
        }
        "cut" => {
            // the same call, cut short by a panic of the user's code at every operation (or max of them), each time
            // followed by one of the calls of then=A:oop:3;B:p:1
            let id = a.s("i").unwrap();
            let Some(inst) = en.insts.get(id).cloned() else { return ev };
            let mut c = call_spec(a, id);
            let data = input_data::<T>(&c, cx, inst.len());
            let n0 = sched::COUNT.with(|c| c.get());
            let _ = run_call(&*inst, &c, &data);
            let ops = sched::COUNT.with(|c| c.get()) - n0;
            let then: Vec<Vec<&str>> = a.s("then").unwrap().split(';').map(|f| f.split(':').collect()).collect();
            for (q, at) in points(ops, a.u("max", 40) as u64, a.u("seed", 1) as u64).into_iter().enumerate() {
                c.cut = at;
                let o = run_call(&*inst, &c, &data);
                ev.push(cut_event(sc, 0, &c, en, &o));
                let f = &then[q % then.len()];
                let Some(next) = en.insts.get(f[0]).cloned() else { continue };
                let mut d = build_call(f[0], f[1], f[2].parse().unwrap());
                d.fs = at;
                let data = input_data::<T>(&d, cx, next.len());
                let o = run_call(&*next, &d, &data);
                ev.push(event("call", sc, 0, &d, cx, en, &o));
            }
        }
        "cutnew" => {
            // a construction, cut short by a panic of the user's code at every operation (or max of them), each time
            // followed by a construction that runs to its end and a call
            let t = a.s("t").unwrap();
            let n0 = sched::COUNT.with(|c| c.get());
            let _ = build::<T>(t, &en.insts);
            let ops = sched::COUNT.with(|c| c.get()) - n0;
            for at in points(ops, a.u("max", 40) as u64, a.u("seed", 1) as u64) {
                sched::cut_after(at);
                let (b, shape, _) = build::<T>(t, &en.insts);
                let fired = sched::uncut();
                let ok = matches!(b, Built::Ok(_));
                drop(b);
                ev.push(format!("{{\"e\":\"cutnew\",\"sc\":{},\"ty\":\"{}\",\"t\":\"{}\",\"ctor\":\"{}\",\"at\":{},\"fired\":{},\"ok\":{}}}", sc, T::TY, t, shape.ctor, clip(at as i64), fired as u8, ok as u8));
                // every transform in it is built anew
                let args = Args(HashMap::from([("id", "cutN"), ("t", t)]));
                ev.extend(exec("inst", &args, sc, cx, en));
                let mode = ["ip", "oop", "p"][at as usize % 3];
                let v = (1 + at % 5).to_string();
                let args = Args(HashMap::from([("i", "cutN"), ("mode", mode), ("v", v.as_str())]));
                ev.extend(exec("call", &args, sc, cx, en));
                en.insts.remove("cutN");
            }
        }
        "chain" => {
            // transform the transform (possibly with another instance of the same length)
            let (i1, i2) = (a.s("i").unwrap(), a.s("i2").unwrap());
            let (Some(x1), Some(x2)) = (en.insts.get(i1).cloned(), en.insts.get(i2).cloned()) else { return ev };
            let c = call_spec(a, i1);
            let data = input_data::<T>(&c, cx, x1.len());
            let o1 = run_call(&*x1, &c, &data);
            let mut c2 = c.clone();
            c2.inst = i2.into();
            c2.mode = a.s("mode2").unwrap_or("ip").into();
            let o2 = run_call(&*x2, &c2, &o1.out);
            let mut line = event("chain", sc, 0, &c2, cx, en, &o2);
            line.pop();
            let _ = write!(line, ",\"t1\":\"{}\",\"mode1\":\"{}\",\"res1\":\"{}\",\"rec1\":{},\"n1\":{}}}", en.expr[i1], c.mode, o1.res, (en.rec[i1] && o1.rec) as u8, o1.n);
            ev.push(line);
        }
        "drop" => {
            let id = a.s("id").unwrap();
            en.insts.remove(id);
            en.raw.retain(|x| x.0 != id);
        }
        "build" => concurrent_builds(a, sc, cx, en, &mut ev),
        "conc" => conc(a, sc, cx, en, &mut ev),
        "arena" => {
            let seed = a.u("seed", 1) as u64;
            en.arena = (0..a.u("size", 100) as u64).map(|i| T::mk((mix(mix(seed) + i) % 19) as i64 - 9, 0)).collect();
            ev.push(format!("{{\"e\":\"arena\",\"sc\":{},\"ty\":\"{}\",\"mem\":[{}]}}", sc, T::TY, cells(&en.arena)));
        }
        "op" => op(a, sc, en, &mut ev),
        _ => panic!("unknown command {cmd}"),
    }
    ev
}
/// the operations to be cut at: all, or the first and last few and a sample
fn points(ops: u64, max: u64, seed: u64) -> Vec<u64> {
    if ops <= max {
        return (1..=ops).collect();
    }
    let mut s: std::collections::BTreeSet<u64> = [1, 2, ops - 1, ops].into();
    let mut q = 0;
    while (s.len() as u64) < max {
        s.insert(1 + mix(mix(seed) + q) % ops);
        q += 1;
    }
    s.into_iter().collect()
}
fn cut_event<T: Enc>(sc: usize, th: usize, c: &CallSpec, en: &Engine<T>, o: &Outcome<T>) -> String {
    format!(
        "{{\"e\":\"cut\",\"sc\":{},\"th\":{},\"ty\":\"{}\",\"i\":\"{}\",\"t\":\"{}\",\"mode\":\"{}\",\"n\":{},\"b\":{},\"o\":{},\"s\":{},\"adv\":{},\"at\":{},\"fired\":{},\"res\":\"{}\",\"g\":{},\"heap\":[{},{},{}],\"es\":{},\"msg\":\"{}\"}}",
        sc, th, T::TY, c.inst, en.expr[&c.inst], c.mode, o.n, o.b, o.o, o.s, o.adv, clip(c.cut as i64), o.fired as u8, o.res, o.guard as u8,
        clip(o.heap[0]), clip(o.heap[1]), clip(o.heap[2]), std::mem::size_of::<T>(), esc(&o.msg)
    )
}
/// memory contents as integers (floats: 30 bits of a hash)
fn cells<T: Elem>(m: &[T]) -> String {
    let v: Vec<String> = m.iter().map(|x| if T::TY == "fp" { x.bits() } else { mix(x.canon()) >> 34 }.to_string()).collect();
    v.join(",")
}
/// op i=A mode=oop k=2 e=0 f=0 x=0 base=3 ord=4 g1=1 g2=0 : a call on regions of the persistent arena.
/// k segments and e cells, output f cells longer, scratch x cells longer than advertised; the regions in the
/// ord-th order (bos bso obs osb sbo sob) from address base, with gaps g1, g2
fn op<T: Elem>(a: &Args, sc: usize, en: &mut Engine<T>, ev: &mut Vec<String>) {
    let id = a.s("i").unwrap();
    let Some(inst) = en.insts.get(id).cloned() else { return };
    let mode = a.s("mode").unwrap();
    let n = inst.len() as i64;
    let adv = if mode == "oop" { inst.get_outofplace_scratch_len() } else { inst.get_inplace_scratch_len() } as i64;
    let bl = a.u("k", 1) * n + a.u("e", 0);
    let ol = if mode == "oop" { bl + a.u("f", 0) } else { 0 };
    let sl = if mode == "p" { 0 } else { adv + a.u("x", 0) };
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][a.u("ord", 1) as usize - 1];
    let len = [bl, ol, sl];
    if len.iter().any(|&x| x < 0) {
        return;
    }
    let mut at = [0i64; 3];
    let mut pos = a.u("base", 0);
    for (q, &r) in order.iter().enumerate() {
        at[r] = pos;
        pos += len[r] + if q == 0 { a.u("g1", 0) } else { a.u("g2", 0) };
    }
    if pos > en.arena.len() as i64 {
        return;
    }
    let u0 = fp::unrec();
    let base = en.arena.as_mut_ptr();
    // the three regions are disjoint and inside the arena
    let [b, o, s] = unsafe { [0, 1, 2].map(|r| std::slice::from_raw_parts_mut(base.add(at[r] as usize), len[r] as usize)) };
    let cut = a.u("cut", 0) as u64;
    if cut > 0 {
        sched::cut_after(cut);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match mode {
        "p" => inst.process(b),
        "ip" => inst.process_with_scratch(b, s),
        _ => inst.process_outofplace_with_scratch(b, o, s),
    }));
    let fired = cut > 0 && sched::uncut();
    let rec = en.rec[id] && fp::unrec() == u0;
    let (res, msg) = match r {
        Ok(()) => ("ok", String::new()),
        Err(e) => ("panic", panic_text(e)),
    };
    ev.push(format!(
        "{{\"e\":\"op\",\"sc\":{},\"ty\":\"{}\",\"i\":\"{}\",\"t\":\"{}\",\"mode\":\"{}\",\"n\":{},\"adv\":{},\"b\":{{\"o\":{},\"l\":{}}},\"o\":{{\"o\":{},\"l\":{}}},\"s\":{{\"o\":{},\"l\":{}}},\"fired\":{},\"res\":\"{}\",\"rec\":{},\"mem\":[{}],\"msg\":\"{}\"}}",
        sc, T::TY, id, en.expr[id], mode, n, adv, at[0], bl, at[1], ol, at[2], sl, fired as u8, res, rec as u8, cells(&en.arena), esc(&msg)
    ));
}
/// the tree expression with references to shared instances spelled out
fn expand<T>(t: &str, en: &Engine<T>) -> String {
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '@' {
            let mut id = String::new();
            while it.peek().map_or(false, |c| c.is_ascii_alphanumeric()) {
                id.push(it.next().unwrap());
            }
            out.push_str(&en.expr[&id]);
        } else {
            out.push(c);
        }
    }
    out
}
fn refs_rec<T>(t: &str, en: &Engine<T>) -> bool {
    t.split('@').skip(1).all(|r| {
        let id: String = r.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
        en.rec.get(&id).copied().unwrap_or(true)
    })
}
/// conc th=A:ip:1,2;B:oop:3 segs=4 sch=0,1,1,0 reps=2 : each thread performs `reps` identical calls
fn conc<T: Enc>(a: &Args, sc: usize, cx: &Ctx, en: &mut Engine<T>, ev: &mut Vec<String>) {
    let segs = a.u("segs", 1).max(1) as u64;
    let reps = a.u("reps", 1) as usize;
    let ham = a.u("ham", 0) as usize;
    let sch: Vec<usize> = a.s("sch").map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let mut specs = vec![];
    for t in a.s("th").unwrap().split(';') {
        let f: Vec<&str> = t.split(':').collect();
        let c = CallSpec {
            inst: f[0].into(),
            mode: f[1].into(),
            chunks: f[2].split(',').map(|x| x.parse().unwrap()).collect(),
            basis: false,
            b: None,
            o: None,
            s: None,
            fs: 2 + specs.len() as u64,
            fo: 7,
            fg: 0,
            sc: 0,
            pl: 0,
            al: 0,
            rep: 1,
            cut: 0,
        };
        if !en.insts.contains_key(&c.inst) {
            return;
        }
        specs.push(c);
    }
    // measure the number of arithmetic operations of each call, alone (on a fresh thread)
    let mut quota = vec![];
    for c in &specs {
        let inst = en.insts[&c.inst].clone();
        let data = input_data::<T>(c, cx, inst.len());
        let ops = if sch.is_empty() && a.i("cuts").is_none() && a.i("fine").is_none() && a.i("cut").is_none() {
            0
        } else {
            std::thread::scope(|s| {
                s.spawn(|| {
                    let a = sched::COUNT.with(|c| c.get());
                    let _ = run_call(&*inst, c, &data);
                    sched::COUNT.with(|c| c.get()) - a
                })
                .join()
                .unwrap()
            })
        };
        quota.push((ops * reps as u64 + segs - 1) / segs + 1);
    }
    // schedules: a given one (equal shares), every single pre-emption point of thread 0, or fine-grained random ones
    let mut plans: Vec<Option<Vec<(usize, u64)>>> = vec![];
    let ops: Vec<u64> = quota.iter().map(|q| (q - 1) * segs).collect();
    if let Some(max) = a.i("cuts") {
        let step = (ops[0] / max as u64).max(1);
        let mut k = 1;
        while k <= ops[0] {
            plans.push(Some(vec![(0, k), (1, u64::MAX), (0, u64::MAX)]));
            k += step;
        }
    } else if let Some(seed) = a.i("fine") {
        let turns = ops.iter().sum::<u64>().min(4000);
        plans.push(Some((0..turns).map(|q| {
            let h = mix(mix(seed as u64) + q);
            ((h % specs.len() as u64) as usize, 1 + (h >> 32) % 3)
        }).collect()));
    } else if !sch.is_empty() {
        plans.push(Some(sch.iter().map(|&t| (t, quota[t])).collect()));
    } else {
        plans.push(None);
    }
    let (cut, creps, ops0) = (a.i("cut"), a.u("creps", 20) as u64, ops[0]);
    let mut abandoned = 0;
    let fresh = a.u("fresh", 0) == 1;
    for plan in plans {
        if fresh {
            // new instances (sharing what they shared), so that this is their first use
            for (id, t) in en.raw.clone() {
                if let (Built::Ok(i), _, _) = build::<T>(&t, &en.insts) {
                    en.insts.insert(id, i);
                }
            }
        }
        let seq = AtomicU64::new(0);
        let logs: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let scheduled = plan.is_some();
        let start = std::sync::Barrier::new(specs.len());
        let spin = AtomicUsize::new(0);
        let k = specs.len();
        if let Some(p) = plan {
            sched::start(p, specs.len());
        }
        std::thread::scope(|s| {
            for (th, c) in specs.iter().enumerate() {
                let inst = en.insts[&c.inst].clone();
                let (seq, logs, en, start, spin) = (&seq, &logs, &*en, &start, &spin);
                s.spawn(move || {
                    let data = input_data::<T>(c, cx, inst.len());
                    if scheduled {
                        sched::enter(th);
                    } else if ham == 0 {
                        start.wait();
                    }
                    let mut mine = vec![];
                    // thread 0 is cut short again and again
                    if let (Some(seed), 0) = (cut, th) {
                        if ham > 0 {
                            spin.fetch_add(1, SeqCst);
                        }
                        let mut c = c.clone();
                        for q in 0..creps {
                            c.cut = 1 + mix(mix(seed as u64) + q) % ops0.max(1);
                            let o = run_call(&*inst, &c, &data);
                            let line = cut_event(sc, th, &c, en, &o);
                            logs.lock().unwrap().push((seq.fetch_add(1, SeqCst), line));
                        }
                        if scheduled {
                            sched::leave();
                        }
                        return;
                    }
                    if ham > 0 {
                        for o in hammer(&*inst, c, &data, ham, spin, k) {
                            let t0 = seq.fetch_add(2, SeqCst);
                            mine.push((t0, t0 + 1, o));
                        }
                    }
                    for _ in 0..if ham > 0 { 0 } else { reps } {
                        let t0 = seq.fetch_add(1, SeqCst);
                        let o = run_call(&*inst, c, &data);
                        let t1 = seq.fetch_add(1, SeqCst);
                        mine.push((t0, t1, o));
                    }
                    if scheduled {
                        sched::leave();
                    }
                    for (t0, t1, o) in mine {
                        let line = event("end", sc, th as i64, c, cx, en, &o);
                        let mut l = logs.lock().unwrap();
                        l.push((t0, format!("{{\"e\":\"beg\",\"sc\":{},\"th\":{},\"ty\":\"{}\",\"t\":\"{}\",\"mode\":\"{}\",\"v\":[{}]}}", sc, th, T::TY, en.expr[&c.inst], c.mode, list(&c.chunks))));
                        l.push((t1, line));
                    }
                });
            }
        });
        let free = if scheduled { sched::stop() } else { true };
        let mut l = logs.into_inner().unwrap();
        l.sort_by_key(|x| x.0);
        ev.extend(l.into_iter().map(|x| x.1));
        ev.push(format!("{{\"e\":\"join\",\"sc\":{},\"ty\":\"{}\",\"free\":{}}}", sc, T::TY, free as u8));
        abandoned += (scheduled && free) as u32;
        if abandoned > 8 {
            break;
        }
    }
}

fn make_vec(a: &Args, n: usize) -> Vec<(usize, i64)> {
    let p = fp::p() as i64;
    let amp = a.u("amp", 0);
    let val = |h: u64| -> i64 {
        if amp == 0 {
            (h % p as u64) as i64
        } else {
            (h % (2 * amp as u64 + 1)) as i64 - amp
        }
    };
    let mut v = vec![];
    if let Some(s) = a.s("pairs") {
        for q in s.split(';').filter(|x| !x.is_empty()) {
            let (j, x) = q.split_once(':').unwrap();
            v.push((j.parse().unwrap(), x.parse().unwrap()));
        }
    } else if let Some(s) = a.i("rand") {
        for j in 0..n {
            v.push((j, val(mix(mix(s as u64) ^ mix(j as u64 + 1)))));
        }
    } else if let Some(s) = a.i("sparse") {
        let cnt = a.u("count", 4) as u64;
        for q in 0..cnt {
            let h = mix(mix(s as u64) + q);
            let j = (h % n as u64) as usize;
            if v.iter().all(|&(k, _)| k != j) {
                let x = val(mix(h));
                v.push((j, if x == 0 { 1 } else { x }));
            }
        }
    } else if let Some(c) = a.i("const") {
        for j in 0..n {
            v.push((j, c));
        }
    }
    v.retain(|&(j, x)| x != 0 && j < n);
    v
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let opt = |k: &str| av.iter().position(|x| x == k).map(|i| av[i + 1].clone());
    let from: usize = opt("--from").map(|x| x.parse().unwrap()).unwrap_or(0);
    let skip: Vec<usize> = opt("--skip").map(|x| x.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("DHT_VERBOSE").is_ok() {
            eprintln!("{i}");
        }
    }));
    let text = std::fs::read_to_string(&av[1]).unwrap();
    let mut out = std::io::BufWriter::new(std::fs::OpenOptions::new().create(true).append(true).open(&av[2]).unwrap());
    let mut cx = Ctx { n: 0, rs: vec![], ks: vec![], vecs: HashMap::new(), tree: false };
    let (mut e1, mut e2, mut e3) = (Engine::<Fp>::new(), Engine::<f64>::new(), Engine::<f32>::new());
    let (mut e4, mut e5) = (Engine::<wide::W24>::new(), Engine::<wide::W64>::new());
    let lines: Vec<&str> = text.lines().collect();
    let next_ctx = |sc: usize| (sc + 1..lines.len()).find(|&i| lines[i].starts_with("ctx")).unwrap_or(lines.len());
    let mut skip_to = 0;
    let mut child_until = usize::MAX;
    for (sc, line) in lines.iter().enumerate() {
        if sc < skip_to {
            continue;
        }
        if sc >= child_until {
            break;
        }
        if line.starts_with("ctx") {
            let end = next_ctx(sc);
            if end <= from {
                skip_to = end;
                continue;
            }
            if child_until == usize::MAX && !line.contains("kind=fl") {
                // The finite field is a global parameter of the element type: every such context gets a process of
                // its own, so that whatever the library may keep from one construction to the next stays meaningful.
                out.flush().unwrap();
                match proc::fork() {
                    None => child_until = end,
                    Some(pid) => {
                        proc::wait(pid);
                        skip_to = end;
                        continue;
                    }
                }
            }
        }
        let mut it = line.split_whitespace();
        let Some(cmd) = it.next() else { continue };
        if cmd.starts_with('#') {
            continue;
        }
        let a = Args(it.map(|x| x.split_once('=').unwrap_or_else(|| panic!("bad arg {x}"))).collect());
        let emit = sc >= from;
        let mut ev: Vec<String> = vec![];
        match cmd {
            "ctx" => {
                let n = a.u("n", 0) as usize;
                cx.n = n;
                cx.vecs.clear();
                cx.tree = a.u("tr", 0) == 1;
                e1 = Engine::new();
                e2 = Engine::new();
                e3 = Engine::new();
                e4 = Engine::new();
                e5 = Engine::new();
                let kind = a.s("kind").unwrap_or("fp");
                fence::WANTED.store(a.u("ef", 0) == 1, SeqCst);
                cx.ks = a.s("ks").map(|x| x.split(',').map(|y| y.parse().unwrap()).collect()).unwrap_or_default();
                if kind == "fp" {
                    fp::P.store(a.u("p", 3) as u64, SeqCst);
                    fp::M.store(a.u("m", 1) as u64, SeqCst);
                    fp::Z.store(a.u("z", 1) as u64, SeqCst);
                    cx.rs = a.s("rs").unwrap().split(',').map(|x| x.parse().unwrap()).collect();
                    ev.push(format!("{{\"e\":\"ctx\",\"sc\":{},\"n\":{},\"p\":{},\"m\":{},\"z\":{},\"rs\":[{}],\"bas\":{},\"qs\":[{}]}}", sc, n, a.u("p", 3), a.u("m", 1), a.u("z", 1), a.s("rs").unwrap(), a.u("bas", 0), a.s("qs").unwrap_or("")));
                } else {
                    let ks: Vec<String> = if cx.ks.is_empty() { (0..n).map(|x| x.to_string()).collect() } else { cx.ks.iter().map(|x| x.to_string()).collect() };
                    ev.push(format!("{{\"e\":\"fctx\",\"sc\":{},\"n\":{},\"ks\":[{}]}}", sc, n, ks.join(",")));
                }
            }
            "vec" => {
                let v = make_vec(&a, cx.n);
                let s: Vec<String> = v.iter().map(|(j, x)| format!("[{j},{x}]")).collect();
                let id = a.u("id", 1);
                ev.push(format!("{{\"e\":\"vec\",\"sc\":{},\"id\":{},\"s\":[{}]}}", sc, id, s.join(",")));
                cx.vecs.insert(id as u32, v);
            }
            _ => {
                if skip.contains(&sc) || (!emit && cmd != "inst") {
                    continue;
                }
                if emit {
                    // mark progress, so that a crash of this process can be attributed to this scenario
                    let _ = writeln!(out, "{{\"e\":\"at\",\"sc\":{sc}}}");
                    out.flush().unwrap();
                }
                ev = match a.s("ty").unwrap_or("fp") {
                    "fp" => exec::<Fp>(cmd, &a, sc, &cx, &mut e1),
                    "fw" => exec::<wide::W24>(cmd, &a, sc, &cx, &mut e4),
                    "fa" => exec::<wide::W64>(cmd, &a, sc, &cx, &mut e5),
                    "f64" => exec::<f64>(cmd, &a, sc, &cx, &mut e2),
                    "f32" => exec::<f32>(cmd, &a, sc, &cx, &mut e3),
                    t => panic!("unknown type {t}"),
                };
            }
        }
        if emit {
            for l in ev {
                out.write_all(l.as_bytes()).unwrap();
                out.write_all(b"\n").unwrap();
            }
        }
    }
    out.flush().unwrap();
    let _ = Arc::new(());
    std::process::exit(0);
}
