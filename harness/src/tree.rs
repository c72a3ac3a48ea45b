//! Tree expressions -> real transform instances.
//!   n<k> naive   b<k> butterfly   r<k> radix4   m(W,H) mixed radix   x<k>(A) k x n   p(A) Rader   s(Q,H) split
//!   u<len>:<ip>:<oop> user transform   z<len> user no-op   @<id> an already built instance
use crate::elem::Elem;
use crate::user::User;
use rustdht::{scalar::*, Dht};
#[allow(unused_imports)]
use rustfft::Length;
use std::collections::HashMap;
use std::sync::Arc;

pub type Inst<T> = Arc<dyn Dht<T>>;

pub struct Shape {
    pub ctor: String,
    pub arg: i64,
    pub kids: Vec<usize>,
}
pub enum Built<T> {
    Ok(Inst<T>),
    Panic(String),
}

struct Parser<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Parser<'a> {
    fn num(&mut self) -> usize {
        let b = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[b..self.i]).unwrap().parse().expect("number in tree")
    }
    fn expect(&mut self, c: u8) {
        assert!(self.i < self.s.len() && self.s[self.i] == c, "tree syntax at {}", self.i);
        self.i += 1;
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "?".into()
    }
}

/// Builds the tree; only the outermost constructor's panic is reported as such, `shape` describes that constructor.
pub fn build<T: Elem>(expr: &str, env: &HashMap<String, Inst<T>>) -> (Built<T>, Shape, bool) {
    let mut p = Parser { s: expr.as_bytes(), i: 0 };
    let r = node(&mut p, env);
    assert!(p.i == p.s.len(), "trailing tree text in {expr}");
    r
}
fn kid<T: Elem>(p: &mut Parser, env: &HashMap<String, Inst<T>>) -> Result<Inst<T>, String> {
    match node(p, env).0 {
        Built::Ok(i) => Ok(i),
        Built::Panic(m) => Err(m),
    }
}
fn guard<T: Elem>(f: impl FnOnce() -> Inst<T>) -> Built<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(i) => Built::Ok(i),
        Err(e) => Built::Panic(panic_text(e)),
    }
}
fn node<T: Elem>(p: &mut Parser, env: &HashMap<String, Inst<T>>) -> (Built<T>, Shape, bool) {
    let c = p.s[p.i];
    p.i += 1;
    let leaf = |ctor: &str, arg: usize, b: Built<T>| (b, Shape { ctor: ctor.into(), arg: arg as i64, kids: vec![] }, true);
    match c {
        b'n' => {
            let k = p.num();
            leaf("naive", k, guard(|| Arc::new(DhtNaive::new(k))))
        }
        b'r' => {
            let k = p.num();
            leaf("radix4", k, guard(|| Arc::new(Radix4::new(k))))
        }
        b'b' => {
            let k = p.num();
            leaf(
                "butterfly",
                k,
                guard(|| match k {
                    1 => Arc::new(Butterfly1::new()) as Inst<T>,
                    2 => Arc::new(Butterfly2::new()),
                    3 => Arc::new(Butterfly3::new()),
                    4 => Arc::new(Butterfly4::new()),
                    5 => Arc::new(Butterfly5::new()),
                    6 => Arc::new(Butterfly6::new()),
                    8 => Arc::new(Butterfly8::new()),
                    9 => Arc::new(Butterfly9::new()),
                    16 => Arc::new(Butterfly16::new()),
                    _ => unreachable!("no such butterfly"),
                }),
            )
        }
        b'u' => {
            let l = p.num();
            p.expect(b':');
            let a = p.num();
            p.expect(b':');
            let b = p.num();
            leaf("user", l, guard(|| Arc::new(User::new(l, a, b, false))))
        }
        b'z' => {
            let l = p.num();
            leaf("user", l, guard(|| Arc::new(User::new(l, 0, 0, true))))
        }
        b'@' => {
            let b = p.i;
            while p.i < p.s.len() && p.s[p.i].is_ascii_alphanumeric() {
                p.i += 1;
            }
            let id = std::str::from_utf8(&p.s[b..p.i]).unwrap();
            let i = env.get(id).unwrap_or_else(|| panic!("unknown instance {id}")).clone();
            (Built::Ok(i), Shape { ctor: "ref".into(), arg: 0, kids: vec![] }, true)
        }
        b'm' | b's' => {
            p.expect(b'(');
            let a = kid(p, env);
            p.expect(b',');
            let b = kid(p, env);
            p.expect(b')');
            let ctor = if c == b'm' { "mixed" } else { "split" };
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    let kids = vec![a.len(), b.len()];
                    let r = if c == b'm' { guard(|| Arc::new(MixedRadix::new(a, b))) } else { guard(|| Arc::new(SplitRadix::new(a, b))) };
                    (r, Shape { ctor: ctor.into(), arg: 0, kids }, true)
                }
                (Err(m), _) | (_, Err(m)) => (Built::Panic(m), Shape { ctor: ctor.into(), arg: 0, kids: vec![] }, false),
            }
        }
        b'x' | b'p' => {
            let w = if c == b'x' { p.num() } else { 0 };
            p.expect(b'(');
            let a = kid(p, env);
            p.expect(b')');
            let ctor = if c == b'x' { "nxn" } else { "rader" };
            match a {
                Ok(a) => {
                    let kids = vec![a.len()];
                    let r = guard(|| match w {
                        0 => Arc::new(RadersAlgorithm::new(a)) as Inst<T>,
                        2 => Arc::new(MixedRadix2xn::new(a)),
                        3 => Arc::new(MixedRadix3xn::new(a)),
                        4 => Arc::new(MixedRadix4xn::new(a)),
                        5 => Arc::new(MixedRadix5xn::new(a)),
                        6 => Arc::new(MixedRadix6xn::new(a)),
                        _ => unreachable!("no such radix"),
                    });
                    (r, Shape { ctor: ctor.into(), arg: w as i64, kids }, true)
                }
                Err(m) => (Built::Panic(m), Shape { ctor: ctor.into(), arg: w as i64, kids: vec![] }, false),
            }
        }
        _ => panic!("tree syntax: {}", c as char),
    }
}

/// the (expanded) expression as a record of the specification
pub fn json(expr: &str) -> String {
    fn go(p: &mut Parser) -> String {
        let c = p.s[p.i];
        p.i += 1;
        match c {
            b'n' | b'b' | b'r' | b'z' => format!("{{\"k\":\"{}\",\"n\":{}}}", c as char, p.num()),
            b'u' => {
                let n = p.num();
                p.expect(b':');
                let ip = p.num();
                p.expect(b':');
                let oop = p.num();
                format!("{{\"k\":\"u\",\"n\":{n},\"ip\":{ip},\"oop\":{oop}}}")
            }
            b'x' | b'p' => {
                let w = if c == b'x' { p.num() } else { 0 };
                p.expect(b'(');
                let a = go(p);
                p.expect(b')');
                format!("{{\"k\":\"{}\",\"w\":{w},\"a\":{a}}}", c as char)
            }
            _ => {
                p.expect(b'(');
                let a = go(p);
                p.expect(b',');
                let b = go(p);
                p.expect(b')');
                format!("{{\"k\":\"{}\",\"a\":{a},\"b\":{b}}}", c as char)
            }
        }
    }
    go(&mut Parser { s: expr.as_bytes(), i: 0 })
}
