//! C32: hand-written implementations are called as the traits document.
//! Probe types with a different encoding for each hook record how they are
//! called; a model of the containers says what must be written and recorded.
use flcore::ensure;
use flcore::model::{hex, varint};
use flcore::rng::{hash_bytes, mix, Rng};
use flcore::runner::*;
use fourleaf::adapt::Copied;
use fourleaf::de::{self, style, Config, Context, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::ser::{self, Serialize};
use fourleaf::stream::{self, Field, Stream};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::*;
use std::fmt::Debug;
use std::io::{self, Read, Write};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Hook {
    Body,
    Field,
    Elem,
    Vec,
    Array(usize),
    Slice(usize),
    Finish,
}
/// One call of a hook of a probe: what it was given and where it was called.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Ev {
    hook: Hook,
    what: Vec<u8>,
    /// Positions from the top of the context down, empty for `Finish`.
    chain: Vec<u64>,
    /// Tag and position of the field.
    field: Option<(u8, u64)>,
    depth: usize,
    cfg: usize,
}

#[derive(Default)]
struct Tape {
    on: bool,
    evs: Vec<Ev>,
    calls: u64,
    fail_at: Option<u64>,
}
thread_local!(static TAPE: RefCell<Tape> = RefCell::new(Tape::default()));

fn start(fail_at: Option<u64>) {
    TAPE.with(|t| *t.borrow_mut() = Tape { on: true, fail_at, ..Tape::default() });
}
fn stop() -> (Vec<Ev>, u64) {
    TAPE.with(|t| {
        let t = std::mem::replace(&mut *t.borrow_mut(), Tape::default());
        (t.evs, t.calls)
    })
}
/// Whether this call is the one to fail.
fn call() -> Option<u64> {
    TAPE.with(|t| {
        let t = &mut *t.borrow_mut();
        let n = t.calls;
        t.calls += 1;
        if t.fail_at == Some(n) {
            Some(n)
        } else {
            None
        }
    })
}
fn log(hook: Hook, what: &[u8], c: &Context, field: Option<(u8, u64)>) -> de::Result<()> {
    let mut chain = vec![];
    if hook != Hook::Finish {
        let mut at = Some(c);
        while let Some(x) = at {
            chain.push(x.pos);
            at = x.next;
        }
        chain.reverse();
    }
    TAPE.with(|t| {
        t.borrow_mut().evs.push(Ev { hook, what: what.to_vec(), chain, field, depth: c.depth, cfg: c.config.max_blob });
    });
    match call() {
        Some(n) => Err(de::Error::InvalidValueMsg(format!("probe {}", n), "injected")),
        None => Ok(()),
    }
}
fn wlog() -> stream::Result<()> {
    match call() {
        Some(n) => Err(io::Error::new(io::ErrorKind::Other, format!("injected {}", n)).into()),
        None => Ok(()),
    }
}
fn odd<T>(what: String) -> de::Result<T> {
    Err(de::Error::InvalidValueMsg(what, "probe met something else"))
}

/// Implements every hook, with another encoding for each.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct P(u8);
/// Implements only what has no default. (The sizes of the probes differ.)
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Q(u8, u64);
/// Has slices written specially.
#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct N(u8, u32);

impl Serialize for P {
    fn serialize_body<W: Write>(&self, d: &mut Stream<W>) -> stream::Result<()> {
        wlog()?;
        d.write_u8(5, self.0)?;
        d.write_u8(7, 0xB0)?;
        d.write_end_struct()
    }
    fn serialize_field<W: Write>(&self, d: &mut Stream<W>, tag: u8) -> stream::Result<()> {
        wlog()?;
        for _ in 0..self.0 % 3 + 1 {
            d.write_u8(tag, self.0)?;
        }
        d.write_u8(tag, 0xF0)
    }
    fn serialize_element<W: Write>(&self, d: &mut Stream<W>, tag: u8) -> stream::Result<()> {
        wlog()?;
        d.write_blob_data(tag, &[0xE0, self.0][..]).map(|_| ())
    }
}
/// What has been seen of a `P`; starts with a mark.
struct PAcc(Vec<u8>);
impl Default for PAcc {
    fn default() -> Self {
        PAcc(vec![0xAC])
    }
}
impl<R: Read, STYLE> Deserialize<R, STYLE> for P {
    type Accum = PAcc;
    fn deserialize_body(c: &Context, s: &mut Stream<R>) -> de::Result<Self> {
        log(Hook::Body, &[], c, None)?;
        let mut v = vec![];
        loop {
            match s.next_field() {
                Ok(Some(mut f)) => match f.value.to_u8() {
                    Ok(n) => v.extend(&[f.tag, n]),
                    Err(e) => return odd(e.to_string()),
                },
                Ok(None) => break,
                Err(e) => return odd(e.to_string()),
            }
        }
        if v.len() == 4 && v[0] == 5 && v[2..] == [7, 0xB0] {
            Ok(P(v[1]))
        } else {
            odd(format!("body {:?}", v))
        }
    }
    fn deserialize_field(a: &mut PAcc, c: &Context, f: &mut Field<R>) -> de::Result<()> {
        log(Hook::Field, &a.0, c, Some((f.tag, f.pos)))?;
        match f.value.to_u8() {
            Ok(n) => a.0.push(n),
            Err(e) => return odd(e.to_string()),
        }
        Ok(())
    }
    fn deserialize_element(c: &Context, f: &mut Field<R>) -> de::Result<Self> {
        log(Hook::Elem, &[], c, Some((f.tag, f.pos)))?;
        let mut v = vec![];
        match f.value.to_blob() {
            Ok(mut b) => {
                if let Err(e) = b.read_to_end(&mut v) {
                    return odd(e.to_string());
                }
            }
            Err(e) => return odd(e.to_string()),
        }
        if v.len() == 2 && v[0] == 0xE0 {
            Ok(P(v[1]))
        } else {
            odd(format!("element {:?}", v))
        }
    }
    fn finish(a: PAcc, c: &Context) -> de::Result<Self> {
        log(Hook::Finish, &a.0, c, None)?;
        match (a.0.first(), a.0.last(), a.0.len()) {
            (Some(&0xAC), Some(&0xF0), n) => {
                let v = if n > 2 { a.0[1] } else { return odd(format!("accumulated {:?}", a.0)) };
                if n as u8 == v % 3 + 3 && a.0[1..n - 1].iter().all(|&x| x == v) {
                    return Ok(P(v));
                }
            }
            _ => (),
        }
        odd(format!("accumulated {:?}", a.0))
    }
}

macro_rules! plain {
    ($t:ident { $($ser:tt)* } { $($des:tt)* }) => {
        impl Serialize for $t {
            fn serialize_element<W: Write>(&self, d: &mut Stream<W>, tag: u8) -> stream::Result<()> {
                wlog()?;
                d.write_u8(tag, self.0)
            }
            $($ser)*
        }
        impl<R: Read, STYLE> Deserialize<R, STYLE> for $t {
            type Accum = PAcc;
            fn deserialize_field(a: &mut PAcc, c: &Context, f: &mut Field<R>) -> de::Result<()> {
                log(Hook::Field, &a.0, c, Some((f.tag, f.pos)))?;
                match f.value.to_u8() {
                    Ok(n) => a.0.push(n),
                    Err(e) => return odd(e.to_string()),
                }
                Ok(())
            }
            fn finish(a: PAcc, c: &Context) -> de::Result<Self> {
                log(Hook::Finish, &a.0, c, None)?;
                if a.0.len() == 2 { Ok($t(a.0[1], 0)) } else { odd(format!("accumulated {:?}", a.0)) }
            }
            $($des)*
        }
    };
}
plain!(Q {} {});

fn unpack<R: Read>(h: Hook, c: &Context, f: &mut Field<R>) -> de::Result<Vec<N>> {
    log(h, &[], c, Some((f.tag, f.pos)))?;
    let mut v = vec![];
    match f.value.to_blob() {
        Ok(mut b) => {
            if let Err(e) = b.read_to_end(&mut v) {
                return odd(e.to_string());
            }
        }
        Err(e) => return odd(e.to_string()),
    }
    Ok(v.into_iter().map(|x| N(x ^ 0x5A, 0)).collect())
}
macro_rules! arrays {
    ($($f:ident $n:tt),*) => {$(
        fn $f(c: &Context, f: &mut Field<R>) -> Option<de::Result<[N; $n]>> {
            Some(unpack(Hook::Array($n), c, f).and_then(|v| {
                let mut a = [N(0, 0); $n];
                if v.len() != a.len() {
                    return odd(format!("{} for {}", v.len(), $n));
                }
                a.copy_from_slice(&v);
                Ok(a)
            }))
        }
    )*};
}
plain!(N {
    fn serialize_slice<W: Write>(v: &[N], d: &mut Stream<W>, tag: u8) -> Option<stream::Result<()>> {
        Some(wlog().and_then(|_| {
            let b: Vec<u8> = v.iter().map(|x| x.0 ^ 0x5A).collect();
            d.write_blob_data(tag, b).map(|_| ())
        }))
    }
} {
    fn serialized_as_slice() -> bool { true }
    fn deserialize_vec(c: &Context, f: &mut Field<R>) -> Option<de::Result<Vec<N>>> {
        Some(unpack(Hook::Vec, c, f))
    }
    fn deserialize_slice(d: &mut [N], c: &Context, f: &mut Field<R>) -> Option<de::Result<()>> {
        Some(unpack(Hook::Slice(d.len()), c, f).and_then(|v| {
            if v.len() != d.len() {
                return odd(format!("{} for {}", v.len(), d.len()));
            }
            d.copy_from_slice(&v);
            Ok(())
        }))
    }
    arrays!(deserialize_array_0 0, deserialize_array_1 1, deserialize_array_2 2, deserialize_array_3 3,
        deserialize_array_4 4, deserialize_array_5 5, deserialize_array_6 6, deserialize_array_7 7,
        deserialize_array_8 8, deserialize_array_9 9, deserialize_array_10 10, deserialize_array_11 11,
        deserialize_array_12 12, deserialize_array_13 13, deserialize_array_14 14, deserialize_array_15 15,
        deserialize_array_16 16, deserialize_array_17 17, deserialize_array_18 18, deserialize_array_19 19,
        deserialize_array_20 20, deserialize_array_21 21, deserialize_array_22 22, deserialize_array_23 23,
        deserialize_array_24 24, deserialize_array_25 25, deserialize_array_26 26, deserialize_array_27 27,
        deserialize_array_28 28, deserialize_array_29 29, deserialize_array_30 30, deserialize_array_31 31,
        deserialize_array_32 32);
});

// User-defined containers made with the library's macro.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Sf<T> {
    a: T,
    b: Vec<T>,
    c: Option<T>,
    d: (T, T),
}
fourleaf_retrofit!(struct Sf : { impl<T: Serialize> Serialize for Sf<T> }
    { impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for Sf<T> } {
    |_context, this|
    [3] a: T = this.a,
    [1] b: Vec<T> = this.b,
    [63] c: Option<T> = this.c,
    [20] d: (T, T) = this.d,
    { Ok(Sf { a: a, b: b, c: c, d: d }) }
});
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Dl<T>(T);
fourleaf_retrofit!(struct Dl : { impl<T: Serialize> Serialize for Dl<T> }
    { impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for Dl<T> } {
    |_context, this|
    (*) t: T = this.0,
    { Ok(Dl(t)) }
});
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum En<T> {
    A { x: T, y: [T; 2] },
    D(T),
}
fourleaf_retrofit!(enum En : { impl<T: Serialize> Serialize for En<T> }
    { impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for En<T> } {
    |_context|
    [300] En::A { ref x, ref y } => {
        [2] x: T = x,
        [9] y: [T; 2] = y,
        { Ok(En::A { x: x, y: y }) }
    },
    [4] En::D(ref t) => {
        (*) t: T = t,
        { Ok(En::D(t)) }
    },
});

/// Takes every field it is given; stands for preserved unknown fields.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct U(Vec<(u8, u8)>);
impl Serialize for U {
    fn serialize_body<W: Write>(&self, d: &mut Stream<W>) -> stream::Result<()> {
        wlog()?;
        for &(tag, n) in &self.0 {
            d.write_u8(tag, n)?;
        }
        d.write_end_struct()
    }
    fn serialize_element<W: Write>(&self, _: &mut Stream<W>, _: u8) -> stream::Result<()> {
        Err(io::Error::new(io::ErrorKind::Other, "not a body").into())
    }
}
impl<R: Read, STYLE> Deserialize<R, STYLE> for U {
    type Accum = PAcc;
    fn deserialize_field(a: &mut PAcc, c: &Context, f: &mut Field<R>) -> de::Result<()> {
        log(Hook::Field, &a.0, c, Some((f.tag, f.pos)))?;
        match f.value.to_u8() {
            Ok(n) => a.0.extend(&[f.tag, n]),
            Err(e) => return odd(e.to_string()),
        }
        Ok(())
    }
    fn finish(a: PAcc, c: &Context) -> de::Result<Self> {
        log(Hook::Finish, &a.0, c, None)?;
        Ok(U(a.0[1..].chunks(2).map(|x| (x[0], x[1])).collect()))
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
struct Uk<T> {
    a: T,
    rest: U,
}
fourleaf_retrofit!(struct Uk : { impl<T: Serialize> Serialize for Uk<T> }
    { impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for Uk<T> } {
    |_context, this|
    [12] a: T = this.a,
    (?) rest: U = this.rest,
    { Ok(Uk { a: a, rest: rest }) }
});
/// The same in an enum which takes unknown variants, too.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
enum Ue<T> {
    A(T, U),
    Other(u64, T, U),
}
fourleaf_retrofit!(enum Ue : { impl<T: Serialize> Serialize for Ue<T> }
    { impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for Ue<T> } {
    |_context|
    [7] Ue::A(ref a, ref rest) => {
        [12] a: T = a,
        (?) rest: U = rest,
        { Ok(Ue::A(a, rest)) }
    },
    (?) Ue::Other(d, ref a, ref rest) => {
        (=) d: u64 = d,
        [12] a: T = a,
        (?) rest: U = rest,
        { Ok(Ue::Other(d, a, rest)) }
    },
});

/// What must be written and recorded.
struct M {
    out: Vec<u8>,
    base: u64,
    chain: Vec<u64>,
    evs: Vec<Ev>,
    cfg: usize,
}
impl M {
    fn pos(&self) -> u64 {
        self.base + self.out.len() as u64
    }
    fn at<T>(&mut self, p: u64, f: impl FnOnce(&mut M) -> T) -> T {
        self.chain.push(p);
        let r = f(self);
        self.chain.pop();
        r
    }
    /// One occurrence of a field, with the context of that field.
    fn occ<T>(&mut self, f: impl FnOnce(&mut M) -> T) -> T {
        let p = self.pos();
        self.at(p, f)
    }
    fn ev(&mut self, hook: Hook, what: &[u8], tag: Option<u8>) {
        let chain = if hook == Hook::Finish { vec![] } else { self.chain.clone() };
        let pos = self.pos();
        self.evs.push(Ev { hook, what: what.to_vec(), chain, field: tag.map(|t| (t, pos)), depth: self.chain.len() - 1, cfg: self.cfg });
    }
    fn int(&mut self, tag: u8, n: u64) {
        self.out.push(0x40 | tag);
        varint(&mut self.out, n);
    }
    fn blob(&mut self, tag: u8, b: &[u8]) {
        self.out.push(0x80 | tag);
        varint(&mut self.out, b.len() as u64);
        self.out.extend(b);
    }
    fn strukt(&mut self, tag: u8) {
        self.out.push(0xC0 | tag);
    }
    fn enm(&mut self, tag: u8, d: u64) {
        self.out.push(tag);
        varint(&mut self.out, d);
    }
    fn end(&mut self) {
        self.out.push(0);
    }
}
/// The model of one type: as a body, as a field, as an element, and what
/// happens when its accumulator is finished.
trait Mo: Clone + PartialEq + Debug {
    fn gen(r: &mut Rng) -> Self;
    fn body(&self, m: &mut M) {
        self.field(m, 1);
        m.end();
        m.occ(|m| self.fin(m));
    }
    fn field(&self, m: &mut M, tag: u8) {
        m.occ(|m| self.elem(m, tag));
    }
    fn elem(&self, m: &mut M, tag: u8);
    fn fin(&self, _: &mut M) {}
    fn slice(_: &[Self], _: Hook, _: &mut M, _: u8) -> bool {
        false
    }
}
/// An element which is a struct around the body.
fn wrap<T: Mo>(t: &T, m: &mut M, tag: u8) {
    m.strukt(tag);
    t.body(m);
}
impl Mo for P {
    fn gen(r: &mut Rng) -> P {
        P(r.below(256) as u8)
    }
    fn body(&self, m: &mut M) {
        m.ev(Hook::Body, &[], None);
        m.int(5, self.0 as u64);
        m.int(7, 0xB0);
        m.end();
    }
    fn field(&self, m: &mut M, tag: u8) {
        let mut acc = vec![0xAC];
        for i in 0..self.0 % 3 + 2 {
            let n = if i == self.0 % 3 + 1 { 0xF0 } else { self.0 };
            m.occ(|m| {
                m.ev(Hook::Field, &acc, Some(tag));
                m.int(tag, n as u64);
            });
            acc.push(n);
        }
    }
    fn elem(&self, m: &mut M, tag: u8) {
        m.ev(Hook::Elem, &[], Some(tag));
        m.blob(tag, &[0xE0, self.0]);
    }
    fn fin(&self, m: &mut M) {
        let mut acc = vec![0xAC];
        acc.extend(vec![self.0; (self.0 % 3 + 1) as usize]);
        acc.push(0xF0);
        m.ev(Hook::Finish, &acc, None);
    }
}
macro_rules! mo_plain {
    ($t:ident $($x:tt)*) => {
        impl Mo for $t {
            fn gen(r: &mut Rng) -> $t {
                $t(r.below(256) as u8, 0)
            }
            fn field(&self, m: &mut M, tag: u8) {
                m.occ(|m| {
                    m.ev(Hook::Field, &[0xAC], Some(tag));
                    m.int(tag, self.0 as u64);
                });
            }
            fn elem(&self, m: &mut M, tag: u8) {
                m.ev(Hook::Field, &[0xAC], Some(tag));
                m.int(tag, self.0 as u64);
                self.fin(m);
            }
            fn fin(&self, m: &mut M) {
                m.ev(Hook::Finish, &[0xAC, self.0], None);
            }
            $($x)*
        }
    };
}
mo_plain!(Q);
mo_plain!(N
    fn slice(v: &[N], h: Hook, m: &mut M, tag: u8) -> bool {
        m.ev(h, &[], Some(tag));
        m.blob(tag, &v.iter().map(|x| x.0 ^ 0x5A).collect::<Vec<_>>());
        true
    }
);
fn list<T: Mo>(v: &[T], h: Hook, m: &mut M, tag: u8) {
    // a slice written specially is one occurrence
    if !m.occ(|m| T::slice(v, h, m, tag)) {
        for x in v {
            m.occ(|m| x.elem(m, tag));
        }
    }
}
fn few<T: Mo>(r: &mut Rng) -> Vec<T> {
    let n = match r.below(8) {
        0 => r.below(20),
        _ => r.below(4),
    };
    (0..n).map(|_| T::gen(r)).collect()
}
impl<T: Mo> Mo for Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        few(r)
    }
    fn field(&self, m: &mut M, tag: u8) {
        list(self, Hook::Vec, m, tag)
    }
    fn elem(&self, m: &mut M, tag: u8) {
        if !T::slice(self, Hook::Vec, m, tag) {
            wrap(self, m, tag)
        }
    }
}
impl<T: Mo + 'static> Mo for Cow<'static, [T]> {
    fn gen(r: &mut Rng) -> Self {
        Cow::Owned(few(r))
    }
    fn field(&self, m: &mut M, tag: u8) {
        list(self, Hook::Vec, m, tag)
    }
    fn elem(&self, m: &mut M, tag: u8) {
        if !T::slice(self, Hook::Vec, m, tag) {
            wrap(self, m, tag)
        }
    }
}
macro_rules! mo_array {
    ($hook:ident: $($n:tt)*) => {$(
        impl<T: Mo + Copy> Mo for [T; $n] {
            fn gen(r: &mut Rng) -> Self {
                let mut a = [T::gen(r); $n];
                for x in a.iter_mut() {
                    *x = T::gen(r);
                }
                a
            }
            fn field(&self, m: &mut M, tag: u8) {
                list(self, Hook::$hook($n), m, tag)
            }
            fn elem(&self, m: &mut M, tag: u8) {
                if !T::slice(self, Hook::$hook($n), m, tag) {
                    wrap(self, m, tag)
                }
            }
        }
    )*};
}
mo_array!(Array: 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
mo_array!(Slice: 64 128);
// Lists which are never written specially.
macro_rules! mo_iter {
    ($(($($b:tt)*) $t:ty, $r:ident => $gen:expr;)*) => {$(
        impl<$($b)*> Mo for $t {
            fn gen($r: &mut Rng) -> Self {
                $gen
            }
            fn field(&self, m: &mut M, tag: u8) {
                for x in self.iter() {
                    m.occ(|m| x.elem(m, tag));
                }
            }
            fn elem(&self, m: &mut M, tag: u8) {
                wrap(self, m, tag)
            }
        }
    )*};
}
mo_iter! {
    (T: Mo) VecDeque<T>, r => {
        let mut d: VecDeque<T> = few(r).into_iter().collect();
        // not always contiguous
        for _ in 0..r.below(3) { d.push_front(T::gen(r)); }
        d
    };
    (T: Mo) LinkedList<T>, r => few(r).into_iter().collect();
    (T: Mo) Option<T>, r => if r.chance(1, 3) { None } else { Some(T::gen(r)) };
    (T: Mo + Ord) BTreeSet<T>, r => few(r).into_iter().collect();
    (T: Mo + std::hash::Hash + Eq) HashSet<T>, r => few(r).into_iter().take(1).collect();
}
macro_rules! mo_map {
    ($($t:ident [$($b:tt)*] $n:expr;)*) => {$(
        impl<K: Mo $($b)*, V: Mo> Mo for $t<K, V> {
            fn gen(r: &mut Rng) -> Self {
                few::<K>(r).into_iter().take($n).map(|k| (k, V::gen(r))).collect()
            }
            fn field(&self, m: &mut M, tag: u8) {
                for (k, v) in self {
                    m.occ(|m| {
                        m.strukt(tag);
                        k.field(m, 1);
                        v.field(m, 2);
                        m.end();
                        m.occ(|m| { k.fin(m); v.fin(m) });
                    });
                }
            }
            fn elem(&self, m: &mut M, tag: u8) {
                wrap(self, m, tag)
            }
        }
    )*};
}
mo_map! {
    BTreeMap [+ Ord] 20;
    HashMap [+ std::hash::Hash + Eq] 1;
}
macro_rules! mo_box {
    ($($b:ident)*) => {$(
        impl<T: Mo> Mo for $b<T> {
            fn gen(r: &mut Rng) -> Self { $b::from(T::gen(r)) }
            fn body(&self, m: &mut M) { inner(self).body(m) }
            fn field(&self, m: &mut M, tag: u8) { inner(self).field(m, tag) }
            fn elem(&self, m: &mut M, tag: u8) { inner(self).elem(m, tag) }
            fn fin(&self, m: &mut M) { inner(self).fin(m) }
        }
    )*};
}
trait Inner {
    type T;
    fn inner(&self) -> &Self::T;
}
fn inner<B: Inner>(b: &B) -> &B::T {
    b.inner()
}
impl<T> Inner for Box<T> {
    type T = T;
    fn inner(&self) -> &T {
        self
    }
}
impl<T> Inner for Rc<T> {
    type T = T;
    fn inner(&self) -> &T {
        self
    }
}
impl<T> Inner for Arc<T> {
    type T = T;
    fn inner(&self) -> &T {
        self
    }
}
impl<T> Inner for Cp<T> {
    type T = T;
    fn inner(&self) -> &T {
        &self.0
    }
}
/// `Copied` under another name, to have `from`.
type Cp<T> = Copied<T>;
mo_box!(Box Rc Arc);
impl<T: Mo> Mo for Cp<T> {
    fn gen(r: &mut Rng) -> Self {
        Copied(T::gen(r))
    }
    fn body(&self, m: &mut M) {
        self.0.body(m)
    }
    fn field(&self, m: &mut M, tag: u8) {
        self.0.field(m, tag)
    }
    fn elem(&self, m: &mut M, tag: u8) {
        self.0.elem(m, tag)
    }
    fn fin(&self, m: &mut M) {
        self.0.fin(m)
    }
}
macro_rules! mo_tuple {
    ($($t:ident $n:tt),*) => {
        impl<$($t: Mo),*> Mo for ($($t,)*) {
            fn gen(r: &mut Rng) -> Self { ($($t::gen(r),)*) }
            fn body(&self, m: &mut M) {
                $(self.$n.field(m, $n + 1);)*
                m.end();
                m.occ(|m| { $(self.$n.fin(m);)* });
            }
            fn elem(&self, m: &mut M, tag: u8) { wrap(self, m, tag) }
        }
    };
}
mo_tuple!(A 0);
mo_tuple!(A 0, B 1);
mo_tuple!(A 0, B 1, C 2);
mo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
mo_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
impl<T: Mo> Mo for Sf<T> {
    fn gen(r: &mut Rng) -> Self {
        Sf { a: T::gen(r), b: Mo::gen(r), c: Mo::gen(r), d: Mo::gen(r) }
    }
    fn body(&self, m: &mut M) {
        self.a.field(m, 3);
        self.b.field(m, 1);
        self.c.field(m, 63);
        self.d.field(m, 20);
        m.end();
        m.occ(|m| self.a.fin(m));
    }
    fn elem(&self, m: &mut M, tag: u8) {
        wrap(self, m, tag)
    }
}
impl<T: Mo> Mo for Dl<T> {
    fn gen(r: &mut Rng) -> Self {
        Dl(T::gen(r))
    }
    fn body(&self, m: &mut M) {
        m.occ(|m| self.0.body(m))
    }
    fn elem(&self, m: &mut M, tag: u8) {
        m.occ(|m| self.0.elem(m, tag))
    }
}
impl U {
    fn gen(r: &mut Rng) -> U {
        let n = r.below(5);
        U((0..n)
            .map(|_| {
                let t = 1 + r.below(63) as u8;
                (if t == 12 { 13 } else { t }, r.below(256) as u8)
            })
            .collect())
    }
    /// The rest of a body whose other field is `a`.
    fn rest<T: Mo>(&self, a: &T, m: &mut M) {
        a.field(m, 12);
        let mut acc = vec![0xAC];
        for &(tag, n) in &self.0 {
            m.occ(|m| {
                m.ev(Hook::Field, &acc, Some(tag));
                m.int(tag, n as u64);
            });
            acc.extend(&[tag, n]);
        }
        m.end();
        m.occ(|m| {
            a.fin(m);
            m.ev(Hook::Finish, &acc, None);
        });
    }
}
impl<T: Mo> Mo for Uk<T> {
    fn gen(r: &mut Rng) -> Self {
        Uk { a: T::gen(r), rest: U::gen(r) }
    }
    fn body(&self, m: &mut M) {
        self.rest.rest(&self.a, m)
    }
    fn elem(&self, m: &mut M, tag: u8) {
        wrap(self, m, tag)
    }
}
impl<T: Mo> Mo for Ue<T> {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            Ue::A(T::gen(r), U::gen(r))
        } else {
            let d = r.int();
            Ue::Other(if d == 7 { 8 } else { d }, T::gen(r), U::gen(r))
        }
    }
    fn elem(&self, m: &mut M, tag: u8) {
        let (d, a, u) = match self {
            Ue::A(a, u) => (7, a, u),
            Ue::Other(d, a, u) => (*d, a, u),
        };
        m.enm(tag, d);
        u.rest(a, m);
    }
}
fn either<T: Mo, E: Mo>(d: u64, t: Result<&T, &E>, m: &mut M, tag: u8) {
    m.enm(tag, d);
    m.occ(|m| match t {
        Ok(t) => t.body(m),
        Err(e) => e.body(m),
    });
}
impl<T: Mo + Copy> Mo for En<T> {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            En::A { x: T::gen(r), y: Mo::gen(r) }
        } else {
            En::D(T::gen(r))
        }
    }
    fn elem(&self, m: &mut M, tag: u8) {
        match self {
            En::A { x, y } => {
                m.enm(tag, 300);
                x.field(m, 2);
                y.field(m, 9);
                m.end();
                m.occ(|m| x.fin(m));
            }
            En::D(t) => either::<T, T>(4, Ok(t), m, tag),
        }
    }
}
impl<T: Mo, E: Mo> Mo for Result<T, E> {
    fn gen(r: &mut Rng) -> Self {
        if r.chance(1, 2) {
            Ok(T::gen(r))
        } else {
            Err(E::gen(r))
        }
    }
    fn elem(&self, m: &mut M, tag: u8) {
        either(if self.is_ok() { 1 } else { 2 }, self.as_ref(), m, tag)
    }
}

/// A writer which takes only some of what it is given.
struct Slow(Vec<u8>, u64);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 = mix(self.1);
        let n = b.len().min(1 + (self.1 % 7) as usize);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// Finishing calls last, in no particular order.
fn sorted(v: Vec<Ev>) -> (Vec<Ev>, Vec<Ev>) {
    let (mut f, o): (Vec<_>, Vec<_>) = v.into_iter().partition(|e| e.hook == Hook::Finish);
    f.sort();
    (o, f)
}
fn diff(got: &[Ev], want: &[Ev]) -> String {
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    format!("call {} is {:?}, expected {:?}", n, got.get(n), want.get(n))
}
type Dec<T> = dyn Fn(&[u8], &Config) -> (de::Result<T>, Option<de::Result<T>>);

fn drive<T: Mo + Serialize>(cx: &mut Ctx, decs: &[(&'static str, &Dec<T>)]) -> Case {
    let r = &mut cx.rng.fork();
    let name = std::any::type_name::<T>().replace("flcheck::t12::", "");
    let name = &name[..];
    let v = T::gen(r);
    let w = T::gen(r);
    let mut c = Config::default();
    c.max_blob = 100_000 + r.below(1000) as usize;
    c.max_collect = 100_000;
    let mut m = M { out: vec![], base: 0, chain: vec![0], evs: vec![], cfg: c.max_blob };
    v.body(&mut m);
    let first = m.out.len();
    let n1 = m.evs.len();
    w.body(&mut m);
    let (bytes, evs) = (m.out, m.evs);
    let one = &bytes[..first];
    cx.sample(|| format!("{} {:?} = {}: {} calls expected", name, v, hex(one), n1));
    cx.eval(mix(hash_bytes(&bytes) ^ hash_bytes(name.as_bytes())), evs.len() > 1);

    // writing
    start(None);
    let got = fourleaf::to_vec(&v);
    let (_, calls) = stop();
    match got {
        Ok(ref b) => ensure!(&b[..] == one, "ser_hooks", "{} {:?} written as {}, expected {}", name, v, hex(b), hex(one)),
        Err(e) => return fail("ser_hooks", format!("{} {:?}: {}", name, v, e)),
    }
    {
        let mut s = Stream::new(Slow(vec![], r.u64()));
        start(None);
        let got = ser::to_stream(&mut s, &v).and_then(|_| ser::to_stream(&mut s, &w));
        stop();
        let b = s.into_inner().0;
        ensure!(got.is_ok() && b == bytes, "ser_hooks", "{} {:?} {:?} written to one stream: {:?}, {}, expected {}", name, v, w, got, hex(&b), hex(&bytes));
    }
    cx.count("ser_hooks_called", calls);
    if calls > 0 {
        let k = r.below(calls);
        let mut out = Slow(vec![], r.u64());
        start(Some(k));
        let got = fourleaf::to_writer(&mut out, &v);
        stop();
        match got {
            Err(stream::Error::Io(ref e)) if e.to_string() == format!("injected {}", k) => (),
            _ => return fail("ser_error", format!("{} {:?}: write call {} of a user type fails, outcome {:?}", name, v, k, got)),
        }
        ensure!(one.starts_with(&out.0), "ser_error", "{} {:?}: write call {} of a user type fails, written {} of {}", name, v, k, hex(&out.0), hex(one));
        cx.count("ser_failures_injected", 1);
    }

    // reading
    let all = sorted(evs.clone());
    let single = sorted(evs[..n1].to_vec());
    for (how, d) in decs {
        start(None);
        let (a, b) = d(&bytes, &c);
        let (seen, calls) = stop();
        match a {
            Ok(ref x) => ensure!(*x == v, "de_hooks", "{} {}: {:?} decoded as {:?}", name, how, v, x),
            Err(ref e) => return fail("de_hooks", format!("{} {}: {:?} ({}): {}", name, how, v, hex(&bytes), e)),
        }
        let want = match b {
            Some(Ok(ref x)) => {
                ensure!(*x == w, "de_hooks", "{} {}: {:?} decoded as {:?}", name, how, w, x);
                &all
            }
            Some(Err(e)) => return fail("de_hooks", format!("{} {}: second {:?} ({}): {}", name, how, w, hex(&bytes), e)),
            None => &single,
        };
        let got = sorted(seen);
        ensure!(got.0 == want.0, "de_calls", "{} {}: {:?} ({}): {}", name, how, v, hex(&bytes), diff(&got.0, &want.0));
        ensure!(got.1 == want.1, "de_finish", "{} {}: {:?} ({}): {}", name, how, v, hex(&bytes), diff(&got.1, &want.1));
        cx.count("de_hooks_called", calls);
        if calls > 0 {
            let k = r.below(calls);
            start(Some(k));
            let (a, b) = d(&bytes, &c);
            stop();
            let e = match (a, b) {
                (Err(e), _) => Some(e),
                (_, Some(Err(e))) => Some(e),
                _ => None,
            };
            match e {
                Some(de::Error::InvalidValueMsg(ref wo, "injected")) if *wo == format!("probe {}", k) => (),
                _ => return fail("de_error", format!("{} {}: {:?} ({}): read call {} of a user type fails, outcome {:?}", name, how, v, hex(&bytes), k, e)),
            }
            cx.count("de_failures_injected", 1);
        }
    }
    cx.count("messages", 2);
    Ok(())
}

fn two<R: Read, T>(s: &mut Stream<R>, f: impl Fn(&mut Stream<R>) -> de::Result<T>) -> (de::Result<T>, Option<de::Result<T>>) {
    match f(s) {
        Ok(a) => {
            let b = f(s);
            (Ok(a), Some(b))
        }
        Err(e) => (Err(e), None),
    }
}
/// A reader that delivers one or two bytes at a time.
struct Drip<'a>(&'a [u8]);
impl<'a> Read for Drip<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(1 + self.0.len() % 2).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn both<T>(cx: &mut Ctx) -> Case
where
    T: Mo + Serialize,
    T: for<'a> Deserialize<TransparentCursor<&'a [u8]>, style::Copying>,
    T: for<'a> Deserialize<TransparentCursor<&'a [u8]>, style::ZeroCopy>,
    T: for<'a> Deserialize<Drip<'a>, style::Copying>,
{
    drive::<T>(
        cx,
        &[
            ("from_slice_copy", &|b, c| (de::from_slice_copy(b, c), None)),
            ("from_slice_borrow", &|b, c| (de::from_slice_borrow(b, c), None)),
            ("from_reader", &|b, c| (de::from_reader(Drip(b), c), None)),
            ("from_stream_copy", &|b, c| two(&mut Stream::new(Drip(b)), |s| de::from_stream_copy(s, c))),
            ("from_stream_borrow", &|b, c| two(&mut Stream::from_slice(b), |s| de::from_stream_borrow(s, c))),
        ],
    )
}
fn copying<T>(cx: &mut Ctx) -> Case
where
    T: Mo + Serialize,
    T: for<'a> Deserialize<TransparentCursor<&'a [u8]>, style::Copying>,
    T: for<'a> Deserialize<Drip<'a>, style::Copying>,
{
    drive::<T>(
        cx,
        &[
            ("from_slice_copy", &|b, c| (de::from_slice_copy(b, c), None)),
            ("from_reader", &|b, c| (de::from_reader(Drip(b), c), None)),
            ("from_stream_copy", &|b, c| two(&mut Stream::new(Drip(b)), |s| de::from_stream_copy(s, c))),
        ],
    )
}
macro_rules! shapes {
    ($($n:ident: $t:ident),*) => {$(
        fn $n() -> Vec<fn(&mut Ctx) -> Case> {
            vec![
                both::<$t>, both::<($t,)>, both::<($t, Vec<$t>, Q)>, both::<(P, $t, ($t, $t))>,
                both::<Vec<$t>>, both::<Vec<Vec<$t>>>, both::<Vec<Box<$t>>>, both::<Box<Vec<$t>>>, both::<Vec<($t, P)>>,
                both::<Box<$t>>, both::<Rc<$t>>, both::<Arc<Vec<$t>>>, both::<(Box<$t>, Rc<$t>, Arc<$t>)>,
                both::<Option<$t>>, both::<Option<Vec<$t>>>, both::<Option<Option<$t>>>, both::<(Option<$t>, Option<[$t; 3]>)>,
                both::<VecDeque<$t>>, both::<(VecDeque<$t>, LinkedList<$t>)>, both::<LinkedList<Vec<$t>>>, both::<Vec<VecDeque<$t>>>,
                both::<BTreeSet<$t>>, both::<(HashSet<$t>, BTreeSet<$t>)>, both::<BTreeMap<$t, $t>>, both::<BTreeMap<$t, Vec<$t>>>,
                both::<HashMap<$t, Box<$t>>>, both::<(BTreeMap<Vec<$t>, Option<$t>>, HashMap<Q, $t>)>, both::<Vec<BTreeMap<P, $t>>>,
                both::<Copied<$t>>, both::<Vec<Copied<$t>>>, both::<(Vec<Copied<Vec<$t>>>, Vec<Arc<$t>>)>, both::<Dl<Copied<$t>>>, both::<[Copied<$t>; 5]>, both::<VecDeque<Rc<Vec<$t>>>>, both::<BTreeMap<Rc<$t>, Copied<$t>>>, both::<(Copied<$t>, Copied<Vec<$t>>)>, copying::<Cow<'static, [$t]>>, copying::<(Cow<'static, [$t]>, Vec<Cow<'static, [$t]>>)>,
                both::<Sf<$t>>, both::<Vec<Sf<$t>>>, both::<(Sf<$t>, $t)>, both::<Sf<Vec<$t>>>, both::<Sf<Box<$t>>>,
                both::<Dl<$t>>, both::<Dl<Vec<$t>>>, both::<(Dl<$t>, Dl<Vec<$t>>, Dl<Dl<$t>>)>, both::<Vec<Dl<$t>>>, both::<Dl<Dl<$t>>>, both::<Dl<Sf<$t>>>,
                both::<Uk<$t>>, both::<(Uk<$t>, Vec<Uk<Vec<$t>>>)>, both::<Uk<Box<$t>>>, both::<Dl<Uk<$t>>>, both::<Ue<$t>>, both::<Vec<Ue<$t>>>, both::<(Ue<[$t; 3]>, Ue<$t>)>, both::<En<$t>>, both::<(En<$t>, En<[$t; 4]>)>, both::<Vec<En<$t>>>, both::<Dl<En<$t>>>,
                both::<Result<$t, Q>>, both::<(Result<Vec<$t>, $t>, Option<Result<P, $t>>)>, both::<Vec<Result<$t, Vec<$t>>>>, both::<Result<Dl<$t>, Sf<$t>>>,
                both::<($t, Q, $t, P, N, $t, Box<$t>)>,
                both::<($t, $t, $t, $t, $t, $t, $t, $t, $t, $t, $t, $t)>,
                both::<Vec<[$t; 2]>>, both::<([$t; 1], Vec<[$t; 64]>)>, both::<[[$t; 3]; 2]>, both::<[Vec<$t>; 0]>,
                both::<[$t; 1]>, both::<([$t; 2], [$t; 3], [$t; 4])>, both::<([$t; 5], [$t; 6], [$t; 7])>, both::<([$t; 8], [$t; 9], [$t; 10])>,
                both::<([$t; 11], [$t; 12], [$t; 13])>, both::<([$t; 14], [$t; 15], [$t; 16])>, both::<([$t; 17], [$t; 18], [$t; 19])>,
                both::<([$t; 20], [$t; 21], [$t; 22])>, both::<([$t; 23], [$t; 24], [$t; 25])>, both::<([$t; 26], [$t; 27], [$t; 28])>,
                both::<([$t; 29], [$t; 30], [$t; 31])>, both::<([$t; 32], [$t; 64], [$t; 128])>, both::<[$t; 64]>, both::<[$t; 128]>,
            ]
        }
    )*};
}
impl<T: Mo> Mo for [Vec<T>; 0] {
    fn gen(_: &mut Rng) -> Self {
        []
    }
    fn field(&self, _: &mut M, _: u8) {}
    fn elem(&self, m: &mut M, tag: u8) {
        wrap(self, m, tag)
    }
}
shapes!(shapes_p: P, shapes_q: Q, shapes_n: N);

pub fn hooks(cx: &mut Ctx) -> Case {
    thread_local!(static ALL: Vec<fn(&mut Ctx) -> Case> = [shapes_p(), shapes_q(), shapes_n()].concat());
    let i = cx.idx;
    let f = ALL.with(|a| a[(i % a.len() as u64) as usize]);
    f(cx)
}
