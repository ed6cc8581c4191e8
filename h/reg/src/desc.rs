//! Descriptions of Rust types in terms of the reference schema, value
//! generation and inspection.
use flcore::rng::{small, Rng};
use flcore::schema::*;
use std::borrow::Cow;
use std::collections::*;
use std::hash::{BuildHasher, Hash};
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};
use std::time::Duration;

/// A byte range a value refers to.
#[derive(Clone, Copy, Debug)]
pub struct Loan {
    pub ptr: usize,
    pub len: usize,
    /// claims to be borrowed from the input
    pub borrowed: bool,
    /// must be valid UTF-8
    pub text: bool,
}

/// Monitor of the validity of produced values.
pub mod valid {
    use std::cell::Cell;
    thread_local! {
        static SEEN: Cell<u64> = const { Cell::new(0) };
        static BAD: Cell<&'static str> = const { Cell::new("") };
    }
    fn note(ok: bool, what: &'static str) {
        let _ = SEEN.try_with(|s| s.set(s.get() + 1));
        if !ok {
            let _ = BAD.try_with(|b| b.set(what));
        }
    }
    /// (values seen, kind of an invalid one)
    pub fn take() -> (u64, &'static str) {
        (SEEN.with(|s| s.replace(0)), BAD.with(|b| b.replace("")))
    }
    pub fn text(b: &[u8]) {
        note(std::str::from_utf8(std::hint::black_box(b)).is_ok(), "text which is not UTF-8");
    }
    // looks at the representation, which safe code cannot make invalid
    pub fn boolean(b: &bool) {
        let v = unsafe { std::ptr::read_volatile(b as *const bool as *const u8) };
        note(v <= 1, "bool which is neither true nor false");
    }
    pub fn character(c: &char) {
        let v = unsafe { std::ptr::read_volatile(c as *const char as *const u32) };
        note(v < 0xD800 || (0xE000..0x110000).contains(&v), "char which is not a scalar value");
    }
}

pub trait Desc {
    fn schema(zc: bool) -> S
    where
        Self: Sized;
    fn vec_schema(zc: bool) -> S
    where
        Self: Sized,
    {
        Arc::new(Schema::Seq(SeqKind::List, Self::schema(zc)))
    }
    fn arr_schema(n: usize, zc: bool) -> S
    where
        Self: Sized,
    {
        Arc::new(Schema::Arr(n, Self::schema(zc)))
    }
    fn to_dyn(&self) -> Dyn;
    fn slice_dyn(v: &[Self], arr: bool) -> Dyn
    where
        Self: Sized,
    {
        let v = v.iter().map(|x| x.to_dyn()).collect();
        if arr {
            Dyn::Arr(v)
        } else {
            Dyn::Seq(SeqKind::List, v)
        }
    }
    fn loans(&self, _out: &mut Vec<Loan>) {}
    fn slice_loans(v: &[Self], out: &mut Vec<Loan>)
    where
        Self: Sized,
    {
        for x in v {
            x.loans(out);
        }
    }
    /// True if values of this type may own heap memory (copying / borrowing).
    fn heap(zc: bool) -> bool
    where
        Self: Sized;
}

/// Generation with a size budget.
pub trait Gen: Sized {
    fn gen(r: &mut Rng, b: &mut i64) -> Self;
}

pub fn count(r: &mut Rng, b: &mut i64) -> usize {
    if *b > 10 && r.chance(1, 500) {
        // what is inside stays small
        let n = r.big().min(6000);
        *b = -100;
        return n;
    }
    let max = (*b).clamp(0, 14) as usize;
    let n = match r.below(8) {
        0 | 1 => 0,
        2 | 3 => 1,
        4 => 2,
        5 => 3,
        _ => r.usz(max + 1),
    }
    .min(max);
    *b -= n as i64;
    n
}
pub fn blob(r: &mut Rng, b: &mut i64) -> Vec<u8> {
    let max = if *b > 0 { 400 } else { 3 };
    let n = if *b > 10 { r.size_or_big(max) } else { r.size(max) };
    *b -= 1 + n as i64 / 16;
    flcore::model::blob_bytes(r, n)
}
pub fn text(r: &mut Rng, b: &mut i64) -> String {
    let max = if *b > 0 { 200 } else { 3 };
    let n = if *b > 10 { r.size_or_big(max) } else { r.size(max) };
    *b -= 1 + n as i64 / 16;
    let mode = r.below(4);
    (0..n).map(|_| ch(r, mode)).collect()
}
fn ch(r: &mut Rng, mode: u64) -> char {
    match mode {
        0 => (b'a' + r.below(26) as u8) as char,
        1 => char::from_u32(r.below(0x80) as u32).unwrap(),
        _ => {
            let c = match r.below(6) {
                0 => r.below(0x80),
                1 => 0x80 + r.below(0x780),
                2 => 0x800 + r.below(0xF800),
                3 => 0x10000 + r.below(0x100000),
                4 => *r.pick(&[0u64, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]),
                _ => 0xE9,
            };
            char::from_u32(c as u32).unwrap_or('\u{FFFD}')
        }
    }
}

macro_rules! uint {
    ($($t:ident),*) => { $(
        impl Desc for $t {
            fn schema(_: bool) -> S { Arc::new(Schema::UInt($t::BITS)) }
            fn to_dyn(&self) -> Dyn { Dyn::U(*self as u64) }
            fn heap(_: bool) -> bool { false }
        }
        impl Gen for $t { fn gen(r: &mut Rng, _: &mut i64) -> Self { gen_u(r, $t::BITS) as $t } }
    )* }
}
fn gen_u(r: &mut Rng, bits: u32) -> u64 {
    let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    match r.below(4) {
        0 => m - r.below(3),
        _ => r.int() & m,
    }
}
uint!(u16, u32, u64, usize);
impl Desc for u8 {
    fn schema(_: bool) -> S {
        Arc::new(Schema::UInt(8))
    }
    fn vec_schema(_: bool) -> S {
        Arc::new(Schema::Bytes { counted: true })
    }
    fn arr_schema(n: usize, _: bool) -> S {
        Arc::new(Schema::ByteArr(n))
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::U(*self as u64)
    }
    fn slice_dyn(v: &[Self], _: bool) -> Dyn {
        Dyn::Bytes(v.to_vec())
    }
    fn slice_loans(v: &[Self], out: &mut Vec<Loan>) {
        out.push(Loan { ptr: v.as_ptr() as usize, len: v.len(), borrowed: false, text: false });
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for u8 {
    fn gen(r: &mut Rng, _: &mut i64) -> Self {
        gen_u(r, 8) as u8
    }
}
macro_rules! sint {
    ($($t:ident),*) => { $(
        impl Desc for $t {
            fn schema(_: bool) -> S { Arc::new(Schema::SInt($t::BITS)) }
            fn to_dyn(&self) -> Dyn { Dyn::I(*self as i64) }
            fn heap(_: bool) -> bool { false }
        }
        impl Gen for $t { fn gen(r: &mut Rng, _: &mut i64) -> Self {
            match r.below(6) {
                0 => $t::MIN + r.below(3) as $t,
                1 => $t::MAX - r.below(3) as $t,
                2 => (r.below(7) as i64 - 3) as $t,
                3 => (r.int() as i64).wrapping_neg() as $t,
                _ => r.int() as $t,
            }
        } }
    )* }
}
sint!(i8, i16, i32, i64, isize);
impl Desc for bool {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Bool)
    }
    fn to_dyn(&self) -> Dyn {
        valid::boolean(self);
        Dyn::B(*self)
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for bool {
    fn gen(r: &mut Rng, _: &mut i64) -> Self {
        r.chance(1, 2)
    }
}
impl Desc for char {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Char)
    }
    fn to_dyn(&self) -> Dyn {
        valid::character(self);
        Dyn::C(*self)
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for char {
    fn gen(r: &mut Rng, _: &mut i64) -> Self {
        let m = r.below(4);
        ch(r, m)
    }
}
impl<T: ?Sized> Desc for PhantomData<T> {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Null)
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Null
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl<T: ?Sized> Gen for PhantomData<T> {
    fn gen(_: &mut Rng, _: &mut i64) -> Self {
        PhantomData
    }
}
impl Desc for () {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Unit)
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Unit
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for () {
    fn gen(_: &mut Rng, _: &mut i64) -> Self {}
}
impl Desc for String {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Str { counted: true })
    }
    fn to_dyn(&self) -> Dyn {
        valid::text(self.as_bytes());
        Dyn::Str(self.as_bytes().to_vec())
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        out.push(Loan { ptr: self.as_ptr() as usize, len: self.len(), borrowed: false, text: true });
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl Gen for String {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        text(r, b)
    }
}
impl<'a> Desc for &'a str {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Str { counted: false })
    }
    fn to_dyn(&self) -> Dyn {
        valid::text(self.as_bytes());
        Dyn::Str(self.as_bytes().to_vec())
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        out.push(Loan { ptr: self.as_ptr() as usize, len: self.len(), borrowed: true, text: true });
    }
    fn heap(_: bool) -> bool {
        false
    }
}
fn pool() -> &'static Vec<(Vec<u8>, String)> {
    static P: OnceLock<Vec<(Vec<u8>, String)>> = OnceLock::new();
    static SMALL: OnceLock<Vec<(Vec<u8>, String)>> = OnceLock::new();
    let make = |n: usize| {
        let mut r = Rng::new(77);
        (0..n)
            .map(|_| {
                let mut b = 100;
                let mut c = 100;
                (blob(&mut r, &mut b), text(&mut r, &mut c))
            })
            .collect()
    };
    if small() {
        SMALL.get_or_init(|| make(40))
    } else {
        P.get_or_init(|| make(4000))
    }
}
impl Gen for &'static str {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        *b -= 1;
        &r.pick(pool()).1
    }
}
impl<'a> Desc for &'a [u8] {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Bytes { counted: false })
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Bytes(self.to_vec())
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        out.push(Loan { ptr: self.as_ptr() as usize, len: self.len(), borrowed: true, text: false });
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for &'static [u8] {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        *b -= 1;
        &r.pick(pool()).0
    }
}
impl<'a> Desc for Cow<'a, str> {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Str { counted: !zc })
    }
    fn to_dyn(&self) -> Dyn {
        valid::text(self.as_bytes());
        Dyn::Str(self.as_bytes().to_vec())
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        let borrowed = matches!(self, Cow::Borrowed(_));
        out.push(Loan { ptr: self.as_ptr() as usize, len: self.len(), borrowed, text: true });
    }
    fn heap(zc: bool) -> bool {
        !zc
    }
}
impl Gen for Cow<'static, str> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if r.chance(1, 2) {
            Cow::Borrowed(Gen::gen(r, b))
        } else {
            Cow::Owned(Gen::gen(r, b))
        }
    }
}
impl<'a> Desc for Cow<'a, [u8]> {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Bytes { counted: !zc })
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Bytes(self.to_vec())
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        let borrowed = matches!(self, Cow::Borrowed(_));
        out.push(Loan { ptr: self.as_ptr() as usize, len: self.len(), borrowed, text: false });
    }
    fn heap(zc: bool) -> bool {
        !zc
    }
}
impl Gen for Cow<'static, [u8]> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if r.chance(1, 2) {
            Cow::Borrowed(Gen::gen(r, b))
        } else {
            Cow::Owned(Gen::gen(r, b))
        }
    }
}
/// `Cow` of something which has no borrowed form: copying only.
impl Desc for Cow<'static, [u16]> {
    fn schema(zc: bool) -> S {
        u16::vec_schema(zc)
    }
    fn to_dyn(&self) -> Dyn {
        u16::slice_dyn(self, false)
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl Gen for Cow<'static, [u16]> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        Cow::Owned(Gen::gen(r, b))
    }
}
impl Desc for Cow<'static, u32> {
    fn schema(zc: bool) -> S {
        u32::schema(zc)
    }
    fn to_dyn(&self) -> Dyn {
        (**self).to_dyn()
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for Cow<'static, u32> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        Cow::Owned(Gen::gen(r, b))
    }
}

macro_rules! boxed {
    ($($p:ident),*) => { $(
        impl<T: Desc> Desc for $p<T> {
            fn schema(zc: bool) -> S { T::schema(zc) }
            fn to_dyn(&self) -> Dyn { (**self).to_dyn() }
            fn loans(&self, out: &mut Vec<Loan>) { (**self).loans(out) }
            fn heap(_: bool) -> bool { true }
        }
        impl<T: Gen> Gen for $p<T> { fn gen(r: &mut Rng, b: &mut i64) -> Self { $p::new(T::gen(r, b)) } }
    )* }
}
boxed!(Box, Rc, Arc);
impl<T: Desc> Desc for fourleaf::adapt::Copied<T> {
    fn schema(_: bool) -> S {
        T::schema(false)
    }
    fn to_dyn(&self) -> Dyn {
        self.0.to_dyn()
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        self.0.loans(out)
    }
    fn heap(_: bool) -> bool {
        T::heap(false)
    }
}
impl<T: Gen> Gen for fourleaf::adapt::Copied<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        fourleaf::adapt::Copied(T::gen(r, b))
    }
}
impl<T: Desc> Desc for Vec<T> {
    fn schema(zc: bool) -> S {
        T::vec_schema(zc)
    }
    fn to_dyn(&self) -> Dyn {
        T::slice_dyn(self, false)
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        T::slice_loans(self, out)
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl<T: Gen + 'static> Gen for Vec<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let mut n = count(r, b);
        if std::any::TypeId::of::<T>() == std::any::TypeId::of::<u8>() && r.chance(1, 2) {
            n = r.size(300);
        }
        (0..n).map(|_| T::gen(r, b)).collect()
    }
}
impl<T: Desc, const N: usize> Desc for [T; N] {
    fn schema(zc: bool) -> S {
        T::arr_schema(N, zc)
    }
    fn to_dyn(&self) -> Dyn {
        T::slice_dyn(self, true)
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        for x in self {
            x.loans(out);
        }
    }
    fn heap(zc: bool) -> bool {
        T::heap(zc)
    }
}
impl<T: Gen, const N: usize> Gen for [T; N] {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        *b -= N as i64;
        std::array::from_fn(|_| T::gen(r, b))
    }
}
macro_rules! seqs {
    ($($k:ident, $p:ty, <$($g:ident)*>;)*) => { $(
        impl<T: Desc, $($g)*> Desc for $p {
            fn schema(zc: bool) -> S { Arc::new(Schema::Seq(SeqKind::$k, T::schema(zc))) }
            fn to_dyn(&self) -> Dyn { Dyn::Seq(SeqKind::$k, self.iter().map(|x| x.to_dyn()).collect()) }
            fn loans(&self, out: &mut Vec<Loan>) { for x in self.iter() { x.loans(out) } }
            fn heap(_: bool) -> bool { true }
        }
    )* }
}
seqs! {
    List, VecDeque<T>, <>;
    List, LinkedList<T>, <>;
    Set, BTreeSet<T>, <>;
    Heap, BinaryHeap<T>, <>;
    Set, HashSet<T, H>, <H>;
}
impl<T: Gen> Gen for VecDeque<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let n = count(r, b);
        let mut v = VecDeque::new();
        for _ in 0..n {
            let x = T::gen(r, b);
            if r.chance(1, 3) {
                v.push_front(x);
            } else {
                v.push_back(x);
            }
        }
        v
    }
}
impl<T: Gen> Gen for LinkedList<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let n = count(r, b);
        (0..n).map(|_| T::gen(r, b)).collect()
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let n = count(r, b);
        (0..n).map(|_| T::gen(r, b)).collect()
    }
}
impl<T: Gen + Ord> Gen for BinaryHeap<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let n = count(r, b);
        (0..n).map(|_| T::gen(r, b)).collect()
    }
}
impl<T: Gen + Eq + Hash, H: BuildHasher + Default> Gen for HashSet<T, H> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let n = count(r, b);
        (0..n).map(|_| T::gen(r, b)).collect()
    }
}
impl<T: Desc> Desc for Option<T> {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Opt(T::schema(zc)))
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Opt(self.as_ref().map(|x| Box::new(x.to_dyn())))
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        if let Some(x) = self {
            x.loans(out)
        }
    }
    fn heap(zc: bool) -> bool {
        T::heap(zc)
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if r.chance(1, 3) || *b < -60 {
            None
        } else {
            Some(T::gen(r, b))
        }
    }
}
macro_rules! maps {
    ($($p:ty, <$($g:ident)*>;)*) => { $(
        impl<K: Desc, V: Desc, $($g)*> Desc for $p {
            fn schema(zc: bool) -> S { Arc::new(Schema::Map(K::schema(zc), V::schema(zc))) }
            fn to_dyn(&self) -> Dyn { Dyn::Map(self.iter().map(|(k, v)| (k.to_dyn(), v.to_dyn())).collect()) }
            fn loans(&self, out: &mut Vec<Loan>) { for (k, v) in self.iter() { k.loans(out); v.loans(out) } }
            fn heap(_: bool) -> bool { true }
        }
    )* }
}
maps! { BTreeMap<K, V>, <>; HashMap<K, V, H>, <H>; }
impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let n = count(r, b);
        (0..n).map(|_| (K::gen(r, b), V::gen(r, b))).collect()
    }
}
impl<K: Gen + Eq + Hash, V: Gen, H: BuildHasher + Default> Gen for HashMap<K, V, H> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let n = count(r, b);
        (0..n).map(|_| (K::gen(r, b), V::gen(r, b))).collect()
    }
}
macro_rules! tuples {
    ($(($($n:ident $i:tt),*))*) => { $(
        impl<$($n: Desc),*> Desc for ($($n,)*) {
            fn schema(zc: bool) -> S { tup_schema(vec![$($n::schema(zc)),*]) }
            fn to_dyn(&self) -> Dyn { Dyn::Tup(vec![$(self.$i.to_dyn()),*]) }
            fn loans(&self, out: &mut Vec<Loan>) { $(self.$i.loans(out);)* }
            fn heap(zc: bool) -> bool { false $(|| $n::heap(zc))* }
        }
        impl<$($n: Gen),*> Gen for ($($n,)*) {
            fn gen(r: &mut Rng, b: &mut i64) -> Self { ($($n::gen(r, b),)*) }
        }
    )* }
}
tuples! {
    (A 0)
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15)
}

pub fn st(fields: Vec<(u8, &'static str, S)>, unk: Option<(&'static str, bool)>, check: Option<CheckFn>) -> StructS {
    StructS { fields: fields.into_iter().map(|(tag, name, s)| FieldS { tag, name, s }).collect(), unk, check }
}
pub fn sst(fields: Vec<(u8, &'static str, S)>) -> S {
    Arc::new(Schema::Struct(st(fields, None, None)))
}

// ------------------------------------------------------------ std retrofits

impl Desc for Duration {
    fn schema(_: bool) -> S {
        fn ok(d: &Dyn) -> bool {
            matches!(d, Dyn::Tup(v) if matches!(v[1], Dyn::U(n) if n < 1_000_000_000))
        }
        Arc::new(Schema::Struct(st(
            vec![(1, "secs", u64::schema(false)), (2, "nsecs", u32::schema(false))],
            None,
            Some(ok),
        )))
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Tup(vec![Dyn::U(self.as_secs()), Dyn::U(self.subsec_nanos() as u64)])
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for Duration {
    fn gen(r: &mut Rng, _: &mut i64) -> Self {
        let n = match r.below(4) {
            0 => 999_999_999 - r.below(2) as u32,
            1 => r.below(2) as u32,
            _ => r.below(1_000_000_000) as u32,
        };
        Duration::new(r.int(), n)
    }
}
impl Desc for Ipv4Addr {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Deleg("octets", Arc::new(Schema::ByteArr(4))))
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Bytes(self.octets().to_vec())
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for Ipv4Addr {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        <[u8; 4]>::gen(r, b).into()
    }
}
impl Desc for Ipv6Addr {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Deleg("octets", Arc::new(Schema::ByteArr(16))))
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Bytes(self.octets().to_vec())
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for Ipv6Addr {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        <[u8; 16]>::gen(r, b).into()
    }
}
impl Desc for IpAddr {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Enum(EnumS {
            variants: vec![
                (4, BodyS::Deleg("ip", Ipv4Addr::schema(false))),
                (6, BodyS::Deleg("ip", Ipv6Addr::schema(false))),
            ],
            catchall: None,
        }))
    }
    fn to_dyn(&self) -> Dyn {
        match self {
            IpAddr::V4(i) => Dyn::Enum(4, Box::new(i.to_dyn())),
            IpAddr::V6(i) => Dyn::Enum(6, Box::new(i.to_dyn())),
        }
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for IpAddr {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if r.chance(1, 2) {
            IpAddr::V4(Gen::gen(r, b))
        } else {
            IpAddr::V6(Gen::gen(r, b))
        }
    }
}
impl Desc for SocketAddrV4 {
    fn schema(_: bool) -> S {
        sst(vec![(1, "ip", Ipv4Addr::schema(false)), (2, "port", u16::schema(false))])
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Tup(vec![self.ip().to_dyn(), Dyn::U(self.port() as u64)])
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for SocketAddrV4 {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        SocketAddrV4::new(Gen::gen(r, b), Gen::gen(r, b))
    }
}
impl Desc for SocketAddrV6 {
    fn schema(_: bool) -> S {
        sst(vec![
            (1, "ip", Ipv6Addr::schema(false)),
            (2, "port", u16::schema(false)),
            (3, "flowinfo", u32::schema(false)),
            (4, "scope_id", u32::schema(false)),
        ])
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Tup(vec![
            self.ip().to_dyn(),
            Dyn::U(self.port() as u64),
            Dyn::U(self.flowinfo() as u64),
            Dyn::U(self.scope_id() as u64),
        ])
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for SocketAddrV6 {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        SocketAddrV6::new(Gen::gen(r, b), Gen::gen(r, b), Gen::gen(r, b), Gen::gen(r, b))
    }
}
impl Desc for SocketAddr {
    fn schema(_: bool) -> S {
        Arc::new(Schema::Enum(EnumS {
            variants: vec![
                (4, BodyS::Deleg("v4", SocketAddrV4::schema(false))),
                (6, BodyS::Deleg("v6", SocketAddrV6::schema(false))),
            ],
            catchall: None,
        }))
    }
    fn to_dyn(&self) -> Dyn {
        match self {
            SocketAddr::V4(i) => Dyn::Enum(4, Box::new(i.to_dyn())),
            SocketAddr::V6(i) => Dyn::Enum(6, Box::new(i.to_dyn())),
        }
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for SocketAddr {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if r.chance(1, 2) {
            SocketAddr::V4(Gen::gen(r, b))
        } else {
            SocketAddr::V6(Gen::gen(r, b))
        }
    }
}
impl<T: Desc, E: Desc> Desc for Result<T, E> {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Enum(EnumS {
            variants: vec![(1, BodyS::Deleg("t", T::schema(zc))), (2, BodyS::Deleg("e", E::schema(zc)))],
            catchall: None,
        }))
    }
    fn to_dyn(&self) -> Dyn {
        match self {
            Ok(i) => Dyn::Enum(1, Box::new(i.to_dyn())),
            Err(i) => Dyn::Enum(2, Box::new(i.to_dyn())),
        }
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        match self {
            Ok(i) => i.loans(out),
            Err(i) => i.loans(out),
        }
    }
    fn heap(zc: bool) -> bool {
        T::heap(zc) || E::heap(zc)
    }
}
impl<T: Gen, E: Gen> Gen for Result<T, E> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if r.chance(1, 2) {
            Ok(T::gen(r, b))
        } else {
            Err(E::gen(r, b))
        }
    }
}

// ------------------------------------------------------------ unknown fields

use fourleaf::unknown::{UnknownField, UnknownFields};
pub fn unk_dyn(u: &UnknownFields) -> Vec<(u8, Dyn)> {
    u.0.iter().map(|(t, f)| (*t, f.to_dyn())).collect()
}
impl<'a> Desc for UnknownFields<'a> {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Unk { counted: !zc })
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Unk(unk_dyn(self))
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        for (_, f) in &self.0 {
            f.loans(out)
        }
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl<'a> Desc for UnknownField<'a> {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::UnkF { counted: !zc })
    }
    fn to_dyn(&self) -> Dyn {
        match self {
            UnknownField::Integer(n) => Dyn::UInt(*n),
            UnknownField::Blob(b) => Dyn::UBlob(b.to_vec()),
            UnknownField::Struct(u) => Dyn::UStruct(unk_dyn(u)),
            UnknownField::Enum(d, u) => Dyn::UEnum(*d, unk_dyn(u)),
        }
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        match self {
            UnknownField::Integer(_) => (),
            UnknownField::Blob(b) => b.loans(out),
            UnknownField::Struct(u) | UnknownField::Enum(_, u) => u.loans(out),
        }
    }
    fn heap(_: bool) -> bool {
        true
    }
}
pub fn gen_unk(r: &mut Rng, b: &mut i64, depth: u32, avoid: u64) -> UnknownFields<'static> {
    let n = count(r, b);
    UnknownFields(
        (0..n)
            .filter_map(|_| {
                let t = flcore::model::rand_tag(r);
                let f = gen_unkf(r, b, depth);
                if avoid >> t & 1 == 1 {
                    None
                } else {
                    Some((t, f))
                }
            })
            .collect(),
    )
}
pub fn gen_unkf(r: &mut Rng, b: &mut i64, depth: u32) -> UnknownField<'static> {
    match r.below(if depth == 0 { 2 } else { 4 }) {
        0 => UnknownField::Integer(r.int()),
        1 => UnknownField::Blob(Gen::gen(r, b)),
        2 => UnknownField::Struct(gen_unk(r, b, depth - 1, 0)),
        _ => UnknownField::Enum(r.int(), gen_unk(r, b, depth - 1, 0)),
    }
}
/// One struct inside the other, with a few fields on each level.
fn gen_unk_chain(r: &mut Rng, b: &mut i64, depth: u64) -> UnknownFields<'static> {
    let mut u = gen_unk(r, b, 1, 0);
    if depth > 0 {
        let sub = gen_unk_chain(r, b, depth - 1);
        let f = if r.chance(1, 2) { UnknownField::Struct(sub) } else { UnknownField::Enum(r.int(), sub) };
        let i = r.usz(u.0.len() + 1);
        u.0.insert(i, (flcore::model::rand_tag(r), f));
    }
    u
}
impl Gen for UnknownFields<'static> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if *b > 20 && r.chance(1, 6) {
            let d = 4 + r.below(30);
            return gen_unk_chain(r, b, d);
        }
        gen_unk(r, b, 3, 0)
    }
}
impl Gen for UnknownField<'static> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if *b > 20 && r.chance(1, 12) {
            let d = 4 + r.below(30);
            return UnknownField::Struct(gen_unk_chain(r, b, d));
        }
        gen_unkf(r, b, 3)
    }
}
