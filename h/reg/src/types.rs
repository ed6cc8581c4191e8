use crate::user::*;
use crate::{entry, with_rewrite, Entry};
use fourleaf::adapt::Copied;
use fourleaf::unknown::{UnknownField, UnknownFields};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::collections::*;
use std::hash::BuildHasherDefault;
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

type BH = BuildHasherDefault<DefaultHasher>;

/// `t!(v, mode, T)` registers `T` and `(T, Option<T>)`, i.e. `T` as a whole
/// message, as a field and as an element.
macro_rules! t {
    ($v:ident, $m:ident, $($t:ty),* $(,)*) => { $(
        entry!($v, $m, stringify!($t), <'x> $t);
        entry!($v, $m, concat!("(", stringify!($t), ", Option<..>)"), <'x> ($t, Option<$t>));
    )* }
}
/// only as given
macro_rules! o {
    ($v:ident, $m:ident, $($t:ty),* $(,)*) => { $( entry!($v, $m, stringify!($t), <'x> $t); )* }
}

pub fn all() -> Vec<Entry> {
    let mut v = Vec::new();
    scalars(&mut v);
    collections(&mut v);
    arrays(&mut v);
    tuples(&mut v);
    users(&mut v);
    borrowed(&mut v);
    v
}
fn scalars(v: &mut Vec<Entry>) {
    t!(v, both, u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, bool, char, (), PhantomData<String>, String,
        Duration, Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr);
    t!(v, both, Option<u8>, Option<Option<i16>>, Option<String>, Option<()>, Option<bool>,
        Result<u32, String>, Result<(), Vec<u8>>, Result<Vec<u16>, Option<i8>>, Result<Result<u8, char>, PhantomData<u8>>,
        Box<u32>, Box<String>, Rc<i64>, Rc<Vec<u8>>, Arc<Vec<u16>>, Arc<Option<u8>>, Copied<u16>, Copied<String>, Copied<Vec<u8>>,
        Box<Rc<Arc<char>>>);
    t!(v, copy, Cow<'static, [u16]>, Cow<'static, u32>);
}
fn collections(v: &mut Vec<Entry>) {
    t!(v, both, Vec<u8>, Vec<i8>, Vec<u16>, Vec<u64>, Vec<bool>, Vec<char>, Vec<String>, Vec<()>, Vec<Vec<u8>>, Vec<Vec<u16>>,
        Vec<Vec<Vec<u8>>>, Vec<Option<u8>>, Vec<Option<String>>, Vec<(u8, String)>, Vec<[u8; 3]>, Vec<[i16; 2]>,
        Vec<PhantomData<u8>>, Vec<Duration>, Vec<IpAddr>, Vec<Result<u8, bool>>, Vec<BTreeMap<u8, u8>>);
    t!(v, both, VecDeque<u8>, VecDeque<String>, VecDeque<Vec<u8>>, VecDeque<Option<i8>>,
        LinkedList<u8>, LinkedList<String>, LinkedList<Vec<u16>>,
        BTreeSet<u8>, BTreeSet<i32>, BTreeSet<String>, BTreeSet<Vec<u8>>,
        HashSet<u8>, HashSet<String>, HashSet<u16, BH>, HashSet<(u8, i8), BH>,
        BinaryHeap<u8>, BinaryHeap<i64>, BinaryHeap<String>, BinaryHeap<Vec<u8>>);
    t!(v, both, BTreeMap<u8, u8>, BTreeMap<String, Vec<u8>>, BTreeMap<i16, Vec<String>>, BTreeMap<(u8, bool), Option<u32>>,
        BTreeMap<Vec<u8>, BTreeMap<u8, String>>, BTreeMap<Option<u8>, ()>, BTreeMap<Vec<u16>, [u8; 2]>,
        HashMap<u32, String>, HashMap<String, HashSet<u8>>, HashMap<u8, Vec<u16>, BH>, HashMap<char, Duration, BH>,
        Option<Vec<u8>>, Option<Vec<u16>>, Option<BTreeMap<u8, u8>>, Option<Box<Vec<u8>>>);
}
/// with rewriting
macro_rules! w {
    ($v:ident, $($t:ty),* $(,)*) => { $(
        entry!($v, both, concat!("rw ", stringify!($t)), <'x> $t);
        with_rewrite!($v, <'x> $t);
    )* }
}
macro_rules! arr {
    ($v:ident, $($n:tt)*) => { $(
        o!($v, both, [u8; $n], [u16; $n], ([u8; $n], Option<[u8; $n]>, [i16; $n], Option<[i16; $n]>));
    )* }
}
fn arrays(v: &mut Vec<Entry>) {
    arr!(v, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    arr!(v, 64 128 256);
    o!(v, both, [u8; 512], [u8; 1024], [u8; 4096], [u8; 65536], [u16; 512], [bool; 1024], (u8, [u8; 2048], [i8; 64]));
    t!(v, both, [String; 2], [Vec<u8>; 3], [Option<u8>; 2], [[u8; 2]; 3], [[u16; 2]; 2], [(u8, bool); 2], [Vec<u16>; 2],
        [(); 2], [(); 32], [(); 64], [(); 1024], [PhantomData<u8>; 128], [PhantomData<String>; 3], [bool; 128], [(u8, u8); 64], [Option<u8>; 64],
        [Option<[u16; 2]>; 64], [[u8; 3]; 64], (u8, [(); 64], Option<[(); 128]>), Vec<[bool; 64]>, [i16; 256], [i8; 512], [u16; 2048], [bool; 4], [char; 64], [[u8; 64]; 2], [u64; 64], [Box<u8>; 2]);
}
fn tuples(v: &mut Vec<Entry>) {
    o!(v, both, (u8,), (u8, i8), (u8, i8, u16), (u8, String, bool, Vec<u8>), (u8, u8, u8, u8, Option<u8>), (u8, u8, u8, u8, u8, Vec<u16>),
        (u8, u8, u8, u8, u8, u8, i64), (u8, u8, u8, u8, u8, u8, u8, [u8; 2]), (u8, u8, u8, u8, u8, u8, u8, u8, String),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, i16), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, char), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Vec<i8>),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, ()), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u32),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, Option<i32>));
    o!(v, both, ((u8, (i8, (u16, String))), Option<(u8, bool)>), Vec<((u8, u8), Vec<(u8, Vec<u8>)>)>);
}
fn users(v: &mut Vec<Entry>) {
    t!(v, both, S1, S0, SFix, S2, S20, E0, EFix, S3, SAll, Tree, Cons, DBytes, DList, DStruct, DInt, DOpt, DDeleg, DEnum, DUnit, DMap,
        EDel, U1, U0, U2, UE, G<u8>, G<String>, G<Option<u16>>, G<G<u8>>, Span);
    o!(v, both, Vec<S1>, Vec<E0>, Vec<DList>, Vec<DBytes>, Vec<EDel>, Vec<U1>, Vec<UE>, Vec<Tree>, BTreeMap<u8, S1>, BTreeMap<u16, E0>,
        BTreeMap<u8, U1>, BTreeMap<u8, DList>, [S0; 2], [E0; 2], [DInt; 3], Result<S1, E0>, Result<DList, DOpt>, Box<U2>,
        (DList, DBytes, DStruct, DInt, DOpt), (EDel, UE, Option<EDel>), G<Vec<S1>>, G<DList>, Copied<S1>, Vec<Copied<Vec<u8>>>);
}
fn borrowed(v: &mut Vec<Entry>) {
    t!(v, zc, &'x str, &'x [u8], Vec<&'x str>, Vec<&'x [u8]>, Option<&'x [u8]>, BTreeSet<&'x str>, BTreeMap<&'x str, &'x [u8]>,
        HashMap<&'x [u8], u8, BH>, BS<'x>, Result<&'x str, &'x [u8]>, Box<&'x str>, (&'x str, &'x [u8], u8));
    t!(v, both, Cow<'x, str>, Cow<'x, [u8]>, Vec<Cow<'x, str>>, Option<Cow<'x, [u8]>>, BTreeMap<Cow<'x, str>, Cow<'x, [u8]>>,
        (Cow<'x, str>, Copied<Cow<'x, [u8]>>, String), UZ<'x>, UnknownField<'x>, G<Cow<'x, str>>,
        VecDeque<Cow<'x, [u8]>>, Vec<UnknownField<'x>>, [Cow<'x, str>; 2]);
    o!(v, both, UnknownFields<'x>, Copied<UnknownFields<'x>>, Option<UnknownFields<'x>>, Vec<UnknownFields<'x>>,
        ([UnknownFields<'x>; 1], u8), Box<UnknownFields<'x>>, Option<Copied<UnknownFields<'x>>>, BTreeMap<u8, [UnknownFields<'x>; 1]>);
    t!(v, both, Vec<Copied<Cow<'x, str>>>, Copied<BTreeMap<Cow<'x, str>, Cow<'x, [u8]>>>);
    o!(v, both, Vec<UZ<'x>>);
    w!(v, U0, U1, U2, UE, UZ<'x>, UnknownFields<'x>, UnknownField<'x>, Vec<U1>, Vec<UE>, Vec<UZ<'x>>, Vec<UnknownFields<'x>>, BTreeMap<u8, U1>,
        Option<UE>, (u8, U2, Option<UE>), Box<U1>, Copied<UnknownFields<'x>>, [UE; 2], G<UZ<'x>>);
    o!(v, zc, (BS<'x>, Vec<BS<'x>>, u8), BTreeMap<u8, BS<'x>>);
}
