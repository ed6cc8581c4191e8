//! Pairs of schemas related by documented compatible changes, and
//! read-modify-write of messages an older schema only partly knows.
#![allow(clippy::all)]
#[macro_use]
extern crate fourleaf;
#[macro_use]
extern crate flreg;
pub mod rmw;

use flcore::io::TestReader;
use flcore::rng::Rng;
use flcore::schema::*;
use flreg::desc::{sst, st, Desc, Gen, Loan};
use flreg::user::*;
use fourleaf::de::style::{Copying, ZeroCopy};
use fourleaf::de::{self, Config, Error};
use fourleaf::io::TransparentCursor;
use fourleaf::{Deserialize, Serialize};
use std::collections::*;
use std::io::Read;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct H<T> {
    pub pre: u16,
    pub f: T,
    pub post: Option<String>,
}
fourleaf_retrofit!(struct H : {
    impl<T: Serialize> Serialize for H<T>
} {
    impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for H<T>
} {
    |_context, this|
    [1] pre: u16 = this.pre,
    [5] f: T = &this.f,
    [9] post: Option<String> = &this.post,
    { Ok(H { pre: pre, f: f, post: post }) }
});
impl<T: Desc> Desc for H<T> {
    fn schema(zc: bool) -> S {
        sst(vec![(1, "pre", u16::schema(zc)), (5, "f", T::schema(zc)), (9, "post", <Option<String>>::schema(zc))])
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Tup(vec![self.pre.to_dyn(), self.f.to_dyn(), self.post.to_dyn()])
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl<T: Gen> Gen for H<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        H { pre: Gen::gen(r, b), f: Gen::gen(r, b), post: Gen::gen(r, b) }
    }
}
ustruct!(H0 { 1 pre: u16, 9 post: Option<String> });

#[derive(Clone, Debug)]
pub enum HE<T> {
    A(u8, T),
    B,
}
fourleaf_retrofit!(enum HE : {
    impl<T: Serialize> Serialize for HE<T>
} {
    impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for HE<T>
} {
    |_context|
    [3] HE::A(x, ref f) => {
        [2] x: u8 = x,
        [4] f: T = f,
        { Ok(HE::A(x, f)) }
    },
    [8] HE::B => { { Ok(HE::B) } },
});
impl<T: Desc> Desc for HE<T> {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Enum(EnumS {
            variants: vec![
                (3, BodyS::Struct(st(vec![(2, "x", u8::schema(zc)), (4, "f", T::schema(zc))], None, None))),
                (8, BodyS::Struct(st(vec![], None, None))),
            ],
            catchall: None,
        }))
    }
    fn to_dyn(&self) -> Dyn {
        match self {
            HE::A(x, f) => Dyn::Enum(3, Box::new(Dyn::Tup(vec![x.to_dyn(), f.to_dyn()]))),
            HE::B => Dyn::Enum(8, Box::new(Dyn::Tup(vec![]))),
        }
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl<T: Gen> Gen for HE<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        if r.chance(4, 5) {
            HE::A(Gen::gen(r, b), Gen::gen(r, b))
        } else {
            HE::B
        }
    }
}
pub type Nest<T> = (Option<u8>, Vec<HE<H<T>>>, BTreeMap<u8, H<T>>);

uenum!(EOld { 0 A {}, 7 B { 1 x: u32, 3 y: Option<String> } });
uenum!(ENew { 0 A {}, 7 B { 1 x: u32, 3 y: Option<String>, 4 z: Vec<u16> }, 2 C { 1 s: String }, 900 D { 1 v: Vec<u16> } });

/// `Ok(value)` or the reason of refusal.
pub type DecFn = fn(&[u8], &Config) -> Result<Dyn, String>;
pub struct Side {
    pub gen: fn(&mut Rng) -> (Dyn, Vec<u8>),
    pub dec: [DecFn; 3],
}
/// Data of `old` read as `new`: `map` gives the expected content, None if it
/// must be refused.
pub struct Pair {
    pub name: &'static str,
    pub nested: bool,
    /// needs unknown fields to be ignored
    pub drops: bool,
    pub old: Side,
    pub new: Side,
    pub map: fn(&Dyn) -> Option<Dyn>,
    /// how `map` is applied inside the nested context
    pub whole: bool,
}

fn fin<T: Desc>(r: Result<T, Error>) -> Result<Dyn, String> {
    match r {
        Ok(v) => Ok(v.to_dyn().norm()),
        Err(e) => Err(e.to_string()),
    }
}
fn gen<T: Desc + Gen + Serialize>(r: &mut Rng) -> (Dyn, Vec<u8>) {
    let mut b = *r.pick(&[5i64, 20, 60]);
    let v = T::gen(r, &mut b);
    (v.to_dyn(), fourleaf::to_vec(&v).expect("serialise"))
}
fn dc<'a, T: Desc + Deserialize<TransparentCursor<&'a [u8]>, Copying>>(b: &'a [u8], c: &Config) -> Result<Dyn, String> {
    fin(de::from_slice_copy::<T>(b, c))
}
fn db<'a, T: Desc + Deserialize<TransparentCursor<&'a [u8]>, ZeroCopy>>(b: &'a [u8], c: &Config) -> Result<Dyn, String> {
    fin(de::from_slice_borrow::<T>(b, c))
}
fn dr<T: Desc + Deserialize<TestReader, Copying>>(b: &[u8], c: &Config) -> Result<Dyn, String> {
    fin(de::from_reader::<_, T>(TestReader::new(b), c))
}
macro_rules! side {
    ($t:ty) => {{
        fn c(b: &[u8], c: &Config) -> Result<Dyn, String> {
            dc::<$t>(b, c)
        }
        fn z(b: &[u8], c: &Config) -> Result<Dyn, String> {
            db::<$t>(b, c)
        }
        fn r(b: &[u8], c: &Config) -> Result<Dyn, String> {
            dr::<$t>(b, c)
        }
        fn g(r: &mut Rng) -> (Dyn, Vec<u8>) {
            gen::<$t>(r)
        }
        Side { gen: g, dec: [c, z, r] }
    }};
}
macro_rules! change {
    ($v:ident, $o:ty => $n:ty, $f:expr) => {
        $v.push(Pair {
            name: concat!(stringify!($o), " -> ", stringify!($n)),
            nested: false,
            drops: false,
            old: side!(H<$o>),
            new: side!(H<$n>),
            map: $f,
            whole: false,
        });
        $v.push(Pair {
            name: concat!("nested ", stringify!($o), " -> ", stringify!($n)),
            nested: true,
            drops: false,
            old: side!(Nest<$o>),
            new: side!(Nest<$n>),
            map: $f,
            whole: false,
        });
    };
}
macro_rules! whole {
    ($v:ident, $drops:expr, $o:ty => $n:ty, $f:expr) => {
        $v.push(Pair {
            name: concat!(stringify!($o), " -> ", stringify!($n)),
            nested: false,
            drops: $drops,
            old: side!($o),
            new: side!($n),
            map: $f,
            whole: true,
        });
    };
}

/// Applies the pair's mapping to a whole message.
pub fn map_message(p: &Pair, d: &Dyn) -> Option<Dyn> {
    if p.whole {
        return (p.map)(d);
    }
    let h = |d: &Dyn| -> Option<Dyn> {
        if let Dyn::Tup(v) = d {
            Some(Dyn::Tup(vec![v[0].clone(), (p.map)(&v[1])?, v[2].clone()]))
        } else {
            None
        }
    };
    if !p.nested {
        return h(d);
    }
    let v = if let Dyn::Tup(v) = d { v } else { return None };
    let list = if let Dyn::Seq(k, l) = &v[1] {
        let mut o = Vec::new();
        for x in l {
            o.push(match x {
                Dyn::Enum(3, b) => {
                    if let Dyn::Tup(t) = &**b {
                        Dyn::Enum(3, Box::new(Dyn::Tup(vec![t[0].clone(), h(&t[1])?])))
                    } else {
                        return None;
                    }
                }
                x => x.clone(),
            });
        }
        Dyn::Seq(*k, o)
    } else {
        return None;
    };
    let map = if let Dyn::Map(m) = &v[2] {
        let mut o = Vec::new();
        for (k, x) in m {
            o.push((k.clone(), h(x)?));
        }
        Dyn::Map(o)
    } else {
        return None;
    };
    Some(Dyn::Tup(vec![v[0].clone(), list, map]))
}

fn same(d: &Dyn) -> Option<Dyn> {
    Some(d.clone())
}
fn fit_u(d: &Dyn, max: u64) -> Option<Dyn> {
    match d {
        Dyn::U(n) if *n <= max => Some(Dyn::U(*n)),
        _ => None,
    }
}
fn fit_i(d: &Dyn, lo: i64, hi: i64) -> Option<Dyn> {
    match d {
        Dyn::I(n) if *n >= lo && *n <= hi => Some(Dyn::I(*n)),
        _ => None,
    }
}
fn some(d: &Dyn) -> Option<Dyn> {
    Some(Dyn::Opt(Some(Box::new(d.clone()))))
}
fn list1(d: &Dyn) -> Option<Dyn> {
    Some(Dyn::Seq(SeqKind::List, vec![d.clone()]))
}
fn set1(d: &Dyn) -> Option<Dyn> {
    Some(Dyn::Seq(SeqKind::Set, vec![d.clone()]))
}
fn heap1(d: &Dyn) -> Option<Dyn> {
    Some(Dyn::Seq(SeqKind::Heap, vec![d.clone()]))
}
fn arr1(d: &Dyn) -> Option<Dyn> {
    Some(Dyn::Arr(vec![d.clone()]))
}
/// any collection as its list of elements
fn items(d: &Dyn) -> Vec<Dyn> {
    match d {
        Dyn::Seq(_, v) | Dyn::Arr(v) => v.clone(),
        Dyn::Opt(o) => o.iter().map(|x| (**x).clone()).collect(),
        Dyn::Tup(v) => v.clone(),
        Dyn::Map(m) => m.iter().map(|(k, v)| Dyn::Tup(vec![k.clone(), v.clone()])).collect(),
        _ => panic!("not a collection: {:?}", d),
    }
}
fn to_list(d: &Dyn) -> Option<Dyn> {
    Some(Dyn::Seq(SeqKind::List, items(d)))
}
fn to_set(d: &Dyn) -> Option<Dyn> {
    Some(Dyn::Seq(SeqKind::Set, items(d)).norm())
}
fn to_heap(d: &Dyn) -> Option<Dyn> {
    Some(Dyn::Seq(SeqKind::Heap, items(d)).norm())
}
fn to_opt(d: &Dyn) -> Option<Dyn> {
    let v = items(d);
    match v.len() {
        0 => Some(Dyn::Opt(None)),
        1 => Some(Dyn::Opt(Some(Box::new(v[0].clone())))),
        _ => None,
    }
}
fn to_one(d: &Dyn) -> Option<Dyn> {
    let v = items(d);
    if v.len() == 1 {
        Some(v[0].clone())
    } else {
        None
    }
}
fn to_arr2(d: &Dyn) -> Option<Dyn> {
    let v = items(d);
    if v.len() == 2 {
        Some(Dyn::Arr(v))
    } else {
        None
    }
}
fn to_map(d: &Dyn) -> Option<Dyn> {
    Some(
        Dyn::Map(
            items(d)
                .into_iter()
                .map(|x| if let Dyn::Tup(v) = x { (v[0].clone(), v[1].clone()) } else { panic!() })
                .collect(),
        )
        .norm(),
    )
}
fn each(d: &Dyn, f: &dyn Fn(&Dyn) -> Option<Dyn>) -> Option<Dyn> {
    let mut o = Vec::new();
    for x in items(d) {
        o.push(f(&x)?);
    }
    Some(match d {
        Dyn::Seq(k, _) => Dyn::Seq(*k, o),
        Dyn::Arr(_) => Dyn::Arr(o),
        Dyn::Opt(_) => Dyn::Opt(o.pop().map(Box::new)),
        _ => panic!(),
    })
}

pub fn pairs() -> &'static Vec<Pair> {
    static P: std::sync::OnceLock<Vec<Pair>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::new();
        ints(&mut v);
        scalars(&mut v);
        cards(&mut v);
        structs(&mut v);
        v
    })
}
fn ints(v: &mut Vec<Pair>) {
    change!(v, u8 => u16, same);
    change!(v, u16 => u32, same);
    change!(v, u32 => u64, same);
    change!(v, u8 => usize, same);
    change!(v, i8 => i16, same);
    change!(v, i16 => i32, same);
    change!(v, i32 => i64, same);
    change!(v, i8 => isize, same);
    change!(v, u64 => u8, |d| fit_u(d, 0xFF));
    change!(v, u32 => u16, |d| fit_u(d, 0xFFFF));
    change!(v, usize => u32, |d| fit_u(d, 0xFFFF_FFFF));
    change!(v, i64 => i8, |d| fit_i(d, -128, 127));
    change!(v, i32 => i16, |d| fit_i(d, -32768, 32767));
    change!(v, isize => i32, |d| fit_i(d, i32::MIN as i64, i32::MAX as i64));
    change!(v, Vec<u16> => Vec<u64>, same);
    change!(v, Vec<u64> => Vec<u16>, |d| each(d, &|x| fit_u(x, 0xFFFF)));
    change!(v, Option<i16> => Option<i64>, same);
    change!(v, [u32; 3] => [u16; 3], |d| each(d, &|x| fit_u(x, 0xFFFF)));
    change!(v, BTreeMap<u16, i8> => BTreeMap<u32, i64>, same);
    change!(v, (u16, i8) => (u64, i64), same);
}
fn scalars(v: &mut Vec<Pair>) {
    change!(v, u16 => Option<u16>, some);
    change!(v, String => Option<String>, some);
    change!(v, (u8, String) => Option<(u8, String)>, some);
    change!(v, E0 => Option<E0>, some);
    change!(v, Vec<u8> => Option<Vec<u8>>, some);
    change!(v, [u8; 4] => Option<[u8; 4]>, some);
    change!(v, Duration => Option<Box<Duration>>, some);
    change!(v, i32 => Vec<i32>, list1);
    change!(v, String => Vec<String>, list1);
    change!(v, S1 => Vec<S1>, list1);
    change!(v, E0 => Vec<E0>, list1);
    change!(v, Vec<u8> => Vec<Vec<u8>>, list1);
    change!(v, bool => VecDeque<bool>, list1);
    change!(v, char => LinkedList<char>, list1);
    change!(v, i16 => BTreeSet<i16>, set1);
    change!(v, String => HashSet<String>, set1);
    change!(v, u32 => BinaryHeap<u32>, heap1);
    change!(v, u16 => [u16; 1], arr1);
    change!(v, String => [String; 1], arr1);
    change!(v, (u16, String) => BTreeMap<u16, String>, |d| {
        if let Dyn::Tup(t) = d { Some(Dyn::Map(vec![(t[0].clone(), t[1].clone())])) } else { None }
    });
}
fn cards(v: &mut Vec<Pair>) {
    change!(v, Option<u16> => Vec<u16>, to_list);
    change!(v, Option<String> => BTreeSet<String>, to_set);
    change!(v, [u16; 3] => Vec<u16>, to_list);
    change!(v, [u16; 1] => Option<u16>, to_opt);
    change!(v, [String; 1] => String, to_one);
    change!(v, [u64; 64] => Vec<u64>, to_list);
    change!(v, Vec<u16> => VecDeque<u16>, same);
    change!(v, Vec<i16> => HashSet<i16>, to_set);
    change!(v, Vec<(u16, String)> => BTreeMap<u16, String>, to_map);
    change!(v, BTreeMap<u16, String> => Vec<(u16, String)>, to_list);
    change!(v, Option<(u16, String)> => HashMap<u16, String>, to_map);
    // the other direction holds for the data which fits
    change!(v, Option<u16> => u16, to_one);
    change!(v, Vec<u16> => Option<u16>, to_opt);
    change!(v, Vec<String> => String, to_one);
    change!(v, Vec<u16> => [u16; 2], to_arr2);
    change!(v, Vec<E0> => E0, to_one);
    change!(v, Option<S1> => S1, to_one);
}
fn structs(v: &mut Vec<Pair>) {
    fn drop_f(d: &Dyn) -> Option<Dyn> {
        if let Dyn::Tup(v) = d { Some(Dyn::Tup(vec![v[0].clone(), v[2].clone()])) } else { None }
    }
    fn add(d: &Dyn, x: Dyn) -> Option<Dyn> {
        if let Dyn::Tup(v) = d { Some(Dyn::Tup(vec![v[0].clone(), x, v[1].clone()])) } else { None }
    }
    whole!(v, true, H<u32> => H0, drop_f);
    whole!(v, true, H<String> => H0, drop_f);
    whole!(v, true, H<S1> => H0, drop_f);
    whole!(v, true, H<Vec<E0>> => H0, drop_f);
    whole!(v, true, H<Tree> => H0, drop_f);
    whole!(v, true, H<EDel> => H0, drop_f);
    whole!(v, true, H<BTreeMap<u8, Vec<u8>>> => H0, drop_f);
    whole!(v, true, H<[u8; 30]> => H0, drop_f);
    whole!(v, true, Vec<H<S1>> => Vec<H0>, |d| each(d, &drop_f));
    whole!(v, true, BTreeMap<u8, H<E0>> => BTreeMap<u8, H0>, |d| {
        if let Dyn::Map(m) = d {
            Some(Dyn::Map(m.iter().map(|(k, v)| (k.clone(), drop_f(v).unwrap())).collect()))
        } else { None }
    });
    whole!(v, false, H0 => H<Option<u32>>, |d| add(d, Dyn::Opt(None)));
    whole!(v, false, H0 => H<Vec<String>>, |d| add(d, Dyn::Seq(SeqKind::List, vec![])));
    whole!(v, false, H0 => H<BTreeMap<u8, E0>>, |d| add(d, Dyn::Map(vec![])));
    whole!(v, false, H0 => H<BTreeSet<String>>, |d| add(d, Dyn::Seq(SeqKind::Set, vec![])));
    whole!(v, false, H0 => H<[u16; 0]>, |d| add(d, Dyn::Arr(vec![])));
    whole!(v, false, H0 => H<[u8; 0]>, |d| add(d, Dyn::Bytes(vec![])));
    whole!(v, false, Vec<H0> => Vec<H<Option<S1>>>, |d| each(d, &|x| add(x, Dyn::Opt(None))));
    // variants
    fn widen(d: &Dyn) -> Option<Dyn> {
        Some(match d {
            Dyn::Enum(7, b) => {
                if let Dyn::Tup(t) = &**b {
                    Dyn::Enum(7, Box::new(Dyn::Tup(vec![t[0].clone(), t[1].clone(), Dyn::Seq(SeqKind::List, vec![])])))
                } else {
                    return None;
                }
            }
            d => d.clone(),
        })
    }
    fn narrow(d: &Dyn) -> Option<Dyn> {
        match d {
            Dyn::Enum(0, _) => Some(d.clone()),
            Dyn::Enum(7, b) => {
                if let Dyn::Tup(t) = &**b {
                    Some(Dyn::Enum(7, Box::new(Dyn::Tup(vec![t[0].clone(), t[1].clone()]))))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    change!(v, EOld => ENew, widen);
    whole!(v, true, ENew => EOld, narrow);
    whole!(v, true, Vec<ENew> => Vec<EOld>, |d| each(d, &narrow));
    whole!(v, true, (u16, String, Option<u8>) => (u16, String), |d| {
        if let Dyn::Tup(v) = d { Some(Dyn::Tup(v[..2].to_vec())) } else { None }
    });
    whole!(v, false, (u16, String) => (u16, String, Option<u8>), |d| {
        if let Dyn::Tup(v) = d { Some(Dyn::Tup(vec![v[0].clone(), v[1].clone(), Dyn::Opt(None)])) } else { None }
    });
    // a bare collection is a struct of one field, which may gain others
    macro_rules! bare {
        ($e:ty => $($c:ty, $f:expr;)*) => {
            $(
                whole!(v, true, (Vec<$e>, String) => $c, |d| first(d, &$f));
                whole!(v, true, (Vec<$e>, Option<E0>, Vec<S1>) => $c, |d| first(d, &$f));
                whole!(v, true, Vec<(Vec<$e>, BTreeMap<u8, String>)> => Vec<$c>, |d| each(d, &|x| first(x, &$f)));
                whole!(v, true, (u8, (Vec<$e>, String), u8) => (u8, ($c,), u8), |d| {
                    let t = items(d);
                    Some(Dyn::Tup(vec![t[0].clone(), Dyn::Tup(vec![first(&t[1], &$f)?]), t[2].clone()]))
                });
                whole!(v, false, $c => ($c, Option<String>), |d| Some(Dyn::Tup(vec![d.clone(), Dyn::Opt(None)])));
                whole!(v, false, $c => ($c,), |d| Some(Dyn::Tup(vec![d.clone()])));
            )*
        };
    }
    fn first(d: &Dyn, f: &dyn Fn(&Dyn) -> Option<Dyn>) -> Option<Dyn> {
        f(&items(d)[0])
    }
    bare! { u16 =>
        Vec<u16>, same;
        VecDeque<u16>, same;
        LinkedList<u16>, same;
        BTreeSet<u16>, to_set;
        HashSet<u16>, to_set;
        BinaryHeap<u16>, to_heap;
        Option<u16>, to_opt;
        [u16; 2], to_arr2;
        Box<[u16; 2]>, to_arr2;
    }
    // (as an element this one is an integer and no struct)
    whole!(v, true, (Vec<u16>, String) => u16, |d| first(d, &to_one));
    whole!(v, true, (u8, (Vec<u16>, String), u8) => (u8, (u16,), u8), |d| {
        let t = items(d);
        Some(Dyn::Tup(vec![t[0].clone(), Dyn::Tup(vec![first(&t[1], &to_one)?]), t[2].clone()]))
    });
    bare! { (u8, String) =>
        BTreeMap<u8, String>, to_map;
        HashMap<u8, String>, to_map;
        Vec<(u8, String)>, same;
        Vec<(u8, String, Option<u8>)>, |d| each(d, &|x| {
            let mut t = items(x);
            t.push(Dyn::Opt(None));
            Some(Dyn::Tup(t))
        });
        Vec<(u8,)>, |d| each(d, &|x| Some(Dyn::Tup(items(x)[..1].to_vec())));
    }
    // unknown handlers accept removed fields even when they are refused
    fn u0(d: &Dyn) -> Option<Dyn> {
        let _ = d;
        None
    }
    let _ = u0;
}
