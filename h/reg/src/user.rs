//! User types declared with the macro.
use crate::desc::*;
use flcore::rng::Rng;
use flcore::schema::*;
use fourleaf::adapt::Copied;
use fourleaf::unknown::UnknownFields;
use fourleaf::{Deserialize, Serialize};
use std::borrow::Cow;
use std::io::Read;
use std::net::*;
use std::sync::Arc;
use std::time::Duration;

#[macro_export]
macro_rules! ustruct {
    ($n:ident { $($tag:tt $f:ident : $t:ty),* $(,)* }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n { $(pub $f: $t),* }
        fourleaf_retrofit!(struct $n : {} {} {
            |_context, this|
            $([$tag] $f: $t = &this.$f,)*
            { Ok($n { $($f: $f),* }) }
        });
        impl Desc for $n {
            fn schema(_zc: bool) -> S { sst(vec![$(($tag, stringify!($f), <$t as Desc>::schema(_zc))),*]) }
            fn to_dyn(&self) -> Dyn { Dyn::Tup(vec![$(self.$f.to_dyn()),*]) }
            fn loans(&self, _o: &mut Vec<Loan>) { $(self.$f.loans(_o);)* }
            fn heap(_zc: bool) -> bool { false $(|| <$t as Desc>::heap(_zc))* }
        }
        impl Gen for $n { fn gen(_r: &mut Rng, _b: &mut i64) -> Self { $n { $($f: Gen::gen(_r, _b)),* } } }
    }
}
#[macro_export]
macro_rules! uenum {
    ($n:ident { $($d:tt $v:ident { $($tag:tt $f:ident : $t:ty),* $(,)* }),* $(,)* }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub enum $n { $($v { $($f: $t),* }),* }
        fourleaf_retrofit!(enum $n : {} {} {
            |_context|
            $([$d] $n::$v { $(ref $f),* } => {
                $([$tag] $f: $t = $f,)*
                { Ok($n::$v { $($f: $f),* }) }
            }),*
        });
        impl Desc for $n {
            fn schema(_zc: bool) -> S { Arc::new(Schema::Enum(EnumS {
                variants: vec![$(($d, BodyS::Struct(st(vec![$(($tag, stringify!($f), <$t as Desc>::schema(_zc))),*], None, None)))),*],
                catchall: None })) }
            fn to_dyn(&self) -> Dyn { match self { $($n::$v { $($f),* } => Dyn::Enum($d, Box::new(Dyn::Tup(vec![$($f.to_dyn()),*])))),* } }
            fn loans(&self, _o: &mut Vec<Loan>) { match self { $($n::$v { $($f),* } => { $($f.loans(_o);)* }),* } }
            fn heap(_zc: bool) -> bool { false $($(|| <$t as Desc>::heap(_zc))*)* }
        }
        impl Gen for $n { fn gen(r: &mut Rng, _b: &mut i64) -> Self {
            let k = [$($d as u64),*].len() as u64;
            let mut _pick = r.below(k);
            $( if _pick == 0 { return $n::$v { $($f: Gen::gen(r, _b)),* }; } _pick = _pick.wrapping_sub(1); )*
            unreachable!()
        } }
    }
}

ustruct!(S1 { 1 a: u32, 2 b: String, 3 c: Option<i64>, 4 d: Vec<u16>, 63 e: Vec<u8> });
ustruct!(S0 {});
ustruct!(SFix { 1 a: u32, 2 b: i16, 7 c: [u8; 4], 8 d: [u16; 3], 9 e: Option<u8>, 33 f: (bool, char), 62 g: Duration });
ustruct!(S2 { 10 s: S1, 11 v: Vec<S1>, 12 o: Option<Box<S1>>, 62 arr: [u8; 4] });
ustruct!(S20 { 63 a: u8, 62 b: u8, 61 c: u8, 60 d: u8, 5 e: u8, 6 f: u8, 7 g: u8, 8 h: u8, 31 i: i8, 32 j: i8, 33 k: bool,
    47 l: u64, 48 m: u64, 49 n: char, 1 o: Option<u8>, 2 p: Vec<u8>, 3 q: Vec<i8>, 4 r: (), 15 s: [u8; 2], 16 t: [i8; 2] });
uenum!(E0 { 0 A {}, 1 B { 1 x: u32 }, 127 C { 1 s: String, 2 v: Vec<i8> }, 128 D { 63 n: Option<u16>, 2 d: Duration },
    18446744073709551615 Z { 5 b: Vec<u8> } });
uenum!(EFix { 0 A {}, 5 B { 1 x: u32, 2 y: Option<bool> }, 300 C { 1 t: (u8, i64), 9 arr: [u8; 3] } });
ustruct!(S3 { 1 e: E0, 2 v: Vec<E0>, 3 o: Option<E0>, 4 m: std::collections::BTreeMap<u8, E0> });
ustruct!(SAll { 1 a: bool, 2 b: char, 3 c: Duration, 4 d: IpAddr, 5 e: SocketAddr, 6 f: Result<u32, String>, 7 g: (), 8 h: Option<()>,
    9 i: Vec<(u8, String)>, 10 j: std::collections::BTreeMap<String, Vec<u16>>, 11 k: Option<Option<u8>>, 12 l: [Option<i8>; 2], 13 m: SFix });

// recursive
ustruct!(Tree { 1 v: u32, 2 kids: TreeKids, 3 tag: Option<String> });
/// newtype so that the schema recursion can be cut
#[derive(Clone, Debug, PartialEq)]
pub struct TreeKids(pub Vec<Tree>);
impl fourleaf::ser::SerializeAs for TreeKids {
    type T = [Tree];
    fn serialize_as(&self) -> &[Tree] {
        &self.0
    }
}
impl<R: Read, STYLE> Deserialize<R, STYLE> for TreeKids {
    type Accum = <Vec<Tree> as Deserialize<R, STYLE>>::Accum;
    fn deserialize_element(
        c: &fourleaf::de::Context,
        f: &mut fourleaf::stream::Field<R>,
    ) -> fourleaf::de::Result<Self> {
        <Vec<Tree> as Deserialize<R, STYLE>>::deserialize_element(c, f).map(TreeKids)
    }
    fn deserialize_field(
        a: &mut Self::Accum,
        c: &fourleaf::de::Context,
        f: &mut fourleaf::stream::Field<R>,
    ) -> fourleaf::de::Result<()> {
        <Vec<Tree> as Deserialize<R, STYLE>>::deserialize_field(a, c, f)
    }
    fn finish(a: Self::Accum, c: &fourleaf::de::Context) -> fourleaf::de::Result<Self> {
        <Vec<Tree> as Deserialize<R, STYLE>>::finish(a, c).map(TreeKids)
    }
}
impl Desc for TreeKids {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Seq(SeqKind::List, Arc::new(Schema::Lazy(LazyS::new(|zc| Tree::schema(zc), zc)))))
    }
    fn to_dyn(&self) -> Dyn {
        Tree::slice_dyn(&self.0, false)
    }
    fn loans(&self, out: &mut Vec<Loan>) {
        for t in &self.0 {
            t.loans(out)
        }
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl Gen for TreeKids {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        *b -= 10;
        let n = count(r, b);
        TreeKids((0..n).map(|_| Tree::gen(r, b)).collect())
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Cons {
    Nil,
    Cell(u8, Box<Cons>),
}
fourleaf_retrofit!(enum Cons : {} {} {
    |_context|
    [0] Cons::Nil => { { Ok(Cons::Nil) } },
    [1] Cons::Cell(h, ref t) => {
        [1] h: u8 = h,
        [2] t: Box<Cons> = t,
        { Ok(Cons::Cell(h, t)) }
    },
});
impl Desc for Cons {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Enum(EnumS {
            variants: vec![
                (0, BodyS::Struct(st(vec![], None, None))),
                (
                    1,
                    BodyS::Struct(st(
                        vec![
                            (1, "h", u8::schema(zc)),
                            (2, "t", Arc::new(Schema::Lazy(LazyS::new(|zc| Cons::schema(zc), zc)))),
                        ],
                        None,
                        None,
                    )),
                ),
            ],
            catchall: None,
        }))
    }
    fn to_dyn(&self) -> Dyn {
        match self {
            Cons::Nil => Dyn::Enum(0, Box::new(Dyn::Tup(vec![]))),
            Cons::Cell(h, t) => Dyn::Enum(1, Box::new(Dyn::Tup(vec![h.to_dyn(), t.to_dyn()]))),
        }
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl Gen for Cons {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let n = count(r, b).min(12);
        let mut c = Cons::Nil;
        for _ in 0..n {
            c = Cons::Cell(r.u64() as u8, Box::new(c));
        }
        c
    }
}

// delegation
macro_rules! deleg {
    ($n:ident, $f:ident, $t:ty) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n(pub $t);
        fourleaf_retrofit!(struct $n : {} {} {
            |_context, this|
            (*) $f: $t = &this.0,
            { Ok($n($f)) }
        });
        impl Desc for $n {
            fn schema(zc: bool) -> S { Arc::new(Schema::Deleg(stringify!($f), <$t as Desc>::schema(zc))) }
            fn to_dyn(&self) -> Dyn { self.0.to_dyn() }
            fn loans(&self, o: &mut Vec<Loan>) { self.0.loans(o) }
            fn heap(zc: bool) -> bool { <$t as Desc>::heap(zc) }
        }
        impl Gen for $n { fn gen(r: &mut Rng, b: &mut i64) -> Self { $n(Gen::gen(r, b)) } }
    }
}
deleg!(DBytes, inner, Vec<u8>);
deleg!(DList, inner, Vec<u16>);
deleg!(DStruct, wrapped, S1);
deleg!(DInt, n, u32);
deleg!(DOpt, o, Option<String>);
deleg!(DDeleg, dd, DList);
deleg!(DEnum, e, E0);
deleg!(DUnit, u, ());
deleg!(DMap, m, std::collections::BTreeMap<u8, Vec<u8>>);

#[derive(Clone, Debug, PartialEq)]
pub enum EDel {
    L(Vec<u16>),
    T((u8, String)),
    N(u64),
    U,
    E(Box<EFix>),
    O(Option<u8>),
}
fourleaf_retrofit!(enum EDel : {} {} {
    |_context|
    [1] EDel::L(ref l) => { (*) l: Vec<u16> = l, { Ok(EDel::L(l)) } },
    [2] EDel::T(ref t) => { (*) t: (u8, String) = t, { Ok(EDel::T(t)) } },
    [3] EDel::N(n) => { (*) n: u64 = n, { Ok(EDel::N(n)) } },
    [40] EDel::U => { { Ok(EDel::U) } },
    [41] EDel::E(ref e) => { (*) e: Box<EFix> = e, { Ok(EDel::E(e)) } },
    [70000] EDel::O(ref o) => { (*) o: Option<u8> = o, { Ok(EDel::O(o)) } },
});
impl Desc for EDel {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Enum(EnumS {
            variants: vec![
                (1, BodyS::Deleg("l", <Vec<u16>>::schema(zc))),
                (2, BodyS::Deleg("t", <(u8, String)>::schema(zc))),
                (3, BodyS::Deleg("n", u64::schema(zc))),
                (40, BodyS::Struct(st(vec![], None, None))),
                (41, BodyS::Deleg("e", EFix::schema(zc))),
                (70000, BodyS::Deleg("o", <Option<u8>>::schema(zc))),
            ],
            catchall: None,
        }))
    }
    fn to_dyn(&self) -> Dyn {
        match self {
            EDel::L(x) => Dyn::Enum(1, Box::new(x.to_dyn())),
            EDel::T(x) => Dyn::Enum(2, Box::new(x.to_dyn())),
            EDel::N(x) => Dyn::Enum(3, Box::new(x.to_dyn())),
            EDel::U => Dyn::Enum(40, Box::new(Dyn::Tup(vec![]))),
            EDel::E(x) => Dyn::Enum(41, Box::new(x.to_dyn())),
            EDel::O(x) => Dyn::Enum(70000, Box::new(x.to_dyn())),
        }
    }
    fn loans(&self, o: &mut Vec<Loan>) {
        match self {
            EDel::T(x) => x.loans(o),
            _ => (),
        }
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl Gen for EDel {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        match r.below(6) {
            0 => EDel::L(Gen::gen(r, b)),
            1 => EDel::T(Gen::gen(r, b)),
            2 => EDel::N(Gen::gen(r, b)),
            3 => EDel::U,
            4 => EDel::E(Gen::gen(r, b)),
            _ => EDel::O(Gen::gen(r, b)),
        }
    }
}

// unknown-preserving
macro_rules! ustruct_unk {
    ($n:ident { $($tag:tt $f:ident : $t:ty),* $(,)* }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n { $(pub $f: $t,)* pub unknown: UnknownFields<'static> }
        fourleaf_retrofit!(struct $n : {} {} {
            |_context, this|
            $([$tag] $f: $t = &this.$f,)*
            (?) unknown: Copied<UnknownFields<'static>> = &this.unknown,
            { Ok($n { $($f: $f,)* unknown: unknown.0 }) }
        });
        impl Desc for $n {
            fn schema(_zc: bool) -> S {
                Arc::new(Schema::Struct(st(vec![$(($tag, stringify!($f), <$t as Desc>::schema(_zc))),*], Some(("unknown", true)), None)))
            }
            fn to_dyn(&self) -> Dyn { Dyn::Tup(vec![$(self.$f.to_dyn(),)* Dyn::Unk(unk_dyn(&self.unknown))]) }
            fn loans(&self, _o: &mut Vec<Loan>) { $(self.$f.loans(_o);)* self.unknown.loans(_o) }
            fn heap(_zc: bool) -> bool { true }
        }
        impl Gen for $n { fn gen(r: &mut Rng, b: &mut i64) -> Self {
            #[allow(unused_mut)]
            let mut m = 0u64;
            $(m |= 1 << $tag;)*
            $n { $($f: Gen::gen(r, b),)* unknown: gen_unk(r, b, 3, m) }
        } }
    }
}
ustruct_unk!(U1 { 1 a: u32, 5 s: Option<String>, 9 v: Vec<u16> });
ustruct_unk!(U0 {});
ustruct_unk!(U2 { 2 inner: U1, 3 list: Vec<U1>, 63 o: Option<Box<U1>>, 7 e: Vec<UE> });

#[derive(Clone, Debug, PartialEq)]
pub enum UE {
    Foo(u32, UnknownFields<'static>),
    Bar(String),
    Other(u64, UnknownFields<'static>),
}
fourleaf_retrofit!(enum UE : {} {} {
    |_context|
    [1] UE::Foo(a, ref unknown) => {
        [1] a: u32 = a,
        (?) unknown: Copied<UnknownFields<'static>> = unknown,
        { Ok(UE::Foo(a, unknown.0)) }
    },
    [2] UE::Bar(ref b) => {
        [1] b: String = b,
        { Ok(UE::Bar(b)) }
    },
    (?) UE::Other(d, ref fields) => {
        (=) d: u64 = d,
        (?) fields: Copied<UnknownFields<'static>> = fields,
        { Ok(UE::Other(d, fields.0)) }
    },
});
impl Desc for UE {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Enum(EnumS {
            variants: vec![
                (1, BodyS::Struct(st(vec![(1, "a", u32::schema(zc))], Some(("unknown", true)), None))),
                (2, BodyS::Struct(st(vec![(1, "b", String::schema(zc))], None, None))),
            ],
            catchall: Some(BodyS::Struct(st(vec![], Some(("fields", true)), None))),
        }))
    }
    fn to_dyn(&self) -> Dyn {
        match self {
            UE::Foo(a, u) => Dyn::Enum(1, Box::new(Dyn::Tup(vec![a.to_dyn(), Dyn::Unk(unk_dyn(u))]))),
            UE::Bar(b) => Dyn::Enum(2, Box::new(Dyn::Tup(vec![b.to_dyn()]))),
            UE::Other(d, u) => Dyn::Enum(*d, Box::new(Dyn::Tup(vec![Dyn::Unk(unk_dyn(u))]))),
        }
    }
    fn loans(&self, o: &mut Vec<Loan>) {
        match self {
            UE::Foo(_, u) | UE::Other(_, u) => u.loans(o),
            UE::Bar(b) => b.loans(o),
        }
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl Gen for UE {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        match r.below(3) {
            0 => UE::Foo(Gen::gen(r, b), gen_unk(r, b, 2, 2)),
            1 => UE::Bar(Gen::gen(r, b)),
            _ => {
                let mut d = r.int();
                if d == 1 || d == 2 {
                    d = 0;
                }
                UE::Other(d, gen_unk(r, b, 2, 0))
            }
        }
    }
}

/// unknown-preserving with borrowed content
#[derive(Clone, Debug, PartialEq)]
pub struct UZ<'a> {
    pub a: u32,
    pub s: Option<Cow<'a, str>>,
    pub unknown: UnknownFields<'a>,
}
fourleaf_retrofit!(struct UZ : {
    impl<'a> Serialize for UZ<'a>
} {
    impl<'a, R: Read, STYLE> Deserialize<R, STYLE> for UZ<'a>
    where Cow<'a, str>: Deserialize<R, STYLE>, Cow<'a, [u8]>: Deserialize<R, STYLE>
} {
    |_context, this|
    [1] a: u32 = this.a,
    [2] s: Option<Cow<'a, str>> = &this.s,
    (?) unknown: UnknownFields<'a> = &this.unknown,
    { Ok(UZ { a: a, s: s, unknown: unknown }) }
});
impl<'a> Desc for UZ<'a> {
    fn schema(zc: bool) -> S {
        Arc::new(Schema::Struct(st(
            vec![(1, "a", u32::schema(zc)), (2, "s", <Option<Cow<'a, str>>>::schema(zc))],
            Some(("unknown", !zc)),
            None,
        )))
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Tup(vec![self.a.to_dyn(), self.s.to_dyn(), Dyn::Unk(unk_dyn(&self.unknown))])
    }
    fn loans(&self, o: &mut Vec<Loan>) {
        self.s.loans(o);
        self.unknown.loans(o)
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl Gen for UZ<'static> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        UZ { a: Gen::gen(r, b), s: Gen::gen(r, b), unknown: gen_unk(r, b, 3, 6) }
    }
}

/// borrowed struct, zero-copy only
#[derive(Clone, Debug, PartialEq)]
pub struct BS<'a> {
    pub s: &'a str,
    pub b: &'a [u8],
    pub o: Option<&'a str>,
    pub c: Cow<'a, [u8]>,
    pub v: Vec<&'a [u8]>,
    pub k: Vec<u8>,
}
fourleaf_retrofit!(struct BS : {
    impl<'a> Serialize for BS<'a>
} {
    impl<'a, R: Read + fourleaf::io::AsExtBytes<'a>> Deserialize<R, fourleaf::de::style::ZeroCopy> for BS<'a>
} {
    |_context, this|
    [1] s: &'a str = this.s,
    [2] b: &'a [u8] = this.b,
    [3] o: Option<&'a str> = &this.o,
    [4] c: Cow<'a, [u8]> = &this.c,
    [5] v: Vec<&'a [u8]> = &this.v,
    [6] k: Vec<u8> = &this.k,
    { Ok(BS { s: s, b: b, o: o, c: c, v: v, k: k }) }
});
// the macro refers to STYLE in its body
#[allow(dead_code)]
type STYLE = fourleaf::de::style::ZeroCopy;
impl<'a> Desc for BS<'a> {
    fn schema(_: bool) -> S {
        sst(vec![
            (1, "s", <&str>::schema(true)),
            (2, "b", <&[u8]>::schema(true)),
            (3, "o", <Option<&str>>::schema(true)),
            (4, "c", <Cow<[u8]>>::schema(true)),
            (5, "v", <Vec<&[u8]>>::schema(true)),
            (6, "k", <Vec<u8>>::schema(true)),
        ])
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Tup(vec![
            self.s.to_dyn(),
            self.b.to_dyn(),
            self.o.to_dyn(),
            self.c.to_dyn(),
            self.v.to_dyn(),
            self.k.to_dyn(),
        ])
    }
    fn loans(&self, o: &mut Vec<Loan>) {
        self.s.loans(o);
        self.b.loans(o);
        self.o.loans(o);
        self.c.loans(o);
        self.v.loans(o);
        self.k.loans(o);
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl Gen for BS<'static> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        BS {
            s: Gen::gen(r, b),
            b: Gen::gen(r, b),
            o: Gen::gen(r, b),
            c: Gen::gen(r, b),
            v: Gen::gen(r, b),
            k: Gen::gen(r, b),
        }
    }
}

/// generic
#[derive(Clone, Debug, PartialEq)]
pub struct G<T> {
    pub t: T,
    pub v: Vec<T>,
}
fourleaf_retrofit!(struct G : {
    impl<T: Serialize> Serialize for G<T>
} {
    impl<R: Read, STYLE, T: Deserialize<R, STYLE>> Deserialize<R, STYLE> for G<T>
} {
    |_context, this|
    [1] t: T = &this.t,
    [2] v: Vec<T> = &this.v,
    { Ok(G { t: t, v: v }) }
});
impl<T: Desc> Desc for G<T> {
    fn schema(zc: bool) -> S {
        sst(vec![(1, "t", T::schema(zc)), (2, "v", <Vec<T>>::schema(zc))])
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Tup(vec![self.t.to_dyn(), self.v.to_dyn()])
    }
    fn loans(&self, o: &mut Vec<Loan>) {
        self.t.loans(o);
        self.v.loans(o)
    }
    fn heap(_: bool) -> bool {
        true
    }
}
impl<T: Gen + 'static> Gen for G<T> {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        G { t: Gen::gen(r, b), v: Gen::gen(r, b) }
    }
}

/// constructor with validation
#[derive(Clone, Debug, PartialEq)]
pub struct Span {
    pub lo: u16,
    pub hi: u16,
}
fourleaf_retrofit!(struct Span : {} {} {
    |context, this|
    [1] lo: u16 = this.lo,
    [2] hi: u16 = this.hi,
    { if lo <= hi { Ok(Span { lo: lo, hi: hi }) } else {
        Err(fourleaf::de::Error::InvalidValueMsg(context.to_string(), "lo > hi")) } }
});
impl Desc for Span {
    fn schema(zc: bool) -> S {
        fn ok(d: &Dyn) -> bool {
            match d {
                Dyn::Tup(v) => v[0] <= v[1],
                _ => false,
            }
        }
        Arc::new(Schema::Struct(st(vec![(1, "lo", u16::schema(zc)), (2, "hi", u16::schema(zc))], None, Some(ok))))
    }
    fn to_dyn(&self) -> Dyn {
        Dyn::Tup(vec![self.lo.to_dyn(), self.hi.to_dyn()])
    }
    fn heap(_: bool) -> bool {
        false
    }
}
impl Gen for Span {
    fn gen(r: &mut Rng, b: &mut i64) -> Self {
        let (x, y): (u16, u16) = (Gen::gen(r, b), Gen::gen(r, b));
        Span { lo: x.min(y), hi: x.max(y) }
    }
}
