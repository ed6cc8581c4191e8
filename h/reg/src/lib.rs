//! Registry of types: each entry knows how to generate, describe, serialise
//! and deserialise one Rust type through fourleaf's public interface.
#![allow(clippy::all)]
#[macro_use]
extern crate fourleaf;
pub mod desc;
pub mod types;
pub mod user;

use desc::{Desc, Gen, Loan};
use flcore::alloc::{mark, since, AllocStat};
use flcore::io::{TestReader, TestWriter};
use flcore::refparse::PErr;
use flcore::rng::Rng;
use flcore::schema::*;
use fourleaf::de::style::{Copying, ZeroCopy};
use fourleaf::de::{self, Config, Deserialize, Error as DeError};
use fourleaf::io::TransparentCursor;
use fourleaf::ser::{self, Serialize};
use fourleaf::stream::{self, Stream};
use std::io::Read;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

pub type SliceStream<'a> = Stream<TransparentCursor<&'a [u8]>>;
pub type ReadStream = Stream<TestReader>;

/// Classification of an error, independent of its wording.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Ref(EKind),
    Io(std::io::ErrorKind),
    Other,
}
#[derive(Clone, Debug)]
pub struct ErrInfo {
    pub kind: Kind,
    pub wo: String,
    pub display: String,
    pub exception: Option<String>,
}
pub fn stream_kind(e: &stream::Error) -> Kind {
    use stream::Error as E;
    Kind::Ref(match e {
        E::Io(e) => {
            return if e.kind() == std::io::ErrorKind::UnexpectedEof {
                Kind::Ref(EKind::Parse(PErr::Eof))
            } else {
                Kind::Io(e.kind())
            }
        }
        E::IntegerOverflow => EKind::Parse(PErr::IntOverflow),
        E::OverwideInteger => EKind::Parse(PErr::Overwide),
        E::TruncatedBlob(_) => EKind::Parse(PErr::TruncBlob),
        E::OverlongBlob => EKind::Parse(PErr::PosOverflow),
        E::Exception(_) => EKind::Exception,
        E::UnexpectedType(..) => EKind::WrongType,
        E::IntegerOutOfRange(_) => EKind::OutOfRange,
        _ => return Kind::Other,
    })
}
pub fn err_info(e: &DeError) -> ErrInfo {
    let mut exception = None;
    let (kind, wo) = match e {
        DeError::Stream(wo, s) => {
            if let stream::Error::Exception(m) = s {
                exception = Some(m.clone());
            }
            (stream_kind(s), wo)
        }
        DeError::RecursionLimitExceeded(wo) => (Kind::Ref(EKind::Recursion), wo),
        DeError::UnknownField(wo, t, p) => (Kind::Ref(EKind::UnknownField(*t, *p)), wo),
        DeError::UnknownVariant(wo, d) => (Kind::Ref(EKind::UnknownVariant(*d)), wo),
        DeError::FieldOccursTooFewTimes(wo, n) => (Kind::Ref(EKind::TooFew(*n)), wo),
        DeError::FieldOccursTooManyTimes(wo, n) => (Kind::Ref(EKind::TooMany(*n)), wo),
        DeError::RequiredFieldMissing(wo) => (Kind::Ref(EKind::Missing), wo),
        DeError::InvalidValue(wo, _) => (Kind::Ref(EKind::Invalid), wo),
        DeError::InvalidValueMsg(wo, _) => (Kind::Ref(EKind::Invalid), wo),
        DeError::MaxCollectExceeded(wo) => (Kind::Ref(EKind::MaxCollect), wo),
        DeError::MaxBlobExceeded(wo) => (Kind::Ref(EKind::MaxBlob), wo),
        _ => return ErrInfo { kind: Kind::Other, wo: String::new(), display: e.to_string(), exception },
    };
    ErrInfo { kind, wo: wo.clone(), display: e.to_string(), exception }
}

pub struct Val {
    pub dyn_: Dyn,
    pub loans: Vec<Loan>,
}
/// Observed outcome of one decoding call.
pub struct Dec {
    pub res: Result<Val, ErrInfo>,
    /// heap use of the call itself
    pub stat: AllocStat,
    /// bytes still live after the call and after dropping its result
    pub leaked: i64,
}
impl Dec {
    /// Normalised value, if any.
    pub fn norm(&self) -> Option<Dyn> {
        self.res.as_ref().ok().map(|v| v.dyn_.norm())
    }
}

fn finish<T: Desc>(m: AllocStat, r: Result<T, DeError>) -> Dec {
    let stat = since(&m);
    match r {
        Ok(v) => {
            let dyn_ = v.to_dyn();
            let mut loans = Vec::new();
            v.loans(&mut loans);
            let m2 = mark();
            drop(v);
            let d = since(&m2);
            Dec { res: Ok(Val { dyn_, loans }), stat, leaked: stat.live + d.live }
        }
        Err(e) => {
            let i = err_info(&e);
            let m2 = mark();
            drop(e);
            let d = since(&m2);
            Dec { res: Err(i), stat, leaked: stat.live + d.live }
        }
    }
}
pub fn dec_copy<R: Read, T: Desc + Deserialize<R, Copying>>(s: &mut Stream<R>, c: &Config) -> Dec {
    let m = mark();
    let r = de::from_stream_copy::<R, T>(s, c);
    finish(m, r)
}
pub fn dec_borrow<R: Read, T: Desc + Deserialize<R, ZeroCopy>>(s: &mut Stream<R>, c: &Config) -> Dec {
    let m = mark();
    let r = de::from_stream_borrow::<R, T>(s, c);
    finish(m, r)
}
pub fn conv_copy<'a, T: Desc + Deserialize<TransparentCursor<&'a [u8]>, Copying>>(s: &'a [u8], c: &Config) -> Dec {
    let m = mark();
    let r = de::from_slice_copy::<T>(s, c);
    finish(m, r)
}
pub fn conv_borrow<'a, T: Desc + Deserialize<TransparentCursor<&'a [u8]>, ZeroCopy>>(s: &'a [u8], c: &Config) -> Dec {
    let m = mark();
    let r = de::from_slice_borrow::<T>(s, c);
    finish(m, r)
}
pub fn conv_reader<T: Desc + Deserialize<TestReader, Copying>>(s: TestReader, c: &Config) -> Dec {
    let m = mark();
    let r = de::from_reader::<_, T>(s, c);
    finish(m, r)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Wrap {
    Ref,
    RefMut,
    Box,
    Rc,
    Arc,
    Copied,
    RefRef,
}
pub const WRAPS: [Wrap; 7] = [Wrap::Ref, Wrap::RefMut, Wrap::Box, Wrap::Rc, Wrap::Arc, Wrap::Copied, Wrap::RefRef];

/// One generated value.
pub trait Inst {
    fn dyn_(&self) -> Dyn;
    fn to_vec(&self) -> Result<Vec<u8>, stream::Error>;
    fn to_writer(&self, w: TestWriter) -> Result<(), stream::Error>;
    fn to_stream(&self, s: &mut Stream<TestWriter>) -> Result<(), stream::Error>;
    /// Consumes the value: serialised through a wrapper type.
    fn wrapped(self: Box<Self>, w: Wrap, s: &mut Stream<TestWriter>) -> Result<(), stream::Error>;
}
struct Holder<T>(T);
impl<T: Desc + Serialize> Inst for Holder<T> {
    fn dyn_(&self) -> Dyn {
        self.0.to_dyn()
    }
    fn to_vec(&self) -> Result<Vec<u8>, stream::Error> {
        ser::to_vec(&self.0)
    }
    fn to_writer(&self, w: TestWriter) -> Result<(), stream::Error> {
        ser::to_writer(w, &self.0)
    }
    fn to_stream(&self, s: &mut Stream<TestWriter>) -> Result<(), stream::Error> {
        ser::to_stream(s, &self.0)
    }
    fn wrapped(self: Box<Self>, w: Wrap, s: &mut Stream<TestWriter>) -> Result<(), stream::Error> {
        let mut v = self.0;
        match w {
            Wrap::Ref => ser::to_stream(s, (&v, Some(&v))),
            Wrap::RefMut => ser::to_stream(s, (&mut v, None::<&T>)),
            Wrap::Box => ser::to_stream(s, (Box::new(v), None::<T>)),
            Wrap::Rc => {
                let r = Rc::new(v);
                ser::to_stream(s, (r.clone(), Some(r)))
            }
            Wrap::Arc => {
                let r = Arc::new(v);
                ser::to_stream(s, (r.clone(), Some(r)))
            }
            Wrap::Copied => {
                let r = fourleaf::adapt::Copied(v);
                ser::to_stream(s, (&r, Some(&r)))
            }
            Wrap::RefRef => ser::to_stream(s, (&&v, Some(Box::new(&v)))),
        }
    }
}
/// Dyn of the tuple written by `wrapped`.
pub fn wrapped_dyn(w: Wrap, d: Dyn) -> Dyn {
    let second = match w {
        Wrap::RefMut | Wrap::Box => None,
        _ => Some(Box::new(d.clone())),
    };
    Dyn::Tup(vec![d, Dyn::Opt(second)])
}
pub fn wrapped_schema(s: &S) -> S {
    tup_schema(vec![s.clone(), Arc::new(Schema::Opt(s.clone()))])
}

pub fn gen_inst<T: Desc + Gen + Serialize + 'static>(r: &mut Rng, budget: i64) -> Box<dyn Inst> {
    let mut b = budget;
    Box::new(Holder(T::gen(r, &mut b)))
}

pub type SliceFn = for<'a> fn(&mut SliceStream<'a>, &Config) -> Dec;
pub type ReadFn = fn(&mut ReadStream, &Config) -> Dec;
pub type ConvFn = for<'a> fn(&'a [u8], &Config) -> Dec;
pub type ConvReadFn = fn(TestReader, &Config) -> Dec;

pub type RewriteFn = for<'a> fn(&'a [u8], &Config) -> Result<Vec<u8>, String>;
pub fn rewrite_copy<'a, T: Serialize + Deserialize<TransparentCursor<&'a [u8]>, Copying>>(s: &'a [u8], c: &Config) -> Result<Vec<u8>, String> {
    let v = de::from_slice_copy::<T>(s, c).map_err(|e| e.to_string())?;
    ser::to_vec(&v).map_err(|e| e.to_string())
}
pub fn rewrite_borrow<'a, T: Serialize + Deserialize<TransparentCursor<&'a [u8]>, ZeroCopy>>(s: &'a [u8], c: &Config) -> Result<Vec<u8>, String> {
    let v = de::from_slice_borrow::<T>(s, c).map_err(|e| e.to_string())?;
    ser::to_vec(&v).map_err(|e| e.to_string())
}
/// Adds the rewrite functions to the entry registered last.
#[macro_export]
macro_rules! with_rewrite {
    ($v:ident, <$x:lifetime> $t:ty) => {{
        fn rc<$x>(s: &$x [u8], c: &$crate::Config_) -> Result<Vec<u8>, String> { $crate::rewrite_copy::<$t>(s, c) }
        fn rb<$x>(s: &$x [u8], c: &$crate::Config_) -> Result<Vec<u8>, String> { $crate::rewrite_borrow::<$t>(s, c) }
        $v.last_mut().unwrap().rewrite = Some(vec![("copying", rc), ("borrowing", rb)]);
    }}
}

pub struct Entry {
    pub name: &'static str,
    schema_fn: fn(bool) -> S,
    schemas: [OnceLock<S>; 2],
    pub heap: fn(bool) -> bool,
    pub gen: fn(&mut Rng, i64) -> Box<dyn Inst>,
    pub slice_copy: Option<SliceFn>,
    pub slice_borrow: Option<SliceFn>,
    pub reader: Option<ReadFn>,
    pub conv_copy: Option<ConvFn>,
    pub conv_borrow: Option<ConvFn>,
    pub conv_reader: Option<ConvReadFn>,
    /// decode and serialise again, in each style
    pub rewrite: Option<Vec<(&'static str, RewriteFn)>>,
}
impl Entry {
    pub fn new(
        name: &'static str,
        schema_fn: fn(bool) -> S,
        heap: fn(bool) -> bool,
        gen: fn(&mut Rng, i64) -> Box<dyn Inst>,
    ) -> Entry {
        Entry {
            name,
            schema_fn,
            schemas: [OnceLock::new(), OnceLock::new()],
            heap,
            gen,
            slice_copy: None,
            slice_borrow: None,
            reader: None,
            conv_copy: None,
            conv_borrow: None,
            conv_reader: None,
            rewrite: None,
        }
    }
    pub fn schema(&self, zc: bool) -> &S {
        self.schemas[zc as usize].get_or_init(|| (self.schema_fn)(zc))
    }
}

/// Supported styles of a type.
#[macro_export]
macro_rules! entry {
    ($v:ident, both, $n:expr, <$x:lifetime> $t:ty) => {{
        let mut e = $crate::entry!(@base $n, <$x> $t);
        $crate::entry!(@copy e, <$x> $t);
        $crate::entry!(@zc e, <$x> $t);
        $v.push(e);
    }};
    ($v:ident, copy, $n:expr, <$x:lifetime> $t:ty) => {{
        let mut e = $crate::entry!(@base $n, <$x> $t);
        $crate::entry!(@copy e, <$x> $t);
        $v.push(e);
    }};
    ($v:ident, zc, $n:expr, <$x:lifetime> $t:ty) => {{
        let mut e = $crate::entry!(@base $n, <$x> $t);
        $crate::entry!(@zc e, <$x> $t);
        $v.push(e);
    }};
    (@base $n:expr, <$x:lifetime> $t:ty) => {{
        fn sch<$x>(zc: bool) -> $crate::S_ { <$t as $crate::desc::Desc>::schema(zc) }
        fn heap<$x>(zc: bool) -> bool { <$t as $crate::desc::Desc>::heap(zc) }
        fn gen(r: &mut $crate::Rng_, b: i64) -> Box<dyn $crate::Inst> {
            $crate::entry!(@static r, b, <$x> $t)
        }
        $crate::Entry::new($n, sch, heap, gen)
    }};
    (@static $r:ident, $b:ident, <$x:lifetime> $t:ty) => {{
        trait At { type T; }
        struct L<'q>(std::marker::PhantomData<&'q ()>);
        impl<$x> At for L<$x> { type T = $t; }
        $crate::gen_inst::<<L<'static> as At>::T>($r, $b)
    }};
    (@copy $e:ident, <$x:lifetime> $t:ty) => {{
        fn sc<$x>(s: &mut $crate::SliceStream<$x>, c: &$crate::Config_) -> $crate::Dec { $crate::dec_copy::<_, $t>(s, c) }
        fn rd<$x>(s: &mut $crate::ReadStream, c: &$crate::Config_) -> $crate::Dec { $crate::dec_copy::<_, $t>(s, c) }
        fn cs<$x>(s: &$x [u8], c: &$crate::Config_) -> $crate::Dec { $crate::conv_copy::<$t>(s, c) }
        fn cr<$x>(s: $crate::TestReader_, c: &$crate::Config_) -> $crate::Dec { $crate::conv_reader::<$t>(s, c) }
        $e.slice_copy = Some(sc);
        $e.reader = Some(rd);
        $e.conv_copy = Some(cs);
        $e.conv_reader = Some(cr);
    }};
    (@zc $e:ident, <$x:lifetime> $t:ty) => {{
        fn sc<$x>(s: &mut $crate::SliceStream<$x>, c: &$crate::Config_) -> $crate::Dec { $crate::dec_borrow::<_, $t>(s, c) }
        fn cs<$x>(s: &$x [u8], c: &$crate::Config_) -> $crate::Dec { $crate::conv_borrow::<$t>(s, c) }
        $e.slice_borrow = Some(sc);
        $e.conv_borrow = Some(cs);
    }};
}
pub use flcore::io::TestReader as TestReader_;
pub use flcore::rng::Rng as Rng_;
pub use flcore::schema::S as S_;
pub use fourleaf::de::Config as Config_;

pub fn registry() -> &'static Vec<Entry> {
    static R: OnceLock<Vec<Entry>> = OnceLock::new();
    R.get_or_init(types::all)
}
