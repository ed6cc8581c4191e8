//! Schema-driven reference semantics of typed (de)serialisation, written
//! from the documentation: an encoder producing element trees and a decoder
//! interpreting arbitrary bytes.
use crate::model::*;
use crate::refparse::*;
use std::sync::Arc;

pub type S = Arc<Schema>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum SeqKind {
    List,
    Set,
    Heap,
}

pub type CheckFn = fn(&Dyn) -> bool;

#[derive(Debug)]
pub enum Schema {
    UInt(u32),
    SInt(u32),
    Bool,
    Char,
    Null,
    Str { counted: bool },
    Bytes { counted: bool },
    Unit,
    Struct(StructS),
    ByteArr(usize),
    Arr(usize, S),
    Seq(SeqKind, S),
    Opt(S),
    Map(S, S),
    /// struct with a delegating field
    Deleg(&'static str, S),
    Enum(EnumS),
    Unk { counted: bool },
    UnkF { counted: bool },
    /// recursive reference, resolved on use
    Lazy(LazyS),
}
pub struct LazyS {
    pub f: fn(bool) -> S,
    pub zc: bool,
    pub cell: std::sync::OnceLock<S>,
}
impl LazyS {
    pub fn new(f: fn(bool) -> S, zc: bool) -> LazyS {
        LazyS { f, zc, cell: std::sync::OnceLock::new() }
    }
    pub fn get(&self) -> &Schema {
        self.cell.get_or_init(|| (self.f)(self.zc))
    }
}
impl std::fmt::Debug for LazyS {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Lazy")
    }
}

#[derive(Debug)]
pub struct FieldS {
    pub tag: u8,
    pub name: &'static str,
    pub s: S,
}
pub struct StructS {
    pub fields: Vec<FieldS>,
    /// catch-all for unknown fields: name, whether its blobs are counted
    pub unk: Option<(&'static str, bool)>,
    pub check: Option<CheckFn>,
}
impl std::fmt::Debug for StructS {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?} unk={:?}", self.fields, self.unk)
    }
}
#[derive(Debug)]
pub enum BodyS {
    Struct(StructS),
    Deleg(&'static str, S),
}
#[derive(Debug)]
pub struct EnumS {
    pub variants: Vec<(u64, BodyS)>,
    pub catchall: Option<BodyS>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Dyn {
    U(u64),
    I(i64),
    B(bool),
    C(char),
    Null,
    Str(Vec<u8>),
    Bytes(Vec<u8>),
    Unit,
    Tup(Vec<Dyn>),
    Arr(Vec<Dyn>),
    Seq(SeqKind, Vec<Dyn>),
    Opt(Option<Box<Dyn>>),
    Map(Vec<(Dyn, Dyn)>),
    Enum(u64, Box<Dyn>),
    Unk(Vec<(u8, Dyn)>),
    UInt(u64),
    UBlob(Vec<u8>),
    UStruct(Vec<(u8, Dyn)>),
    UEnum(u64, Vec<(u8, Dyn)>),
}

impl Dyn {
    /// Canonical form for equality: sets/heaps/maps sorted, sets deduplicated.
    pub fn norm(&self) -> Dyn {
        fn nf(v: &[(u8, Dyn)]) -> Vec<(u8, Dyn)> {
            v.iter().map(|(t, d)| (*t, d.norm())).collect()
        }
        match self {
            Dyn::Tup(v) => Dyn::Tup(v.iter().map(Dyn::norm).collect()),
            Dyn::Arr(v) => Dyn::Arr(v.iter().map(Dyn::norm).collect()),
            Dyn::Seq(k, v) => {
                let mut v: Vec<Dyn> = v.iter().map(Dyn::norm).collect();
                if *k != SeqKind::List {
                    v.sort();
                }
                if *k == SeqKind::Set {
                    v.dedup();
                }
                Dyn::Seq(*k, v)
            }
            Dyn::Opt(o) => Dyn::Opt(o.as_ref().map(|x| Box::new(x.norm()))),
            Dyn::Map(v) => {
                // later entries win
                let mut m = std::collections::BTreeMap::new();
                for (k, v) in v {
                    m.insert(k.norm(), v.norm());
                }
                Dyn::Map(m.into_iter().collect())
            }
            Dyn::Enum(d, b) => Dyn::Enum(*d, Box::new(b.norm())),
            Dyn::Unk(v) => Dyn::Unk(nf(v)),
            Dyn::UStruct(v) => Dyn::UStruct(nf(v)),
            Dyn::UEnum(d, v) => Dyn::UEnum(*d, nf(v)),
            x => x.clone(),
        }
    }
}

pub fn tup_schema(parts: Vec<S>) -> S {
    const NAMES: [&str; 16] = [
        "field_0", "field_1", "field_2", "field_3", "field_4", "field_5", "field_6", "field_7", "field_8",
        "field_9", "field_10", "field_11", "field_12", "field_13", "field_14", "field_15",
    ];
    Arc::new(Schema::Struct(StructS {
        fields: parts
            .into_iter()
            .enumerate()
            .map(|(i, s)| FieldS { tag: i as u8 + 1, name: NAMES[i], s })
            .collect(),
        unk: None,
        check: None,
    }))
}

// ---------------------------------------------------------------- encoding

impl StructS {
    pub fn declared(&self) -> u64 {
        self.fields.iter().fold(0, |m, f| m | 1 << f.tag)
    }
    fn enc(&self, d: &Dyn) -> Body {
        let v = if let Dyn::Tup(v) = d { v } else { panic!("struct value {:?}", d) };
        let mut b = Body::new(self.declared());
        for (f, x) in self.fields.iter().zip(v) {
            f.s.enc_field(x, f.tag, &mut b);
        }
        if self.unk.is_some() {
            b.captures = true;
            if let Dyn::Unk(u) = &v[self.fields.len()] {
                enc_unk(u, &mut b);
            }
        }
        b
    }
}
fn enc_unk(u: &[(u8, Dyn)], b: &mut Body) {
    b.captures = true;
    for (t, d) in u {
        b.field(*t, enc_unkf(d));
    }
}
fn enc_unkf(d: &Dyn) -> Val {
    let sub = |v: &[(u8, Dyn)]| {
        let mut b = Body::new(0);
        enc_unk(v, &mut b);
        b
    };
    match d {
        Dyn::UInt(i) => Val::Int(*i),
        Dyn::UBlob(b) => Val::Blob(b.clone()),
        Dyn::UStruct(v) => Val::Struct(sub(v)),
        Dyn::UEnum(k, v) => Val::Enum(*k, sub(v)),
        _ => panic!("unknown value {:?}", d),
    }
}
impl BodyS {
    fn enc(&self, d: &Dyn) -> Body {
        match self {
            BodyS::Struct(s) => s.enc(d),
            BodyS::Deleg(_, s) => s.enc_body(d),
        }
    }
}

impl Schema {
    pub fn enc_body(&self, d: &Dyn) -> Body {
        match self {
            Schema::Lazy(l) => l.get().enc_body(d),
            Schema::Struct(s) => s.enc(d),
            Schema::Deleg(_, s) => s.enc_body(d),
            Schema::Unk { .. } => {
                let mut b = Body::new(0);
                if let Dyn::Unk(u) = d {
                    enc_unk(u, &mut b);
                }
                b
            }
            _ => {
                let mut b = Body::new(2);
                self.enc_field(d, 1, &mut b);
                b
            }
        }
    }
    pub fn enc_field(&self, d: &Dyn, tag: u8, b: &mut Body) {
        match (self, d) {
            (Schema::Lazy(l), _) => l.get().enc_field(d, tag, b),
            (Schema::Arr(_, s), Dyn::Arr(v)) | (Schema::Seq(_, s), Dyn::Seq(_, v)) => {
                for x in v {
                    let e = s.enc_elem(x);
                    b.field(tag, e);
                }
            }
            (Schema::Opt(s), Dyn::Opt(o)) => {
                if let Some(x) = o {
                    let e = s.enc_elem(x);
                    b.field(tag, e);
                }
            }
            (Schema::Map(k, v), Dyn::Map(m)) => {
                for (kk, vv) in m {
                    let mut e = Body::new(6);
                    k.enc_field(kk, 1, &mut e);
                    v.enc_field(vv, 2, &mut e);
                    b.field(tag, Val::Struct(e));
                }
            }
            _ => {
                let e = self.enc_elem(d);
                b.field(tag, e);
            }
        }
    }
    pub fn enc_elem(&self, d: &Dyn) -> Val {
        match (self, d) {
            (Schema::Lazy(l), _) => l.get().enc_elem(d),
            (Schema::UInt(_), Dyn::U(n)) => Val::Int(*n),
            (Schema::SInt(_), Dyn::I(n)) => Val::Int(zz(*n)),
            (Schema::Bool, Dyn::B(b)) => Val::Int(if *b { 1 } else { 0 }),
            (Schema::Char, Dyn::C(c)) => Val::Int(*c as u64),
            (Schema::Null, Dyn::Null) => Val::Int(0),
            (Schema::Str { .. }, Dyn::Str(b)) | (Schema::Bytes { .. }, Dyn::Bytes(b)) | (Schema::ByteArr(_), Dyn::Bytes(b)) => {
                Val::Blob(b.clone())
            }
            (Schema::Unit, Dyn::Unit) => Val::Struct(Body::new(2)),
            (Schema::Struct(s), _) => Val::Struct(s.enc(d)),
            (Schema::Deleg(_, s), _) => s.enc_elem(d),
            (Schema::Enum(e), Dyn::Enum(disc, x)) => {
                let b = match e.variants.iter().find(|v| v.0 == *disc) {
                    Some(v) => v.1.enc(x),
                    None => e.catchall.as_ref().expect("variant").enc(x),
                };
                Val::Enum(*disc, b)
            }
            (Schema::Unk { .. }, Dyn::Unk(_)) => Val::Struct(self.enc_body(d)),
            (Schema::UnkF { .. }, _) => enc_unkf(d),
            (Schema::Arr(..), _) | (Schema::Seq(..), _) | (Schema::Opt(..), _) | (Schema::Map(..), _) => {
                let mut b = Body::new(2);
                self.enc_field(d, 1, &mut b);
                Val::Struct(b)
            }
            _ => panic!("schema/value mismatch: {:?} vs {:?}", self, d),
        }
    }
}

// ---------------------------------------------------------------- decoding

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Limits {
    pub recursion: usize,
    pub collect: usize,
    pub blob: usize,
    pub ignore_unknown: bool,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { recursion: 32, collect: 256, blob: 65536, ignore_unknown: true }
    }
}
pub const UNLIMITED: Limits =
    Limits { recursion: 4000, collect: usize::MAX / 2, blob: usize::MAX / 2, ignore_unknown: true };

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum EKind {
    Parse(PErr),
    /// in-stream exception
    Exception,
    WrongType,
    OutOfRange,
    Recursion,
    UnknownField(u8, u64),
    UnknownVariant(u64),
    TooFew(u64),
    TooMany(u64),
    Missing,
    Invalid,
    MaxCollect,
    MaxBlob,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DErr {
    pub kind: EKind,
    /// (field name, position) from the outermost level
    pub path: Vec<(String, u64)>,
}

struct Cx<'a> {
    p: RefParser<'a, [u8]>,
    path: Vec<(String, u64)>,
    lim: Limits,
    collected: usize,
    blobs: u64,
    /// deepest nesting reached
    max_depth: usize,
    /// (offset, length) of blobs taken into the value without counting
    uncounted: Vec<(u64, u64)>,
    /// (offset, length) of blobs which are borrowed from the input
    borrowed: Vec<(u64, u64)>,
}

type R<T> = Result<T, DErr>;

#[derive(Default)]
struct Acc {
    items: Vec<Dyn>,
    pairs: Vec<(Dyn, Dyn)>,
    whole: Option<Dyn>,
    n: usize,
}

impl<'a> Cx<'a> {
    fn err<T>(&self, kind: EKind) -> R<T> {
        Err(DErr { kind, path: self.path.clone() })
    }
    fn perr<T>(&self, r: Result<T, PErr>) -> R<T> {
        r.map_err(|e| DErr { kind: EKind::Parse(e), path: self.path.clone() })
    }
    fn push(&mut self, name: &str, pos: u64) -> R<()> {
        if self.path.len() >= self.lim.recursion {
            return self.err(EKind::Recursion);
        }
        self.path.push((name.to_string(), pos));
        self.max_depth = self.max_depth.max(self.path.len());
        Ok(())
    }
    fn pop(&mut self) {
        self.path.pop();
    }
    fn collect(&mut self) -> R<()> {
        if self.collected >= self.lim.collect {
            return self.err(EKind::MaxCollect);
        }
        self.collected += 1;
        Ok(())
    }
    fn next_field(&mut self) -> R<Option<(u8, u64, u64, PVal)>> {
        let e = self.p.next_nopad();
        match self.perr(e)? {
            PEl::EndStruct | PEl::EndDoc => Ok(None),
            PEl::Exc { .. } => self.err(EKind::Exception),
            PEl::Field { tag, pos, depth, val } => Ok(Some((tag, pos, depth, val))),
            PEl::Pad => unreachable!(),
        }
    }
    fn unknown(&mut self, tag: u8, pos: u64, depth: u64, val: PVal) -> R<()> {
        if !self.lim.ignore_unknown {
            return self.err(EKind::UnknownField(tag, pos));
        }
        if let PVal::Struct | PVal::Enum(_) = val {
            let r = self.p.skip_up(depth);
            self.perr(r)?;
        }
        Ok(())
    }
    fn blob(&mut self, val: PVal, counted: bool) -> R<Vec<u8>> {
        let (start, len) = match val {
            PVal::Blob { start, len } => (start, len),
            _ => return self.err(EKind::WrongType),
        };
        if counted {
            if (self.lim.blob as u64).saturating_sub(self.blobs) < len {
                return self.err(EKind::MaxBlob);
            }
            self.blobs += len;
        }
        if start as u128 + len as u128 > self.p.src.len() as u128 {
            return self.err(EKind::Parse(PErr::TruncBlob));
        }
        if !counted {
            self.uncounted.push((start, len));
            self.borrowed.push((start, len));
        }
        Ok(self.p.src[start as usize..(start + len) as usize].to_vec())
    }
    fn struct_body(&mut self, s: &StructS) -> R<Dyn> {
        let mut accs: Vec<Acc> = s.fields.iter().map(|_| Acc::default()).collect();
        let mut unk = Vec::new();
        while let Some((tag, pos, depth, val)) = self.next_field()? {
            if let Some(i) = s.fields.iter().position(|f| f.tag == tag) {
                let f = &s.fields[i];
                self.push(f.name, pos)?;
                self.field(&f.s, &mut accs[i], val)?;
                self.pop();
            } else if let Some((_, counted)) = s.unk {
                self.unk_field(&mut unk, counted, tag, pos, val)?;
            } else {
                self.unknown(tag, pos, depth, val)?;
            }
        }
        let mut out = Vec::new();
        for (f, a) in s.fields.iter().zip(accs) {
            let pos = self.p.pos();
            self.push(f.name, pos)?;
            out.push(self.finish(&f.s, a)?);
            self.pop();
        }
        if let Some((name, _)) = s.unk {
            let pos = self.p.pos();
            self.push(name, pos)?;
            self.pop();
            out.push(Dyn::Unk(unk));
        }
        let d = Dyn::Tup(out);
        if let Some(c) = s.check {
            if !c(&d) {
                return self.err(EKind::Invalid);
            }
        }
        Ok(d)
    }
    fn unk_field(&mut self, unk: &mut Vec<(u8, Dyn)>, counted: bool, tag: u8, pos: u64, val: PVal) -> R<()> {
        self.push(&format!("{:02}", tag), pos)?;
        self.collect()?;
        let v = self.unkf(counted, val)?;
        unk.push((tag, v));
        self.pop();
        Ok(())
    }
    fn unk_body(&mut self, counted: bool) -> R<Vec<(u8, Dyn)>> {
        let mut v = Vec::new();
        while let Some((tag, pos, _, val)) = self.next_field()? {
            self.unk_field(&mut v, counted, tag, pos, val)?;
        }
        Ok(v)
    }
    fn unkf(&mut self, counted: bool, val: PVal) -> R<Dyn> {
        Ok(match val {
            PVal::Int(i) => Dyn::UInt(i),
            PVal::Blob { .. } => Dyn::UBlob(self.blob(val, counted)?),
            PVal::Struct => Dyn::UStruct(self.unk_body(counted)?),
            PVal::Enum(d) => Dyn::UEnum(d, self.unk_body(counted)?),
        })
    }
    fn wrapped(&mut self, s: &Schema) -> R<Dyn> {
        let mut acc = Acc::default();
        while let Some((tag, pos, depth, val)) = self.next_field()? {
            if tag == 1 {
                self.push("top", pos)?;
                self.field(s, &mut acc, val)?;
                self.pop();
            } else {
                self.unknown(tag, pos, depth, val)?;
            }
        }
        let pos = self.p.pos();
        self.push("top", pos)?;
        let r = self.finish(s, acc)?;
        self.pop();
        Ok(r)
    }
    fn body(&mut self, s: &Schema) -> R<Dyn> {
        match s {
            Schema::Lazy(l) => self.body(l.get()),
            Schema::Unit => {
                while let Some((tag, pos, depth, val)) = self.next_field()? {
                    if tag == 1 && !self.lim.ignore_unknown {
                        self.push("top", pos)?;
                        self.elem(s, val)?;
                        self.pop();
                    } else {
                        self.unknown(tag, pos, depth, val)?;
                    }
                }
                Ok(Dyn::Unit)
            }
            Schema::Struct(st) => self.struct_body(st),
            Schema::Deleg(name, s) => self.deleg_body(name, s),
            Schema::Unk { counted } => Ok(Dyn::Unk(self.unk_body(*counted)?)),
            _ => self.wrapped(s),
        }
    }
    fn deleg_body(&mut self, name: &str, s: &Schema) -> R<Dyn> {
        let pos = self.p.pos();
        self.push(name, pos)?;
        let d = self.body(s)?;
        self.pop();
        Ok(d)
    }
    fn enter(&mut self, val: PVal) -> R<()> {
        match val {
            PVal::Struct => Ok(()),
            _ => self.err(EKind::WrongType),
        }
    }
    fn int(&mut self, val: PVal) -> R<u64> {
        match val {
            PVal::Int(i) => Ok(i),
            _ => self.err(EKind::WrongType),
        }
    }
    fn elem(&mut self, s: &Schema, val: PVal) -> R<Dyn> {
        Ok(match s {
            Schema::Lazy(l) => self.elem(l.get(), val)?,
            Schema::UInt(bits) => {
                let n = self.int(val)?;
                if *bits < 64 && n >> bits != 0 {
                    return self.err(EKind::OutOfRange);
                }
                Dyn::U(n)
            }
            Schema::SInt(bits) => {
                let n = unzz(self.int(val)?) as i128;
                if n < -(1i128 << (bits - 1)) || n >= (1i128 << (bits - 1)) {
                    return self.err(EKind::OutOfRange);
                }
                Dyn::I(n as i64)
            }
            Schema::Bool => match self.int(val)? {
                0 => Dyn::B(false),
                1 => Dyn::B(true),
                _ => return self.err(EKind::OutOfRange),
            },
            Schema::Char => {
                let n = self.int(val)?;
                if n > u32::MAX as u64 {
                    return self.err(EKind::OutOfRange);
                }
                if n > 0x10FFFF || (0xD800..0xE000).contains(&n) {
                    return self.err(EKind::Invalid);
                }
                Dyn::C(char::from_u32(n as u32).unwrap())
            }
            Schema::Null => {
                if self.int(val)? != 0 {
                    return self.err(EKind::OutOfRange);
                }
                Dyn::Null
            }
            Schema::Str { counted } => {
                let b = self.blob(val, *counted)?;
                if std::str::from_utf8(&b).is_err() {
                    return self.err(EKind::Invalid);
                }
                Dyn::Str(b)
            }
            Schema::Bytes { counted } => Dyn::Bytes(self.blob(val, *counted)?),
            Schema::ByteArr(n) => {
                if let PVal::Blob { len, .. } = val {
                    if len != *n as u64 {
                        return self.err(EKind::Invalid);
                    }
                }
                let d = Dyn::Bytes(self.blob(val, false)?);
                self.borrowed.pop();
                d
            }
            Schema::Unit => {
                self.enter(val)?;
                while let Some((tag, pos, depth, val)) = self.next_field()? {
                    self.unknown(tag, pos, depth, val)?;
                }
                Dyn::Unit
            }
            Schema::Struct(st) => {
                self.enter(val)?;
                self.struct_body(st)?
            }
            Schema::Deleg(name, s) => {
                let pos = self.cur_field_pos();
                self.push(name, pos)?;
                let d = self.elem(s, val)?;
                self.pop();
                d
            }
            Schema::Enum(e) => {
                let d = match val {
                    PVal::Enum(d) => d,
                    _ => return self.err(EKind::WrongType),
                };
                let b = match e.variants.iter().find(|v| v.0 == d) {
                    Some(v) => &v.1,
                    None => match &e.catchall {
                        Some(b) => b,
                        None => return self.err(EKind::UnknownVariant(d)),
                    },
                };
                let x = match b {
                    BodyS::Struct(s) => self.struct_body(s)?,
                    BodyS::Deleg(n, s) => self.deleg_body(n, s)?,
                };
                Dyn::Enum(d, Box::new(x))
            }
            Schema::Unk { counted } => {
                self.enter(val)?;
                Dyn::Unk(self.unk_body(*counted)?)
            }
            Schema::UnkF { counted } => self.unkf(*counted, val)?,
            Schema::Arr(..) | Schema::Seq(..) | Schema::Opt(..) | Schema::Map(..) => {
                self.enter(val)?;
                self.wrapped(s)?
            }
        })
    }
    /// Position of the field whose value is being decoded: the innermost
    /// level of the path always carries it.
    fn cur_field_pos(&self) -> u64 {
        self.path.last().map(|p| p.1).unwrap_or(0)
    }
    fn field(&mut self, s: &Schema, a: &mut Acc, val: PVal) -> R<()> {
        match s {
            Schema::Lazy(l) => return self.field(l.get(), a, val),
            Schema::Arr(n, s) => {
                if a.items.len() >= *n {
                    return self.err(EKind::TooMany(*n as u64));
                }
                let e = self.elem(s, val)?;
                a.items.push(e);
            }
            Schema::Seq(_, s) => {
                self.collect()?;
                let e = self.elem(s, val)?;
                a.items.push(e);
            }
            Schema::Opt(s) => {
                if a.whole.is_some() {
                    return self.err(EKind::TooMany(1));
                }
                a.whole = Some(self.elem(s, val)?);
            }
            Schema::Map(k, v) => {
                self.collect()?;
                self.enter(val)?;
                // entries decode like a pair
                let mut ka = Acc::default();
                let mut va = Acc::default();
                while let Some((tag, pos, depth, val)) = self.next_field()? {
                    match tag {
                        1 => {
                            self.push("field_0", pos)?;
                            self.field(k, &mut ka, val)?;
                            self.pop();
                        }
                        2 => {
                            self.push("field_1", pos)?;
                            self.field(v, &mut va, val)?;
                            self.pop();
                        }
                        _ => self.unknown(tag, pos, depth, val)?,
                    }
                }
                let pos = self.p.pos();
                self.push("field_0", pos)?;
                let kd = self.finish(k, ka)?;
                self.pop();
                self.push("field_1", pos)?;
                let vd = self.finish(v, va)?;
                self.pop();
                a.pairs.push((kd, vd));
            }
            _ => {
                if a.whole.is_some() {
                    return self.err(EKind::TooMany(1));
                }
                a.whole = Some(self.elem(s, val)?);
            }
        }
        a.n += 1;
        Ok(())
    }
    fn finish(&mut self, s: &Schema, a: Acc) -> R<Dyn> {
        Ok(match s {
            Schema::Lazy(l) => self.finish(l.get(), a)?,
            Schema::Arr(n, _) => {
                if a.items.len() < *n {
                    if a.items.is_empty() {
                        return self.err(EKind::Missing);
                    }
                    return self.err(EKind::TooFew(*n as u64));
                }
                Dyn::Arr(a.items)
            }
            Schema::Seq(k, _) => Dyn::Seq(*k, a.items),
            Schema::Opt(_) => Dyn::Opt(a.whole.map(Box::new)),
            Schema::Map(..) => Dyn::Map(a.pairs),
            Schema::ByteArr(0) => Dyn::Bytes(vec![]),
            _ => match a.whole {
                Some(d) => d,
                None => return self.err(EKind::Missing),
            },
        })
    }
}

/// What decoding required, for exact-limit checks.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Need {
    pub depth: usize,
    pub collected: usize,
    pub blobs: u64,
}

pub struct RefOut {
    pub res: Result<(Dyn, u64), DErr>,
    pub need: Need,
    pub eof: bool,
    pub uncounted: Vec<(u64, u64)>,
    pub borrowed: Vec<(u64, u64)>,
}

/// Interprets `bytes` as a top-level value of type `s`.
/// `base` is the logical starting position.
pub fn ref_decode_at(s: &Schema, bytes: &[u8], lim: Limits, base: u64, graceful: bool) -> RefOut {
    let mut p = RefParser::new(bytes);
    p.base = base;
    p.graceful = graceful;
    let mut cx = Cx { p, path: vec![], lim, collected: 0, blobs: 0, max_depth: 0, uncounted: vec![], borrowed: vec![] };
    let r = cx.body(s);
    let need = Need { depth: cx.max_depth, collected: cx.collected, blobs: cx.blobs };
    let pos = cx.p.pos();
    RefOut { res: r.map(|d| (d, pos)), need, eof: cx.p.eof, uncounted: std::mem::take(&mut cx.uncounted), borrowed: std::mem::take(&mut cx.borrowed) }
}
pub fn ref_decode(s: &Schema, bytes: &[u8], lim: Limits) -> RefOut {
    ref_decode_at(s, bytes, lim, 0, false)
}
