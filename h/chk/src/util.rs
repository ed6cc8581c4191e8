//! Shared machinery of the checks over typed values.
use flcore::alloc::AllocStat;
use flcore::io::*;
use flcore::model::*;
use flcore::rng::Rng;
use flcore::runner::*;
use flcore::schema::*;
use flreg::{registry, Dec, Entry, ErrInfo, Inst, Kind};
use fourleaf::de::Config;
use fourleaf::stream::Stream;

pub fn cfg(l: &Limits) -> Config {
    let mut c = Config::default();
    c.recursion_limit = l.recursion;
    c.max_collect = l.collect;
    c.max_blob = l.blob;
    c.ignore_unknown_fields = l.ignore_unknown;
    c
}
/// Limits no generated message exceeds.
/// More than anything needs.
pub const HUGE: usize = if usize::BITS > 32 { (1u64 << 40) as usize } else { 1 << 30 };
pub const ROOMY: Limits = Limits { recursion: 400, collect: HUGE, blob: HUGE, ignore_unknown: true };

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    SliceCopy,
    SliceBorrow,
    SeekReader,
    PlainReader,
    ConvCopy,
    ConvBorrow,
    ConvReader,
}
pub const MODES: [Mode; 7] = [
    Mode::SliceCopy,
    Mode::SliceBorrow,
    Mode::SeekReader,
    Mode::PlainReader,
    Mode::ConvCopy,
    Mode::ConvBorrow,
    Mode::ConvReader,
];
/// Modes giving access to the stream.
pub const SMODES: [Mode; 4] = [Mode::SliceCopy, Mode::SliceBorrow, Mode::SeekReader, Mode::PlainReader];
impl Mode {
    pub fn zc(self) -> bool {
        matches!(self, Mode::SliceBorrow | Mode::ConvBorrow)
    }
    pub fn has_stream(self) -> bool {
        SMODES.contains(&self)
    }
    pub fn ok(self, e: &Entry) -> bool {
        match self {
            Mode::SliceCopy => e.slice_copy.is_some(),
            Mode::SliceBorrow => e.slice_borrow.is_some(),
            Mode::SeekReader | Mode::PlainReader => e.reader.is_some(),
            Mode::ConvCopy => e.conv_copy.is_some(),
            Mode::ConvBorrow => e.conv_borrow.is_some(),
            Mode::ConvReader => e.conv_reader.is_some(),
        }
    }
}

#[derive(Clone, Default)]
pub struct Opt {
    pub base: u64,
    pub graceful: bool,
    pub plan: Plan,
}
/// Everything observed about one decoding call.
pub struct Out {
    pub dec: Dec,
    /// stream position, if there is a stream
    pub pos: Option<u64>,
    /// position of the underlying reader
    pub inner: Option<u64>,
    pub eof: Option<bool>,
    pub io: Option<(u64, u64, u64, u64)>,
}
impl Out {
    pub fn norm(&self) -> Option<Dyn> {
        self.dec.norm()
    }
    pub fn err(&self) -> Option<&ErrInfo> {
        self.dec.res.as_ref().err()
    }
    pub fn stat(&self) -> &AllocStat {
        &self.dec.stat
    }
    pub fn show(&self) -> String {
        match &self.dec.res {
            Ok(v) => format!("Ok({}) at {:?}/{:?}", short(&v.dyn_), self.pos, self.inner),
            Err(e) => format!("Err({:?}: {})", e.kind, e.display),
        }
    }
}
pub fn short<T: std::fmt::Debug>(d: &T) -> String {
    let s = format!("{:?}", d);
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        format!("{}..", &s[..n])
    } else {
        s
    }
}
pub fn decode(e: &Entry, m: Mode, bytes: &[u8], c: &Config, o: &Opt) -> Out {
    match m {
        Mode::SliceCopy | Mode::SliceBorrow => {
            let mut s = Stream::from_slice(bytes);
            s.set_pos(o.base);
            s.set_graceful_eof(o.graceful);
            let f = if m == Mode::SliceCopy { e.slice_copy } else { e.slice_borrow }.unwrap();
            let dec = f(&mut s, c);
            Out { dec, pos: Some(s.pos()), inner: Some(s.get_ref().0.position()), eof: Some(s.eof()), io: None }
        }
        Mode::SeekReader | Mode::PlainReader => {
            let r = TestReader::with(bytes, o.plan.clone());
            let mut s = if m == Mode::SeekReader { Stream::new_seek(r.clone()) } else { Stream::new(r.clone()) };
            s.set_pos(o.base);
            s.set_graceful_eof(o.graceful);
            let dec = (e.reader.unwrap())(&mut s, c);
            let st = r.0.borrow();
            Out {
                dec,
                pos: Some(s.pos()),
                inner: Some(st.pos),
                eof: Some(s.eof()),
                io: Some((st.calls, st.zero_reads, st.seeks, st.high)),
            }
        }
        Mode::ConvCopy => Out { dec: (e.conv_copy.unwrap())(bytes, c), pos: None, inner: None, eof: None, io: None },
        Mode::ConvBorrow => Out { dec: (e.conv_borrow.unwrap())(bytes, c), pos: None, inner: None, eof: None, io: None },
        Mode::ConvReader => {
            let r = TestReader::with(bytes, o.plan.clone());
            let dec = (e.conv_reader.unwrap())(r.clone(), c);
            let st = r.0.borrow();
            Out { dec, pos: None, inner: Some(st.pos), eof: None, io: Some((st.calls, st.zero_reads, st.seeks, st.high)) }
        }
    }
}

/// A generated message of a registered type.
pub struct Msg {
    pub e: &'static Entry,
    pub inst: Box<dyn Inst>,
    pub d: Dyn,
    pub tree: Body,
    pub bytes: Vec<u8>,
}
pub fn entry_at(i: u64) -> &'static Entry {
    let r = registry();
    &r[(i % r.len() as u64) as usize]
}
pub fn gen_for(e: &'static Entry, r: &mut Rng) -> Msg {
    let budget = match r.below(8) {
        0 => 0,
        1 | 2 => 10,
        3..=6 => 60,
        _ => 300,
    };
    let inst = (e.gen)(r, budget);
    let d = inst.dyn_();
    let tree = e.schema(false).enc_body(&d);
    let bytes = encode(&tree);
    Msg { e, inst, d, tree, bytes }
}
/// Message of the type with index `idx`: walks the registry first, then
/// repeats in a shuffled manner so that every type keeps being covered.
pub fn gen_msg(cx: &mut Ctx) -> Msg {
    let e = entry_at(cx.idx);
    gen_for(e, &mut cx.rng)
}

/// Compares a decoding outcome with what the reference says; error kinds are
/// not compared.
pub fn agree(o: &Out, r: &RefOut, base: u64) -> Result<(), String> {
    match (&o.dec.res, &r.res) {
        (Ok(v), Ok((d, p))) => {
            let (a, b) = (v.dyn_.norm(), d.norm());
            if a != b {
                return Err(format!("value {} but the format prescribes {}", short(&a), short(&b)));
            }
            if let Some(q) = o.pos {
                if q != *p {
                    return Err(format!("stream position {} but the format prescribes {}", q, p));
                }
            }
            if let Some(q) = o.inner {
                if q != p.wrapping_sub(base) {
                    return Err(format!("reader position {} but the format prescribes {}", q, p.wrapping_sub(base)));
                }
            }
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(v), Err(e)) => Err(format!("accepted as {} but the format prescribes {:?}", short(&v.dyn_), e)),
        (Err(e), Ok((d, _))) => Err(format!("refused with {:?} ({}) but the format prescribes {}", e.kind, e.display, short(d))),
    }
}
pub fn expected_wo(path: &[(String, u64)]) -> String {
    let mut s = String::from("{0}");
    for (n, p) in path {
        s.push_str(&format!(".{}{{{}}}", n, p));
    }
    s
}
/// Eof and truncated blobs are both "the input ends too early".
pub fn class(k: Kind) -> Kind {
    use flcore::refparse::PErr;
    match k {
        Kind::Ref(EKind::Parse(PErr::TruncBlob)) => Kind::Ref(EKind::Parse(PErr::Eof)),
        k => k,
    }
}
pub fn is_trunc(k: Kind) -> bool {
    use flcore::refparse::PErr;
    class(k) == Kind::Ref(EKind::Parse(PErr::Eof))
}
pub fn describe(m: &Msg) -> String {
    format!("{} value {} bytes {}", m.e.name, short(&m.d), hex(&m.bytes))
}

// ------------------------------------------------------------ hostile bytes

/// Random but structured bytes: descriptors with small tags, nested bodies,
/// odd integers, inconsistent lengths.
pub fn structured(r: &mut Rng, budget: usize) -> Vec<u8> {
    let mut o = Vec::new();
    let n = 1 + r.usz(budget.max(1));
    let mut depth = 1i32;
    for _ in 0..n {
        let tag = if r.chance(3, 4) { 1 + r.below(4) as u8 } else { rand_tag(r) };
        match r.below(20) {
            0..=5 => {
                o.push(T_INT | tag);
                let v = if r.chance(1, 2) { r.below(3) } else { r.int() };
                let wide = if r.chance(1, 6) { 260 } else { 12 };
                let extra = if r.chance(1, 8) { 1 + r.below(wide) as usize } else { 0 };
                varint_padded(&mut o, v, extra);
            }
            6..=9 => {
                o.push(T_BLOB | tag);
                let l = r.size(40);
                let decl = if r.chance(1, 20) { r.int() } else { l as u64 };
                varint_padded(&mut o, decl, if r.chance(1, 12) { 1 + r.usz(5) } else { 0 });
                if r.chance(1, 2) {
                    o.extend((0..l).map(|_| b'a' + r.below(26) as u8));
                } else {
                    o.extend(blob_bytes(r, l));
                }
            }
            10..=12 => {
                o.push(T_STRUCT | tag);
                depth += 1;
            }
            13 | 14 => {
                o.push(T_ENUM | tag);
                let d = if r.chance(3, 4) { r.below(7) } else { r.int() };
                varint(&mut o, d);
                depth += 1;
            }
            15..=17 => {
                if depth > 0 {
                    o.push(END_STRUCT);
                    depth -= 1;
                }
            }
            18 => o.push(PADDING),
            _ => match r.below(6) {
                0 => o.push(END_DOC),
                1 => {
                    o.push(EXCEPTION);
                    let l = r.size(30);
                    varint(&mut o, l as u64);
                    o.extend(r.bytes(l));
                }
                2 => o.extend(r.bytes(1)),
                _ => o.push(PADDING),
            },
        }
    }
    for _ in 0..depth.max(0) {
        o.push(END_STRUCT);
    }
    o
}

/// Changes a random spot of a message tree.
pub fn mutate_tree(b: &mut Body, r: &mut Rng) {
    // choose a body uniformly
    let n = {
        let mut n = 0u64;
        b.visit_mut(&mut |_| n += 1);
        n
    };
    let k = r.below(n);
    let mut i = 0;
    let mut f = r.fork();
    b.visit_mut(&mut |b| {
        if i == k {
            mutate_body(b, &mut f);
        }
        i += 1;
    });
}
fn mutate_body(b: &mut Body, r: &mut Rng) {
    let len = b.nodes.len();
    if len == 0 {
        let v = rand_val(r, 2);
        b.field(rand_tag(r), v);
        return;
    }
    let i = r.usz(len);
    match r.below(12) {
        0 => {
            b.nodes.remove(i);
        }
        1 => {
            let n = b.nodes[i].clone();
            b.nodes.insert(r.usz(len + 1), n);
        }
        2 => {
            if let Node::Field(t, _) = &mut b.nodes[i] {
                *t = if r.chance(1, 2) { rand_tag(r) } else { (*t % 63) + 1 };
            }
        }
        3 => {
            let j = r.usz(len);
            b.nodes.swap(i, j);
        }
        4 => {
            let v = rand_val(r, 2);
            if let Node::Field(_, x) = &mut b.nodes[i] {
                *x = v;
            }
        }
        5 => {
            let v = rand_val(r, 2);
            b.nodes.insert(i, Node::Field(rand_tag(r), v));
        }
        6 => b.nodes.insert(i, Node::Pad),
        7 => {
            let l = r.size(300);
            let d = r.bytes(l);
            if r.chance(1, 4) {
                b.nodes.insert(i, Node::Exc(d))
            }
        }
        _ => {
            if let Node::Field(_, v) = &mut b.nodes[i] {
                mutate_val(v, r);
            }
        }
    }
}
fn mutate_val(v: &mut Val, r: &mut Rng) {
    match v {
        Val::Int(n) => {
            *n = match r.below(6) {
                0 => n.wrapping_add(1),
                1 => n.wrapping_sub(1),
                2 => n.wrapping_mul(256),
                3 => *n ^ (1 << r.below(64)),
                _ => r.int(),
            }
        }
        Val::Blob(d) => match r.below(6) {
            0 => {
                d.pop();
            }
            1 => d.push(r.u64() as u8),
            2 if !d.is_empty() => {
                let i = r.usz(d.len());
                d[i] ^= 1 << r.below(8);
            }
            3 if !d.is_empty() => {
                let i = r.usz(d.len());
                d[i] = *r.pick(&[0x80, 0xC0, 0xC1, 0xE0, 0xED, 0xF4, 0xF5, 0xFF]);
            }
            4 => d.clear(),
            _ => {
                let n = r.size(80);
                *d = r.bytes(n);
            }
        },
        Val::Struct(b) => {
            let b = std::mem::take(b);
            *v = match r.below(3) {
                0 => Val::Enum(r.below(8), b),
                1 => Val::Struct(Body { nodes: vec![], ..b }),
                _ => Val::Int(r.below(3)),
            };
        }
        Val::Enum(d, b) => {
            let b = std::mem::take(b);
            let d = *d;
            *v = match r.below(4) {
                0 => Val::Struct(b),
                1 => Val::Enum(d.wrapping_add(1), b),
                2 => Val::Enum(r.int(), b),
                _ => Val::Enum(d, Body { nodes: vec![], ..b }),
            };
        }
    }
}
/// Byte-level damage.
pub fn mutate_bytes(b: &mut Vec<u8>, r: &mut Rng) {
    for _ in 0..1 + r.below(3) {
        if b.is_empty() {
            b.push(r.u64() as u8);
            continue;
        }
        let i = r.usz(b.len());
        match r.below(8) {
            0 => b[i] = r.u64() as u8,
            1 => b[i] ^= 1 << r.below(8),
            2 => {
                b.remove(i);
            }
            3 => b.insert(i, *r.pick(&[0u8, 0x40, 0x80, 0xC0, 0xFF, 0x41, 0x81, 0xC1, 1])),
            4 => b.truncate(i),
            5 => {
                let j = r.usz(b.len());
                let (a, z) = (i.min(j), i.max(j));
                let c: Vec<u8> = b[a..z.min(a + 40)].to_vec();
                let at = r.usz(b.len());
                b.splice(at..at, c);
            }
            6 => {
                let j = (i + 1 + r.usz(9)).min(b.len());
                b.drain(i..j);
            }
            _ => b[i] = b[i].wrapping_add(1),
        }
    }
}

/// Bytes to be decoded as type `e`: valid, equivalent, damaged or garbage.
pub fn hostile(e: &'static Entry, r: &mut Rng) -> Vec<u8> {
    match r.below(16) {
        0 => {
            let k = 2 + r.usz(30);
            structured(r, k)
        }
        1 => {
            let n = r.size(60);
            r.bytes(n)
        }
        2 => {
            // another type's message
            let o = entry_at(r.u64());
            let mut b = gen_for(o, r).bytes;
            b.truncate(4000);
            b
        }
        k => {
            let mut m = gen_for(e, r);
            if k >= 4 {
                for _ in 0..1 + r.below(3) {
                    if r.chance(2, 3) {
                        mutate_tree(&mut m.tree, r);
                    }
                }
            }
            if r.chance(1, 4) {
                insert_unknown(&mut m.tree, r, 40);
            }
            if r.chance(1, 4) {
                reorder(&mut m.tree, r);
            }
            let mut b = if r.chance(1, 8) {
                end_doc_variant(&m.tree)
            } else {
                let (dn, pd) = if r.chance(1, 3) { (60, 30) } else { (0, 0) };
                let mut f = r.fork();
                let mut st = Style { rng: Some(&mut f), denorm: dn, pad: pd, marks: None };
                encode_styled(&m.tree, &mut st)
            };
            if k >= 11 {
                mutate_bytes(&mut b, r);
            }
            if r.chance(1, 3) {
                let n = r.size(20);
                b.extend(r.bytes(n));
            }
            b
        }
    }
}
pub fn rand_limits(r: &mut Rng) -> Limits {
    let pick = |r: &mut Rng, def: usize| match r.below(5) {
        0 => r.below(6) as usize,
        1 => r.below(40) as usize,
        2 => def,
        _ => HUGE,
    };
    Limits {
        recursion: pick(r, 32).min(300),
        collect: pick(r, 256),
        blob: pick(r, 65536),
        ignore_unknown: r.chance(2, 3),
    }
}
