//! Writing at the element level: scripts of write operations against a model.
use crate::read::*;
use flcore::ensure;
use flcore::io::*;
use flcore::model::*;
use flcore::refparse::*;
use flcore::rng::Rng;
use flcore::runner::*;
use fourleaf::io::TransparentCursor;
use fourleaf::stream::{self, Blob, Stream};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

pub trait Wr: Write + Sized {
    const NAME: &'static str;
    fn data(&self) -> Vec<u8>;
    fn at(&self) -> u64;
    fn dynamic<'d>(_: &'d mut Stream<Self>, _: Option<u8>) -> Option<stream::Result<Blob<'d, Self>>> {
        None
    }
    fn seek(_: &mut Blob<Self>, _: SeekFrom) -> Option<io::Result<u64>> {
        None
    }
    fn read(_: &mut Blob<Self>, _: &mut [u8]) -> Option<io::Result<usize>> {
        None
    }
    /// reads everything back through the same stream
    fn readback(_: &mut Stream<Self>, _: u64, _: &mut Rng, _: &mut Stats) -> Case {
        Ok(())
    }
}
macro_rules! seekable {
    () => {
        fn dynamic<'d>(s: &'d mut Stream<Self>, tag: Option<u8>) -> Option<stream::Result<Blob<'d, Self>>> {
            Some(match tag {
                Some(t) => s.write_blob_dynamic(t),
                None => s.write_exception_dynamic(),
            })
        }
        fn seek(b: &mut Blob<Self>, w: SeekFrom) -> Option<io::Result<u64>> {
            Some(b.seek(w))
        }
        fn read(b: &mut Blob<Self>, buf: &mut [u8]) -> Option<io::Result<usize>> {
            Some(Read::read(b, buf))
        }
        fn readback(s: &mut Stream<Self>, from: u64, r: &mut Rng, st: &mut Stats) -> Case {
            readback(s, from, r, st)
        }
    };
}
impl Wr for TestWriter {
    const NAME: &'static str = "test writer";
    fn data(&self) -> Vec<u8> {
        TestWriter::data(self)
    }
    fn at(&self) -> u64 {
        self.0.borrow().pos
    }
    seekable!();
}
impl Wr for Cursor<Vec<u8>> {
    const NAME: &'static str = "cursor";
    fn data(&self) -> Vec<u8> {
        self.get_ref().clone()
    }
    fn at(&self) -> u64 {
        self.position()
    }
    seekable!();
}
impl Wr for TransparentCursor<Vec<u8>> {
    const NAME: &'static str = "transparent cursor";
    fn data(&self) -> Vec<u8> {
        self.0.get_ref().clone()
    }
    fn at(&self) -> u64 {
        self.0.position()
    }
    seekable!();
}
impl Wr for Vec<u8> {
    const NAME: &'static str = "vector";
    fn data(&self) -> Vec<u8> {
        self.clone()
    }
    fn at(&self) -> u64 {
        self.len() as u64
    }
}
fn readback<W: Wr + Read + Seek>(s: &mut Stream<W>, from: u64, r: &mut Rng, st: &mut Stats) -> Case {
    s.clear_eof();
    if let Err(e) = s.seek(SeekFrom::Start(from)) {
        return fail("readback", format!("seek to the start failed: {}", e));
    }
    let data = s.get_ref().data();
    let mut rp = RefParser::new(&data[..]);
    rp.off = from;
    let mut budget = 3000;
    // one pass with plain elements; blobs are read or left alone
    loop {
        budget -= 1;
        if budget == 0 {
            return Ok(());
        }
        ensure!(s.pos() == rp.pos() && s.struct_depth() == rp.depth, "readback", "at {} depth {} instead of {} depth {}", s.pos(), s.struct_depth(), rp.pos(), rp.depth);
        let w = rp.next();
        let g = s.next_element();
        st.elements += 1;
        let shown = show_el(&g);
        match (g, w) {
            (Ok(stream::Element::EndOfDoc), Ok(PEl::EndDoc)) => {
                s.clear_eof();
                rp.eof = false;
            }
            (Ok(stream::Element::EndOfStruct), Ok(PEl::EndStruct)) | (Ok(stream::Element::Padding), Ok(PEl::Pad)) => (),
            (Ok(stream::Element::Exception(mut b)), Ok(PEl::Exc { start, len })) => blob_back(&mut b, &data, start, len, &mut rp, r)?,
            (Ok(stream::Element::Field(f)), Ok(PEl::Field { tag, pos, depth, val })) => {
                ensure!((f.tag, f.pos, f.depth) == (tag, pos, depth), "readback", "{} instead of {:?}", shown, w);
                match (f.value, val) {
                    (stream::Value::Integer(a), PVal::Int(b)) if a == b => (),
                    (stream::Value::Enum(a, _), PVal::Enum(b)) if a == b => (),
                    (stream::Value::Struct(_), PVal::Struct) => (),
                    (stream::Value::Blob(mut b), PVal::Blob { start, len }) => blob_back(&mut b, &data, start, len, &mut rp, r)?,
                    _ => return fail("readback", format!("{} instead of {:?}", shown, w)),
                }
            }
            (Err(_), Err(_)) => return Ok(()),
            _ => return fail("readback", format!("{} instead of {:?}", shown, w)),
        }
    }
}
fn blob_back<W: Wr + Read>(b: &mut Blob<W>, data: &[u8], start: u64, len: u64, rp: &mut RefParser<[u8]>, r: &mut Rng) -> Case {
    ensure!(b.len() == len, "readback", "blob of {} instead of {}", b.len(), len);
    if r.chance(1, 2) && start + len <= data.len() as u64 {
        match b.read_fully(usize::max_value()) {
            Ok(d) => ensure!(d[..] == data[start as usize..(start + len) as usize], "readback", "blob content {} wrong", hex(&d)),
            Err(e) => return fail("readback", format!("blob: {}", e)),
        }
        rp.off = start + len;
    }
    Ok(())
}

// ------------------------------------------------------------------ the model

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Data,
    Alloc,
    Dynamic,
}
#[derive(Clone, Debug)]
pub enum BOp {
    /// write this at the current place (the implementation may take less)
    Write(Vec<u8>),
    WriteAll(Vec<u8>),
    Seek(SeekFrom),
    /// read back up to so many bytes
    Read(usize),
    Flush,
    /// write to the file itself, then tell the stream
    Direct(Vec<u8>),
    /// claim a position no blob can end at, then try this operation
    Misplace(bool, u64, u64),
    Meta,
}
#[derive(Clone, Debug)]
pub enum WOp {
    Int(u8, u64, u8),
    Struct(u8),
    Enum(u8, u64),
    EndStruct,
    EndDoc,
    Pad,
    Align(u64),
    Commit,
    Blob { tag: Option<u8>, mode: Mode, init: Vec<u8>, len: u64, script: Vec<BOp> },
}

/// The file underneath and where the stream is in it.
#[derive(Clone, Debug)]
pub struct Model {
    pub data: Vec<u8>,
    pub off: u64,
    pub base: u64,
    /// bytes left unwritten in the open fixed-length blob
    pub missing: u64,
}
impl Model {
    pub fn put(&mut self, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let p = self.off as usize;
        if self.data.len() < p {
            self.data.resize(p, 0);
        }
        let over = b.len().min(self.data.len() - p);
        self.data[p..p + over].copy_from_slice(&b[..over]);
        self.data.extend_from_slice(&b[over..]);
        self.off += b.len() as u64;
    }
    pub fn pos(&self) -> u64 {
        self.base.wrapping_add(self.off)
    }
}

pub fn int_op(w: &WOp) -> u64 {
    match *w {
        WOp::Int(_, n, k) => match k {
            1 => n as u8 as u64,
            2 => zz(n as i8 as i64),
            3 => n as u16 as u64,
            4 => zz(n as i16 as i64),
            5 => n as u32 as u64,
            6 => zz(n as i32 as i64),
            7 => zz(n as i64),
            8 => zz(n as isize as i64),
            11 => n as usize as u64,
            9 => (n & 1) as u64,
            10 => 0,
            _ => n,
        },
        _ => 0,
    }
}
fn do_int<W: Write>(s: &mut Stream<W>, tag: u8, n: u64, k: u8) -> stream::Result<()> {
    match k {
        1 => s.write_u8(tag, n as u8),
        2 => s.write_i8(tag, n as i8),
        3 => s.write_u16(tag, n as u16),
        4 => s.write_i16(tag, n as i16),
        5 => s.write_u32(tag, n as u32),
        6 => s.write_i32(tag, n as i32),
        7 => s.write_i64(tag, n as i64),
        8 => s.write_isize(tag, n as isize),
        9 => s.write_bool(tag, n & 1 == 1),
        10 => s.write_null(tag),
        11 => s.write_usize(tag, n as usize),
        _ => s.write_u64(tag, n),
    }
}

/// The same operations for the model alone, where nothing depends on how much
/// single writes accept. Returns false for scripts it cannot predict.
pub fn model_op(m: &mut Model, op: &WOp) -> bool {
    match op {
        WOp::Int(t, ..) => {
            let mut b = vec![T_INT | t];
            varint(&mut b, int_op(op));
            m.put(&b);
        }
        WOp::Struct(t) => m.put(&[T_STRUCT | t]),
        WOp::Enum(t, d) => {
            let mut b = vec![T_ENUM | t];
            varint(&mut b, *d);
            m.put(&b);
        }
        WOp::EndStruct => m.put(&[END_STRUCT]),
        WOp::EndDoc => m.put(&[END_DOC]),
        WOp::Pad => m.put(&[PADDING]),
        WOp::Align(a) => {
            while m.pos() % a != 0 {
                m.put(&[PADDING]);
            }
        }
        WOp::Commit => (),
        WOp::Blob { tag, mode, init, len, script } => {
            if !script.is_empty() && !(script.len() == 1 && matches!(script[0], BOp::WriteAll(_))) {
                return false;
            }
            m.put(&[tag.map_or(EXCEPTION, |t| T_BLOB | t)]);
            let body: &[u8] = match script.first() {
                Some(BOp::WriteAll(d)) => d,
                _ => init,
            };
            let mut h = Vec::new();
            match mode {
                Mode::Dynamic => {
                    let n = body.len() as u64;
                    let k = varint_len(n);
                    varint_padded(&mut h, n, 10 - k);
                }
                _ => varint(&mut h, *len),
            }
            m.put(&h);
            m.put(body);
        }
    }
    true
}

#[derive(Default, Debug)]
pub struct WStats {
    pub ops: u64,
    pub blobs: u64,
    pub blob_ops: u64,
    pub incomplete: u64,
    pub refused_seeks: u64,
    pub misplaced: u64,
    pub short_writes: u64,
    pub read: Stats,
}
impl WStats {
    pub fn put(&self, cx: &mut Ctx) {
        cx.count("write_operations_compared", self.ops);
        cx.count("blobs_written", self.blobs);
        cx.count("blob_operations_compared", self.blob_ops);
        cx.count("incomplete_blobs_reported", self.incomplete);
        cx.count("out_of_blob_seeks_refused", self.refused_seeks);
        cx.count("misplaced_dynamic_blobs_refused", self.misplaced);
        cx.count("writes_cut_at_the_end_of_a_blob", self.short_writes);
        cx.count("elements_read_back", self.read.elements);
    }
}
fn retry<T, F: FnMut() -> io::Result<T>>(mut f: F) -> io::Result<T> {
    loop {
        match f() {
            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
            x => return x,
        }
    }
}
macro_rules! okay {
    ($e:expr, $sig:expr, $($f:tt)*) => {
        match $e {
            Ok(x) => x,
            Err(e) => return fail($sig, format!("{}: {}", format!($($f)*), e)),
        }
    };
}

/// Applies `op` to the stream and to the model, comparing after every step.
pub fn apply<W: Wr>(s: &mut Stream<W>, m: &mut Model, op: &WOp, st: &mut WStats) -> Case {
    st.ops += 1;
    match op {
        WOp::Int(t, n, k) => okay!(do_int(s, *t, *n, *k), "write", "{:?} failed", op),
        WOp::Struct(t) => okay!(s.write_struct(*t), "write", "{:?} failed", op),
        WOp::Enum(t, d) => okay!(s.write_enum(*t, *d), "write", "{:?} failed", op),
        WOp::EndStruct => okay!(s.write_end_struct(), "write", "{:?} failed", op),
        WOp::EndDoc => okay!(s.write_end_doc(), "write", "{:?} failed", op),
        WOp::Pad => okay!(s.write_padding(), "write", "{:?} failed", op),
        WOp::Align(a) => okay!(s.pad_to_align(*a), "write", "{:?} failed", op),
        WOp::Commit => okay!(s.commit(), "write", "{:?} failed", op),
        WOp::Blob { tag, mode, init, len, script } => {
            st.blobs += 1;
            return blob(s, m, *tag, *mode, init, *len, script, st);
        }
    }
    model_op(m, op);
    check(s, m, op)
}
fn check<W: Wr>(s: &Stream<W>, m: &Model, op: &WOp) -> Case {
    ensure!(s.pos() == m.pos(), "write-position", "after {:?} at {} instead of {}", op, s.pos(), m.pos());
    ensure!(s.get_ref().at() == m.off, "write-position", "after {:?} writer at {} instead of {}", op, s.get_ref().at(), m.off);
    let d = s.get_ref().data();
    ensure!(d == m.data, "write-bytes", "after {:?} the output is {} instead of {}", op, hex(&d), hex(&m.data));
    Ok(())
}
fn blob<W: Wr>(s: &mut Stream<W>, m: &mut Model, tag: Option<u8>, mode: Mode, init: &[u8], len: u64, script: &[BOp], st: &mut WStats) -> Case {
    let hdr_at = m.off;
    let mut h = vec![tag.map_or(EXCEPTION, |t| T_BLOB | t)];
    let (mut b, start, cap) = match mode {
        Mode::Dynamic => {
            let b = match W::dynamic(s, tag) {
                None => return Ok(()),
                Some(b) => okay!(b, "write", "dynamic blob failed"),
            };
            h.extend_from_slice(&[0; 10]);
            m.put(&h);
            let cap = u64::MAX - m.pos();
            (b, m.off, cap)
        }
        Mode::Alloc => {
            let b = match tag {
                Some(t) => s.write_blob_alloc(t, len),
                None => s.write_exception_alloc(len),
            };
            varint(&mut h, len);
            m.put(&h);
            (okay!(b, "write", "blob of {} failed", len), m.off, len)
        }
        Mode::Data => {
            let b = match tag {
                Some(t) => s.write_blob_data(t, init),
                None => s.write_exception_data(init),
            };
            varint(&mut h, len);
            m.put(&h);
            let a = m.off;
            m.put(init);
            (okay!(b, "write", "blob data of {} failed", len), a, len)
        }
    };
    let mut p = m.off - start;
    let mut misplaced = Vec::new();
    // end of what was written
    let mut ext = p;
    macro_rules! meta {
        ($what:expr) => {{
            // the nominal length of a dynamic blob is an upper limit
            let got = (b.len(), b.remaining(), b.inner_pos(), b.start_pos(), b.stream_pos());
            let want = (cap, cap - p, p, m.base.wrapping_add(start), m.base.wrapping_add(start + p));
            if mode == Mode::Dynamic {
                ensure!((got.2, got.3, got.4) == (want.2, want.3, want.4), "blob-write-meta", "after {:?} (offset, start, position) {:?} instead of {:?}", $what, got, want);
            } else {
                ensure!(got == want, "blob-write-meta", "after {:?} (len, remaining, offset, start, position) {:?} instead of {:?}", $what, got, want);
            }
            ensure!(b.stream_get_ref().at() == m.off, "blob-write-meta", "after {:?} writer at {} instead of {}", $what, b.stream_get_ref().at(), m.off);
        }};
    }
    meta!("opening");
    for op in script {
        st.blob_ops += 1;
        let before = p;
        match op {
            BOp::Write(d) => {
                let n = okay!(retry(|| b.write(d)), "blob-write", "write of {} at {}/{} failed", d.len(), p, cap);
                let room = (cap - p).min(d.len() as u64);
                ensure!(n as u64 <= room && (n > 0) == (room > 0), "blob-write", "write of {} at {}/{} accepted {}", d.len(), p, cap, n);
                if (n as u64) < d.len() as u64 && p + n as u64 == cap {
                    st.short_writes += 1;
                }
                m.put(&d[..n]);
                p += n as u64;
            }
            BOp::WriteAll(d) => {
                let room = (cap - p).min(d.len() as u64) as usize;
                match b.write_all(d) {
                    Ok(()) => ensure!(room == d.len(), "blob-write", "write_all of {} at {}/{} succeeded", d.len(), p, cap),
                    Err(e) => {
                        ensure!(room < d.len() && e.kind() == io::ErrorKind::WriteZero, "blob-write", "write_all of {} at {}/{} failed: {}", d.len(), p, cap, e);
                        st.short_writes += 1;
                    }
                }
                m.put(&d[..room]);
                p += room as u64;
            }
            BOp::Seek(w) => {
                let t: i128 = match *w {
                    SeekFrom::Start(x) => x as i128,
                    SeekFrom::Current(x) => p as i128 + x as i128,
                    SeekFrom::End(x) => cap as i128 + x as i128,
                };
                if t >= 0 && t <= cap as i128 && t > ext as i128 + (if mode == Mode::Dynamic { 5000 } else { 200_000 }) {
                    // would fill memory with the gap
                    continue;
                }
                match W::seek(&mut b, *w) {
                    None => (),
                    Some(Ok(n)) => {
                        ensure!(t >= 0 && t <= cap as i128 && n as i128 == t, "blob-write-seek", "seek {:?} at {}/{} returned {}", w, p, cap, n);
                        p = n;
                        m.off = start + p;
                    }
                    Some(Err(e)) => {
                        let far = (t - p as i128).abs() > i64::MAX as i128;
                        ensure!(t < 0 || t > cap as i128 || far, "blob-write-seek", "seek {:?} at {}/{} refused: {}", w, p, cap, e);
                        st.refused_seeks += 1;
                    }
                }
            }
            BOp::Read(k) => {
                let mut buf = vec![0u8; *k];
                let there = (m.data.len() as u64).saturating_sub(m.off).min(cap - p).min(*k as u64);
                match W::read(&mut b, &mut buf) {
                    None | Some(Err(_)) => (),
                    Some(Ok(n)) => {
                        ensure!(n as u64 <= there && (n > 0) == (there > 0), "blob-write-read", "reading {} at {}/{} gave {}", k, p, cap, n);
                        ensure!(n == 0 || buf[..n] == m.data[m.off as usize..m.off as usize + n], "blob-write-read", "reading back at {} gave {}", p, hex(&buf[..n]));
                        p += n as u64;
                        m.off += n as u64;
                    }
                }
            }
            BOp::Flush => okay!(b.flush(), "blob-write", "flush failed"),
            BOp::Direct(d) => {
                let d = &d[..(cap - p).min(d.len() as u64) as usize];
                if d.is_empty() {
                    continue;
                }
                okay!(b.stream_get_mut().write_all(d), "harness", "write");
                let at = b.stream_pos();
                b.stream_set_pos(at + d.len() as u64);
                m.put(d);
                p += d.len() as u64;
            }
            BOp::Misplace(before, x, k) => {
                if mode == Mode::Dynamic {
                    misplaced.push((*before, *x, *k));
                }
            }
            BOp::Meta => (),
        }
        if matches!(op, BOp::Write(_) | BOp::WriteAll(_) | BOp::Direct(_)) && p > before {
            ext = ext.max(p);
        }
        meta!(op);
    }
    if mode == Mode::Dynamic && p != ext {
        // where a dynamic blob is left decides its length
        match W::seek(&mut b, SeekFrom::Start(ext)) {
            Some(Ok(n)) if n == ext => (),
            x => return fail("blob-write-seek", format!("seek to {} gave {:?}", ext, x)),
        }
        m.off = start + ext;
        p = ext;
    }
    drop(b);
    // settle
    match mode {
        Mode::Dynamic => {
            let n = p;
            let k = varint_len(n);
            let mut v = Vec::new();
            varint_padded(&mut v, n, 10 - k);
            let end = m.off;
            for (before, x, k) in misplaced {
                let (first, right) = (m.base + start, s.pos());
                let wrong = if before { first - 1 - x % first.min(100) } else { first.saturating_add((1 << 63) - 10 + x) };
                if wrong > u64::MAX - 1000 {
                    continue;
                }
                let was = s.get_ref().data();
                s.set_pos(wrong);
                let e = match unsettled(s, 3, k) {
                    Some(e) => e,
                    None => continue,
                };
                let ok = match &e {
                    Some(stream::Error::PositionBeforeStartOfDynamicBlob) => before,
                    Some(stream::Error::OverlongDynamicBlob) => !before,
                    _ => false,
                };
                ensure!(ok, "misplaced-blob", "dynamic blob from {} said to end at {}: {:?} (operation {})", first, wrong, e, k);
                let is = s.get_ref().data();
                ensure!(is == was && s.get_ref().at() == end && s.pos() == wrong, "misplaced-blob", "operation {} on a dynamic blob from {} said to end at {} left {} at {} position {}", k, first, wrong, hex(&is), s.get_ref().at(), s.pos());
                s.set_pos(right);
                st.misplaced += 1;
            }
            m.off = hdr_at + 1;
            m.put(&v);
            m.off = end;
            okay!(s.commit(), "dynamic-blob", "commit of a dynamic blob of {} failed", n);
            check(s, m, &WOp::Commit)
        }
        _ => {
            m.missing = cap - p;
            if m.missing == 0 {
                okay!(s.commit(), "blob-complete", "commit of a complete blob of {} failed", cap);
                check(s, m, &WOp::Commit)
            } else {
                Ok(())
            }
        }
    }
}

// ------------------------------------------------------------------ scripts

fn content(r: &mut Rng, n: usize) -> Vec<u8> {
    blob_bytes(r, n)
}
fn rand_align(r: &mut Rng) -> u64 {
    let k = if r.chance(1, 8) { 13 } else { 7 };
    1 << r.below(k)
}
/// `complete`: fixed-length blobs end fully written.
pub fn rand_blob_op(r: &mut Rng, complete: bool, seekable: bool) -> WOp {
    let tag = if r.chance(1, 5) { None } else { Some(rand_tag(r)) };
    let mode = match r.below(3) {
        0 => Mode::Data,
        1 => Mode::Alloc,
        _ => Mode::Dynamic,
    };
    let n = r.size_or_big(1500);
    let init = if mode == Mode::Data { content(r, n) } else { Vec::new() };
    let mut script = Vec::new();
    if mode == Mode::Data && r.chance(1, 2) {
        return WOp::Blob { tag, mode, len: n as u64, init, script };
    }
    for _ in 0..r.below(10) {
        let k = r.size(n + 20);
        script.push(match r.below(8) {
            0 | 1 => BOp::Write(content(r, k)),
            2 => BOp::WriteAll(content(r, k)),
            3 | 4 if seekable => BOp::Seek(if mode == Mode::Dynamic {
                match r.below(3) {
                    0 => SeekFrom::Start(r.below(n as u64 + 1)),
                    1 => SeekFrom::Current(-(r.below(n as u64 + 2) as i64)),
                    _ => SeekFrom::Current(r.below(40) as i64),
                }
            } else {
                // wherever it goes, the model knows
                let p = r.below(n as u64 + 1);
                let (w, t) = rand_seek(r, p, n as u64);
                match (w, t) {
                    (SeekFrom::Start(x), _) => SeekFrom::Start(x),
                    (w, _) => w,
                }
            }),
            5 => BOp::Read(k),
            6 if r.chance(1, 2) => BOp::Direct(content(r, k)),
            7 if mode == Mode::Dynamic => BOp::Misplace(r.chance(1, 2), r.int() >> 1, r.below(17)),
            6 => BOp::Flush,
            _ => BOp::Meta,
        });
    }
    if mode != Mode::Dynamic && complete {
        // make it complete: rewrite from some place to the end
        if seekable {
            let at = r.below(n.max(1) as u64);
            script.push(BOp::Seek(SeekFrom::Start(at)));
            script.push(BOp::WriteAll(content(r, n - at as usize)));
        } else {
            script.push(BOp::WriteAll(content(r, n)));
        }
    }
    WOp::Blob { tag, mode, len: n as u64, init, script }
}
pub fn rand_ops(r: &mut Rng, n: u64, blobs: u64, seekable: bool) -> Vec<WOp> {
    let mut v = Vec::new();
    for _ in 0..n {
        let t = rand_tag(r);
        v.push(if r.below(8) < blobs {
            rand_blob_op(r, true, seekable)
        } else {
            match r.below(10) {
                0..=3 => WOp::Int(t, r.int(), r.below(12) as u8),
                4 => WOp::Struct(t),
                5 => WOp::Enum(t, r.int()),
                6 => WOp::EndStruct,
                7 => {
                    if r.chance(1, 4) {
                        WOp::EndDoc
                    } else {
                        WOp::Pad
                    }
                }
                8 => WOp::Align(rand_align(r)),
                _ => WOp::Commit,
            }
        });
    }
    v
}
/// Content already in the file, and where writing starts.
fn prior(r: &mut Rng) -> (Vec<u8>, u64) {
    if r.chance(1, 2) {
        return (Vec::new(), 0);
    }
    let n = r.size_or_big(3000);
    let d = r.bytes(n);
    let at = if r.chance(1, 2) { n as u64 } else { r.below(n as u64 + 1) };
    (d, at)
}
pub trait WVisit {
    type O;
    fn go<W: Wr>(&mut self, s: Stream<W>, m: Model) -> Self::O;
}
pub const WKINDS: u64 = 4;
/// Stream over a file with content `d`, positioned at `at`.
pub fn with_writer<V: WVisit>(kind: u64, d: &[u8], at: u64, base: u64, plan: &Plan, v: &mut V) -> V::O {
    let m = Model { data: d.to_vec(), off: at, base, missing: 0 };
    macro_rules! run {
        ($s:expr) => {{
            let mut s = $s;
            s.set_pos(base.wrapping_add(at));
            v.go(s, m)
        }};
    }
    match kind % WKINDS {
        0 => {
            let w = TestWriter::with(plan.clone());
            w.0.borrow_mut().data = d.to_vec();
            w.0.borrow_mut().pos = at;
            run!(Stream::new(w))
        }
        1 => {
            let mut c = Cursor::new(d.to_vec());
            c.set_position(at);
            run!(Stream::new(c))
        }
        2 => {
            let mut c = Cursor::new(d.to_vec());
            c.set_position(at);
            run!(Stream::new(TransparentCursor(c)))
        }
        _ => {
            let mut s = Stream::new(d[..at as usize].to_vec());
            s.set_pos(base.wrapping_add(at));
            let m = Model { data: d[..at as usize].to_vec(), ..m };
            v.go(s, m)
        }
    }
}
struct Ops<'a> {
    ops: &'a [WOp],
    readback: bool,
    rng: Rng,
    st: &'a mut WStats,
}
impl<'a> WVisit for Ops<'a> {
    type O = Case;
    fn go<W: Wr>(&mut self, mut s: Stream<W>, mut m: Model) -> Case {
        let from = m.off;
        for op in self.ops {
            apply(&mut s, &mut m, op, self.st)?;
            if m.missing > 0 {
                // could not be completed on this kind
                return incomplete(&mut s, &mut m, &mut self.rng, self.st);
            }
        }
        okay!(s.commit(), "write", "final commit failed");
        check(&s, &m, &WOp::Commit)?;
        if self.readback && m.base == 0 {
            W::readback(&mut s, from, &mut self.rng, &mut self.st.read)?;
            let d = s.get_ref().data();
            ensure!(d == m.data, "readback", "reading changed the data");
        }
        Ok(())
    }
}
/// Something which first settles an open blob; its error, or nothing if
/// writers of this kind cannot do it.
fn unsettled<W: Wr>(s: &mut Stream<W>, t: u8, k: u64) -> Option<Option<stream::Error>> {
    Some(match k % 17 {
        0 => s.commit().err(),
        1 => s.write_null(t).err(),
        2 => s.write_u64(t, 5).err(),
        3 => s.write_struct(t).err(),
        4 => s.write_enum(t, 3).err(),
        5 => s.write_end_struct().err(),
        6 => s.write_end_doc().err(),
        7 => s.write_padding().err(),
        8 => s.pad_to_align(1).err(),
        9 => s.pad_to_align(4).err(),
        10 => s.write_blob_data(t, b"x").err(),
        11 => s.write_blob_alloc(t, 0).err(),
        12 => s.write_exception_data(b"").err(),
        13 => match W::dynamic(s, Some(t)) {
            Some(x) => x.err(),
            None => return None,
        },
        14 => s.write_element(&mut stream::Element::<&[u8]>::EndOfStruct).err(),
        15 => {
            let mut src = Stream::from_slice(&[0x81u8, 1, 7][..]);
            let mut f = src.next_field().unwrap().unwrap();
            s.write_field(&mut f).err()
        }
        _ => s.reset_pos(0).err(),
    })
}
/// The open fixed-length blob lacks `m.missing` bytes: nothing may continue.
fn incomplete<W: Wr>(s: &mut Stream<W>, m: &mut Model, r: &mut Rng, st: &mut WStats) -> Case {
    let want = m.missing;
    for _ in 0..1 + r.below(3) {
        let k = r.below(17);
        let e = match unsettled(s, rand_tag(r), k) {
            Some(e) => e,
            None => continue,
        };
        match e {
            Some(stream::Error::IncompleteBlob(n)) => ensure!(n == want, "incomplete-blob", "{} bytes reported missing instead of {} (operation {})", n, want, k),
            Some(e) => return fail("incomplete-blob", format!("blob lacking {} bytes reported as {} (operation {})", want, e, k)),
            None => return fail("incomplete-blob", format!("operation {} accepted although the blob lacks {} bytes", k, want)),
        }
        st.incomplete += 1;
        let d = s.get_ref().data();
        ensure!(d == m.data, "incomplete-blob", "operation {} after an incomplete blob changed the output from {} to {}", k, hex(&m.data), hex(&d));
        ensure!(s.pos() == m.pos(), "incomplete-blob", "operation {} moved to {} from {}", k, s.pos(), m.pos());
    }
    if want < 5000 && r.chance(1, 2) {
        // completed from outside the stream, as documented for `get_mut`
        let d = content(r, want as usize);
        okay!(s.get_mut().write_all(&d), "harness", "write");
        m.put(&d);
        s.set_pos(m.pos());
        m.missing = 0;
        apply(s, m, &WOp::Int(3, 300, 0), st)?;
    }
    Ok(())
}
fn plan_w(r: &mut Rng) -> Plan {
    rand_plan(r)
}
fn run_ops(cx: &mut Ctx, ops: &[WOp], kind: u64, d: &[u8], at: u64, base: u64, plan: &Plan) -> Case {
    let mut st = WStats::default();
    let rng = cx.rng.fork();
    let r = with_writer(kind, d, at, base, plan, &mut Ops { ops, readback: true, rng, st: &mut st });
    st.put(cx);
    r.map_err(|f| Fail {
        sig: f.sig,
        msg: format!("writer {} base {} at {} of {} bytes, {:?}: {}", kind, base, at, d.len(), show(ops), f.msg),
    })
}
fn show(ops: &[WOp]) -> String {
    let mut s = format!("{:?}", ops);
    if s.len() > 1500 {
        let mut n = 1500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("..");
    }
    s
}
fn hash_ops(ops: &[WOp]) -> u64 {
    flcore::rng::hash_bytes(format!("{:?}", ops).as_bytes())
}
fn rand_wbase(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => r.u64() >> 1,
        1 => r.below(200),
        _ => 0,
    }
}

/// Scripts of every write operation; all blobs complete.
pub fn c17_write(cx: &mut Ctx) -> Case {
    let kind = cx.rng.below(WKINDS);
    let n = 1 + cx.rng.below(12);
    let ops = rand_ops(&mut cx.rng, n, 5, kind != 3);
    let (d, at) = prior(&mut cx.rng);
    let base = rand_wbase(&mut cx.rng);
    let plan = plan_w(&mut cx.rng);
    cx.eval(hash_ops(&ops), true);
    cx.sample(|| show(&ops));
    run_ops(cx, &ops, kind, &d, at, base, &plan)
}
/// A fixed-length blob is left incomplete.
pub fn c17_incomplete(cx: &mut Ctx) -> Case {
    let kind = cx.rng.below(WKINDS);
    let n = cx.rng.below(4);
    let mut ops = rand_ops(&mut cx.rng, n, 4, kind != 3);
    let mut b = rand_blob_op(&mut cx.rng, false, kind != 3);
    if let WOp::Blob { mode, script, init, len, .. } = &mut b {
        if *mode == Mode::Dynamic {
            *mode = Mode::Alloc;
            script.retain(|o| !matches!(o, BOp::Seek(_)));
        }
        if *mode == Mode::Alloc && cx.rng.chance(1, 6) {
            *len = cx.rng.int().min(u64::MAX / 4);
        }
        if *mode == Mode::Data && *len > 0 && script.is_empty() {
            script.push(BOp::Seek(SeekFrom::End(-1 - cx.rng.below(init.len() as u64) as i64)));
        }
        if cx.rng.chance(1, 4) && *mode == Mode::Alloc && *len < 5000 {
            // all but a few bytes
            script.clear();
            let k = (*len).saturating_sub(1 + cx.rng.below(3));
            script.push(BOp::WriteAll(content(&mut cx.rng, k as usize)));
        }
    }
    ops.push(b);
    let n = cx.rng.below(3);
    let more = rand_ops(&mut cx.rng, n, 2, kind != 3);
    ops.extend(more);
    let (d, at) = prior(&mut cx.rng);
    let base = rand_wbase(&mut cx.rng);
    let plan = plan_w(&mut cx.rng);
    cx.eval(hash_ops(&ops), true);
    cx.sample(|| show(&ops));
    run_ops(cx, &ops, kind, &d, at, base, &plan)
}
/// Blobs found while reading are overwritten in place.
pub fn c17_overwrite(cx: &mut Ctx) -> Case {
    let (bytes, _) = valid(&mut cx.rng);
    let seek_stream = cx.rng.chance(1, 2);
    let kind = cx.rng.below(3);
    let plan = plan_w(&mut cx.rng);
    cx.eval_bytes(kind, &bytes, true);
    cx.sample(|| hex(&bytes));
    let mut rng = cx.rng.fork();
    let mut st = WStats::default();
    macro_rules! go {
        ($w:expr) => {{
            let w = $w;
            let s = if seek_stream { Stream::new_seek(w) } else { Stream::new(w) };
            overwrite(s, &bytes, &mut rng, &mut st)
        }};
    }
    let r = match kind {
        0 => {
            let w = TestWriter::with(plan);
            w.0.borrow_mut().data = bytes.clone();
            go!(w)
        }
        1 => go!(Cursor::new(bytes.clone())),
        _ => go!(TransparentCursor(Cursor::new(bytes.clone()))),
    };
    st.put(cx);
    r.map_err(|f| Fail { sig: f.sig, msg: format!("overwriting blobs of {}: {}", hex(&bytes), f.msg) })
}
fn overwrite<W: Wr + Read + Seek>(mut s: Stream<W>, bytes: &[u8], r: &mut Rng, st: &mut WStats) -> Case {
    let mut m = bytes.to_vec();
    let layout = bytes.to_vec();
    let mut rp = RefParser::new(&layout[..]);
    loop {
        let w = rp.next();
        let g = s.next_element();
        let shown = show_el(&g);
        let (mut b, start, len) = match (g, w) {
            (Err(_), Err(_)) => break,
            (Ok(stream::Element::EndOfDoc), Ok(PEl::EndDoc)) => {
                s.clear_eof();
                rp.eof = false;
                continue;
            }
            (Ok(stream::Element::Field(f)), Ok(PEl::Field { tag, pos, depth, val })) => {
                ensure!((f.tag, f.pos, f.depth) == (tag, pos, depth), "overwrite", "{} instead of {:?}", shown, w);
                match (f.value, val) {
                    (stream::Value::Blob(b), PVal::Blob { start, len }) => (b, start, len),
                    (stream::Value::Integer(a), PVal::Int(b)) if a == b => continue,
                    (stream::Value::Struct(..), PVal::Struct) => continue,
                    (stream::Value::Enum(a, _), PVal::Enum(b)) if a == b => continue,
                    (v, _) => return fail("overwrite", format!("{} instead of {:?}", show_val(&v), w)),
                }
            }
            (Ok(stream::Element::Exception(b)), Ok(PEl::Exc { start, len })) => (b, start, len),
            (Ok(stream::Element::EndOfStruct), Ok(PEl::EndStruct)) | (Ok(stream::Element::Padding), Ok(PEl::Pad)) => continue,
            _ => return fail("overwrite", format!("{} instead of {:?}", shown, w)),
        };
        ensure!(b.len() == len, "overwrite", "blob of {} instead of {}", b.len(), len);
        st.blobs += 1;
        let mut p = 0u64;
        for _ in 0..r.below(5) {
            st.blob_ops += 1;
            match r.below(4) {
                0 | 1 => {
                    let k = r.size(len as usize + 10);
                    let d = content(r, k);
                    let n = okay!(retry(|| b.write(&d)), "overwrite", "write of {} at {}/{}", k, p, len) as u64;
                    let room = (len - p).min(k as u64);
                    ensure!(n <= room && (n > 0) == (room > 0), "overwrite", "write of {} at {}/{} accepted {}", k, p, len, n);
                    let a = (start + p) as usize;
                    m[a..a + n as usize].copy_from_slice(&d[..n as usize]);
                    p += n;
                }
                2 => {
                    let (w, t) = rand_seek(r, p, len);
                    match (b.seek(w), t) {
                        (Ok(n), Some(t)) if n == t => p = t,
                        (Err(_), None) => st.refused_seeks += 1,
                        (x, t) => return fail("overwrite", format!("seek {:?} at {}/{} gave {:?} instead of {:?}", w, p, len, x, t)),
                    }
                }
                _ => {
                    let mut buf = vec![0u8; r.size(len as usize + 5)];
                    let n = okay!(retry(|| b.read(&mut buf)), "overwrite", "read at {}/{}", p, len);
                    let a = (start + p) as usize;
                    ensure!(n as u64 <= len - p && buf[..n] == m[a..a + n], "overwrite", "reading back at {} gave {}", p, hex(&buf[..n]));
                    p += n as u64;
                }
            }
            ensure!((b.inner_pos(), b.remaining()) == (p, len - p), "overwrite", "at {} with {} remaining instead of {}/{}", b.inner_pos(), b.remaining(), p, len);
        }
        drop(b);
        rp.off = start + p;
        let d = s.get_ref().data();
        ensure!(d == m, "overwrite", "the file is {} instead of {}", hex(&d), hex(&m));
    }
    let d = s.get_ref().data();
    ensure!(d == m, "overwrite", "the file is {} instead of {}", hex(&d), hex(&m));
    Ok(())
}

// ------------------------------------------------------------------ C18

/// Padding to an alignment, from any position.
pub fn c18_align(cx: &mut Ctx) -> Case {
    let mut st = WStats::default();
    for _ in 0..4 {
        let kind = cx.rng.below(WKINDS);
        let r = &mut cx.rng;
        let mut ops = Vec::new();
        for _ in 0..1 + r.below(5) {
            let n = r.below(3);
            let more = rand_ops(r, n, 3, kind != 3);
            ops.extend(more);
            ops.push(WOp::Align(rand_align(r)));
        }
        let base = match r.below(5) {
            0 => r.u64() >> 1,
            1 => (1 << 63) - r.below(100),
            2 => r.u64() >> r.below(64).max(1),
            _ => 0,
        };
        let plan = plan_w(r);
        cx.eval(hash_ops(&ops) ^ base, true);
        cx.sample(|| format!("from {}: {}", base, show(&ops)));
        let rng = cx.rng.fork();
        with_writer(kind, &[], 0, base, &plan, &mut Ops { ops: &ops, readback: false, rng, st: &mut st })
            .map_err(|f| Fail { sig: f.sig, msg: format!("writer {} from {}: {}: {}", kind, base, show(&ops), f.msg) })?;
    }
    st.put(cx);
    // directly: minimal, all padding, aligned
    let r = &mut cx.rng;
    let start = r.u64() >> r.below(64);
    let a = rand_align(r);
    let start = start.min(u64::MAX - 3 * a);
    let mut s = Stream::new(Vec::new());
    s.set_pos(start);
    okay!(s.pad_to_align(a), "align", "pad_to_align({}) at {}", a, start);
    let n = s.get_ref().len() as u64;
    let want = (start as u128 + a as u128 - 1) / a as u128 * a as u128 - start as u128;
    ensure!(n as u128 == want && s.pos() == start + n && s.get_ref().iter().all(|b| *b == PADDING), "align", "pad_to_align({}) at {} wrote {} to reach {}", a, start, hex(s.get_ref()), s.pos());
    // the largest alignments, where already aligned
    for p in [0u64, 1 << 63] {
        s.set_pos(p);
        let n = s.get_ref().len();
        okay!(s.pad_to_align(1 << 63), "align", "pad_to_align(2^63) at {}", p);
        ensure!(s.get_ref().len() == n && s.pos() == p, "align", "pad_to_align(2^63) at {} wrote something", p);
    }
    cx.count("alignments_checked", 3);
    Ok(())
}
