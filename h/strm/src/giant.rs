//! C29: skipping by seeking against skipping by reading, giant blobs, and
//! positions near the maximum.
use crate::kinds::*;
use crate::read::*;
use crate::write::*;
use flcore::ensure;
use flcore::model::*;
use flcore::refparse::*;
use flcore::rng::{mix, Rng};
use flcore::runner::*;
use fourleaf::stream::{self, Blob, Stream};
use std::cell::RefCell;
use std::io::{self, BufRead, BufReader, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

/// Mostly one repeated byte, with some real segments.
#[derive(Clone, Debug)]
pub struct Sparse {
    pub segs: Rc<Vec<(u64, Vec<u8>)>>,
    pub fill: u8,
    pub len: u128,
}
impl Sparse {
    fn seg(&self, pos: u64) -> Option<&(u64, Vec<u8>)> {
        let i = self.segs.partition_point(|s| s.0 <= pos);
        if i == 0 {
            return None;
        }
        let s = &self.segs[i - 1];
        if pos - s.0 < s.1.len() as u64 {
            Some(s)
        } else {
            None
        }
    }
    fn next_seg(&self, pos: u64) -> u64 {
        let i = self.segs.partition_point(|s| s.0 <= pos);
        self.segs.get(i).map_or(u64::MAX, |s| s.0)
    }
}
impl Src for Sparse {
    fn byte(&self, pos: u64) -> Option<u8> {
        if pos as u128 >= self.len {
            return None;
        }
        Some(match self.seg(pos) {
            Some(s) => s.1[(pos - s.0) as usize],
            None => self.fill,
        })
    }
    fn len(&self) -> u128 {
        self.len
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SeekPlan {
    Fine,
    AlwaysFails,
    FailsAt(u64),
    FailsEvery(u64),
}
#[derive(Default, Debug)]
pub struct VState {
    pub pos: u64,
    pub seeks: u64,
    pub failed_seeks: u64,
    pub read: u64,
    pub reads: u64,
}
#[derive(Clone, Debug)]
pub struct Virt {
    pub src: Sparse,
    pub plan: SeekPlan,
    pub st: Rc<RefCell<VState>>,
}
impl Read for Virt {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let st = &mut *self.st.borrow_mut();
        st.reads += 1;
        let left = self.src.len.saturating_sub(st.pos as u128).min((u64::MAX - st.pos) as u128);
        let mut n = (buf.len() as u128).min(left) as usize;
        if n == 0 {
            return Ok(0);
        }
        match self.src.seg(st.pos) {
            Some(s) => {
                let o = (st.pos - s.0) as usize;
                n = n.min(s.1.len() - o);
                buf[..n].copy_from_slice(&s.1[o..o + n]);
            }
            None => {
                n = (n as u64).min(self.src.next_seg(st.pos) - st.pos) as usize;
                for b in buf[..n].iter_mut() {
                    *b = self.src.fill;
                }
            }
        }
        st.pos += n as u64;
        st.read += n as u64;
        Ok(n)
    }
}
impl Seek for Virt {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        let st = &mut *self.st.borrow_mut();
        let k = st.seeks;
        st.seeks += 1;
        let no = match self.plan {
            SeekPlan::Fine => false,
            SeekPlan::AlwaysFails => true,
            SeekPlan::FailsAt(n) => n == k,
            SeekPlan::FailsEvery(n) => k % n == n - 1,
        };
        if no {
            st.failed_seeks += 1;
            return Err(flcore::io::seek_error(k + (st.pos & 0xFFFF)));
        }
        let p = match w {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => st.pos as i128 + d as i128,
            SeekFrom::End(d) => self.src.len as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of range"));
        }
        st.pos = p as u64;
        Ok(st.pos)
    }
}
impl Rd for Virt {
    fn at(&self) -> Option<u64> {
        Some(self.st.borrow().pos)
    }
    fn seek(b: &mut Blob<Self>, w: SeekFrom) -> Option<io::Result<u64>> {
        Some(Seek::seek(b, w))
    }
    fn stream_seek(s: &mut Stream<Self>, w: SeekFrom) -> Option<stream::Result<u64>> {
        Some(s.seek(w))
    }
}
impl Rd for BufReader<Virt> {
    fn at(&self) -> Option<u64> {
        Some(self.get_ref().st.borrow().pos - self.buffer().len() as u64)
    }
    fn fill(b: &mut Blob<Self>) -> Option<io::Result<Vec<u8>>> {
        Some(b.fill_buf().map(|s| s.to_vec()))
    }
    fn consume(b: &mut Blob<Self>, n: usize) {
        BufRead::consume(b, n)
    }
    fn seek(b: &mut Blob<Self>, w: SeekFrom) -> Option<io::Result<u64>> {
        Some(Seek::seek(b, w))
    }
    fn stream_seek(s: &mut Stream<Self>, w: SeekFrom) -> Option<stream::Result<u64>> {
        Some(s.seek(w))
    }
}

/// A stream with giant blobs whose total stays below `room`.
fn gen(r: &mut Rng, big: u64, room: u64) -> (Sparse, Vec<u64>) {
    let mut segs: Vec<(u64, Vec<u8>)> = Vec::new();
    let mut starts = Vec::new();
    let mut off = 0u64;
    let mut cur: Vec<u8> = Vec::new();
    let mut cur_at = 0u64;
    for _ in 0..1 + r.below(7) {
        starts.push(off);
        let n0 = cur.len();
        match r.below(10) {
            0..=4 => {
                cur.push(if r.chance(1, 6) { EXCEPTION } else { T_BLOB | rand_tag(r) });
                let left = room - off - 40;
                let l = match r.below(8) {
                    0 => 1u64 << r.below(64),
                    1 => (1u64 << r.below(64)).wrapping_sub(1 + r.below(3)),
                    2 => i64::MAX as u64 + r.below(4),
                    3 => i64::MAX as u64 - r.below(4),
                    4 => left - r.below(30).min(left),
                    5 => r.u64(),
                    6 => r.below(20_000),
                    _ => r.int(),
                }
                .min(left)
                .min(big);
                varint_padded(&mut cur, l, if r.chance(1, 10) { r.usz(5) } else { 0 });
                off += (cur.len() - n0) as u64 + l;
                let a = cur_at;
                segs.push((a, std::mem::replace(&mut cur, Vec::new())));
                cur_at = off;
                // something recognisable inside
                if l > 600 && r.chance(1, 2) {
                    let n = 1 + r.usz(200);
                    let at = off - l + r.below(l - n as u64);
                    let at = if r.chance(1, 3) { off - n as u64 } else { at };
                    segs.push((at, blob_bytes(r, n)));
                }
            }
            _ => {
                let v = match r.below(4) {
                    0 => Val::Struct(Body::default()),
                    1 => Val::Enum(r.int(), Body::default()),
                    _ => Val::Int(r.int()),
                };
                if r.chance(1, 6) {
                    cur.push(*r.pick(&[PADDING, END_STRUCT, END_STRUCT, T_STRUCT | 3]));
                }
                put_node(&mut cur, &Node::Field(rand_tag(r), v), &mut Style::canon());
                off += (cur.len() - n0) as u64;
            }
        }
        if off >= room - 100 {
            break;
        }
    }
    if off < room - 10 {
        starts.push(off);
        cur.push(*r.pick(&[END_STRUCT, END_DOC]));
        off += 1;
    }
    segs.push((cur_at, cur));
    segs.retain(|s| !s.1.is_empty());
    segs.sort();
    let len = match r.below(5) {
        // ends too early
        0 => {
            if r.chance(1, 2) {
                off - 1 - r.below(off.min(50))
            } else {
                r.below(off)
            }
        }
        1 => off.saturating_add(r.below(20)),
        _ => off,
    };
    // what lies after the end must not be read as elements
    let fill = *r.pick(&[0xC0u8, 0x41, 0xFF, 0x00, 0x80]);
    (Sparse { segs: Rc::new(segs), fill, len: len as u128 }, starts)
}

pub fn c29_giant(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let mode = r.below(6);
    // reading through costs time
    let thorough = cx.tier == Tier::Thorough;
    let big = match mode {
        0 | 1 | 4 => u64::MAX,
        _ => {
            if r.chance(1, if thorough { 20 } else { 100 }) {
                if thorough {
                    1 << 32
                } else {
                    1 << 26
                }
            } else {
                1 << 20
            }
        }
    };
    let base = match r.below(4) {
        0 => r.u64() >> r.below(64),
        1 => r.u64() >> 1,
        _ => 0,
    };
    let room = u64::MAX - base;
    let (src, starts) = gen(r, big, room.max(5000));
    let (plan, desc) = match mode {
        0 | 4 => (SeekPlan::Fine, "seeking"),
        1 => (SeekPlan::Fine, "buffered seeking"),
        2 => (SeekPlan::Fine, "plain"),
        3 => (SeekPlan::AlwaysFails, "refusing to seek"),
        _ => (if r.chance(1, 2) { SeekPlan::FailsAt(r.below(4)) } else { SeekPlan::FailsEvery(1 + r.below(3)) }, "sometimes refusing to seek"),
    };
    let h = flcore::rng::hash_bytes(format!("{:?} {} {}", src, mode, base).as_bytes());
    cx.eval(h, src.len > 4096);
    cx.sample(|| format!("{} base {}: {} bytes, segments {:?}", desc, base, src.len, src.segs.iter().map(|s| (s.0, hex(&s.1))).collect::<Vec<_>>()));
    let st = Rc::new(RefCell::new(VState::default()));
    let v = Virt { src: src.clone(), plan, st: st.clone() };
    let mut rp = RefParser::new(&src);
    rp.base = base;
    rp.graceful = cx.rng.chance(1, 4);
    let o = SessOpt { cap: 3000, skips: cx.rng.chance(1, 3), seeks: mode != 2 && cx.rng.chance(1, 4), fields: cx.rng.below(9), blob_ops: cx.rng.chance(1, 2), accessors: false, strict: base < u64::MAX / 2 && src.len < u64::MAX as u128 / 2, steps: 60, ..SessOpt::reading() };
    let mut stats = Stats::default();
    let mut rng = cx.rng.fork();
    let g = rp.graceful;
    let starts: Vec<u64> = starts.into_iter().filter(|s| (*s as u128) < src.len && *s < i64::MAX as u64 / 2).collect();
    macro_rules! go {
        ($s:expr) => {{
            let mut s = $s;
            s.set_pos(base);
            s.set_graceful_eof(g);
            session(&mut s, &mut rp, &mut rng, &o, &starts, &mut stats)
        }};
    }
    let res = match mode {
        1 => go!(Stream::new_seek(BufReader::with_capacity(1 + cx.rng.usz(300), v))),
        2 => go!(Stream::new(v)),
        _ => go!(Stream::new_seek(v)),
    };
    stats.put(cx);
    res.map_err(|f| Fail { sig: f.sig, msg: format!("{} base {}: {} bytes (filled with {:02x}), segments {:?}: {}", desc, base, src.len, src.fill, src.segs.iter().map(|s| (s.0, hex(&s.1))).collect::<Vec<_>>(), f.msg) })?;
    let st = st.borrow();
    if mode == 0 {
        // skipping by seeking must not read it all
        ensure!(st.read < 1 << 22, "read-through", "{} bytes read of {}", st.read, src.len);
    }
    cx.count("seeks_seen", st.seeks);
    cx.count("failed_seeks_survived", st.failed_seeks);
    cx.count("mebibytes_read_through", st.read >> 20);
    cx.count("giant_streams", 1);
    Ok(())
}

/// The same bytes on a seeking and a plain stream, by fields, skipping
/// everything: same steps exactly.
pub fn c29_pair(cx: &mut Ctx) -> Case {
    let bytes = gen_bytes(&mut cx.rng);
    let base = rand_base(&mut cx.rng, bytes.len());
    let graceful = cx.rng.chance(1, 3);
    cx.eval_bytes(base, &bytes, bytes.len() > 3);
    cx.sample(|| format!("{} base {}", hex(&bytes), base));
    let src = Sparse { segs: Rc::new(vec![(0, bytes.clone())]), fill: 0, len: bytes.len() as u128 };
    let mk = |plan| Virt { src: src.clone(), plan, st: Default::default() };
    let mut logs = Vec::new();
    for k in 0..4 {
        let v = mk(match k {
            2 => SeekPlan::AlwaysFails,
            3 => SeekPlan::FailsEvery(2),
            _ => SeekPlan::Fine,
        });
        let mut s = if k == 0 { Stream::new(v) } else { Stream::new_seek(v) };
        s.set_pos(base);
        s.set_graceful_eof(graceful);
        let mut l: Vec<String> = Vec::new();
        for i in 0..120 {
            let e = if i % 5 == 3 {
                // skip up one level
                let d = s.struct_depth().saturating_sub(1);
                match s.skip_up(d) {
                    Ok(()) => "up".to_string(),
                    Err(e) => format!("error {:?}", cls(&e)),
                }
            } else {
                match s.next_element() {
                    Err(e) => format!("error {:?}", cls(&e)),
                    r => show_el(&r),
                }
            };
            let stop = e.starts_with("error") || e == "end of document";
            if e.starts_with("error") {
                l.push(e);
            } else {
                l.push(format!("{} then {} {}", e, s.pos(), s.struct_depth()));
            }
            if stop {
                break;
            }
        }
        logs.push(l);
    }
    for k in 1..4 {
        ensure!(
            logs[0] == logs[k],
            "seek-differs",
            "{} base {} graceful {}: reading gives {:?} but {} {:?}",
            hex(&bytes),
            base,
            graceful,
            logs[0],
            ["", "seeking", "refused seeking", "half refused seeking"][k],
            logs[k]
        );
    }
    cx.count("seek_and_plain_pairs", 3);
    Ok(())
}

/// Writing near the maximum position: in full or an error, never beyond.
pub fn c29_write(cx: &mut Ctx) -> Case {
    let n = 1 + cx.rng.below(8);
    let mut ops = rand_ops(&mut cx.rng, n, 3, true);
    for o in ops.iter_mut() {
        if let WOp::Blob { mode, script, init, len, .. } = o {
            let k = cx.rng.size(120);
            let d = blob_bytes(&mut cx.rng, k);
            *len = k as u64;
            match mode {
                Mode::Data => {
                    script.clear();
                    *init = d;
                }
                Mode::Alloc if cx.rng.chance(1, 8) => {
                    // nothing fits that
                    *len = u64::MAX - cx.rng.below(30);
                    script.clear();
                }
                _ => *script = vec![BOp::WriteAll(d)],
            }
        }
    }
    let room = cx.rng.below(400);
    let base = u64::MAX - room;
    cx.eval(flcore::rng::hash_bytes(format!("{:?} {}", ops, room).as_bytes()), true);
    cx.sample(|| format!("{} bytes before the maximum: {:?}", room, ops.iter().take(3).collect::<Vec<_>>()));
    let tw = flcore::io::TestWriter::new();
    let mut s = Stream::new(tw.clone());
    s.set_pos(base);
    let mut m = Model { data: vec![], off: 0, base: 0, missing: 0 };
    let ctx = |ops: &[WOp]| format!("{} bytes before the maximum: {:?}", room, ops);
    for op in &ops {
        if let WOp::Align(a) = op {
            // alignment is by position
            m.base = base;
            if *a > 1 && (m.pos() as u128 + (*a as u128 - 1)) / *a as u128 * *a as u128 > u64::MAX as u128 {
                m.base = 0;
                let r = s.pad_to_align(*a);
                ensure!(r.is_err(), "beyond-maximum", "{}: pad_to_align({}) succeeded at {}", ctx(&ops), a, s.pos());
                ensure!(s.pos() == base + tw.data().len() as u64, "beyond-maximum", "{}: at {}", ctx(&ops), s.pos());
                cx.count("elements_refused_beyond_the_maximum", 1);
                return Ok(());
            }
        }
        let mut after = m.clone();
        let predicted = match op {
            WOp::Blob { mode: Mode::Alloc, script, .. } if script.is_empty() => false,
            _ => model_op(&mut after, op),
        };
        after.base = 0;
        m.base = 0;
        let end = after.off;
        let r = match catch(|| crate::more::run_plain(&mut s, std::slice::from_ref(op))) {
            Ok(r) => r,
            Err(p) => return fail("panic", format!("{}: {:?} panicked: {}", ctx(&ops), op, p)),
        };
        let d = tw.data();
        match r {
            Ok(()) => {
                ensure!(predicted && end <= room, "beyond-maximum", "{}: {:?} succeeded although it ends {} bytes too far", ctx(&ops), op, end as i128 - room as i128);
                ensure!(d == after.data && s.pos() == base + end, "near-maximum", "{}: after {:?} at {} with {} instead of {} with {}", ctx(&ops), op, s.pos(), hex(&d), base + end, hex(&after.data));
                cx.count("elements_written_near_the_maximum", 1);
                m = after;
            }
            Err(e) => {
                // blobs reserve room for the longest header there is
                let dynamic = matches!(op, WOp::Blob { mode: Mode::Dynamic, .. });
                ensure!(!predicted || end + if dynamic { 0 } else { 24 } > room, "near-maximum", "{}: {:?} refused although it ends at {} of {}: {}", ctx(&ops), op, end, room, e);
                ensure!(s.pos() >= base && d.len() as u64 <= room, "beyond-maximum", "{}: {} bytes written, position {}", ctx(&ops), d.len(), s.pos());
                if !matches!(op, WOp::Blob { mode: Mode::Dynamic, .. }) {
                    ensure!(!predicted || after.data.starts_with(&d), "near-maximum", "{}: failed {:?} left {} not a prefix of {}", ctx(&ops), op, hex(&d), hex(&after.data));
                }
                cx.count("elements_refused_beyond_the_maximum", 1);
                return Ok(());
            }
        }
    }
    Ok(())
}

/// Announcing blobs of any length from any position: what ends beyond the
/// maximum is refused, what clearly fits is not.
pub fn c29_announce(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let base = match r.below(4) {
        0 => r.below(40),
        1 => r.u64(),
        2 => u64::MAX - r.below(100),
        _ => r.int(),
    };
    let left = u64::MAX - base;
    let len = match r.below(4) {
        0 => r.int(),
        1 => left.saturating_add(r.below(5)),
        _ => left.saturating_sub(r.below(40)),
    };
    let exception = r.chance(1, 3);
    let head = 1 + flcore::model::varint_len(len) as u64;
    let end = base as u128 + head as u128 + len as u128;
    cx.eval(mix(base ^ mix(len)), true);
    cx.sample(|| format!("{} at {}", len, base));
    let at = format!("{} of {} bytes at {}", if exception { "exception" } else { "blob" }, len, base);
    let res = catch(|| -> Case {
        let tw = flcore::io::TestWriter::new();
        let mut s = Stream::new(tw.clone());
        s.set_pos(base);
        let got = {
            let b = if exception { s.write_exception_alloc(len) } else { s.write_blob_alloc(7, len) };
            match b {
                Err(e) => Err(e),
                Ok(mut b) => {
                    ensure!(end <= u64::MAX as u128, "beyond-maximum", "{} announced", at);
                    let v = (b.len(), b.remaining(), b.start_pos(), b.end_pos());
                    let w = (len, len, base + head, base + head + len);
                    ensure!(v == w, "announced", "{}: length, remaining, start, end {:?} instead of {:?}", at, v, w);
                    let k = (b.write(b"abc").map_err(|e| Fail { sig: "announced".into(), msg: e.to_string() })?) as u64;
                    ensure!(k == len.min(3) && b.remaining() == len - k, "announced", "{}: wrote {}, {} remaining", at, k, b.remaining());
                    Ok(k)
                }
            }
        };
        match got {
            Err(e) => {
                ensure!(base as u128 + 11 + len as u128 > u64::MAX as u128, "announced", "{}: {}", at, e);
                ensure!(s.pos() == base + tw.data().len() as u64, "announced", "{}: refused, at {} with {} bytes written", at, s.pos(), tw.data().len());
                cx.count("blobs_refused", 1);
            }
            Ok(k) => {
                let want = {
                    let mut o = vec![if exception { EXCEPTION } else { T_BLOB | 7 }];
                    varint(&mut o, len);
                    o.extend(&b"abc"[..k as usize]);
                    o
                };
                ensure!(tw.data() == want && s.pos() == base + head + k, "announced", "{}: {} at {}", at, hex(&tw.data()), s.pos());
                match s.commit() {
                    Ok(()) => ensure!(k == len, "announced", "{}: complete with {} bytes", at, k),
                    Err(stream::Error::IncompleteBlob(n)) => ensure!(k < len && n == len - k, "announced", "{}: {} missing after {}", at, n, k),
                    Err(e) => return fail("announced", format!("{}: {}", at, e)),
                }
                cx.count("blobs_announced", 1);
            }
        }
        Ok(())
    });
    match res {
        Ok(r) => r,
        Err(p) => fail("panic", format!("{}: {}", at, p)),
    }
}

/// Reading at the maximum: every element that fits is read, none beyond.
pub fn c29_edge(cx: &mut Ctx) -> Case {
    let bytes = gen_bytes(&mut cx.rng);
    let room = cx.rng.below(bytes.len() as u64 + 12);
    let base = u64::MAX - room;
    cx.eval_bytes(room, &bytes, true);
    cx.sample(|| format!("{} bytes before the maximum: {}", room, hex(&bytes)));
    for _ in 0..2 {
        let kind = cx.rng.below(KINDS);
        let plan = rand_plan(&mut cx.rng);
        let o = SessOpt { fields: cx.rng.below(9), skips: cx.rng.chance(1, 3), ..SessOpt::reading() };
        let g = cx.rng.chance(1, 3);
        run_session(cx, &bytes, &[], kind, &plan, o, base, g)?;
        cx.count("sessions_across_the_maximum", 1);
    }
    Ok(())
}
#[allow(unused)]
fn unused(w: &mut dyn Write) {}
