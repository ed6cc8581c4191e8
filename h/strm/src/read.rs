//! Reading sessions: random sequences of read-side operations on the real
//! stream, checked step by step against the reference parser.
use crate::kinds::*;
use flcore::ensure;
use flcore::io::Plan;
use flcore::model::*;
use flcore::refparse::*;
use flcore::rng::Rng;
use flcore::runner::*;
use fourleaf::stream::{self, Blob, Element, Stream, Value};
use std::io::{self, Read, SeekFrom};

pub fn cls(e: &stream::Error) -> Option<PErr> {
    use stream::Error as E;
    Some(match e {
        E::Io(e) if e.kind() == io::ErrorKind::UnexpectedEof => PErr::Eof,
        E::Io(e) if e.kind() == io::ErrorKind::Other => PErr::PosOverflow,
        E::OverlongBlob => PErr::PosOverflow,
        E::TruncatedBlob(_) => PErr::Eof,
        E::IntegerOverflow => PErr::IntOverflow,
        E::OverwideInteger => PErr::Overwide,
        _ => return None,
    })
}
/// a seek refused by the reader itself
fn not_possible(e: &io::Error) -> bool {
    e.raw_os_error().is_some() || e.to_string().contains("not possible")
}
fn same_err(got: &stream::Error, want: PErr, strict: bool) -> bool {
    let want = if want == PErr::TruncBlob { PErr::Eof } else { want };
    if !strict || want == PErr::PosOverflow {
        return true;
    }
    cls(got) == Some(want)
}

#[derive(Default, Debug)]
pub struct Stats {
    pub elements: u64,
    pub blobs: u64,
    pub blob_ops: u64,
    pub skips: u64,
    pub partly_read: u64,
    pub renumbered: u64,
    pub idle: u64,
    pub seeks: u64,
    pub exceptions: u64,
    pub errors: u64,
    pub enddocs: u64,
    pub max_depth: u64,
    pub ext_not_consuming: u64,
}
impl Stats {
    pub fn put(&self, cx: &mut Ctx) {
        cx.count("elements_compared", self.elements);
        cx.count("blobs_opened", self.blobs);
        cx.count("blob_operations_compared", self.blob_ops);
        cx.count("skips_compared", self.skips);
        cx.count("fields_partly_read_before_skipping", self.partly_read);
        cx.count("positions_and_depths_changed", self.renumbered);
        cx.count("calls_without_effect_made", self.idle);
        cx.count("repositionings_compared", self.seeks);
        cx.count("exceptions_compared", self.exceptions);
        cx.count("errors_compared", self.errors);
        cx.count("ends_of_document_compared", self.enddocs);
    }
}

#[derive(Clone, Copy, Debug)]
pub struct SessOpt {
    pub steps: u64,
    /// weight out of 8 of next_field against next_element
    pub fields: u64,
    pub blob_ops: bool,
    pub skips: bool,
    pub seeks: bool,
    pub clear_eof: bool,
    /// compare error kinds
    pub strict: bool,
    pub accessors: bool,
    /// largest number of bytes read from a blob at once
    pub cap: usize,
    /// change the reported position and depth on the way
    pub renumber: bool,
}
impl SessOpt {
    pub fn reading() -> SessOpt {
        SessOpt { steps: 400, fields: 2, blob_ops: true, skips: false, seeks: false, clear_eof: true, strict: true, accessors: true, cap: 1 << 20, renumber: false }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Doc,
    Err,
    Steps,
}

macro_rules! bad {
    ($($f:tt)*) => { return fail("stream-differs", format!($($f)*)) };
}

fn content<S: Src + ?Sized>(src: &S, at: u64, n: u64) -> Vec<u8> {
    (at..at + n).map(|i| src.byte(i).unwrap()).collect()
}

fn accessors<R: Read>(v: &mut Value<R>, want: &PVal) -> Case {
    use stream::Error as E;
    macro_rules! ints {
        ($($m:ident $t:ty, $sg:expr;)*) => { $( {
            let r = v.$m();
            match want {
                PVal::Int(n) => {
                    let w: i128 = if $sg { unzz(*n) as i128 } else { *n as i128 };
                    let fits = w >= <$t>::MIN as i128 && w <= <$t>::MAX as i128;
                    match &r {
                        Ok(x) if fits && *x as i128 == w => (),
                        Err(E::IntegerOutOfRange(_)) if !fits => (),
                        x => bad!("{} of integer {} gave {:?}", stringify!($m), n, x),
                    }
                }
                _ => match &r {
                    Err(E::UnexpectedType(..)) => (),
                    x => bad!("{} of {:?} gave {:?}", stringify!($m), want, x),
                },
            }
        } )* };
    }
    ints! { to_u8 u8, false; to_i8 i8, true; to_u16 u16, false; to_i16 i16, true; to_u32 u32, false; to_i32 i32, true;
    to_u64 u64, false; to_i64 i64, true; to_usize usize, false; to_isize isize, true; }
    let (b, n) = (v.to_bool(), v.to_null());
    match want {
        PVal::Int(i) => {
            match (&b, i) {
                (Ok(false), 0) | (Ok(true), 1) => (),
                (Err(E::IntegerOutOfRange(_)), i) if *i > 1 => (),
                x => bad!("to_bool of {:?}", x),
            }
            match (&n, i) {
                (Ok(()), 0) => (),
                (Err(E::IntegerOutOfRange(_)), i) if *i > 0 => (),
                x => bad!("to_null of {:?}", x),
            }
        }
        w => {
            ensure!(matches!(b, Err(E::UnexpectedType(..))), "stream-differs", "to_bool of {:?} gave {:?}", w, b);
            ensure!(matches!(n, Err(E::UnexpectedType(..))), "stream-differs", "to_null of {:?} gave {:?}", w, n);
        }
    }
    let (is_s, is_b) = (matches!(want, PVal::Struct), matches!(want, PVal::Blob { .. }));
    match v.to_struct() {
        Ok(_) if is_s => (),
        Err(E::UnexpectedType(..)) if !is_s => (),
        r => bad!("to_struct of {:?} gave {:?}", want, r.is_ok()),
    }
    match v.to_blob() {
        Ok(_) if is_b => (),
        Err(E::UnexpectedType(..)) if !is_b => (),
        r => bad!("to_blob of {:?} gave {:?}", want, r.is_ok()),
    }
    match (v.to_enum(), want) {
        (Ok((d, _)), PVal::Enum(w)) if d == *w => (),
        (Err(E::UnexpectedType(..)), w) if !matches!(w, PVal::Enum(_)) => (),
        (r, w) => bad!("to_enum of {:?} gave {:?}", w, r.map(|x| x.0)),
    }
    Ok(())
}

fn meta<R: Rd>(b: &Blob<R>, base: u64, start: u64, len: u64, p: u64) -> Case {
    let want = (len, len - p, p, base.wrapping_add(start), base.wrapping_add(start + len), base.wrapping_add(start + p));
    let got = (b.len(), b.remaining(), b.inner_pos(), b.start_pos(), b.end_pos(), b.stream_pos());
    ensure!(got == want, "blob-meta", "(len, remaining, offset, start, end, stream position) is {:?} instead of {:?}", got, want);
    Ok(())
}

/// Random operations on an open blob. Returns the final offset in it.
pub fn blob_ops<R: Rd, S: Src + ?Sized>(
    b: &mut Blob<R>,
    src: &S,
    base: u64,
    start: u64,
    len: u64,
    r: &mut Rng,
    o: &SessOpt,
    st: &mut Stats,
    n: u64,
) -> Result<u64, Fail> {
    let avail = (src.len().saturating_sub(start as u128)).min(u64::MAX as u128) as u64;
    let a = avail.min(len);
    let trunc = a < len;
    let mut p = 0u64;
    meta(b, base, start, len, p)?;
    for _ in 0..n {
        let small = |r: &mut Rng| -> usize {
            let left = len - p;
            match r.below(6) {
                0 => 1 + r.usz(8),
                1 => 1 + r.size(400),
                2 => left.min(o.cap as u64) as usize,
                3 => (left.saturating_add(1 + r.below(20))).min(o.cap as u64) as usize,
                4 => (left / 2).min(o.cap as u64) as usize,
                _ => 1 + r.usz(60),
            }
            .max(1)
        };
        let op = r.below(13);
        st.blob_ops += 1;
        match op {
            0 | 1 => {
                let k = small(r);
                let mut buf = vec![0xA5u8; k];
                let got = loop {
                    match b.read(&mut buf) {
                        Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                        x => break x,
                    }
                };
                match got {
                    Ok(n) => {
                        let n64 = n as u64;
                        let max = (a.saturating_sub(p)).min(k as u64);
                        ensure!(
                            n64 <= max && (n64 > 0) == (max > 0),
                            "blob-read",
                            "read of {} at {}/{} ({} there) returned {}",
                            k,
                            p,
                            len,
                            a,
                            n
                        );
                        ensure!(buf[..n] == content(src, start + p, n64)[..], "blob-read", "read at {} returned wrong bytes {}", p, hex(&buf[..n]));
                        ensure!(buf[n..].iter().all(|x| *x == 0xA5), "blob-read", "read wrote beyond what it returned");
                        p += n64;
                    }
                    Err(e) => bad!("blob read of {} at {}/{} failed: {}", k, p, len, e),
                }
            }
            2 => {
                let k = small(r);
                let mut buf = vec![0u8; k];
                match b.read_exact(&mut buf) {
                    Ok(()) => {
                        ensure!(p + k as u64 <= a, "blob-read", "read_exact of {} at {}/{} ({} there) succeeded", k, p, len, a);
                        ensure!(buf == content(src, start + p, k as u64), "blob-read", "read_exact at {} returned {}", p, hex(&buf));
                        p += k as u64;
                    }
                    Err(e) => {
                        ensure!(
                            p as u128 + k as u128 > a as u128 && e.kind() == io::ErrorKind::UnexpectedEof,
                            "blob-read",
                            "read_exact of {} at {}/{} failed: {}",
                            k,
                            p,
                            len,
                            e
                        );
                        let q = b.inner_pos();
                        ensure!(q >= p && q <= a, "blob-read", "failed read_exact moved from {} to {}", p, q);
                        p = q;
                    }
                }
            }
            3 | 4 => {
                let left = len - p;
                let max = match r.below(6) {
                    0 if left > 0 => (left - 1).min(o.cap as u64) as usize,
                    1 => left.min(o.cap as u64) as usize,
                    2 => left.saturating_add(1).min(o.cap as u64) as usize,
                    3 if a <= o.cap as u64 => usize::max_value(),
                    4 => 0,
                    _ => r.size(300),
                };
                match b.read_fully(max) {
                    Ok(d) => {
                        ensure!(left <= max as u64 && !trunc, "blob-full", "read_fully({}) of {} remaining bytes ({} there) returned {}", max, left, a.saturating_sub(p), d.len());
                        ensure!(d == content(src, start + p, left), "blob-full", "read_fully at {}/{} returned {}", p, len, hex(&d));
                        p = len;
                    }
                    Err(stream::Error::LargeBlob(m, n)) => {
                        ensure!(left > max as u64 && m == max && n == left, "blob-full", "read_fully({}) of {}: LargeBlob({}, {})", max, left, m, n);
                    }
                    Err(e) => {
                        ensure!(trunc && left <= max as u64, "blob-full", "read_fully({}) of {} bytes failed: {}", max, left, e);
                        if let stream::Error::TruncatedBlob(n) = e {
                            ensure!(p > a || n == len - a, "blob-full", "read_fully at {}/{} ({} there) lacks {} bytes", p, len, a, n);
                        }
                        p = b.inner_pos();
                        ensure!(p <= a, "blob-full", "failed read_fully is at {}", p);
                    }
                }
            }
            5 => {
                let max = small(r);
                let want = (a.saturating_sub(p)).min(max as u64);
                match b.read_or_trunc(max) {
                    Ok(d) => {
                        ensure!(d == content(src, start + p, want), "blob-trunc", "read_or_trunc({}) at {}/{} returned {} bytes {}", max, p, len, d.len(), hex(&d));
                        p += want;
                    }
                    Err(e) => {
                        ensure!(trunc && p + max as u64 > a, "blob-trunc", "read_or_trunc({}) failed: {}", max, e);
                        p = b.inner_pos();
                    }
                }
            }
            6 | 7 => {
                let got = loop {
                    match R::fill(b) {
                        Some(Err(e)) if e.kind() == io::ErrorKind::Interrupted => continue,
                        x => break x,
                    }
                };
                match got {
                    None => (),
                    Some(Ok(d)) => {
                        let n = d.len() as u64;
                        ensure!(n <= a.saturating_sub(p) && (n > 0) == (p < a), "blob-fill", "fill_buf at {}/{} ({} there) gave {} bytes", p, len, a, n);
                        ensure!(d == content(src, start + p, n), "blob-fill", "fill_buf at {} gave {}", p, hex(&d));
                        let k = r.below(n + 1);
                        R::consume(b, k as usize);
                        p += k;
                    }
                    Some(Err(e)) => bad!("fill_buf failed at {}/{}: {}", p, len, e),
                }
            }
            8 if !trunc => {
                let (w, to) = rand_seek(r, p, len);
                match R::seek(b, w) {
                    None => (),
                    Some(Ok(n)) => match to {
                        Some(t) => {
                            ensure!(n == t, "blob-seek", "seek {:?} at {}/{} returned {} instead of {}", w, p, len, n, t);
                            p = t;
                        }
                        None => bad!("seek {:?} at {}/{} accepted: {}", w, p, len, n),
                    },
                    Some(Err(e)) => {
                        // whether the reader itself can seek is its own matter
                        let far = to.map_or(false, |t| t.max(p) - t.min(p) > i64::MAX as u64);
                        ensure!(to.is_none() || far || not_possible(&e), "blob-seek", "seek {:?} at {}/{} refused: {}", w, p, len, e);
                    }
                }
            }
            9 => {
                if let Some(x) = R::slice(b) {
                    match x {
                        Ok(d) => ensure!(!trunc && d == content(src, start + p, len - p), "blob-slice", "slice at {}/{} ({} there) gave {}", p, len, a, hex(&d)),
                        Err(e) => ensure!(trunc && matches!(e, stream::Error::TruncatedBlob(n) if p > a || n == len - a), "blob-slice", "slice at {}/{} ({} there) failed: {}", p, len, a, e),
                    }
                }
                // changes through slice_mut stay within the blob
                let mut seen = None;
                let flip = r.u64() as u8 | 1;
                match R::slice_mut(b, &mut |s| {
                    seen = Some(s.to_vec());
                    s.iter_mut().for_each(|x| *x ^= flip)
                }) {
                    None => (),
                    Some(Err(e)) => ensure!(trunc && matches!(e, stream::Error::TruncatedBlob(n) if p > a || n == len - a), "blob-slice", "slice_mut at {}/{} ({} there) failed: {}", p, len, a, e),
                    Some(Ok(())) => {
                        let want = content(src, start + p, (len - p).min(a.saturating_sub(p)));
                        ensure!(!trunc && seen.as_deref() == Some(&want[..]), "blob-slice", "slice_mut at {}/{} gave {:?}", p, len, seen);
                        let w: Vec<u8> = want.iter().map(|x| x ^ flip).collect();
                        match R::slice(b) {
                            Some(Ok(d)) => ensure!(d == w, "blob-slice", "slice after slice_mut gave {}", hex(&d)),
                            x => bad!("slice after slice_mut gave {:?}", x),
                        }
                        drop(R::slice_mut(b, &mut |s| s.iter_mut().for_each(|x| *x ^= flip)));
                    }
                }
            }
            10 => {
                if let Some(x) = R::ext_slice(b) {
                    match x {
                        Ok(d) => ensure!(!trunc && d == content(src, start + p, len - p), "blob-slice", "ext_slice at {}/{} ({} there) gave {}", p, len, a, hex(&d)),
                        Err(e) => ensure!(trunc && matches!(e, stream::Error::TruncatedBlob(n) if p > a || n == len - a), "blob-slice", "ext_slice at {}/{} ({} there) failed: {}", p, len, a, e),
                    }
                    // whether it consumes is judged by C16
                    let q = b.inner_pos();
                    ensure!(q == p || (q == len && !trunc), "blob-slice", "ext_slice moved from {} to {} of {}", p, q, len);
                    if q == p && p < len && !trunc {
                        st.ext_not_consuming += 1;
                    }
                    p = q;
                }
            }
            11 if p < a => {
                // around the stream, as documented for `stream_get_mut`
                let k = (small(r) as u64).min(a - p) as usize;
                let mut v = vec![0u8; k];
                if let Err(e) = b.stream_get_mut().read_exact(&mut v) {
                    bad!("reading {} at {}/{} directly failed: {}", k, p, len, e);
                }
                ensure!(v == content(src, start + p, k as u64), "blob-read", "reading {} at {}/{} directly gave {}", k, p, len, hex(&v));
                let at = b.stream_pos();
                b.stream_set_pos(at + k as u64);
                p += k as u64;
            }
            _ => {
                // taking through the Read adapters
                let k = small(r);
                let mut v = Vec::new();
                match b.take(k as u64).read_to_end(&mut v) {
                    Ok(n) => {
                        let want = (a.saturating_sub(p)).min(k as u64);
                        ensure!(n == v.len() && v == content(src, start + p, want), "blob-read", "take({}) at {}/{} gave {}", k, p, len, hex(&v));
                        p += want;
                    }
                    Err(e) => bad!("take({}) failed: {}", k, e),
                }
            }
        }
        meta(b, base, start, len, p)?;
    }
    Ok(p)
}

/// A seek and the blob offset it leads to (None: out of range).
pub fn rand_seek(r: &mut Rng, p: u64, len: u64) -> (SeekFrom, Option<u64>) {
    let edge = |r: &mut Rng, n: u64| -> u64 {
        match r.below(6) {
            0 => 0,
            1 => n,
            2 => n.saturating_add(1),
            3 => n.saturating_sub(1),
            4 => r.int(),
            _ => r.below(n.max(1)),
        }
    };
    match r.below(3) {
        0 => {
            let t = edge(r, len);
            (SeekFrom::Start(t), if t <= len { Some(t) } else { None })
        }
        1 => {
            let d = edge(r, len);
            let d = if r.chance(1, 8) { (r.int() as i64) } else { (d.min(1 << 63) as i64).wrapping_neg() };
            let t = len as i128 + d as i128;
            (SeekFrom::End(d), if t >= 0 && t <= len as i128 { Some(t as u64) } else { None })
        }
        _ => {
            let d = if r.chance(1, 2) {
                (edge(r, p).min(1 << 63) as i64).wrapping_neg()
            } else if r.chance(1, 8) {
                r.int() as i64
            } else {
                edge(r, len - p).min(i64::MAX as u64) as i64
            };
            let t = p as i128 + d as i128;
            (SeekFrom::Current(d), if t >= 0 && t <= len as i128 { Some(t as u64) } else { None })
        }
    }
}

/// One whole session. `starts`: offsets where elements start (targets of
/// repositioning).
pub fn session<R: Rd, S: Src + ?Sized>(
    s: &mut Stream<R>,
    rp: &mut RefParser<S>,
    r: &mut Rng,
    o: &SessOpt,
    starts: &[u64],
    st: &mut Stats,
) -> Result<End, Fail> {
    let mut ended = 0;
    for _ in 0..o.steps {
        // consistency of what the stream reports
        let got = (s.pos(), s.struct_depth(), s.eof());
        let want = (rp.pos(), rp.depth, rp.eof);
        ensure!(got == want, "stream-state", "(position, depth, end of document) is {:?} instead of {:?}", got, want);
        if let Some(at) = s.get_ref().at() {
            ensure!(at == rp.off, "stream-state", "underlying reader at {} instead of {}", at, rp.off);
        }
        st.max_depth = st.max_depth.max(rp.depth);
        let op = r.below(16);
        if o.skips && op < 3 {
            st.skips += 1;
            let d = match r.below(4) {
                0 => 0,
                1 => rp.depth.saturating_sub(1),
                2 => r.below(rp.depth + 2),
                _ => rp.depth,
            };
            let w = rp.skip_up(d);
            match (s.skip_up(d), w) {
                (Ok(()), Ok(())) => continue,
                (Err(e), Err(x)) if same_err(&e, x, o.strict) => {
                    st.errors += 1;
                    return Ok(End::Err);
                }
                (g, w) => bad!("skip_up({}) gave {:?} instead of {:?}", d, g, w),
            }
        }
        if o.seeks && op == 3 && !starts.is_empty() && !rp.eof {
            // everything before must be sound, or the seek fails
            let t = *r.pick(starts);
            let l = rp.src.len() as i128;
            let how = r.below(3);
            // relative targets count from the end of an open blob
            let from = rp.blob_end.map(|e| e.max(rp.off)).unwrap_or(rp.off);
            let fits = |d: i128| d == d as i64 as i128;
            let w = match how {
                1 if fits(t as i128 - l) => SeekFrom::End((t as i128 - l) as i64),
                2 if fits(t as i128 - from as i128) => SeekFrom::Current((t as i128 - from as i128) as i64),
                _ => SeekFrom::Start(t),
            };
            let c = rp.commit();
            match (R::stream_seek(s, w), c) {
                (None, Ok(())) => {
                    // not seekable: settle the open blob instead
                    if let Err(e) = s.commit() {
                        bad!("commit failed: {}", e);
                    }
                    continue;
                }
                (None, Err(_)) => return Ok(End::Err),
                (Some(Err(e)), Ok(())) if matches!(&e, stream::Error::Io(e) if not_possible(e)) => continue,
                (Some(Ok(n)), Ok(())) => {
                    ensure!(n == t, "stream-seek", "seek {:?} returned {} instead of {}", w, n, t);
                    st.seeks += 1;
                    rp.off = t;
                    rp.base = 0;
                    rp.depth = 0;
                    rp.blob_end = None;
                    continue;
                }
                (Some(Err(_)), Err(_)) => return Ok(End::Err),
                (g, w2) => bad!("seek {:?} gave {:?} instead of {:?}", w, g, w2),
            }
        }
        if o.renumber && op == 4 && r.chance(1, 2) {
            st.renumbered += 1;
            if r.chance(1, 2) {
                let d = r.below(6);
                s.set_struct_depth(d);
                rp.depth = d;
            } else {
                let p = if r.chance(1, 2) { r.below(1000) } else { r.int() >> 1 };
                match (s.reset_pos(p), rp.commit()) {
                    (Ok(()), Ok(())) => rp.base = p.wrapping_sub(rp.off),
                    (Err(e), Err(x)) if same_err(&e, x, o.strict) => {
                        st.errors += 1;
                        return Ok(End::Err);
                    }
                    (g, w) => bad!("resetting the position gave {:?} instead of {:?}", g, w),
                }
            }
            continue;
        }
        if op == 5 && o.steps > 1 && r.chance(1, 4) {
            // calls which change nothing, whatever is open
            st.idle += 1;
            if !rp.eof {
                s.clear_eof();
            }
            let g = s.graceful_eof();
            s.set_graceful_eof(!g);
            s.set_graceful_eof(g);
            s.set_pos(s.pos());
            let _ = s.get_mut();
            s.set_struct_depth(s.struct_depth());
            if r.chance(1, 4) {
                match (s.commit(), rp.commit()) {
                    (Ok(()), Ok(())) => (),
                    (Err(e), Err(x)) if same_err(&e, x, o.strict) => {
                        st.errors += 1;
                        return Ok(End::Err);
                    }
                    (g, w) => bad!("committing gave {:?} instead of {:?}", g, w),
                }
            }
        }
        let as_field = r.below(8) < o.fields;
        st.elements += 1;
        if as_field {
            let w = rp.next_nopad();
            let rp_off = rp.off;
            match (s.next_field(), w) {
                (Ok(None), Ok(PEl::EndStruct)) => (),
                (Ok(None), Ok(PEl::EndDoc)) => {
                    st.enddocs += 1;
                    ended += 1;
                }
                (Ok(Some(mut f)), Ok(PEl::Field { tag, pos, depth, val })) => {
                    ensure!((f.tag, f.pos, f.depth) == (tag, pos, depth), "stream-differs", "field (tag, position, depth) {:?} instead of {:?}", (f.tag, f.pos, f.depth), (tag, pos, depth));
                    value(&mut f.value, &val, rp, r, o, st)?;
                    // reading some of it first, through the field
                    if o.skips && o.steps > 40 && r.chance(1, 4) {
                        if let Value::Struct(ref mut sub) | Value::Enum(_, ref mut sub) = f.value {
                            st.partly_read += 1;
                            let so = SessOpt { steps: 1 + r.below(14), ..*o };
                            match session(sub, rp, r, &so, starts, st)? {
                                End::Err => return Ok(End::Err),
                                _ => (),
                            }
                        }
                    }
                    if o.skips && r.chance(1, 3) {
                        st.skips += 1;
                        let w = match val {
                            PVal::Struct | PVal::Enum(_) => rp.skip_up(depth),
                            _ => Ok(()),
                        };
                        match (f.skip(), w) {
                            (Ok(()), Ok(())) => (),
                            (Err(e), Err(x)) if same_err(&e, x, o.strict) => {
                                st.errors += 1;
                                return Ok(End::Err);
                            }
                            (g, w) => bad!("skip of field {:?} gave {:?} instead of {:?}", val, g, w),
                        }
                    }
                }
                (Err(e), Ok(PEl::Exc { start, len })) => {
                    st.exceptions += 1;
                    let avail = rp.src.len().saturating_sub(start as u128).min(256).min(len as u128) as u64;
                    let trunc = start as u128 + len as u128 > rp.src.len();
                    match &e {
                        stream::Error::Exception(m) => {
                            let d = content(rp.src, start, avail);
                            let w = String::from_utf8_lossy(&d);
                            ensure!(*m == *w, "exception", "message {:?} instead of {:?}", m, w);
                            if !trunc {
                                rp.off = s.pos().wrapping_sub(rp.base);
                                ensure!(rp.off >= rp_off && rp.off <= start + len, "exception", "after an exception at {}", s.pos());
                            } else {
                                return Ok(End::Err);
                            }
                        }
                        e => {
                            ensure!(trunc && same_err(e, PErr::TruncBlob, o.strict), "exception", "reported as {:?}", e);
                            return Ok(End::Err);
                        }
                    }
                }
                (Err(e), Err(x)) if same_err(&e, x, o.strict) => {
                    st.errors += 1;
                    return Ok(End::Err);
                }
                (g, w) => bad!("next_field gave {} instead of {:?}", show_field(&g), w),
            }
        } else {
            let w = rp.next();
            match (s.next_element(), w) {
                (Ok(Element::EndOfStruct), Ok(PEl::EndStruct)) => (),
                (Ok(Element::EndOfDoc), Ok(PEl::EndDoc)) => {
                    st.enddocs += 1;
                    ended += 1;
                }
                (Ok(Element::Padding), Ok(PEl::Pad)) => (),
                (Ok(Element::Exception(mut b)), Ok(PEl::Exc { start, len })) => {
                    st.exceptions += 1;
                    open(&mut b, start, len, rp, r, o, st)?;
                }
                (Ok(Element::Field(mut f)), Ok(PEl::Field { tag, pos, depth, val })) => {
                    ensure!((f.tag, f.pos, f.depth) == (tag, pos, depth), "stream-differs", "field (tag, position, depth) {:?} instead of {:?}", (f.tag, f.pos, f.depth), (tag, pos, depth));
                    value(&mut f.value, &val, rp, r, o, st)?;
                }
                (Err(e), Err(x)) if same_err(&e, x, o.strict) => {
                    st.errors += 1;
                    return Ok(End::Err);
                }
                (g, w) => bad!("next_element gave {} instead of {:?}", show_el(&g), w),
            }
        }
        if rp.eof && ended > 0 {
            if o.clear_eof && r.chance(1, 3) && ended < 4 {
                s.clear_eof();
                rp.eof = false;
            } else if ended >= 3 {
                return Ok(End::Doc);
            }
        }
    }
    Ok(End::Steps)
}
pub fn show_field<R: Read>(r: &stream::Result<Option<stream::Field<R>>>) -> String {
    match r {
        Ok(None) => "end of struct".into(),
        Ok(Some(f)) => format!("field tag {} at {} depth {} {}", f.tag, f.pos, f.depth, show_val(&f.value)),
        Err(e) => format!("error {:?}", e),
    }
}
pub fn show_val<R>(v: &Value<R>) -> String {
    match v {
        Value::Integer(i) => format!("integer {}", i),
        Value::Blob(b) => format!("blob of {}", b.len()),
        Value::Struct(_) => "struct".into(),
        Value::Enum(d, _) => format!("enum {}", d),
    }
}
pub fn show_el<R>(r: &stream::Result<Element<R>>) -> String {
    match r {
        Ok(Element::Field(f)) => format!("field tag {} at {} depth {} {}", f.tag, f.pos, f.depth, show_val(&f.value)),
        Ok(Element::EndOfStruct) => "end of struct".into(),
        Ok(Element::EndOfDoc) => "end of document".into(),
        Ok(Element::Padding) => "padding".into(),
        Ok(Element::Exception(b)) => format!("exception of {}", b.len()),
        Err(e) => format!("error {:?}", e),
    }
}

fn value<R: Rd, S: Src + ?Sized>(v: &mut Value<R>, want: &PVal, rp: &mut RefParser<S>, r: &mut Rng, o: &SessOpt, st: &mut Stats) -> Case {
    match (&*v, want) {
        (Value::Integer(a), PVal::Int(b)) if a == b => (),
        (Value::Struct(_), PVal::Struct) => (),
        (Value::Enum(a, _), PVal::Enum(b)) if a == b => (),
        (Value::Blob(b), PVal::Blob { len, .. }) if b.len() == *len => (),
        (g, w) => bad!("value {} instead of {:?}", show_val(g), w),
    }
    if o.accessors {
        accessors(v, want)?;
    }
    if let (Value::Blob(b), PVal::Blob { start, len }) = (v, want) {
        open(b, *start, *len, rp, r, o, st)?;
    }
    Ok(())
}
fn open<R: Rd, S: Src + ?Sized>(b: &mut Blob<R>, start: u64, len: u64, rp: &mut RefParser<S>, r: &mut Rng, o: &SessOpt, st: &mut Stats) -> Case {
    st.blobs += 1;
    ensure!(b.len() == len, "blob-meta", "length {} instead of {}", b.len(), len);
    let n = if !o.blob_ops {
        0
    } else {
        match r.below(4) {
            0 => 0,
            1 => 1,
            _ => 1 + r.below(4),
        }
    };
    let p = blob_ops(b, rp.src, rp.base, start, len, r, o, st, n)?;
    rp.off = start + p;
    Ok(())
}

// ------------------------------------------------------------------ inputs

/// Byte strings for the element level: valid, odd and broken.
pub fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(12) {
        0 => {
            let n = r.size(80);
            r.bytes(n)
        }
        1 | 2 => alphabet(r),
        3..=5 => loose(r, 30),
        6 => {
            let mut b = valid(r).0;
            b.truncate(r.usz(b.len() + 1));
            b
        }
        7 => {
            let mut b = valid(r).0;
            for _ in 0..1 + r.below(3) {
                let i = r.usz(b.len());
                b[i] = if r.chance(1, 2) { r.u64() as u8 } else { b[i] ^ 1 << r.below(8) };
            }
            b
        }
        _ => valid(r).0,
    }
}
fn alphabet(r: &mut Rng) -> Vec<u8> {
    let n = 1 + r.usz(24);
    (0..n).map(|_| *r.pick(&[0u8, 1, 2, 3, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0x81, 0x82, 0xBF, 0xC0, 0xC1, 0xFF])).collect()
}
/// A stream of elements without regard to nesting.
pub fn loose(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut o = Vec::new();
    for _ in 0..1 + r.usz(max) {
        let tag = rand_tag(r);
        match r.below(16) {
            0..=3 => {
                o.push(T_INT | tag);
                rand_int(r, &mut o);
            }
            4..=6 => {
                o.push(T_BLOB | tag);
                rand_blob(r, &mut o);
            }
            7 | 8 => o.push(T_STRUCT | tag),
            9 | 10 => {
                o.push(T_ENUM | tag);
                rand_int(r, &mut o);
            }
            11 | 12 => o.push(END_STRUCT),
            13 => {
                for _ in 0..1 + r.below(4) {
                    o.push(PADDING)
                }
            }
            14 => {
                o.push(EXCEPTION);
                rand_blob(r, &mut o);
            }
            _ => {
                if r.chance(1, 6) {
                    o.push(END_DOC)
                }
            }
        }
    }
    o
}
fn rand_int(r: &mut Rng, o: &mut Vec<u8>) {
    let v = r.int();
    let extra = match r.below(12) {
        0 => 1 + r.below(3),
        1 => 1 + r.below(10),
        2 if r.chance(1, 4) => 240 + r.below(20),
        _ => 0,
    };
    varint_padded(o, v, extra as usize);
    if r.chance(1, 60) {
        // overflowing or endless
        o.pop();
        let n = r.below(300) as usize;
        for _ in 0..n {
            o.push(if r.chance(1, 10) { 0x81 } else { 0x80 });
        }
        o.push(r.below(128) as u8);
    }
}
fn rand_blob(r: &mut Rng, o: &mut Vec<u8>) {
    let n = r.size_or_big(700);
    let d = blob_bytes(r, n);
    let decl = if r.chance(1, 25) { r.int() } else { n as u64 };
    varint_padded(o, decl, if r.chance(1, 10) { 1 + r.usz(9) } else { 0 });
    o.extend(d);
}
/// A well-formed body (tree, bytes, element starts) with padding, exceptions,
/// denormalised integers.
pub fn valid_tree(r: &mut Rng) -> Body {
    let d = if r.chance(1, 40) { 60 } else { r.below(5) as u32 };
    let mut b = rand_body(r, d);
    let mut f = r.fork();
    let k = f.below(3);
    b.visit_mut(&mut |b| {
        for _ in 0..f.below(k + 1) {
            if f.chance(1, 3) {
                let i = f.usz(b.nodes.len() + 1);
                let n = if f.chance(1, 2) {
                    Node::Pad
                } else {
                    let n = f.size_or_big(600);
                    Node::Exc(if f.chance(1, 2) { b"went wrong \xE9\xff\xC3".repeat(n % 60 + 1) } else { f.bytes(n) })
                };
                b.nodes.insert(i, n);
            }
        }
    });
    b
}
pub fn valid(r: &mut Rng) -> (Vec<u8>, Vec<u64>) {
    let mut out = Vec::new();
    let mut marks = Vec::new();
    for _ in 0..1 + r.below(3) {
        let t = valid_tree(r);
        let mut f = r.fork();
        let (dn, pd) = if r.chance(1, 2) { (0, 0) } else { (50, 40) };
        let mut m = Vec::new();
        let b = if r.chance(1, 8) {
            end_doc_variant(&t)
        } else {
            encode_styled(&t, &mut Style { rng: Some(&mut f), denorm: dn, pad: pd, marks: Some(&mut m) })
        };
        marks.extend(m.iter().map(|x| (*x + out.len()) as u64));
        out.extend(b);
    }
    (out, marks)
}
pub fn rand_plan(r: &mut Rng) -> Plan {
    let mut p = Plan::default();
    match r.below(4) {
        0 => (),
        1 => p.chunks = vec![1],
        2 => p.chunks = (0..1 + r.usz(5)).map(|_| 1 + r.usz(9)).collect(),
        _ => p.chunks = vec![1 + r.usz(5), 1 + r.usz(200)],
    }
    if r.chance(1, 3) {
        p.interrupt = 1 + r.below(5);
    }
    p
}

struct Run<'a> {
    bytes: &'a [u8],
    starts: &'a [u64],
    rng: Rng,
    o: SessOpt,
    base: u64,
    graceful: bool,
    st: &'a mut Stats,
}
impl<'a> Visit for Run<'a> {
    type O = Result<End, Fail>;
    fn go<R: Rd>(&mut self, mut s: Stream<R>) -> Self::O {
        s.set_pos(self.base);
        s.set_graceful_eof(self.graceful);
        ensure!(s.graceful_eof() == self.graceful, "graceful", "flag not set");
        let mut rp = RefParser::new(self.bytes);
        rp.base = self.base;
        rp.graceful = self.graceful;
        let mut o = self.o;
        if self.base > u64::MAX / 2 {
            o.strict = false;
        }
        session(&mut s, &mut rp, &mut self.rng.clone(), &o, self.starts, self.st)
    }
}
pub fn run_session(
    cx: &mut Ctx,
    bytes: &[u8],
    starts: &[u64],
    kind: u64,
    plan: &Plan,
    o: SessOpt,
    base: u64,
    graceful: bool,
) -> Result<End, Fail> {
    let mut st = Stats::default();
    let rng = cx.rng.fork();
    let r = with_kind(kind, bytes, plan, &mut Run { bytes, starts, rng, o, base, graceful, st: &mut st });
    st.put(cx);
    r.map_err(|f| Fail {
        sig: f.sig,
        msg: format!("{} (base {}, graceful {}): {}: {}", KIND_NAMES[(kind % KINDS) as usize], base, graceful, hex(bytes), f.msg),
    })
}
pub fn rand_base(r: &mut Rng, len: usize) -> u64 {
    match r.below(6) {
        0 => u64::MAX - r.below(len as u64 + 30),
        1 => r.u64(),
        _ => 0,
    }
}

// ------------------------------------------------------------------ engines

pub fn c03(cx: &mut Ctx) -> Case {
    let bytes = gen_bytes(&mut cx.rng);
    cx.eval_bytes(0, &bytes, !bytes.is_empty());
    cx.sample(|| hex(&bytes));
    let graceful = cx.rng.chance(1, 3);
    for i in 0..2 {
        let kind = cx.rng.below(KINDS);
        let plan = rand_plan(&mut cx.rng);
        let base = rand_base(&mut cx.rng, bytes.len());
        let mut o = SessOpt::reading();
        if i == 0 {
            o.fields = 0;
        }
        run_session(cx, &bytes, &[], kind, &plan, o, base, graceful)?;
    }
    Ok(())
}
/// Every byte string of up to two bytes, followed by nothing or by each of a
/// few continuations.
pub fn c03_short(cx: &mut Ctx) -> Case {
    // 258 cases: empty, single bytes and pairs starting with idx - 2
    let tails: [&[u8]; 5] = [&[], &[0], &[0x41, 0, 0], &[0x80, 0x80, 0x01, 0, 0x40], &[3, b'a', b'b', b'c', 0, 0]];
    let i = cx.idx;
    let n = if i < 2 { 1 } else { 256 };
    for k in 0..n {
        let head: Vec<u8> = match i {
            0 => vec![],
            1 => vec![],
            _ => vec![(i - 2) as u8, k as u8],
        };
        let heads: Vec<Vec<u8>> = if i == 1 { (0..=255u8).map(|b| vec![b]).collect() } else { vec![head] };
        for h in heads {
            for t in tails.iter() {
                let mut b = h.clone();
                b.extend_from_slice(t);
                cx.eval_bytes(1, &b, true);
                let kind = cx.rng.below(KINDS);
                let o = SessOpt { fields: cx.rng.below(3), ..SessOpt::reading() };
                let g = cx.rng.chance(1, 2);
                run_session(cx, &b, &[], kind, &Plan::default(), o, 0, g)?;
            }
        }
    }
    if i == 2 {
        cx.sample(|| "all pairs of bytes starting with 00 with five continuations".into());
    }
    Ok(())
}

/// Streams of unusual size: very deep, very many elements, long padding.
pub fn c03_large(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let n = match r.below(4) {
        0 => 200 + r.usz(200),
        1 => 4_000 + r.usz(200),
        2 => 65_400 + r.usz(300),
        _ => r.usz(100_000),
    };
    let mut b = vec![];
    let some = |b: &mut Vec<u8>, r: &mut Rng| match r.below(4) {
        0 => b.extend_from_slice(&[T_INT | rand_tag(r), 5]),
        1 => b.extend_from_slice(&[T_BLOB | rand_tag(r), 2, 0x40, 0xFF]),
        2 => b.extend_from_slice(&[T_ENUM | rand_tag(r), 3, END_STRUCT]),
        _ => (),
    };
    let (what, mut pads, mut steps) = match cx.idx % 3 {
        0 => {
            for _ in 0..n {
                if r.chance(1, 16) {
                    some(&mut b, r);
                }
                b.push(T_STRUCT | rand_tag(r));
                if r.chance(1, 8) {
                    b.pop();
                    b.extend_from_slice(&[T_ENUM | rand_tag(r), 1]);
                }
            }
            let up = r.usz(n + 2);
            for _ in 0..up {
                b.push(END_STRUCT);
                if r.chance(1, 16) {
                    some(&mut b, r);
                }
            }
            ("levels", 0, 3 * n as u64)
        }
        1 => {
            for _ in 0..n {
                some(&mut b, r);
            }
            ("elements", 0, 3 * n as u64)
        }
        _ => {
            some(&mut b, r);
            b.extend(std::iter::repeat(PADDING).take(n));
            some(&mut b, r);
            b.extend(std::iter::repeat(PADDING).take(n));
            ("padding", n, 200 + n as u64)
        }
    };
    if r.chance(1, 2) {
        b.push(if r.chance(1, 2) { END_DOC } else { END_STRUCT });
        some(&mut b, r);
    }
    if b.len() > 1_000_000 {
        b.truncate(1_000_000);
    }
    if r.chance(1, 2) {
        pads = 0;
        steps = steps.min(3_000);
    }
    let o = SessOpt { fields: if pads > 0 { r.below(3) } else { r.below(9) }, steps, skips: r.chance(1, 2), blob_ops: false, accessors: false, ..SessOpt::reading() };
    cx.eval_bytes(2, &b, n > 1);
    cx.sample(|| format!("{} {}", n, what));
    cx.count(what, n as u64);
    let kind = cx.rng.below(KINDS);
    let g = cx.rng.chance(1, 3);
    run_session(cx, &b, &[], kind, &Plan::default(), o, 0, g)?;
    Ok(())
}

pub fn c15(cx: &mut Ctx) -> Case {
    let (bytes, starts) = if cx.rng.chance(2, 3) {
        valid(&mut cx.rng)
    } else {
        (gen_bytes(&mut cx.rng), vec![])
    };
    cx.eval_bytes(0, &bytes, bytes.len() > 2);
    cx.sample(|| hex(&bytes));
    let graceful = cx.rng.chance(1, 3);
    for _ in 0..2 {
        let kind = cx.rng.below(KINDS);
        let plan = rand_plan(&mut cx.rng);
        let base = rand_base(&mut cx.rng, bytes.len());
        let o = SessOpt { skips: true, seeks: !starts.is_empty(), fields: 4, accessors: false, renumber: cx.rng.chance(1, 3), ..SessOpt::reading() };
        run_session(cx, &bytes, &starts, kind, &plan, o, base, graceful)?;
    }
    Ok(())
}
/// Skipping over very deep content; the position is predicted from how the
/// input was built.
pub fn c15_deep(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let depth = *r.pick(&[1u64, 2, 3, 50, 255, 256, 257, 1000, 65_535, 65_536, 70_000]);
    let mut b = vec![];
    // siblings around a deep field
    b.extend_from_slice(&[0x41, 7, 0xC5]);
    for _ in 0..depth {
        match r.below(4) {
            0 => b.extend_from_slice(&[0x42, 1, 0xC1]),
            1 => b.extend_from_slice(&[0x03, 0x01]),
            2 => b.extend_from_slice(&[0x84, 2, 0x40, 0x40, 0xFF]),
            _ => b.push(0xC9),
        }
    }
    for _ in 0..depth {
        if r.chance(1, 8) {
            b.push(0xC0);
        }
        b.push(0);
    }
    b.push(0);
    let after = b.len() as u64;
    b.extend_from_slice(&[0x46, 9, 0]);
    cx.eval_bytes(2, &b, depth > 1);
    cx.sample(|| format!("{} levels, {} bytes", depth, b.len()));
    struct V {
        how: u64,
        after: u64,
        depth: u64,
    }
    impl Visit for V {
        type O = Case;
        fn go<R: Rd>(&mut self, mut s: Stream<R>) -> Case {
            let n = s.next_field().map_err(|e| Fail { sig: "skip".into(), msg: e.to_string() })?.map(|f| f.tag);
            ensure!(n == Some(1), "skip", "first field {:?}", n);
            {
                let f = match s.next_field() {
                    Ok(Some(f)) => f,
                    x => return fail("skip", show_field(&x)),
                };
                ensure!(f.tag == 5 && f.depth == 1, "skip", "tag {} depth {}", f.tag, f.depth);
                if self.how == 0 {
                    if let Err(e) = f.skip() {
                        return fail("skip", format!("skip failed: {}", e));
                    }
                }
            }
            if self.how == 1 {
                ensure!(s.struct_depth() == 2, "skip", "depth {}", s.struct_depth());
                if let Err(e) = s.skip_up(1) {
                    return fail("skip", format!("skip_up failed: {}", e));
                }
            }
            if self.how == 2 {
                // walk down by hand, then up again
                let mut down = 0;
                loop {
                    match s.next_field() {
                        Ok(Some(f)) => {
                            if matches!(f.value, Value::Struct(_) | Value::Enum(..)) {
                                down += 1;
                            }
                        }
                        Ok(None) => break,
                        Err(e) => return fail("skip", e.to_string()),
                    }
                }
                ensure!(down == self.depth && s.struct_depth() == self.depth + 1, "skip", "{} levels down, depth {} instead of {}", down, s.struct_depth(), self.depth + 1);
                if let Err(e) = s.skip_up(1) {
                    return fail("skip", format!("skip_up failed: {}", e));
                }
            }
            ensure!(s.pos() == self.after && s.struct_depth() == 1, "skip", "after skipping {} levels at {} depth {} instead of {} depth 1", self.depth, s.pos(), s.struct_depth(), self.after);
            match s.next_field() {
                Ok(Some(f)) if f.tag == 6 && f.pos == self.after && f.depth == 1 => (),
                x => return fail("skip", format!("next sibling is {}", show_field(&x))),
            }
            let end = match s.next_field() {
                Ok(None) => None,
                x => Some(show_field(&x)),
            };
            ensure!(end.is_none() && s.struct_depth() == 0, "skip", "end is {:?} at depth {}", end, s.struct_depth());
            Ok(())
        }
    }
    // the deep levels may not all open structs: count those that do
    let opens = {
        let mut p = RefParser::new(&b[..]);
        let mut m = 0;
        loop {
            match p.next() {
                Ok(PEl::EndStruct) => break,
                Ok(_) => m = m.max(p.depth),
                Err(e) => return fail("reference", format!("{:?}", e)),
            }
        }
        m - 2
    };
    let mut v = V { how: cx.rng.below(3), after, depth: opens };
    let kind = cx.rng.below(KINDS);
    cx.count("deep_skips", 1);
    with_kind(kind, &b, &Plan::default(), &mut v)
}

/// Element-level truncation: no session over a cut message may complete.
pub fn c07_elements(cx: &mut Ctx) -> Case {
    let t = valid_tree(&mut cx.rng);
    let ed = cx.rng.chance(1, 6);
    let bytes = if ed {
        end_doc_variant(&t)
    } else {
        let mut f = cx.rng.fork();
        encode_styled(&t, &mut Style { rng: Some(&mut f), denorm: 20, pad: 20, marks: None })
    };
    cx.eval_bytes(3, &bytes, bytes.len() > 1);
    cx.sample(|| hex(&bytes));
    let mut cuts: Vec<usize> = (0..6).map(|_| cx.rng.usz(bytes.len())).collect();
    cuts.push(bytes.len() - 1);
    for cut in cuts {
        let part = &bytes[..cut];
        for graceful in [false, true] {
            let kind = cx.rng.below(KINDS);
            let plan = rand_plan(&mut cx.rng);
            let o = SessOpt { skips: cx.rng.chance(1, 3), fields: cx.rng.below(9), steps: 200_000, clear_eof: false, ..SessOpt::reading() };
            let end = run_session(cx, part, &[], kind, &plan, o, 0, graceful)?;
            ensure!(
                graceful || end == End::Err || ed,
                "truncation-accepted",
                "{}: reading the first {} bytes of {} ended with {:?}",
                KIND_NAMES[kind as usize],
                cut,
                hex(&bytes),
                end
            );
            cx.count("truncated_element_sessions", 1);
        }
    }
    Ok(())
}

/// Only that nothing panics or spins, whatever is done.
pub fn c06_elements(cx: &mut Ctx) -> Case {
    let bytes = gen_bytes(&mut cx.rng);
    cx.eval_bytes(0, &bytes, !bytes.is_empty());
    cx.sample(|| hex(&bytes));
    struct V {
        rng: Rng,
        base: u64,
        graceful: bool,
        len: usize,
        ops: u64,
    }
    impl Visit for V {
        type O = Case;
        fn go<R: Rd>(&mut self, mut s: Stream<R>) -> Case {
            s.set_pos(self.base);
            s.set_graceful_eof(self.graceful);
            let r = &mut self.rng;
            let mut budget = (6 * self.len + 40).min(3_000);
            let mut errs = 0;
            while budget > 0 && errs < 3 {
                budget -= 1;
                self.ops += 1;
                fn blob<R: Rd>(b: &mut Blob<R>, r: &mut Rng) {
                    for _ in 0..r.below(5) {
                        let n = r.size(300);
                        match r.below(14) {
                            0 => drop(b.read(&mut vec![0; n])),
                            1 => drop(b.read_fully(n)),
                            2 => drop(b.read_fully(usize::max_value())),
                            3 => drop(b.read_or_trunc(n)),
                            4 => drop(b.read_or_trunc(usize::max_value())),
                            5 | 6 => {
                                if let Some(Ok(k)) = R::fill_len(b) {
                                    R::consume(b, r.usz(k + 1));
                                }
                            }
                            7 | 8 => {
                                let (w, _) = rand_seek(r, b.inner_pos(), b.len());
                                drop(R::seek(b, w));
                            }
                            9 => drop(R::slice(b)),
                            10 => drop(R::ext_slice(b)),
                            11 => drop(R::slice_mut(b, &mut |s| s.iter_mut().for_each(|x| *x = x.wrapping_add(1)))),
                            12 => drop(b.take(n as u64).read_to_end(&mut Vec::new())),
                            _ => drop(R::read_until(b, r.u64() as u8)),
                        }
                        let _ = format!("{:?} {} {} {} {} {}", b.inner_pos(), b.len(), b.remaining(), b.start_pos(), b.end_pos(), b.stream_pos());
                    }
                }
                match r.below(12) {
                    0..=4 => match s.next_element() {
                        Ok(Element::Field(mut f)) => match f.value {
                            Value::Blob(ref mut b) => blob(b, r),
                            _ => {
                                if r.chance(1, 3) {
                                    if f.skip().is_err() {
                                        errs += 1;
                                    }
                                }
                            }
                        },
                        Ok(Element::Exception(mut b)) => blob(&mut b, r),
                        Ok(_) => (),
                        Err(_) => errs += 1,
                    },
                    5..=8 => match s.next_field() {
                        Ok(Some(mut f)) => {
                            drop((f.value.to_u8(), f.value.to_i64(), f.value.to_bool(), f.value.to_null()));
                            if let Ok(b) = f.value.to_blob() {
                                blob(b, r);
                            } else if r.chance(1, 3) {
                                if f.skip().is_err() {
                                    errs += 1;
                                }
                            }
                        }
                        Ok(None) => (),
                        Err(e) => {
                            drop((e.to_string(), format!("{:?}", e)));
                            errs += 1
                        }
                    },
                    9 => {
                        let d = r.below(s.struct_depth() + 2);
                        if s.skip_up(d).is_err() {
                            errs += 1;
                        }
                    }
                    10 => {
                        if s.commit().is_err() {
                            errs += 1
                        }
                    }
                    11 if r.chance(1, 2) => s.set_struct_depth(r.below(4)),
                    11 if r.chance(1, 8) => {
                        let p = if r.chance(1, 2) { r.int() } else { u64::MAX - r.below(40) };
                        if s.reset_pos(p).is_err() {
                            errs += 1
                        }
                    }
                    _ => {
                        if r.chance(1, 3) {
                            s.clear_eof();
                        }
                        if r.chance(1, 10) {
                            let t = r.usz(self.len + 3) as u64;
                            drop(R::stream_seek(&mut s, SeekFrom::Start(t)));
                        }
                    }
                }
            }
            Ok(())
        }
    }
    for _ in 0..2 {
        let kind = cx.rng.below(KINDS);
        let plan = rand_plan(&mut cx.rng);
        let mut v = V { rng: cx.rng.fork(), base: rand_base(&mut cx.rng, bytes.len()), graceful: cx.rng.chance(1, 3), len: bytes.len(), ops: 0 };
        let r = catch(|| with_kind(kind, &bytes, &plan, &mut v));
        cx.count("operations_on_hostile_bytes", v.ops);
        match r {
            Ok(x) => x?,
            Err(p) => return fail("panic", format!("{} base {}: {} panicked: {}", KIND_NAMES[kind as usize], v.base, hex(&bytes), p)),
        }
    }
    Ok(())
}
/// Long runs of every kind of element: time and calls stay proportional.
pub fn c06_long(cx: &mut Ctx) -> Case {
    let unit: &[u8] = match cx.idx % 10 {
        0 => &[0xC0],
        1 => &[0xC1],
        2 => &[0x01, 0x00],
        3 => &[0x00],
        4 => &[0x80, 0x00],
        5 => &[0x80, 0x03, 1, 2, 3],
        6 => &[0x41, 0x80, 0x80, 0x00],
        7 => &[0x81, 0x00],
        8 => &[0x81, 0x05, 0, 0, 0, 0, 0],
        _ => &[0xC1, 0x00],
    };
    let reps = if cx.tier == Tier::Quick { 400_000 } else { 3_000_000 } / unit.len();
    let bytes = unit.repeat(reps);
    cx.eval_bytes(4, unit, true);
    cx.sample(|| format!("{} x {}", hex(unit), reps));
    struct V {
        how: u64,
    }
    impl Visit for V {
        type O = (u64, Option<(u64, u64)>);
        fn go<R: Rd>(&mut self, mut s: Stream<R>) -> Self::O {
            let mut n = 0;
            match self.how {
                0 => while s.next_element().is_ok() { n += 1 },
                1 => loop {
                    match s.next_field() {
                        Ok(_) => n += 1,
                        Err(stream::Error::Exception(_)) => n += 1,
                        Err(_) => break,
                    }
                },
                _ => {
                    s.set_struct_depth(3);
                    drop(s.skip_up(0));
                }
            }
            (n, None)
        }
    }
    let kind = cx.rng.below(KINDS);
    let how = cx.rng.below(3);
    let seeking = cx.rng.chance(1, 2);
    // on the stack of an ordinary thread: nothing may grow with the input
    let (bytes, unit) = (&bytes, hex(unit));
    let (n, calls, seeks) = std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || {
            // a shared reader reveals the number of calls
            let tr = flcore::io::TestReader::new(bytes);
            let mut v = V { how };
            let (n, _) = if seeking { v.go(Stream::new_seek(tr.clone())) } else { v.go(Stream::new(tr.clone())) };
            with_kind(kind, bytes, &Plan::default(), &mut v);
            let st = tr.0.borrow();
            (n, st.calls, st.seeks)
        });
        h.unwrap().join().unwrap()
    });
    let b = 8 * bytes.len() as u64 + 1000;
    ensure!(calls <= b && seeks <= b, "work-unbounded", "{} x {}: {} read calls and {} seeks for {} bytes", unit, reps, calls, seeks, bytes.len());
    cx.count("elements_of_long_runs", n);
    cx.count("reader_calls_watched", calls);
    Ok(())
}
