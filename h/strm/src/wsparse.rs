//! Writing into files far larger than memory: blobs whose content is reached
//! by seeking, with a writer which only keeps what was really written.
use flcore::ensure;
use flcore::model::*;
use flcore::rng::Rng;
use flcore::runner::*;
use fourleaf::stream::{self, Stream};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Default, Debug, Clone)]
pub struct File {
    pub bytes: BTreeMap<u64, u8>,
    pub pos: u64,
    pub len: u64,
    pub writes: u64,
    pub seeks: u64,
}
impl File {
    fn put(&mut self, b: &[u8]) {
        for x in b {
            self.bytes.insert(self.pos, *x);
            self.pos += 1;
        }
        self.len = self.len.max(self.pos);
    }
    fn at(&self, p: u64) -> u8 {
        self.bytes.get(&p).copied().unwrap_or(0)
    }
}
#[derive(Clone, Debug)]
pub struct SparseFile {
    pub f: Rc<RefCell<File>>,
    chunk: usize,
}
impl Write for SparseFile {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let f = &mut *self.f.borrow_mut();
        f.writes += 1;
        let n = b.len().min(self.chunk);
        f.put(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for SparseFile {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let f = &mut *self.f.borrow_mut();
        let n = (b.len() as u64).min(f.len.saturating_sub(f.pos)).min(self.chunk as u64) as usize;
        for x in &mut b[..n] {
            *x = f.at(f.pos);
            f.pos += 1;
        }
        Ok(n)
    }
}
impl Seek for SparseFile {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        let f = &mut *self.f.borrow_mut();
        f.seeks += 1;
        let p = match w {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => f.pos as i128 + d as i128,
            SeekFrom::End(d) => f.len as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of range"));
        }
        f.pos = p as u64;
        Ok(f.pos)
    }
}

/// A distance of any magnitude below 2^`bits`.
fn distance(r: &mut Rng, bits: u64) -> u64 {
    let k = r.below(bits);
    match r.below(3) {
        0 => (1u64 << k).wrapping_sub(2).wrapping_add(r.below(5)) & ((1 << bits) - 1),
        _ => r.below(1u64 << k) + (1 << k) / 2,
    }
}

#[derive(Debug)]
enum Want {
    Int(u8, u64),
    Blob(u8, u64, u64),
}

/// Blobs of any size up to 2^60, written in place by seeking.
pub fn w_sparse(cx: &mut Ctx) -> Case {
    let chunk = *cx.rng.pick(&[1usize, 3, 7, 1 << 20]);
    let f = Rc::new(RefCell::new(File::default()));
    let mut s = Stream::new(SparseFile { f: f.clone(), chunk });
    let base = if cx.rng.chance(1, 3) { distance(&mut cx.rng, 60) } else { 0 };
    s.set_pos(base);
    let mut m = File::default();
    let mut log: Vec<String> = Vec::new();
    let mut want: Vec<Want> = Vec::new();
    let n = 1 + cx.rng.usz(4);
    let mut big = 0u64;
    macro_rules! ctx {
        () => {
            format!("base {} chunk {}: {}", base, chunk, log.join("; "))
        };
    }
    macro_rules! same {
        () => {{
            let f = f.borrow();
            ensure!(s.pos() == base + m.pos && f.pos == m.pos, "sparse-position", "{}: stream at {} and file at {} instead of {}", ctx!(), s.pos().wrapping_sub(base), f.pos, m.pos);
            if f.bytes != m.bytes {
                let p = f.bytes.iter().zip(m.bytes.iter()).find(|(a, b)| a != b);
                return fail("sparse-content", format!("{}: file differs from the model first at {:?}", ctx!(), p));
            }
        }};
    }
    for _ in 0..n {
        let t = rand_tag(&mut cx.rng);
        if cx.rng.chance(1, 3) {
            let v = cx.rng.int();
            log.push(format!("integer {}", v));
            if let Err(e) = s.write_u64(t, v) {
                return fail("sparse-refused", format!("{}: {}", ctx!(), e));
            }
            let mut b = vec![0x40 | t];
            varint(&mut b, v);
            m.put(&b);
            want.push(Want::Int(t, v));
            same!();
            continue;
        }
        let dynamic = cx.rng.chance(1, 2);
        let len = distance(&mut cx.rng, 60);
        big = big.max(len);
        log.push(format!("{} blob of {}", if dynamic { "dynamic" } else { "fixed" }, len));
        let start;
        let short = !dynamic && len > 0 && cx.rng.chance(1, 8);
        {
            let b = if dynamic { s.write_blob_dynamic(t) } else { s.write_blob_alloc(t, len) };
            let mut b = match b {
                Ok(b) => b,
                Err(e) => return fail("sparse-refused", format!("{}: {}", ctx!(), e)),
            };
            m.put(&[0x80 | t]);
            let mut h = Vec::new();
            if dynamic {
                h = fixed(u64::MAX - (base + m.pos) - 10);
            } else {
                varint(&mut h, len);
            }
            m.put(&h);
            start = m.pos;
            let mut at = 0u64;
            let k = cx.rng.usz(5);
            for i in 0..=k {
                // somewhere, then some bytes
                let to = if i == k { len } else { distance(&mut cx.rng, 60).min(len) };
                let w = match cx.rng.below(3) {
                    0 => SeekFrom::Start(to),
                    1 if !dynamic => SeekFrom::End(-((len - to) as i64)),
                    _ => SeekFrom::Current(to as i64 - at as i64),
                };
                log.push(format!("{:?}", w));
                match b.seek(w) {
                    Ok(x) => ensure!(x == to && b.inner_pos() == to, "sparse-seek", "{}: at {} of {}, said {} instead of {}", ctx!(), b.inner_pos(), len, x, to),
                    Err(e) => return fail("sparse-refused", format!("{}: {}", ctx!(), e)),
                }
                at = to;
                m.pos = start + at;
                if i < k {
                    let n = cx.rng.size(12);
                    let d = cx.rng.bytes(n);
                    let d = &d[..(len - at).min(n as u64) as usize];
                    if let Err(e) = b.write_all(d) {
                        return fail("sparse-refused", format!("{}: writing: {}", ctx!(), e));
                    }
                    m.put(d);
                    at += d.len() as u64;
                    ensure!(b.inner_pos() == at && (dynamic || b.remaining() == len - at), "sparse-seek", "{}: at {} with {} left after writing up to {}", ctx!(), b.inner_pos(), b.remaining(), at);
                }
            }
            if short {
                let k = cx.rng.below(50);
                let back = 1 + cx.rng.below(len.min(1 << k));
                if let Err(e) = b.seek(SeekFrom::Current(-(back as i64))) {
                    return fail("sparse-refused", format!("{}: {}", ctx!(), e));
                }
                m.pos -= back;
                drop(b);
                match s.commit() {
                    Err(stream::Error::IncompleteBlob(n)) if n == back => {
                        cx.count("incomplete_giant_blobs_reported", 1);
                        cx.eval(flcore::rng::hash_bytes(log.join(";").as_bytes()), true);
                        return Ok(());
                    }
                    x => return fail("sparse-incomplete", format!("{}: {} bytes missing but commit gave {:?}", ctx!(), back, x.map_err(|e| e.to_string()))),
                }
            }
        }
        if dynamic {
            m.pos = start - 10;
            m.put(&fixed(len));
            m.pos = start + len;
        }
        match s.commit() {
            Ok(()) => (),
            Err(e) => return fail("sparse-refused", format!("{}: commit: {}", ctx!(), e)),
        }
        want.push(Want::Blob(t, start, len));
        cx.count(if dynamic { "dynamic_blobs_finished" } else { "fixed_blobs_finished" }, 1);
        if len > u32::MAX as u64 {
            cx.count("blobs_over_4_gib", 1);
        }
        same!();
    }
    if let Err(e) = s.write_end_struct() {
        return fail("sparse-refused", format!("{}: {}", ctx!(), e));
    }
    m.put(&[0]);
    same!();
    cx.eval(flcore::rng::hash_bytes(log.join(";").as_bytes()), big > 4096);
    cx.sample(|| ctx!());
    cx.count("seeks_seen", f.borrow().seeks);
    // and reading it back
    f.borrow_mut().pos = 0;
    let mut s = Stream::new_seek(SparseFile { f: f.clone(), chunk });
    s.set_pos(base);
    for w in &want {
        let x = match s.next_field() {
            Ok(Some(x)) => x,
            x => return fail("sparse-readback", format!("{}: {} instead of {:?}", ctx!(), if x.is_ok() { "end" } else { "error" }, w)),
        };
        match (w, x.value) {
            (Want::Int(t, v), stream::Value::Integer(n)) if *t == x.tag && *v == n => (),
            (Want::Blob(t, start, len), stream::Value::Blob(mut b)) if *t == x.tag => {
                ensure!(b.len() == *len && b.start_pos() == base + start, "sparse-readback", "{}: blob of {} at {} instead of {:?}", ctx!(), b.len(), b.start_pos(), w);
                for _ in 0..cx.rng.below(3) {
                    let to = distance(&mut cx.rng, 60).min(*len);
                    let mut d = [0u8; 9];
                    let k = (*len - to).min(9) as usize;
                    let r = b.seek(SeekFrom::Start(to)).and_then(|_| b.read_exact(&mut d[..k]));
                    ensure!(r.is_ok(), "sparse-readback", "{}: {:?} in {:?}", ctx!(), r, w);
                    let f = f.borrow();
                    ensure!((0..k).all(|i| d[i] == f.at(start + to + i as u64)), "sparse-readback", "{}: {} at {} of {:?}", ctx!(), hex(&d[..k]), to, w);
                }
            }
            _ => return fail("sparse-readback", format!("{}: something else instead of {:?}", ctx!(), w)),
        }
    }
    ensure!(matches!(s.next_field(), Ok(None)), "sparse-readback", "{}: more than was written", ctx!());
    Ok(())
}
fn fixed(n: u64) -> Vec<u8> {
    let mut h = Vec::new();
    varint_padded(&mut h, n, 10 - varint_len(n));
    h
}

/// One blob of any size there is, walked over by seeks of any width: what the
/// machine's signed offsets reach is reached, and a dynamic blob is finished
/// as what it is or refused.
pub fn w_far(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let chunk = *r.pick(&[1usize, 4, 1 << 20]);
    let f = Rc::new(RefCell::new(File::default()));
    let mut s = Stream::new(SparseFile { f: f.clone(), chunk });
    const HALF: u64 = 1 << 63;
    let place = |r: &mut Rng, max: u64| -> u64 {
        match r.below(6) {
            0 => (HALF - 20 + r.below(40)).min(max),
            1 => max - r.below(30).min(max),
            2 => r.below(30).min(max),
            3 => r.u64().min(max),
            4 => (r.u64() >> 1).min(max),
            _ => r.int().min(max),
        }
    };
    let dynamic = r.chance(1, 2);
    let len = if dynamic { u64::MAX - 11 } else { place(r, u64::MAX - 12) };
    let mut log = format!("{} blob of {}", if dynamic { "dynamic" } else { "fixed" }, len);
    let mut m = File::default();
    m.put(&[0x83]);
    let mut h = Vec::new();
    varint(&mut h, len);
    m.put(&h);
    let start = m.pos;
    let mut at = 0u64;
    let (mut refused, mut wide) = (0, 0);
    {
        let b = if dynamic { s.write_blob_dynamic(3) } else { s.write_blob_alloc(3, len) };
        let mut b = match b {
            Ok(b) => b,
            Err(e) => return fail("far-refused", format!("{}: {}", log, e)),
        };
        ensure!(b.len() == len && b.start_pos() == start, "far", "{}: length {} at {}", log, b.len(), b.start_pos());
        for _ in 0..1 + r.usz(6) {
            if r.chance(1, 3) {
                // nowhere in the blob
                let w = match r.below(4) {
                    0 => SeekFrom::End(i64::MAX - r.below(20) as i64),
                    1 => SeekFrom::End(1 + (r.int() >> 1).min(i64::MAX as u64 - 1) as i64),
                    2 => SeekFrom::Start(len + 1 + r.below(u64::MAX - len)),
                    _ => {
                        let d = r.int() as i64;
                        let t = at as i128 + d as i128;
                        if t >= 0 && t <= len as i128 {
                            SeekFrom::End(1)
                        } else {
                            SeekFrom::Current(d)
                        }
                    }
                };
                log.push_str(&format!("; {:?}", w));
                let x = b.seek(w);
                ensure!(x.is_err(), "far-seek", "{}: went from {} to {:?}", log, at, x);
                ensure!(b.inner_pos() == at && f.borrow().pos == start + at, "far-seek", "{}: refused, but moved from {} to {}", log, at, b.inner_pos());
            }
            let to = match r.below(8) {
                0 => at.saturating_add(i64::MAX as u64 - r.below(2)).min(len),
                1 => at.saturating_sub(i64::MAX as u64 - r.below(2)),
                2 => at.saturating_add(HALF).min(len),
                3 => at.saturating_sub(HALF),
                _ => place(r, len),
            };
            let (lo, hi) = (to.min(at), to.max(at));
            let w = match r.below(3) {
                0 => SeekFrom::Start(to),
                1 if len - to <= HALF => SeekFrom::End(((len - to) as i64).wrapping_neg()),
                2 if to >= at && hi - lo < HALF => SeekFrom::Current((hi - lo) as i64),
                2 if to < at && hi - lo <= HALF => SeekFrom::Current(((hi - lo) as i64).wrapping_neg()),
                _ => SeekFrom::Start(to),
            };
            log.push_str(&format!("; {:?}", w));
            match b.seek(w) {
                Ok(x) => {
                    ensure!(x == to, "far-seek", "{}: at {} instead of {}", log, x, to);
                    at = to;
                    wide += (hi - lo > u32::MAX as u64) as u64;
                }
                Err(e) => {
                    ensure!(hi - lo >= HALF, "far-seek", "{}: from {} to {}: {}", log, at, to, e);
                    refused += 1;
                }
            }
            m.pos = start + at;
            ensure!(b.inner_pos() == at && f.borrow().pos == m.pos, "far-seek", "{}: blob at {}, file at {} instead of {}", log, b.inner_pos(), f.borrow().pos, m.pos);
            let k = r.size(6);
            let d = r.bytes(k);
            let d = &d[..(len - at).min(k as u64) as usize];
            if let Err(e) = b.write_all(d) {
                return fail("far-refused", format!("{}: writing {} at {}: {}", log, d.len(), at, e));
            }
            m.put(d);
            at += d.len() as u64;
        }
    }
    let end = start + at;
    cx.eval(flcore::rng::hash_bytes(log.as_bytes()), wide > 0);
    cx.sample(|| log.clone());
    let got = catch(std::panic::AssertUnwindSafe(|| s.commit()));
    let got = match got {
        Ok(g) => g,
        Err(p) => return fail("panic", format!("{}: ends at {}: commit panicked: {}", log, at, p)),
    };
    match got {
        Ok(()) => {
            ensure!(dynamic || at == len, "far-incomplete", "{}: committed at {}", log, at);
            if dynamic {
                m.pos = start - 10;
                m.put(&fixed(at));
            }
            m.pos = end;
            let f = f.borrow();
            ensure!(s.pos() == end && f.pos == end, "far-position", "{}: stream at {}, file at {} instead of {}", log, s.pos(), f.pos, end);
            cx.count("finished", 1);
        }
        Err(stream::Error::IncompleteBlob(n)) => {
            ensure!(!dynamic && n == len - at, "far-incomplete", "{}: at {}: {} bytes missing", log, at, n);
            cx.count("incomplete_reported", 1);
        }
        Err(e) => {
            ensure!(dynamic && at > i64::MAX as u64 - 10, "far-refused", "{}: ends at {}: {}", log, at, e);
            cx.count("dynamic_blobs_over_8_eb_refused", 1);
        }
    }
    let f = f.borrow();
    if f.bytes != m.bytes {
        let p = f.bytes.iter().zip(m.bytes.iter()).find(|(a, b)| a != b);
        return fail("far-content", format!("{}: ends at {}: file differs from the model first at {:?}", log, at, p));
    }
    cx.count("wide_seeks", wide);
    cx.count("too_wide_seeks_refused", refused);
    Ok(())
}
