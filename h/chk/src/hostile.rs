//! Workloads which safe code may well present, however unreasonable: readers
//! and writers that lie about what they did, buffers that change between
//! accesses, user types that panic half way. The library may fail or panic,
//! but not break memory safety.
use flcore::model::*;
use flcore::rng::Rng;
use flcore::runner::*;
use flstrm::read::gen_bytes;
use flstrm::write::{rand_ops, BOp, Mode, WOp};
use fourleaf::de::{self, Config, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::ser::{self, Serialize};
use fourleaf::stream::{self, Blob, Element, Stream, Value};
use fourleaf::{de::Context, UnknownFields};
use std::borrow::Cow;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::net::{IpAddr, Ipv6Addr, SocketAddr};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

/// Looks at every byte, so that reading uninitialised memory shows.
pub fn look(b: &[u8]) {
    let mut x = 1u8;
    for v in b {
        x = x.wrapping_mul(31).wrapping_add(*v);
    }
    if x == 77 {
        std::hint::black_box(x);
    }
}

struct HReader {
    data: Vec<u8>,
    pos: usize,
    rng: Rng,
    /// lies: one in so many calls
    lie: u64,
    calls: u64,
    buf: [u8; 16],
}
impl HReader {
    fn new(data: &[u8], rng: Rng, lie: u64) -> Self {
        HReader { data: data.to_vec(), pos: 0, rng, lie, calls: 0, buf: [0; 16] }
    }
}
impl Read for HReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        look(buf);
        self.calls += 1;
        if self.calls > 3000 {
            return Ok(0);
        }
        let n = buf.len().min(self.data.len() - self.pos).min(1 + self.rng.usz(40));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if self.lie > 0 && self.rng.chance(1, self.lie) {
            return match self.rng.below(6) {
                // claims to have filled more than there was room for
                0 => Ok(buf.len() + 1 + self.rng.usz(70)),
                1 => Ok(usize::MAX - self.rng.usz(3)),
                // claims bytes it did not write
                2 => Ok(buf.len()),
                3 => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
                4 => Err(io::Error::new(io::ErrorKind::Other, "fault")),
                _ => Ok(0),
            };
        }
        Ok(n)
    }
}
impl BufRead for HReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let n = self.rng.usz(17);
        self.calls += 1;
        if self.calls > 3000 {
            return Ok(&[]);
        }
        Ok(&self.buf[..n])
    }
    fn consume(&mut self, n: usize) {
        self.pos = (self.pos + n).min(self.data.len());
    }
}
impl Seek for HReader {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        let p = match w {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        self.pos = p.clamp(0, self.data.len() as i128) as usize;
        if self.lie > 0 && self.rng.chance(1, 3) {
            return match self.rng.below(3) {
                0 => Ok(self.rng.int()),
                1 => Err(io::Error::new(io::ErrorKind::Other, "no")),
                _ => Ok(u64::MAX),
            };
        }
        Ok(p.max(0) as u64)
    }
}
impl Write for HReader {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        look(buf);
        self.calls += 1;
        if self.calls > 3000 {
            return Ok(0);
        }
        self.data.extend_from_slice(&buf[..buf.len().min(500)]);
        if self.lie > 0 && self.rng.chance(1, self.lie) {
            return match self.rng.below(5) {
                0 => Ok(buf.len() + 1 + self.rng.usz(70)),
                1 => Ok(usize::MAX),
                2 => Ok(0),
                3 => Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
                _ => Err(io::Error::new(io::ErrorKind::Other, "fault")),
            };
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A buffer whose extent changes from one access to the next.
struct Shifty {
    data: Vec<u8>,
    n: Cell<u64>,
    every: u64,
}
impl Shifty {
    fn len(&self) -> usize {
        let n = self.n.get();
        self.n.set(n + 1);
        if n % self.every == self.every - 1 {
            (n as usize * 7) % (self.data.len() + 1)
        } else {
            self.data.len()
        }
    }
}
impl AsRef<[u8]> for Shifty {
    fn as_ref(&self) -> &[u8] {
        &self.data[..self.len()]
    }
}
impl AsMut<[u8]> for Shifty {
    fn as_mut(&mut self) -> &mut [u8] {
        let n = self.len();
        &mut self.data[..n]
    }
}

thread_local! {
    static BORN: Cell<i64> = const { Cell::new(0) };
    static FUSE: Cell<i64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}
/// Counts its constructions and destructions; constructing may panic.
#[derive(Debug)]
pub struct Tracked(Box<u64>);
impl Tracked {
    fn new(n: u64) -> Tracked {
        let f = FUSE.with(|f| {
            f.set(f.get() - 1);
            f.get()
        });
        if f == 0 {
            panic!("user type gives up");
        }
        BORN.with(|b| b.set(b.get() + 1));
        MADE.with(|b| b.set(b.get() + 1));
        Tracked(Box::new(n))
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        BORN.with(|b| b.set(b.get() - 1));
        look(&self.0.to_le_bytes());
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Tracked) -> bool {
        self.0 == o.0
    }
}
impl Eq for Tracked {}
impl std::hash::Hash for Tracked {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Tracked) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tracked {
    fn cmp(&self, o: &Tracked) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<R: Read, S> Deserialize<R, S> for Tracked {
    type Accum = Option<Tracked>;
    fn deserialize_field(a: &mut Self::Accum, _: &Context, f: &mut stream::Field<R>) -> de::Result<()> {
        let n = f.value.to_u64().unwrap_or(3);
        *a = Some(Tracked::new(n));
        Ok(())
    }
    fn finish(a: Self::Accum, c: &Context) -> de::Result<Self> {
        a.ok_or_else(|| de::Error::RequiredFieldMissing(c.to_string()))
    }
}
impl Serialize for Tracked {
    fn serialize_element<R: Write>(&self, d: &mut Stream<R>, tag: u8) -> stream::Result<()> {
        drop(Tracked::new(1));
        d.write_u64(tag, *self.0)
    }
}
struct TS {
    a: Tracked,
    b: Vec<Tracked>,
    c: Option<Box<Tracked>>,
}
fourleaf_retrofit!(struct TS : {} {} {
    |context, this|
    [1] a: Tracked = &this.a,
    [2] b: Vec<Tracked> = &this.b,
    [3] c: Option<Box<Tracked>> = &this.c,
    { Ok(TS { a, b, c }) }
});
#[derive(Debug)]
enum TE {
    X(Tracked),
    Y { l: Vec<Tracked> },
}
fourleaf_retrofit!(enum TE : {} {} {
    |context|
    [1] TE::X(ref a) => {
        [1] a: Tracked = a,
        { Ok(TE::X(a)) }
    },
    [2] TE::Y { ref l } => {
        [1] l: Vec<Tracked> = l,
        { Ok(TE::Y { l }) }
    },
});

fn config(r: &mut Rng) -> Config {
    let mut c = Config::default();
    c.ignore_unknown_fields = r.chance(1, 2);
    if r.chance(1, 3) {
        c.recursion_limit = r.usz(6);
    }
    if r.chance(1, 3) {
        c.max_collect = r.usz(12);
    }
    if r.chance(1, 3) {
        c.max_blob = r.usz(100);
    }
    c
}

/// Bytes that suit lists of small things.
fn listy(r: &mut Rng) -> Vec<u8> {
    let mut b = Vec::new();
    let tag = 1 + r.below(3) as u8;
    for _ in 0..r.below(12) {
        let t = if r.chance(1, 5) { 1 + r.below(4) as u8 } else { tag };
        match r.below(9) {
            0 => {
                b.push(T_STRUCT | t);
                for _ in 0..r.below(4) {
                    b.extend_from_slice(&[0x41 + r.below(2) as u8, r.below(128) as u8]);
                }
                if !r.chance(1, 8) {
                    b.push(END_STRUCT);
                }
            }
            1 => {
                b.extend_from_slice(&[T_ENUM | t, 1 + r.below(2) as u8, 0x41, 5]);
                b.push(END_STRUCT);
            }
            2 => {
                let n = r.usz(70);
                b.push(T_BLOB | t);
                varint(&mut b, n as u64);
                let d = if r.chance(1, 2) { vec![b'a'; n] } else { r.bytes(n) };
                b.extend_from_slice(&d);
            }
            _ => {
                b.push(T_INT | t);
                varint(&mut b, if r.chance(1, 4) { r.int() } else { r.below(100) });
            }
        }
    }
    if !r.chance(1, 6) {
        b.push(END_STRUCT);
    }
    if r.chance(1, 8) {
        b.truncate(r.usz(b.len() + 1));
    }
    b
}

fn blob_abuse<R: Read + Seek>(b: &mut Blob<R>, r: &mut Rng) {
    for _ in 0..r.below(5) {
        match r.below(8) {
            0 => {
                let mut d = vec![0; r.usz(50)];
                let _ = b.read(&mut d);
            }
            1 => drop(b.read_fully(r.usz(200)).map(|v| look(&v))),
            2 => drop(b.read_or_trunc(r.usz(200)).map(|v| look(&v))),
            3 => drop(b.seek(SeekFrom::Start(r.int()))),
            4 => drop(b.seek(SeekFrom::Current(r.u64() as i64 >> r.below(64)))),
            5 => drop(b.seek(SeekFrom::End(-(r.int() as i64 >> 1)))),
            6 => b.stream_set_pos(r.int()),
            _ => {
                let mut v = Vec::new();
                let _ = b.by_ref().take(300).read_to_end(&mut v);
                look(&v);
            }
        }
    }
}

/// Reads elements, using everything, caring for nothing.
fn elements<R: Read + Seek>(s: &mut Stream<R>, r: &mut Rng, look_into: &mut dyn FnMut(&mut Blob<R>, &mut Rng)) -> u64 {
    let mut n = 0;
    for _ in 0..30 {
        n += 1;
        match r.below(12) {
            0 => drop(s.skip_up(r.below(4))),
            1 => drop(s.commit()),
            2 => drop(s.seek(SeekFrom::Start(r.below(40)))),
            3 if r.chance(1, 4) => s.set_pos(r.int()),
            4 if r.chance(1, 4) => s.set_struct_depth(r.below(5)),
            5 => s.clear_eof(),
            _ => match s.next_element() {
                Err(_) => {
                    if r.chance(1, 2) {
                        break;
                    }
                }
                Ok(Element::Field(mut f)) => match r.below(3) {
                    0 => {
                        let _ = (f.value.to_u64(), f.value.to_bool(), f.value.to_null());
                        let _ = f.value.to_struct().map(|s| s.pos());
                        let _ = f.value.to_enum().map(|e| e.0);
                    }
                    1 => drop(f.skip()),
                    _ => {
                        if let Value::Blob(ref mut b) = f.value {
                            blob_abuse(b, r);
                            look_into(b, r);
                        }
                    }
                },
                Ok(Element::Exception(mut b)) => {
                    blob_abuse(&mut b, r);
                    look_into(&mut b, r);
                }
                Ok(_) => (),
            },
        }
    }
    n
}

trait Touch {
    fn touch(&self);
}
impl<T: std::fmt::Debug> Touch for T {
    fn touch(&self) {
        look(format!("{:?}", self).as_bytes());
    }
}
macro_rules! typed {
    ($r:expr, $s:expr, $c:expr, $style:ident; $($t:ty),* $(,)?) => {{
        let k = $r.below([$(stringify!($t)),*].len() as u64);
        let mut i = 0;
        $(
            if i == k {
                drop(de::$style::<_, $t>($s, $c).map(|v| v.touch()));
            }
            i += 1;
        )*
        let _ = i;
    }}
}
type ByteMap = HashMap<u8, Vec<u8>>;

fn typed_copy<R: Read>(r: &mut Rng, s: &mut Stream<R>, c: &Config) {
    typed!(r, s, c, from_stream_copy;
        Vec<u8>, String, Vec<String>, (u8, String), Option<Vec<u8>>, UnknownFields<'static>, [u8; 64], [u8; 5], [u8; 128], [u16; 64],
        Vec<[u8; 3]>, Ipv6Addr, IpAddr, SocketAddr, Duration, ByteMap, Rc<String>, Arc<Vec<u8>>, Box<[u8; 16]>, Vec<bool>, VecDeque<i64>,
        Cow<'static, [u8]>, Cow<'static, str>, Vec<char>, Result<u8, String>);
}
fn typed_tracked<R: Read>(r: &mut Rng, s: &mut Stream<R>, c: &Config) {
    match r.below(14) {
        0 => drop(de::from_stream_copy::<_, Vec<Tracked>>(s, c)),
        1 => drop(de::from_stream_copy::<_, [Tracked; 5]>(s, c)),
        2 => drop(de::from_stream_copy::<_, [Tracked; 2]>(s, c)),
        3 => drop(de::from_stream_copy::<_, (Tracked, Tracked, Option<Tracked>)>(s, c)),
        4 => drop(de::from_stream_copy::<_, Vec<(Tracked, Tracked)>>(s, c)),
        5 => drop(de::from_stream_copy::<_, BTreeMap<Tracked, Tracked>>(s, c)),
        6 => drop(de::from_stream_copy::<_, HashSet<Tracked>>(s, c)),
        7 => drop(de::from_stream_copy::<_, Vec<[Tracked; 3]>>(s, c)),
        8 => drop(de::from_stream_copy::<_, Rc<Tracked>>(s, c)),
        9 => drop(de::from_stream_copy::<_, Vec<Arc<Tracked>>>(s, c)),
        10 => drop(de::from_stream_copy::<_, TS>(s, c)),
        11 => drop(de::from_stream_copy::<_, Vec<TE>>(s, c)),
        12 => drop(de::from_stream_copy::<_, Vec<Result<Tracked, Tracked>>>(s, c)),
        _ => drop(de::from_stream_copy::<_, Box<[Vec<Tracked>; 2]>>(s, c)),
    }
}

pub fn hostile(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng.fork();
    let mode = r.below(7);
    let name = ["lying reader", "lying reader, typed", "shifting buffer", "lying writer", "panicking types", "panicking serialisation", "borrowed data outlives"][mode as usize];
    let bytes = if r.chance(1, 2) { gen_bytes(r) } else { listy(r) };
    let h = r.u64();
    cx.eval_bytes(mode * 1000 + h % 97, &bytes, true);
    cx.sample(|| format!("{}: {}", name, hex(&bytes)));
    BORN.with(|b| b.set(0));
    MADE.with(|b| b.set(0));
    FUSE.with(|f| f.set(-1));
    let mut ops = 0;
    match mode {
        0 => {
            let rd = HReader::new(&bytes, r.fork(), 2 + r.below(20));
            let mut s = if r.chance(1, 2) { Stream::new(rd) } else { Stream::new_seek(rd) };
            let _ = catch(|| {
                ops = elements(&mut s, r, &mut |b, r| {
                    let n = b.fill_buf().map(|d| {
                        look(d);
                        d.len()
                    });
                    if let Ok(n) = n {
                        b.consume(r.usz(n + 1));
                    }
                })
            });
        }
        1 => {
            let rd = HReader::new(&bytes, r.fork(), r.below(12));
            let mut s = if r.chance(1, 2) { Stream::new(rd) } else { Stream::new_seek(rd) };
            let c = config(r);
            for _ in 0..3 {
                ops += 1;
                let _ = catch(|| typed_copy(r, &mut s, &c));
            }
        }
        2 => {
            let mut s = Stream::from_slice(Shifty { data: bytes.clone(), n: Cell::new(r.below(5)), every: 1 + r.below(7) });
            let c = config(r);
            if r.chance(1, 2) {
                let _ = catch(|| {
                    ops = elements(&mut s, r, &mut |b, r| {
                        let _ = b.slice().map(look);
                        if let Ok(d) = b.slice_mut() {
                            for x in d.iter_mut() {
                                *x = x.wrapping_add(1);
                            }
                        }
                        let n = b.fill_buf().map(|d| {
                            look(d);
                            d.len()
                        });
                        if let Ok(n) = n {
                            b.consume(r.usz(n + 1));
                        }
                    })
                });
            } else {
                for _ in 0..3 {
                    ops += 1;
                    let _ = catch(|| typed_copy(r, &mut s, &c));
                }
            }
        }
        3 => {
            let n = 1 + r.below(8);
            let w = rand_ops(r, n, 3, true);
            let hw = HReader::new(&[], r.fork(), 2 + r.below(20));
            let mut s = Stream::new_seek(hw);
            ops = w.len() as u64;
            let _ = catch(|| write_abuse(&mut s, &w));
        }
        4 => {
            FUSE.with(|f| f.set(r.below(14) as i64));
            let c = config(r);
            if r.chance(1, 3) {
                let mut s = Stream::new(HReader::new(&bytes, r.fork(), 0));
                let _ = catch(|| typed_tracked(r, &mut s, &c));
            } else {
                let mut s = Stream::from_slice(&bytes[..]);
                for _ in 0..3 {
                    let _ = catch(|| typed_tracked(r, &mut s, &c));
                }
            }
            ops = MADE.with(|m| m.get());
        }
        5 => {
            let v: Vec<Tracked> = (0..r.below(9)).map(Tracked::new).collect();
            FUSE.with(|f| f.set(r.below(12) as i64));
            let _ = catch(|| match r.below(4) {
                0 => drop(ser::to_vec(&v)),
                1 => drop(ser::to_vec((&v, Some(&v)))),
                2 => drop(ser::to_writer(io::sink(), &v[..])),
                _ => drop(ser::to_vec(Box::new(v))),
            });
            ops = MADE.with(|m| m.get());
        }
        _ => {
            // what was borrowed must not depend on the stream or config
            let kept;
            {
                let mut s = Stream::<TransparentCursor<&[u8]>>::from_slice(&bytes);
                let c = config(r);
                let mut v: Vec<Box<dyn Touch + '_>> = Vec::new();
                for _ in 0..3 {
                    ops += 1;
                    match r.below(6) {
                        0 => drop(de::from_stream_borrow::<_, Vec<&[u8]>>(&mut s, &c).map(|x| v.push(Box::new(x)))),
                        1 => drop(de::from_stream_borrow::<_, Vec<&str>>(&mut s, &c).map(|x| v.push(Box::new(x)))),
                        2 => drop(de::from_stream_borrow::<_, UnknownFields>(&mut s, &c).map(|x| v.push(Box::new(x)))),
                        3 => drop(de::from_stream_borrow::<_, HashMap<u64, Cow<[u8]>>>(&mut s, &c).map(|x| v.push(Box::new(x)))),
                        4 => drop(de::from_stream_borrow::<_, (Option<&str>, Vec<Cow<str>>)>(&mut s, &c).map(|x| v.push(Box::new(x)))),
                        _ => drop(de::from_stream_borrow::<_, BTreeMap<&[u8], UnknownFields>>(&mut s, &c).map(|x| v.push(Box::new(x)))),
                    }
                }
                if let Ok(Some(mut f)) = s.next_field() {
                    if let Ok(b) = f.value.to_blob() {
                        let _ = b.ext_slice().map(|d| v.push(Box::new(d)));
                    }
                }
                kept = v;
            }
            for v in &kept {
                v.touch();
            }
        }
    }
    let left = BORN.with(|b| b.get());
    cx.count("hostile_operations", ops);
    if mode == 4 || mode == 5 {
        cx.count("panicking_objects_followed", MADE.with(|m| m.get()));
    }
    if left != 0 {
        return fail("drop-balance", format!("{}: {}: {} objects made but not dropped exactly once", name, hex(&bytes), left));
    }
    Ok(())
}

fn write_abuse(s: &mut Stream<HReader>, ops: &[WOp]) {
    for op in ops {
        match op {
            WOp::Struct(t) => drop(s.write_struct(*t)),
            WOp::Enum(t, d) => drop(s.write_enum(*t, *d)),
            WOp::EndStruct => drop(s.write_end_struct()),
            WOp::EndDoc => drop(s.write_end_doc()),
            WOp::Pad => drop(s.write_padding()),
            WOp::Align(a) => drop(s.pad_to_align((*a).min(300))),
            WOp::Commit => drop(s.commit()),
            WOp::Int(t, v, _) => drop(s.write_u64(*t, *v)),
            WOp::Blob { tag, mode, init, len, script } => {
                let b = match (mode, tag) {
                    (Mode::Data, Some(t)) => s.write_blob_data(*t, init),
                    (Mode::Data, None) => s.write_exception_data(init),
                    (Mode::Alloc, Some(t)) => s.write_blob_alloc(*t, *len),
                    (Mode::Alloc, None) => s.write_exception_alloc(*len),
                    (Mode::Dynamic, Some(t)) => s.write_blob_dynamic(*t),
                    (Mode::Dynamic, None) => s.write_exception_dynamic(),
                };
                if let Ok(mut b) = b {
                    for o in script {
                        if let BOp::WriteAll(d) = o {
                            let _ = b.write(d);
                            let _ = b.seek(SeekFrom::Current(-1));
                            let _ = b.write_all(d);
                        }
                    }
                }
            }
        }
    }
}
