//! C12: one stream used as a journal: messages are appended, read back,
//! skipped or read in part, in any order, on one reader and writer.
use crate::t2::rand_plan;
use flcore::ensure;
use flcore::io::*;
use flcore::model::hex;
use flcore::rng::Rng;
use flcore::runner::*;
use fourleaf::de::{self, Config};
use fourleaf::io::TransparentCursor;
use fourleaf::ser;
use fourleaf::stream::{Element, Stream, Value};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

type A = (u8, String, Vec<u64>, Option<Vec<u8>>);
type B = Vec<(i16, [u8; 3])>;
type C = Vec<u8>;
#[derive(Clone, Debug, PartialEq)]
enum Msg {
    A(A),
    B(B),
    C(C),
    Unit,
}
impl Msg {
    fn gen(r: &mut Rng) -> Msg {
        match r.below(8) {
            0 | 1 | 2 => {
                let n = r.size_or_big(40);
                let s = (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect();
                let o = if r.chance(1, 2) { None } else { let n = r.size(20); Some(r.bytes(n)) };
                Msg::A((r.int() as u8, s, (0..r.below(5)).map(|_| r.int()).collect(), o))
            }
            3 | 4 => Msg::B((0..r.below(6)).map(|_| (r.int() as i16, [r.int() as u8, 0, 255])).collect()),
            5 | 6 => {
                let n = r.size_or_big(60);
                Msg::C(r.bytes(n))
            }
            _ => Msg::Unit,
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Msg::A(x) => fourleaf::to_vec(x),
            Msg::B(x) => fourleaf::to_vec(x),
            Msg::C(x) => fourleaf::to_vec(x),
            Msg::Unit => fourleaf::to_vec(()),
        }
        .unwrap()
    }
    fn write<W: Write>(&self, s: &mut Stream<W>) -> Result<(), fourleaf::stream::Error> {
        match self {
            Msg::A(x) => ser::to_stream(s, x),
            Msg::B(x) => ser::to_stream(s, x),
            Msg::C(x) => ser::to_stream(s, x),
            Msg::Unit => ser::to_stream(s, ()),
        }
    }
    /// Reads a message of the same type.
    fn read<R: Read>(&self, s: &mut Stream<R>, c: &Config) -> de::Result<Msg> {
        match self {
            Msg::A(_) => de::from_stream_copy(s, c).map(Msg::A),
            Msg::B(_) => de::from_stream_copy(s, c).map(Msg::B),
            Msg::C(_) => de::from_stream_copy(s, c).map(Msg::C),
            Msg::Unit => de::from_stream_copy(s, c).map(|()| Msg::Unit),
        }
    }
}
trait Medium: Read + Write + Seek {
    fn data(&self) -> Vec<u8>;
    fn at(&self) -> u64;
}
impl Medium for Cursor<Vec<u8>> {
    fn data(&self) -> Vec<u8> {
        self.get_ref().clone()
    }
    fn at(&self) -> u64 {
        self.position()
    }
}
impl Medium for TransparentCursor<Vec<u8>> {
    fn data(&self) -> Vec<u8> {
        self.0.get_ref().clone()
    }
    fn at(&self) -> u64 {
        self.0.position()
    }
}
impl Medium for TestWriter {
    fn data(&self) -> Vec<u8> {
        TestWriter::data(self)
    }
    fn at(&self) -> u64 {
        self.0.borrow().pos as u64
    }
}

pub fn journal(cx: &mut Ctx) -> Case {
    let seek = cx.rng.chance(1, 2);
    match cx.rng.below(3) {
        0 => {
            let mut p = rand_plan(&mut cx.rng);
            p.fail_at = None;
            p.full_after = None;
            p.seek_fail = None;
            let w = TestWriter::with(p);
            go(cx, if seek { Stream::new_seek(w) } else { Stream::new(w) })
        }
        1 => {
            let w = Cursor::new(vec![]);
            go(cx, if seek { Stream::new_seek(w) } else { Stream::new(w) })
        }
        _ => {
            let w = TransparentCursor(Cursor::new(vec![]));
            go(cx, if seek { Stream::new_seek(w) } else { Stream::new(w) })
        }
    }
}
fn go<W: Medium>(cx: &mut Ctx, mut s: Stream<W>) -> Case {
    let r = &mut cx.rng.fork();
    let mut c = Config::default();
    c.max_blob = 10_000_000;
    let mut log: Vec<(u64, Msg)> = vec![];
    let mut all: Vec<u8> = vec![];
    // index of the message at the current position
    let mut at = 0;
    let mut trace = vec![];
    let mut counts = [0u64; 8];
    s.set_graceful_eof(true);
    for _ in 0..4 + r.below(14) {
        let end = all.len() as u64;
        let start = |i: usize, log: &Vec<(u64, Msg)>| log.get(i).map(|m| m.0).unwrap_or(end);
        let pos = start(at, &log);
        macro_rules! bad {
            ($($f:tt)*) => { return fail("journal", format!("{} [{}]: {}", std::any::type_name::<W>(), trace.join(" "), format!($($f)*))) };
        }
        match r.below(9) {
            // append here, or after having gone to the end
            0 | 1 | 2 => {
                if at < log.len() {
                    if r.chance(1, 2) {
                        continue;
                    }
                    trace.push("end".to_string());
                    match s.seek(if r.chance(1, 2) { SeekFrom::End(0) } else { SeekFrom::Start(end) }) {
                        Ok(p) if p == end => (),
                        x => bad!("seeking to the end ({}): {:?}", end, x),
                    }
                }
                let m = Msg::gen(r);
                trace.push(format!("append({})", m.bytes().len()));
                if let Err(e) = m.write(&mut s) {
                    bad!("{}", e);
                }
                all.extend(m.bytes());
                log.push((end, m));
                at = log.len();
                counts[0] += 1;
            }
            // padding belongs to the message which follows it
            3 => {
                if at == log.len() && log.len() > 0 && r.chance(1, 3) {
                    let a = 1 << r.below(5);
                    trace.push(format!("align({})", a));
                    if let Err(e) = s.pad_to_align(a) {
                        bad!("{}", e);
                    }
                    let m = Msg::gen(r);
                    if let Err(e) = m.write(&mut s) {
                        bad!("{}", e);
                    }
                    while all.len() as u64 % a != 0 {
                        all.push(0xC0);
                    }
                    all.extend(m.bytes());
                    log.push((end, m));
                    at = log.len();
                    counts[1] += 1;
                }
            }
            4 | 5 => {
                if at < log.len() {
                    trace.push(format!("read({})", at));
                    let want = &log[at].1;
                    match want.read(&mut s, &c) {
                        Ok(ref got) if got == want => (),
                        x => bad!("message {} at {} read as {:?}", at, pos, x),
                    }
                    at += 1;
                    counts[2] += 1;
                } else {
                    trace.push("eof".to_string());
                    match s.next_field() {
                        Ok(None) => (),
                        x => bad!("at the end: {:?}", x.map(|_| "a field")),
                    }
                    if !s.eof() {
                        bad!("no end of document at the end");
                    }
                    s.clear_eof();
                    counts[3] += 1;
                }
            }
            // read a part of a message
            6 => {
                if at < log.len() {
                    trace.push(format!("part({})", at));
                    // what is left of the blob the stream is in
                    let mut left = 0;
                    for _ in 0..1 + r.below(4) {
                        left = 0;
                        match s.next_element() {
                            Ok(Element::Field(f)) => {
                                if let Value::Blob(mut b) = f.value {
                                    let mut buf = vec![0; r.size(20)];
                                    match b.read(&mut buf) {
                                        Err(ref e) if e.kind() != std::io::ErrorKind::Interrupted => bad!("{}", e),
                                        _ => (),
                                    }
                                    left = b.remaining();
                                }
                            }
                            Ok(_) => (),
                            Err(e) => bad!("{}", e),
                        }
                        if s.struct_depth() == 0 {
                            break;
                        }
                    }
                    counts[4] += 1;
                    // padding alone leaves the depth at zero
                    let next = start(at + 1, &log);
                    if s.struct_depth() > 0 && r.chance(1, 2) {
                        trace.push("skip".to_string());
                        if let Err(e) = s.skip_up(0) {
                            bad!("{}", e);
                        }
                        at += 1;
                        counts[5] += 1;
                    } else if s.struct_depth() == 0 && s.pos() == next {
                        at += 1;
                    } else {
                        at = r.usz(log.len() + 1);
                        trace.push(format!("to({})", at));
                        // relative to the end of a blob left unfinished
                        let target = start(at, &log);
                        let w = match r.below(3) {
                            0 => SeekFrom::Start(target),
                            1 => SeekFrom::End(target as i64 - end as i64),
                            _ => SeekFrom::Current(target as i64 - (s.pos() + left) as i64),
                        };
                        match s.seek(w) {
                            Ok(p) if p == target => (),
                            x => bad!("{:?} with {} bytes left: {:?} instead of {}", w, left, x, target),
                        }
                    }
                }
            }
            // move
            7 => {
                let to = r.usz(log.len() + 1);
                let target = start(to, &log);
                trace.push(format!("move({})", to));
                let w = match r.below(3) {
                    0 => SeekFrom::Start(target),
                    1 => SeekFrom::End(target as i64 - end as i64),
                    _ => SeekFrom::Current(target as i64 - pos as i64),
                };
                match s.seek(w) {
                    Ok(p) if p == target => (),
                    x => bad!("{:?} from {}: {:?} instead of {}", w, pos, x, target),
                }
                at = to;
                counts[6] += 1;
            }
            // move behind the stream's back
            _ => {
                let to = r.usz(log.len() + 1);
                let target = start(to, &log);
                trace.push(format!("behind({})", to));
                if let Err(e) = s.commit() {
                    bad!("{}", e);
                }
                if let Err(e) = s.get_mut().seek(SeekFrom::Start(target)) {
                    bad!("{}", e);
                }
                if r.chance(1, 2) {
                    s.set_pos(target);
                } else if let Err(e) = s.reset_pos(target) {
                    bad!("{}", e);
                }
                at = to;
                counts[7] += 1;
            }
        }
        let end = all.len() as u64;
        let pos = log.get(at).map(|m| m.0).unwrap_or(end);
        if s.pos() != pos || s.get_ref().at() != pos || s.struct_depth() != 0 || s.eof() {
            bad!("stream at {} depth {}, medium at {}, expected {}", s.pos(), s.struct_depth(), s.get_ref().at(), pos);
        }
        let data = s.get_ref().data();
        if data != all {
            bad!("holds {} instead of {}", hex(&data), hex(&all));
        }
    }
    // all of it, from the start
    if let Err(e) = s.seek(SeekFrom::Start(0)) {
        return fail("journal", format!("{}", e));
    }
    for (i, m) in log.iter().enumerate() {
        match m.1.read(&mut s, &c) {
            Ok(ref g) if *g == m.1 => (),
            x => return fail("journal", format!("[{}]: at last message {} reads {:?}", trace.join(" "), i, x)),
        }
    }
    ensure!(s.pos() == all.len() as u64, "journal", "[{}]: ends at {}", trace.join(" "), s.pos());
    cx.eval_bytes(0, &all, log.len() > 1);
    cx.sample(|| trace.join(" "));
    for (k, n) in ["appended", "aligned", "read", "ends_met", "read_in_part", "skipped", "moves", "moves_behind"].iter().zip(counts.iter()) {
        cx.count(k, *n);
    }
    Ok(())
}
