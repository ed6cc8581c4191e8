//! Padding, exceptions, ends of document (C18), copying (C23) and the element
//! level parts of C09, C10, C19, C20 and C24.
use crate::kinds::*;
use crate::read::*;
use crate::write::*;
use flcore::alloc;
use flcore::ensure;
use flcore::io::*;
use flcore::model::*;
use flcore::refparse::*;
use flcore::rng::Rng;
use flcore::runner::*;
use fourleaf::stream::{self, Element, Stream, Value};
use std::cell::{Cell, RefCell};
use std::io::{self, BufRead, BufReader, Cursor, Read, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Int(u8, u64, u64),
    Struct(u8, u64),
    Enum(u8, u64, u64),
    Blob(u8, u64, Vec<u8>),
    End,
    Doc,
    Pad,
    Exc(Vec<u8>),
    ExcMsg(String),
    Err(String),
}

fn ev_of_value<R: Read>(tag: u8, depth: u64, v: Value<R>) -> Ev {
    match v {
        Value::Integer(i) => Ev::Int(tag, depth, i),
        Value::Struct(_) => Ev::Struct(tag, depth),
        Value::Enum(d, _) => Ev::Enum(tag, depth, d),
        Value::Blob(mut b) => match b.read_fully(usize::max_value()) {
            Ok(d) => Ev::Blob(tag, depth, d),
            Err(e) => Ev::Err(format!("{}", e)),
        },
    }
}
/// One step by fields. None: nothing more (only after the end of document).
pub fn field_step<R: Read>(s: &mut Stream<R>) -> Ev {
    let r = match s.next_field() {
        Ok(Some(f)) => {
            let (t, d) = (f.tag, f.depth);
            Some(ev_of_value(t, d, f.value))
        }
        Ok(None) => None,
        Err(stream::Error::Exception(m)) => Some(Ev::ExcMsg(m)),
        Err(e) => Some(Ev::Err(format!("{:?}", e))),
    };
    r.unwrap_or_else(|| if s.eof() { Ev::Doc } else { Ev::End })
}
pub fn element_step<R: Read>(s: &mut Stream<R>) -> Ev {
    match s.next_element() {
        Ok(Element::Field(f)) => {
            let (t, d) = (f.tag, f.depth);
            ev_of_value(t, d, f.value)
        }
        Ok(Element::EndOfStruct) => Ev::End,
        Ok(Element::EndOfDoc) => Ev::Doc,
        Ok(Element::Padding) => Ev::Pad,
        Ok(Element::Exception(mut b)) => match b.read_fully(usize::max_value()) {
            Ok(d) => Ev::Exc(d),
            Err(e) => Ev::Err(format!("{}", e)),
        },
        Err(e) => Ev::Err(format!("{:?}", e)),
    }
}
pub fn log<R: Read>(s: &mut Stream<R>, fields: bool, max: usize) -> Vec<Ev> {
    let mut v = Vec::new();
    while v.len() < max {
        let e = if fields { field_step(s) } else { element_step(s) };
        let last = matches!(e, Ev::Err(_) | Ev::Doc);
        v.push(e);
        if last {
            break;
        }
    }
    v
}
/// The reference's log of elements up to the first error.
pub fn ref_log(b: &[u8], max: usize) -> Vec<Ev> {
    let mut p = RefParser::new(b);
    let mut v = Vec::new();
    let get = |p: &RefParser<[u8]>, start: u64, len: u64| -> Option<Vec<u8>> {
        if start as u128 + len as u128 > p.src.len() as u128 {
            None
        } else {
            Some(p.src[start as usize..(start + len) as usize].to_vec())
        }
    };
    while v.len() < max {
        let e = match p.next() {
            Ok(PEl::Pad) => Ev::Pad,
            Ok(PEl::EndStruct) => Ev::End,
            Ok(PEl::EndDoc) => Ev::Doc,
            Ok(PEl::Exc { start, len }) => get(&p, start, len).map_or(Ev::Err(String::new()), Ev::Exc),
            Ok(PEl::Field { tag, depth, val, .. }) => match val {
                PVal::Int(i) => Ev::Int(tag, depth, i),
                PVal::Struct => Ev::Struct(tag, depth),
                PVal::Enum(d) => Ev::Enum(tag, depth, d),
                PVal::Blob { start, len } => get(&p, start, len).map_or(Ev::Err(String::new()), |d| Ev::Blob(tag, depth, d)),
            },
            Err(_) => Ev::Err(String::new()),
        };
        let last = matches!(e, Ev::Err(_) | Ev::Doc);
        v.push(e);
        if last {
            break;
        }
    }
    v
}
fn same(a: &[Ev], b: &[Ev]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| matches!((x, y), (Ev::Err(_), Ev::Err(_))) || x == y)
}
fn brief(v: &[Ev]) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 900 {
        let mut n = 900;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("..");
    }
    s
}
struct LogV {
    fields: bool,
    graceful: bool,
    max: usize,
}
impl Visit for LogV {
    type O = Vec<Ev>;
    fn go<R: Rd>(&mut self, mut s: Stream<R>) -> Vec<Ev> {
        s.set_graceful_eof(self.graceful);
        log(&mut s, self.fields, self.max)
    }
}
fn kind_log(kind: u64, b: &[u8], plan: &Plan, fields: bool) -> Vec<Ev> {
    with_kind(kind, b, plan, &mut LogV { fields, graceful: false, max: 200_000 })
}

// ------------------------------------------------------------------ C18

/// Any amount of padding before any element changes nothing for field-level
/// reading, and is delivered one by one to element-level reading.
pub fn c18_padding(cx: &mut Ctx) -> Case {
    let t = valid_tree(&mut cx.rng);
    let strip = {
        // trees may hold padding themselves
        let mut t = t.clone();
        t.visit_mut(&mut |b| b.nodes.retain(|n| *n != Node::Pad));
        t
    };
    let mut f = cx.rng.fork();
    let plain = encode(&strip);
    let pad = 1 + cx.rng.below(255) as u32;
    let mut padded = encode_styled(&strip, &mut Style { rng: Some(&mut f), denorm: 0, pad, marks: None });
    if cx.rng.chance(1, 20) {
        // a great deal before the first element
        let n = 1 + cx.rng.usz(60_000);
        let mut v = vec![PADDING; n];
        v.extend(padded);
        padded = v;
    }
    let (k1, k2) = (cx.rng.below(KINDS), cx.rng.below(KINDS));
    let (p1, p2) = (rand_plan(&mut cx.rng), rand_plan(&mut cx.rng));
    cx.eval_bytes(1, &padded, padded.len() > plain.len());
    cx.sample(|| format!("{} padded to {}", hex(&plain), hex(&padded)));
    let a = kind_log(k1, &plain, &p1, true);
    let b = kind_log(k2, &padded, &p2, true);
    ensure!(same(&a, &b), "padding", "{} read as {} but padded to {} ({}) as {}", hex(&plain), brief(&a), hex(&padded), KIND_NAMES[k2 as usize], brief(&b));
    let want = ref_log(&padded, 200_000);
    let c = kind_log(k2, &padded, &p1, false);
    ensure!(same(&c, &want), "padding-elements", "{} read by elements as {} instead of {}", hex(&padded), brief(&c), brief(&want));
    cx.count("padding_elements_seen", c.iter().filter(|e| **e == Ev::Pad).count() as u64);
    cx.count("elements_compared", b.len() as u64);
    Ok(())
}

/// Exceptions written in each way, read in each way.
pub fn c18_exceptions(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let n = match r.below(5) {
        0 => 250 + r.usz(14),
        1 => r.usz(6),
        2 => 256,
        3 => r.size_or_big(3000),
        _ => r.usz(600),
    };
    let msg: Vec<u8> = match r.below(5) {
        0 => "äöü€😀".bytes().cycle().take(n).collect(),
        1 => r.bytes(n),
        2 => vec![b'x'; n],
        3 => blob_bytes(r, n),
        _ => {
            // a multi-byte character across the limit
            let mut v = vec![b'a'; (253 + r.usz(4)).min(n)];
            v.extend("€😀é".bytes());
            v
        }
    };
    let before = rand_ops(r, 2, 1, true);
    let after = rand_ops(r, 3, 1, true);
    let how = r.below(4);
    let mut m = Model { data: vec![], off: 0, base: 0, missing: 0 };
    let tw = TestWriter::with(rand_plan(r));
    let mut s = Stream::new(tw.clone());
    let mut st = WStats::default();
    for op in before.iter().filter(|o| !matches!(o, WOp::EndDoc)) {
        apply(&mut s, &mut m, op, &mut st)?;
    }
    let (exc, desc) = match how {
        0 => (WOp::Blob { tag: None, mode: Mode::Data, init: msg.clone(), len: msg.len() as u64, script: vec![] }, "data"),
        1 => (WOp::Blob { tag: None, mode: Mode::Alloc, init: vec![], len: msg.len() as u64, script: vec![BOp::WriteAll(msg.clone())] }, "alloc"),
        2 => (WOp::Blob { tag: None, mode: Mode::Dynamic, init: vec![], len: 0, script: vec![BOp::WriteAll(msg.clone())] }, "dynamic"),
        _ => (WOp::Blob { tag: None, mode: Mode::Data, init: msg.clone(), len: msg.len() as u64, script: vec![] }, "data"),
    };
    let at = m.off;
    apply(&mut s, &mut m, &exc, &mut st)?;
    let aft = m.off;
    for op in after.iter().filter(|o| !matches!(o, WOp::EndDoc)) {
        apply(&mut s, &mut m, op, &mut st)?;
    }
    st.put(cx);
    let bytes = tw.data();
    cx.eval_bytes(how, &bytes, true);
    cx.sample(|| format!("{} exception of {} bytes in {}", desc, msg.len(), hex(&bytes)));
    let mut want = ref_log(&bytes, 200_000);
    let kind = cx.rng.below(KINDS);
    let plan = rand_plan(&mut cx.rng);
    let got = kind_log(kind, &bytes, &plan, false);
    ensure!(same(&got, &want), "exception-elements", "{}: {} instead of {}", hex(&bytes), brief(&got), brief(&want));
    ensure!(want.contains(&Ev::Exc(msg.clone())), "harness", "exception not there");
    want.retain(|e| *e != Ev::Pad);
    for e in want.iter_mut() {
        if let Ev::Exc(d) = e {
            let k = d.len().min(256);
            *e = Ev::ExcMsg(String::from_utf8_lossy(&d[..k]).into_owned());
        }
    }
    let kind = cx.rng.below(KINDS);
    let plan = rand_plan(&mut cx.rng);
    let got = kind_log(kind, &bytes, &plan, true);
    ensure!(same(&got, &want), "exception-fields", "{} ({}): {} instead of {}", hex(&bytes), KIND_NAMES[kind as usize], brief(&got), brief(&want));
    let _ = (at, aft);
    cx.count("exceptions_surfaced", 2);
    Ok(())
}

/// End of document: closes everything, sticks, needs no IO, can be cleared;
/// graceful end of input at every place.
pub fn c18_end(cx: &mut Ctx) -> Case {
    let (first, _) = valid(&mut cx.rng);
    let (second, _) = valid(&mut cx.rng);
    // cut the first between two elements, end the document there
    let mut bounds = vec![0u64];
    {
        let mut p = RefParser::new(&first[..]);
        while let Ok(e) = p.next() {
            if e == PEl::EndDoc {
                break;
            }
            let _ = p.commit();
            bounds.push(p.off);
        }
    }
    let cut = *cx.rng.pick(&bounds) as usize;
    let mut bytes = first[..cut].to_vec();
    bytes.push(END_DOC);
    let n1 = bytes.len();
    bytes.extend_from_slice(&second);
    cx.eval_bytes(3, &bytes, true);
    cx.sample(|| format!("{} ended after {}", hex(&bytes), n1));
    let rd = TestReader::with(&bytes, rand_plan(&mut cx.rng));
    let mut s = if cx.rng.chance(1, 2) { Stream::new(rd.clone()) } else { Stream::new_seek(rd.clone()) };
    let fields = cx.rng.chance(1, 2);
    let mut rl = ref_log(&bytes, 200_000);
    if fields {
        rl.retain(|e| *e != Ev::Pad);
        for e in rl.iter_mut() {
            if let Ev::Exc(d) = e {
                let k = d.len().min(256);
                *e = Ev::ExcMsg(String::from_utf8_lossy(&d[..k]).into_owned());
            }
        }
    }
    let got = log(&mut s, fields, 200_000);
    ensure!(same(&got, &rl), "end-of-document", "{} read as {} instead of {}", hex(&bytes), brief(&got), brief(&rl));
    ensure!(got.last() == Some(&Ev::Doc), "harness", "no end of document");
    let here = (s.pos(), rd.pos());
    ensure!(here.0 == here.1, "end-of-document", "positions {:?}", here);
    // sticky, closed, silent
    let before = (rd.calls(), rd.0.borrow().seeks);
    for i in 0..4 {
        ensure!(s.eof() && s.struct_depth() == 0, "end-of-document", "flag {} depth {} after the end", s.eof(), s.struct_depth());
        let again = match (i + cx.rng.below(2)) % 3 {
            0 => field_step(&mut s),
            1 => element_step(&mut s),
            _ => match s.skip_up(0) {
                Ok(()) => Ev::Doc,
                Err(e) => Ev::Err(e.to_string()),
            },
        };
        ensure!(again == Ev::Doc, "end-of-document", "{:?} after the end of the document", again);
    }
    let after = (rd.calls(), rd.0.borrow().seeks);
    ensure!(before == after, "end-of-document", "input touched after the end of the document: {:?} {:?}", before, after);
    // continue
    s.clear_eof();
    ensure!(!s.eof(), "end-of-document", "flag not cleared");
    let got = log(&mut s, false, 200_000);
    let want = ref_log(&bytes[here.0 as usize..], 200_000);
    ensure!(same(&got, &want), "end-of-document", "continued with {} instead of {}", brief(&got), brief(&want));
    cx.count("documents_ended", 1);
    // graceful end of input
    let kind = cx.rng.below(KINDS);
    let plan = rand_plan(&mut cx.rng);
    for _ in 0..4 {
        let cut = cx.rng.usz(first.len() + 1);
        let part = &first[..cut];
        for graceful in [false, true] {
            let got = with_kind(kind, part, &plan, &mut LogV { fields: false, graceful, max: 200_000 });
            let mut want = ref_log(part, 200_000);
            // ended by running out between two elements?
            let mut p = RefParser::new(part);
            let mut between = false;
            loop {
                let at = p.off;
                match p.next() {
                    Ok(PEl::EndDoc) => break,
                    Ok(_) => {
                        if p.commit().is_err() {
                            break;
                        }
                    }
                    Err(_) => {
                        between = at == cut as u64;
                        break;
                    }
                }
            }
            if graceful && between {
                ensure!(matches!(want.last(), Some(Ev::Err(_))), "harness", "log");
                want.pop();
                want.push(Ev::Doc);
            }
            ensure!(same(&got, &want), "graceful-end", "{} (graceful {}, {}): {} instead of {}", hex(part), graceful, KIND_NAMES[kind as usize], brief(&got), brief(&want));
            cx.count(if between { "inputs_ending_between_elements" } else { "inputs_ending_inside_elements" }, 1);
        }
    }
    Ok(())
}

/// With graceful end of input, a file can be read while it grows.
pub fn c18_growing(cx: &mut Ctx) -> Case {
    let (bytes, _) = valid(&mut cx.rng);
    let mut bounds = vec![];
    {
        let mut p = RefParser::new(&bytes[..]);
        while let Ok(e) = p.next() {
            if e == PEl::EndDoc {
                return Ok(());
            }
            if p.commit().is_err() {
                break;
            }
            bounds.push(p.off as usize);
        }
    }
    let rd = TestReader::with(&[], rand_plan(&mut cx.rng));
    let mut s = Stream::new(rd.clone());
    s.set_graceful_eof(true);
    let mut got = Vec::new();
    let mut have = 0;
    let mut grown = 0;
    loop {
        let e = element_step(&mut s);
        match e {
            Ev::Doc => {
                ensure!(s.eof() && s.struct_depth() == 0, "graceful-end", "flag {} depth {} at the end of input", s.eof(), s.struct_depth());
                if have == bytes.len() {
                    break;
                }
                let later: Vec<usize> = bounds.iter().cloned().filter(|b| *b > have).collect();
                let next = if cx.rng.chance(1, 3) { later[0] } else { *cx.rng.pick(&later) };
                rd.0.borrow_mut().data.extend_from_slice(&bytes[have..next]);
                have = next;
                grown += 1;
                s.clear_eof();
            }
            Ev::Err(m) => return fail("graceful-end", format!("reading {} as it grows failed at {}: {}", hex(&bytes), s.pos(), m)),
            e => got.push(e),
        }
    }
    let mut want = ref_log(&bytes, 200_000);
    want.pop();
    // depths restart after every end
    let flat = |v: &[Ev]| -> Vec<Ev> {
        v.iter()
            .cloned()
            .map(|e| match e {
                Ev::Int(t, _, v) => Ev::Int(t, 0, v),
                Ev::Struct(t, _) => Ev::Struct(t, 0),
                Ev::Enum(t, _, d) => Ev::Enum(t, 0, d),
                Ev::Blob(t, _, d) => Ev::Blob(t, 0, d),
                e => e,
            })
            .collect()
    };
    ensure!(flat(&got) == flat(&want), "graceful-end", "{} read while growing as {} instead of {}", hex(&bytes), brief(&got), brief(&want));
    cx.eval_bytes(4, &bytes, grown > 1);
    cx.count("continuations_after_end_of_input", grown);
    Ok(())
}

// ------------------------------------------------------------------ C23

/// Canonical bytes of what the reference reads up to the first error.
/// Also: whether it ended in the middle of a blob.
fn canonical(b: &[u8], pads: bool, base_end: &mut u64) -> (Vec<u8>, bool) {
    let mut out = Vec::new();
    let mut p = RefParser::new(b);
    loop {
        let e = match p.next() {
            Ok(e) => e,
            Err(x) => return (out, x == PErr::TruncBlob),
        };
        match e {
            PEl::Pad if pads => out.push(PADDING),
            PEl::Pad => (),
            PEl::EndStruct => out.push(END_STRUCT),
            PEl::EndDoc => {
                out.push(END_DOC);
                *base_end = p.off;
                return (out, false);
            }
            PEl::Exc { start, len } => {
                out.push(EXCEPTION);
                varint(&mut out, len);
                let e = (start as u128 + len as u128).min(b.len() as u128) as usize;
                out.extend_from_slice(&b[start as usize..e]);
            }
            PEl::Field { tag, val, .. } => match val {
                PVal::Int(i) => {
                    out.push(T_INT | tag);
                    varint(&mut out, i);
                }
                PVal::Struct => out.push(T_STRUCT | tag),
                PVal::Enum(d) => {
                    out.push(T_ENUM | tag);
                    varint(&mut out, d);
                }
                PVal::Blob { start, len } => {
                    out.push(T_BLOB | tag);
                    varint(&mut out, len);
                    let e = (start as u128 + len as u128).min(b.len() as u128) as usize;
                    out.extend_from_slice(&b[start as usize..e]);
                }
            },
        }
        *base_end = p.blob_end.unwrap_or(p.off);
    }
}
struct CopyV<'a> {
    fields: bool,
    dst: &'a mut Stream<TestWriter>,
}
/// How copying ended: (source error, destination error)
type Ended = (Option<String>, Option<stream::Error>);
impl<'a> Visit for CopyV<'a> {
    type O = Ended;
    fn go<R: Rd>(&mut self, mut s: Stream<R>) -> Ended {
        loop {
            let mut done = false;
            let r = if self.fields {
                match s.next_field() {
                    Ok(Some(mut f)) => Some(self.dst.write_field(&mut f)),
                    Ok(None) => None,
                    Err(e) => return (Some(e.to_string()), None),
                }
            } else {
                match s.next_element() {
                    Ok(mut e) => {
                        done = matches!(e, Element::EndOfDoc);
                        Some(self.dst.write_element(&mut e))
                    }
                    Err(e) => return (Some(e.to_string()), None),
                }
            };
            let r = r.unwrap_or_else(|| {
                if s.eof() {
                    done = true;
                    self.dst.write_end_doc()
                } else {
                    self.dst.write_end_struct()
                }
            });
            if let Err(e) = r {
                return (None, Some(e));
            }
            if done {
                return (None, None);
            }
        }
    }
}
pub fn c23_copy(cx: &mut Ctx) -> Case {
    let bytes = match cx.rng.below(4) {
        0 => gen_bytes(&mut cx.rng),
        1 => loose(&mut cx.rng, 20),
        _ => valid(&mut cx.rng).0,
    };
    let fields = cx.rng.chance(1, 3);
    let mut end = 0;
    let (mut want, mut trunc) = canonical(&bytes, !fields, &mut end);
    if fields {
        // exceptions stop field-level copying
        let mut p = RefParser::new(&bytes[..]);
        loop {
            let at = p.off;
            match p.next() {
                Ok(PEl::Exc { .. }) => {
                    let mut e = 0;
                    want = canonical(&bytes[..at as usize], false, &mut e).0;
                    trunc = false;
                    break;
                }
                Ok(PEl::EndDoc) | Err(_) => break,
                Ok(_) => {
                    if p.commit().is_err() {
                        break;
                    }
                }
            }
        }
    }
    let kind = cx.rng.below(KINDS);
    let plan = rand_plan(&mut cx.rng);
    let wplan = rand_plan(&mut cx.rng);
    cx.eval_bytes(fields as u64, &bytes, want.len() > 1);
    cx.sample(|| format!("{} by {}", hex(&bytes), if fields { "fields" } else { "elements" }));
    let tw = TestWriter::with(wplan);
    let mut dst = Stream::new(tw.clone());
    if cx.rng.chance(1, 3) {
        dst.set_pos(cx.rng.u64() >> 2);
    }
    let (se, de) = with_kind(kind, &bytes, &plan, &mut CopyV { fields, dst: &mut dst });
    let fin = dst.commit();
    let got = tw.data();
    let ctx = || format!("copying {} ({}, {}) gave {} instead of {}; source {:?} destination {:?} {:?}", hex(&bytes), if fields { "fields" } else { "elements" }, KIND_NAMES[kind as usize], hex(&got), hex(&want), se, de.as_ref().map(|e| e.to_string()), fin.as_ref().err().map(|e| e.to_string()));
    if trunc && !want.is_empty() {
        // the last blob is not all there: it must not look complete
        ensure!(de.is_some() || fin.is_err(), "copy-truncated", "{}", ctx());
        ensure!(want.starts_with(&got[..]), "copy", "{}", ctx());
        cx.count("truncated_sources_reported", 1);
    } else {
        ensure!(de.is_none() && fin.is_ok(), "copy-refused", "{}", ctx());
        ensure!(got == want, "copy", "{}", ctx());
        cx.count("streams_copied", 1);
        // again: canonical is a fixed point
        if !fields {
            let tw2 = TestWriter::new();
            let mut d2 = Stream::new(tw2.clone());
            let k2 = cx.rng.below(KINDS);
            let _ = with_kind(k2, &got, &Plan::default(), &mut CopyV { fields: false, dst: &mut d2 });
            ensure!(d2.commit().is_ok() && tw2.data() == got, "copy-canonical", "copying the canonical {} gave {}", hex(&got), hex(&tw2.data()));
            // equivalent to the source, as far as that was sound
            let (a, b) = (ref_log(&bytes[..end as usize], 100_000), kind_log(k2, &got, &plan, false));
            let a: Vec<Ev> = a.into_iter().take(4999).collect();
            let b: Vec<Ev> = b.into_iter().take(4999).collect();
            ensure!(same(&a, &b), "copy", "{}: the copy reads as {} instead of {}", ctx(), brief(&b), brief(&a));
        }
    }
    cx.count("bytes_copied", got.len() as u64);
    Ok(())
}
/// Blobs consumed in part (or seeked about) before being copied.
pub fn c23_partial(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let n = r.size_or_big(9000);
    let d = blob_bytes(r, n);
    let exc = r.chance(1, 4);
    let mut bytes = vec![if exc { EXCEPTION } else { T_BLOB | 5 }];
    varint(&mut bytes, n as u64);
    bytes.extend_from_slice(&d);
    bytes.extend_from_slice(&[0x41, 9, 0]);
    let kind = r.below(KINDS);
    let plan = rand_plan(r);
    cx.eval_bytes(7, &bytes, n > 0);
    cx.sample(|| format!("{} blob of {} bytes, {}", KIND_NAMES[kind as usize], n, hex(&d)));
    struct P<'a> {
        d: &'a [u8],
        exc: bool,
        rng: Rng,
        how: u64,
        full: u64,
        part: u64,
    }
    impl<'a> Visit for P<'a> {
        type O = Case;
        fn go<R: Rd>(&mut self, mut s: Stream<R>) -> Case {
            let n = self.d.len() as u64;
            let tw = TestWriter::with(rand_plan(&mut self.rng));
            let mut dst = Stream::new(tw.clone());
            let by_field = !self.exc && self.rng.chance(1, 2);
            let p;
            let res;
            {
                let mut e = match s.next_element() {
                    Ok(e) => e,
                    Err(e) => return fail("copy", e.to_string()),
                };
                {
                    let b = match e {
                        Element::Field(ref mut f) => match f.value {
                            Value::Blob(ref mut b) => b,
                            _ => return fail("harness", "no blob".into()),
                        },
                        Element::Exception(ref mut b) => b,
                        _ => return fail("harness", "no blob".into()),
                    };
                    let k = match self.rng.below(4) {
                        0 => n,
                        1 => 1,
                        _ => self.rng.below(n + 1),
                    }
                    .min(n) as usize;
                    let mut buf = vec![0; k];
                    match self.how {
                        0 => (),
                        1 => {
                            if let Err(e) = b.read_exact(&mut buf) {
                                return fail("copy", e.to_string());
                            }
                        }
                        2 => {
                            if let Err(e) = b.read_or_trunc(k) {
                                return fail("copy", e.to_string());
                            }
                        }
                        3 => {
                            if let Some(Ok(l)) = R::fill_len(b) {
                                R::consume(b, l.min(k));
                            }
                        }
                        4 => drop(R::seek(b, SeekFrom::Start(k as u64))),
                        _ => {
                            let _ = b.read_exact(&mut buf);
                            drop(R::seek(b, SeekFrom::Start(0)));
                        }
                    }
                    p = b.inner_pos();
                    ensure!(b.remaining() == n - p, "copy", "remaining {} at {} of {}", b.remaining(), p, n);
                }
                res = match e {
                    Element::Field(ref mut f) if by_field => dst.write_field(f),
                    ref mut e => dst.write_element(e),
                };
            }
            let fin = dst.commit();
            let mut want = vec![if self.exc { EXCEPTION } else { T_BLOB | 5 }];
            varint(&mut want, n);
            want.extend_from_slice(self.d);
            let got = tw.data();
            if p == 0 {
                ensure!(res.is_ok() && fin.is_ok() && got == want, "copy", "whole blob copied as {} ({:?} {:?})", hex(&got), res.is_ok(), fin.is_ok());
                self.full += 1;
            } else {
                // either an error now, or reported as incomplete on going on
                ensure!(res.is_err() || fin.is_err(), "copy-partial", "a blob read up to {} of {} was copied as {}", p, n, hex(&got));
                let next = dst.write_null(1);
                ensure!(next.is_err() && tw.data() == got, "copy-partial", "writing continued after a blob read up to {} of {} was copied", p, n);
                self.part += 1;
            }
            // the source goes on after the blob
            let e = element_step(&mut s);
            ensure!(matches!(e, Ev::Int(1, _, 9)), "copy-source", "the source continued with {:?}", e);
            Ok(())
        }
    }
    let how = cx.rng.below(6);
    let mut v = P { d: &d, exc, rng: cx.rng.fork(), how, full: 0, part: 0 };
    let r = with_kind(kind, &bytes, &plan, &mut v);
    cx.count("whole_blobs_copied", v.full);
    cx.count("partly_read_blobs_refused", v.part);
    r.map_err(|f| Fail { sig: f.sig, msg: format!("{} how {}: {}: {}", KIND_NAMES[kind as usize], how, hex(&bytes), f.msg) })
}

// ------------------------------------------------------------------ C20

/// Write scripts on a writer that takes odd amounts, is interrupted, fails or
/// is full.
pub fn c20_elements(cx: &mut Ctx) -> Case {
    let n = 1 + cx.rng.below(10);
    let mut ops = rand_ops(&mut cx.rng, n, 4, true);
    let dynamic = cx.rng.chance(1, 4);
    for o in ops.iter_mut() {
        if let WOp::Blob { mode, script, init, len, .. } = o {
            if *mode == Mode::Dynamic && !dynamic {
                *mode = Mode::Data;
                *len = 0;
                init.clear();
            }
            match *mode {
                Mode::Data => script.clear(),
                Mode::Dynamic => {
                    let k = cx.rng.size(600);
                    *script = vec![BOp::WriteAll(blob_bytes(&mut cx.rng, k))]
                }
                Mode::Alloc => *script = vec![BOp::WriteAll(blob_bytes(&mut cx.rng, *len as usize))],
            }
        }
    }
    let mut m = Model { data: vec![], off: 0, base: 0, missing: 0 };
    for o in &ops {
        ensure!(model_op(&mut m, o), "harness", "unpredictable script");
    }
    let full = m.data.clone();
    cx.eval(flcore::rng::hash_bytes(&full), full.len() > 1);
    cx.sample(|| format!("{:?}", ops.iter().take(4).collect::<Vec<_>>()));
    let calls = {
        let tw = TestWriter::with(Plan::default());
        let mut s = Stream::new(tw.clone());
        match run_plain(&mut s, &ops) {
            Ok(()) => (),
            Err(e) => return fail("write", format!("{:?} failed on a plain writer: {}", ops, e)),
        }
        ensure!(tw.data() == full, "write", "{:?} wrote {} instead of {}", ops, hex(&tw.data()), hex(&full));
        tw.calls()
    };
    for _ in 0..4 {
        let mut plan = rand_plan(&mut cx.rng);
        match cx.rng.below(4) {
            0 => (),
            1 if !dynamic => plan.full_after = Some(cx.rng.below(full.len() as u64 + 2)),
            2 if dynamic => plan.seek_fail = Some(cx.rng.below(4)),
            _ => {
                let est = if plan.chunks.is_empty() { calls } else { full.len() as u64 + 5 };
                plan.fail_at = Some(cx.rng.below(est + 2));
                plan.sticky = cx.rng.chance(1, 2);
                plan.fail_kind = Some(*cx.rng.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::WriteZero]));
            }
        }
        let tw = TestWriter::with(plan.clone());
        let mut s = Stream::new(tw.clone());
        let r = run_plain(&mut s, &ops);
        let st = tw.0.borrow();
        let failed = st.failed || (plan.seek_fail.is_some() && st.seeks > plan.seek_fail.unwrap());
        match r {
            Ok(()) => {
                ensure!(!failed, "write-error-swallowed", "{:?} succeeded although the writer failed ({:?})", ops, plan);
                ensure!(st.data == full, "write", "{:?} with {:?} wrote {} instead of {}", ops, plan, hex(&st.data), hex(&full));
                cx.count("restricted_writers_matched", 1);
            }
            Err(e) => {
                ensure!(failed, "write-refused", "{:?} with {:?} failed: {}", ops, plan, e);
                if !dynamic {
                    ensure!(full.starts_with(&st.data), "write-not-prefix", "{:?} with {:?}: {} is not a prefix of {}", ops, plan, hex(&st.data), hex(&full));
                }
                if st.plan.fail_at.is_some() {
                    ensure!(e.contains(TOKEN), "write-error-replaced", "{:?} with {:?}: failure reported as {}", ops, plan, e);
                }
                cx.count("write_failures_reported", 1);
            }
        }
    }
    Ok(())
}
/// Just performs the operations.
pub fn run_plain<W: Wr>(s: &mut Stream<W>, ops: &[WOp]) -> Result<(), String> {
    let e = |e: stream::Error| format!("{}", e);
    for op in ops {
        match op {
            WOp::Int(t, _, k) => {
                let _ = k;
                s.write_u64(*t, int_op(op)).map_err(e)?
            }
            WOp::Struct(t) => s.write_struct(*t).map_err(e)?,
            WOp::Enum(t, d) => s.write_enum(*t, *d).map_err(e)?,
            WOp::EndStruct => s.write_end_struct().map_err(e)?,
            WOp::EndDoc => s.write_end_doc().map_err(e)?,
            WOp::Pad => s.write_padding().map_err(e)?,
            WOp::Align(a) => s.pad_to_align(*a).map_err(e)?,
            WOp::Commit => s.commit().map_err(e)?,
            WOp::Blob { tag, mode, init, len, script } => {
                let mut b = match (mode, tag) {
                    (Mode::Data, Some(t)) => s.write_blob_data(*t, init),
                    (Mode::Data, None) => s.write_exception_data(init),
                    (Mode::Alloc, Some(t)) => s.write_blob_alloc(*t, *len),
                    (Mode::Alloc, None) => s.write_exception_alloc(*len),
                    (Mode::Dynamic, t) => match W::dynamic(s, *t) {
                        Some(b) => b,
                        None => return Err("no dynamic blobs".into()),
                    },
                }
                .map_err(e)?;
                if let Some(BOp::WriteAll(d)) = script.first() {
                    b.write_all(d).map_err(|e| e.to_string())?;
                }
            }
        }
    }
    s.commit().map_err(e)
}

// ------------------------------------------------------------------ C10

/// Element-level reading, writing and copying allocate nothing.
pub fn c10_elements(cx: &mut Ctx) -> Case {
    let (bytes, _) = valid(&mut cx.rng);
    cx.eval_bytes(10, &bytes, bytes.len() > 4);
    cx.sample(|| hex(&bytes));
    let mut buf = vec![0u8; 4096];
    let mut out = vec![0u8; bytes.len() * 2 + 4096];
    let mode = cx.rng.below(6);
    let mut rng = cx.rng.fork();
    let seekable = TestReader::new(&bytes);
    let has_exc = ref_log(&bytes, 200_000).iter().any(|e| matches!(e, Ev::Exc(_)));
    if mode == 1 && has_exc {
        // errors may allocate
        return Ok(());
    }
    let mut n = 0u64;
    let m = alloc::mark();
    let r: Result<(), stream::Error> = (|| {
        match mode {
            0 | 1 | 2 => {
                // elements, fields, skipping; on a slice
                let mut s = Stream::from_slice(&bytes[..]);
                while s.pos() < bytes.len() as u64 {
                    n += 1;
                    if mode == 1 {
                        if let Some(f) = s.next_field()? {
                            if let Value::Blob(mut b) = f.value {
                                read_some(&mut b, &mut buf, &mut rng)?;
                            } else if rng.chance(1, 4) {
                                f.skip()?;
                            }
                        }
                    } else {
                        match s.next_element()? {
                            Element::Field(f) => {
                                if let Value::Blob(mut b) = f.value {
                                    if mode == 2 {
                                        b.slice()?;
                                        b.ext_slice()?;
                                        let l = b.fill_buf()?.len();
                                        b.consume(l / 2);
                                    } else {
                                        read_some(&mut b, &mut buf, &mut rng)?;
                                    }
                                }
                            }
                            Element::Exception(mut b) => read_some(&mut b, &mut buf, &mut rng)?,
                            _ => (),
                        }
                    }
                    s.clear_eof();
                }
                s.commit()
            }
            3 => {
                // plain and seeking readers
                let mut s = if rng.chance(1, 2) { Stream::new(seekable) } else { Stream::new_seek(seekable) };
                while s.pos() < bytes.len() as u64 {
                    n += 1;
                    if let Element::Field(f) = s.next_element()? {
                        if let Value::Blob(mut b) = f.value {
                            read_some(&mut b, &mut buf, &mut rng)?;
                        }
                    }
                    s.clear_eof();
                }
                s.commit()
            }
            4 => {
                // copying
                let mut s = Stream::from_slice(&bytes[..]);
                let mut d = Stream::new(Cursor::new(&mut out[..]));
                while s.pos() < bytes.len() as u64 {
                    n += 1;
                    d.write_element(&mut s.next_element()?)?;
                    s.clear_eof();
                }
                d.commit()
            }
            _ => {
                // writing
                let mut d = Stream::new(Cursor::new(&mut out[..]));
                for _ in 0..10 {
                    n += 1;
                    let t = rand_tag(&mut rng);
                    match rng.below(8) {
                        0 => d.write_u64(t, rng.int())?,
                        1 => d.write_i64(t, rng.int() as i64)?,
                        2 => d.write_struct(t)?,
                        3 => d.write_enum(t, 77)?,
                        4 => d.write_end_struct()?,
                        5 => drop(d.write_blob_data(t, &buf[..100])?),
                        6 => {
                            d.write_blob_dynamic(t)?.write_all(&buf[..50])?;
                            d.commit()?
                        }
                        _ => d.pad_to_align(16)?,
                    }
                }
                d.commit()
            }
        }
    })();
    let a = alloc::since(&m);
    if let Err(stream::Error::Exception(_)) = r {
        // beyond the first end of document
        return Ok(());
    }
    if let Err(e) = r {
        return fail("harness", format!("mode {} on {}: {}", mode, hex(&bytes), e));
    }
    ensure!(a.calls == 0, "allocates", "mode {} on {}: {} allocations of {} bytes", mode, hex(&bytes), a.calls, a.total);
    cx.count("element_operations_without_allocation", n);
    Ok(())
}
fn read_some<R: Read>(b: &mut stream::Blob<R>, buf: &mut [u8], r: &mut Rng) -> Result<(), stream::Error> {
    let k = r.usz(buf.len());
    let k = b.read(&mut buf[..k])?;
    let _ = k;
    Ok(())
}

// ------------------------------------------------------------------ C19

/// A reader failing at any call: what was read before is right, the failure
/// surfaces, and nothing is invented afterwards.
pub fn c19_elements(cx: &mut Ctx) -> Case {
    let (bytes, _) = valid(&mut cx.rng);
    let fields = cx.rng.chance(1, 3);
    let want = kind_log(0, &bytes, &Plan::default(), fields);
    cx.eval_bytes(fields as u64, &bytes, bytes.len() > 2);
    cx.sample(|| hex(&bytes));
    // any delivery
    for _ in 0..3 {
        let plan = rand_plan(&mut cx.rng);
        let kind = 5 + cx.rng.below(3);
        let got = kind_log(kind, &bytes, &plan, fields);
        let g: Vec<Ev> = got;
        ensure!(same(&g, &want), "delivery", "{} via {} with {:?}: {} instead of {}", hex(&bytes), KIND_NAMES[kind as usize], plan, brief(&g), brief(&want));
        cx.count("deliveries_compared", 1);
    }
    // failures
    for _ in 0..4 {
        let mut plan = rand_plan(&mut cx.rng);
        let est = if plan.chunks.is_empty() { 2 * want.len() as u64 + 2 } else { bytes.len() as u64 + 2 };
        plan.fail_at = Some(cx.rng.below(est));
        plan.sticky = true;
        plan.fail_kind = Some(*cx.rng.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::InvalidData]));
        let rd = TestReader::with(&bytes, plan.clone());
        let graceful = cx.rng.chance(1, 3);
        let got = match cx.rng.below(3) {
            0 => {
                let mut s = Stream::new(rd.clone());
                s.set_graceful_eof(graceful);
                log(&mut s, fields, 200_000)
            }
            1 => {
                let mut s = Stream::new_seek(rd.clone());
                s.set_graceful_eof(graceful);
                log(&mut s, fields, 200_000)
            }
            _ => {
                let mut s = Stream::new(BufReader::with_capacity(1 + cx.rng.usz(40), rd.clone()));
                s.set_graceful_eof(graceful);
                log(&mut s, fields, 200_000)
            }
        };
        let failed = rd.0.borrow().failed;
        let mut g = got.clone();
        match g.pop() {
            Some(Ev::Err(m)) if failed => {
                ensure!(m.contains(TOKEN), "read-error-replaced", "{} with {:?}: failure reported as {}", hex(&bytes), plan, m);
                ensure!(want.len() >= g.len() && same(&g, &want[..g.len()]), "delivery", "{} with {:?}: before the failure {} instead of {}", hex(&bytes), plan, brief(&g), brief(&want));
                cx.count("read_failures_surfaced", 1);
            }
            _ => {
                ensure!(!failed, "read-error-swallowed", "{} with {:?} (graceful {}): {}", hex(&bytes), plan, graceful, brief(&got));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C24

/// Streams used in turns, and in parallel, do not see each other.
pub fn c24_elements(cx: &mut Ctx) -> Case {
    let inputs: Vec<Vec<u8>> = (0..2 + cx.rng.usz(3)).map(|_| gen_bytes(&mut cx.rng)).collect();
    let fields = cx.rng.chance(1, 2);
    let alone: Vec<Vec<Ev>> = inputs.iter().map(|b| log(&mut Stream::from_slice(&b[..]), fields, 300)).collect();
    let mut streams: Vec<Stream<_>> = inputs.iter().map(|b| Stream::from_slice(&b[..])).collect();
    let mut turn: Vec<Vec<Ev>> = vec![Vec::new(); inputs.len()];
    let mut open: Vec<usize> = (0..inputs.len()).collect();
    let mut h = 0u64;
    while !open.is_empty() {
        let k = cx.rng.usz(open.len());
        let i = open[k];
        h = flcore::rng::mix(h ^ i as u64);
        let e = if fields { field_step(&mut streams[i]) } else { element_step(&mut streams[i]) };
        let last = matches!(e, Ev::Err(_) | Ev::Doc);
        turn[i].push(e);
        if last || turn[i].len() >= 300 {
            open.remove(k);
        }
    }
    cx.eval(h ^ flcore::rng::hash_bytes(&inputs[0]), true);
    cx.sample(|| format!("{} streams in turns, first {}", inputs.len(), hex(&inputs[0])));
    for i in 0..inputs.len() {
        ensure!(alone[i] == turn[i], "interference", "{} alone {} but in turns {}", hex(&inputs[i]), brief(&alone[i]), brief(&turn[i]));
    }
    // writers in turns
    let scripts: Vec<Vec<WOp>> = (0..3)
        .map(|_| {
            let n = 1 + cx.rng.below(6);
            rand_ops(&mut cx.rng, n, 3, true)
        })
        .collect();
    let mut ws: Vec<(Stream<TestWriter>, Model)> = (0..3).map(|_| (Stream::new(TestWriter::new()), Model { data: vec![], off: 0, base: 0, missing: 0 })).collect();
    let mut st = WStats::default();
    let mut at = [0usize; 3];
    loop {
        let left: Vec<usize> = (0..3).filter(|i| at[*i] < scripts[*i].len()).collect();
        if left.is_empty() {
            break;
        }
        let i = *cx.rng.pick(&left);
        let (s, m) = &mut ws[i];
        apply(s, m, &scripts[i][at[i]], &mut st)?;
        at[i] += 1;
    }
    st.put(cx);
    cx.count("stream_interleavings", 1);
    Ok(())
}

// ------------------------------------------------------------------ C09

/// Huge declared lengths, everything that buffers.
pub fn c09_elements(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let mut bytes = Vec::new();
    for _ in 0..r.below(3) {
        let v = rand_val(r, 1);
        put_node(&mut bytes, &Node::Field(rand_tag(r), v), &mut Style::canon());
    }
    let exc = r.chance(1, 3);
    bytes.push(if exc { EXCEPTION } else { T_BLOB | rand_tag(r) });
    let n = r.size_or_big(4000);
    let decl = match r.below(5) {
        0 => u64::MAX / 2,
        1 => u64::MAX - 40_000,
        2 => (1 << 30) + r.below(1 << 32),
        3 => r.int() >> 1,
        _ => n as u64 + 1 + r.below(1 << 20),
    };
    varint(&mut bytes, decl);
    let d = blob_bytes(r, n);
    bytes.extend_from_slice(&d);
    let kind = r.below(KINDS);
    let plan = rand_plan(r);
    cx.eval_bytes(decl, &bytes, decl > n as u64);
    cx.sample(|| format!("blob of {} declared, {} there", decl, n));
    struct B {
        rng: Rng,
        peak: u64,
        largest: u64,
    }
    impl Visit for B {
        type O = ();
        fn go<R: Rd>(&mut self, mut s: Stream<R>) {
            let m = alloc::mark();
            for _ in 0..40 {
                let fields = self.rng.chance(1, 3);
                if fields {
                    match s.next_field() {
                        Ok(Some(f)) => {
                            if let Value::Blob(mut b) = f.value {
                                drain(&mut b, &mut self.rng);
                            }
                        }
                        Ok(None) => (),
                        Err(stream::Error::Exception(_)) => (),
                        Err(_) => break,
                    }
                } else {
                    match s.next_element() {
                        Ok(Element::Field(f)) => {
                            if let Value::Blob(mut b) = f.value {
                                drain(&mut b, &mut self.rng);
                            }
                        }
                        Ok(Element::Exception(mut b)) => drain(&mut b, &mut self.rng),
                        Ok(Element::EndOfDoc) | Err(_) => break,
                        _ => (),
                    }
                }
            }
            let a = alloc::since(&m);
            self.peak = a.peak as u64;
            self.largest = a.largest;
        }
    }
    fn drain<R: Rd>(b: &mut stream::Blob<R>, r: &mut Rng) {
        match r.below(6) {
            0 => drop(b.read_fully(usize::max_value())),
            1 => drop(b.read_or_trunc(usize::max_value())),
            2 => drop(R::fill_len(b)),
            3 => drop(R::slice_len(b)),
            4 => drop(b.read_or_trunc(r.below(1 << 40) as usize)),
            _ => drop(R::read_until(b, 0xEE)),
        }
    }
    let mut v = B { rng: cx.rng.fork(), peak: 0, largest: 0 };
    with_kind(kind, &bytes, &plan, &mut v);
    let lim = 8 * bytes.len() as u64 + 8192;
    ensure!(
        v.peak <= lim && v.largest <= lim,
        "memory",
        "{}: {} bytes of input with a blob declaring {}: {} bytes held at once, {} requested at once",
        KIND_NAMES[kind as usize],
        bytes.len(),
        decl,
        v.peak,
        v.largest
    );
    cx.count("largest_peak_over_input_x100", 0);
    cx.count("huge_blobs_read", 1);
    Ok(())
}

/// A writer which keeps what it is given to itself until flushed, and may
/// refuse to.
struct Held {
    held: Vec<u8>,
    out: Rc<RefCell<Vec<u8>>>,
    chunk: usize,
    refuses: Rc<Cell<bool>>,
}
impl Write for Held {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.chunk);
        self.held.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.refuses.get() {
            return Err(io::Error::new(io::ErrorKind::Other, "refuses to flush"));
        }
        self.out.borrow_mut().append(&mut self.held);
        Ok(())
    }
}

/// Flushing a blob delivers what was written so far, or reports that it
/// didn't, and changes nothing else.
pub fn c20_flush(cx: &mut Ctx) -> Case {
    let out = Rc::new(RefCell::new(Vec::new()));
    let refuses = Rc::new(Cell::new(false));
    let chunk = *cx.rng.pick(&[1usize, 3, 1 << 20]);
    let mut s = Stream::new(Held { held: vec![], out: out.clone(), chunk, refuses: refuses.clone() });
    let mut want = Vec::new();
    let mut flushed = 0;
    let n = 1 + cx.rng.usz(4);
    let mut delivered = 0;
    for _ in 0..n {
        let t = rand_tag(&mut cx.rng);
        let v = cx.rng.int();
        if let Err(e) = s.write_u64(t, v) {
            return fail("flush", format!("write_u64: {}", e));
        }
        want.push(T_INT | t);
        varint(&mut want, v);
        let k = cx.rng.size(200);
        let d = cx.rng.bytes(k);
        let exception = cx.rng.chance(1, 5);
        let b = if exception { s.write_exception_alloc(k as u64) } else { s.write_blob_alloc(t, k as u64) };
        let mut b = match b {
            Ok(b) => b,
            Err(e) => return fail("flush", format!("blob: {}", e)),
        };
        want.push(if exception { 0x80 } else { 0x80 | t });
        varint(&mut want, k as u64);
        let mut at = 0;
        loop {
            if cx.rng.chance(1, 3) {
                flushed += 1;
                let no = cx.rng.chance(1, 4);
                refuses.set(no);
                let r = b.flush();
                refuses.set(false);
                if no {
                    ensure!(r.is_err(), "flush", "flush {} failed, but the blob's succeeded", flushed);
                    cx.count("failed_flushes_reported", 1);
                } else {
                    ensure!(r.is_ok(), "flush", "flush {}: {:?}", flushed, r.err());
                    ensure!(*out.borrow() == want, "flush", "flush {} delivered {} instead of {} bytes", flushed, out.borrow().len(), want.len());
                    delivered = want.len();
                    cx.count("flushes_delivered", 1);
                }
                ensure!(b.inner_pos() == at as u64 && b.remaining() == (k - at) as u64, "flush", "flush moved the blob to {} instead of {}", b.inner_pos(), at);
            }
            ensure!(out.borrow().len() >= delivered && want.starts_with(&out.borrow()), "flush", "something else was delivered: {}", hex(&out.borrow()));
            if at == k {
                break;
            }
            let m = 1 + cx.rng.usz(k - at);
            if let Err(e) = b.write_all(&d[at..at + m]) {
                return fail("flush", format!("writing: {}", e));
            }
            want.extend_from_slice(&d[at..at + m]);
            at += m;
        }
    }
    cx.eval(flcore::rng::hash_bytes(&want), flushed > 0);
    ensure!(s.commit().is_ok() && s.pos() == want.len() as u64, "flush", "stream at {} instead of {}", s.pos(), want.len());
    let mut w = s.into_inner();
    drop(w.flush());
    ensure!(*out.borrow() == want, "flush", "delivered {} instead of {}", hex(&out.borrow()), hex(&want));
    Ok(())
}
