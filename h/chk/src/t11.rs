//! C31: a message which is refused does not spoil what follows it.
use crate::t2::*;
use crate::t3::spoil;
use crate::util::*;
use flcore::ensure;
use flcore::io::*;
use flcore::model::*;
use flcore::refparse::*;
use flcore::runner::*;
use flcore::schema::EKind;
use flcore::schema::Limits;
use flreg::{Dec, Entry, Kind, ReadStream, SliceStream};
use fourleaf::stream::{Element, Error, Stream, Value};

/// One message of the sequence and where its parts are.
struct Part {
    e: &'static Entry,
    lim: Limits,
    zc: bool,
    bytes: Vec<u8>,
    start: u64,
    /// Positions at which an element ends or a blob goes on, with the depth
    /// there; blobs as ranges.
    depths: Vec<(u64, u64, u64)>,
    /// Elements of the outermost struct by position.
    top: Vec<(u64, u8)>,
}
impl Part {
    fn end(&self) -> u64 {
        self.start + self.bytes.len() as u64
    }
    /// Depth at a position of this message, None if no element ends there.
    fn depth_at(&self, pos: u64) -> Option<u64> {
        self.depths.iter().find(|d| d.0 <= pos && pos <= d.1).map(|d| d.2)
    }
}
fn survey(p: &mut Part) -> Result<(), PErr> {
    let mut r = RefParser::new(&p.bytes[..]);
    r.base = p.start;
    p.depths.push((p.start, p.start, 0));
    loop {
        let mut e = r.pos();
        let el = r.next()?;
        let s = r.pos();
        match el {
            PEl::Field { val: PVal::Blob { len, .. }, .. } | PEl::Exc { len, .. } => e = s + len,
            _ => e = s.max(e),
        }
        if let PEl::Field { tag, pos, depth: 1, .. } = el {
            p.top.push((pos, tag));
        }
        p.depths.push((s, e, r.depth));
        if r.depth == 0 && matches!(el, PEl::EndStruct | PEl::EndDoc) {
            return if r.off == p.bytes.len() as u64 { Ok(()) } else { Err(PErr::Eof) };
        }
    }
}

enum St<'a> {
    S(SliceStream<'a>),
    R(ReadStream, TestReader),
}
macro_rules! each {
    ($s:expr, $x:ident => $b:expr) => {
        match $s {
            St::S($x) => $b,
            St::R($x, _) => $b,
        }
    };
}
impl<'a> St<'a> {
    fn decode(&mut self, p: &Part) -> Dec {
        let c = cfg(&p.lim);
        match self {
            St::S(s) => (if p.zc { p.e.slice_borrow } else { p.e.slice_copy }.unwrap())(s, &c),
            St::R(s, _) => (p.e.reader.unwrap())(s, &c),
        }
    }
    fn pos(&self) -> u64 {
        each!(self, s => s.pos())
    }
    fn depth(&self) -> u64 {
        each!(self, s => s.struct_depth())
    }
    fn inner(&self) -> u64 {
        match self {
            St::S(s) => s.get_ref().0.position(),
            St::R(_, r) => r.0.borrow().pos,
        }
    }
    fn skip_up(&mut self, d: u64) -> Result<(), Error> {
        each!(self, s => s.skip_up(d))
    }
    /// Tag of the next field of the outermost struct.
    fn field(&mut self) -> Result<Option<(u64, u8)>, Error> {
        each!(self, s => {
            let f = s.next_field()?;
            match f {
                None => Ok(None),
                Some(f) => {
                    let r = (f.pos, f.tag);
                    f.skip()?;
                    Ok(Some(r))
                }
            }
        })
    }
    /// Whether the next element ends the struct or document.
    fn element(&mut self) -> Result<bool, Error> {
        each!(self, s => Ok(match s.next_element()? {
            Element::EndOfStruct | Element::EndOfDoc => true,
            Element::Field(f) => {
                if let Value::Struct(s) | Value::Enum(_, s) = f.value {
                    s.skip_up(f.depth)?;
                }
                false
            }
            _ => false,
        }))
    }
}

pub fn c31(cx: &mut Ctx) -> Case {
    let mode = SMODES[(cx.idx % 4) as usize];
    let slices = matches!(mode, Mode::SliceCopy | Mode::SliceBorrow);
    let base = if cx.rng.chance(1, 4) { cx.rng.int() >> 1 } else { 0 };
    let n = 2 + cx.rng.usz(7);
    let mut parts: Vec<Part> = Vec::new();
    let mut cat = Vec::new();
    let mut k = cx.idx;
    while parts.len() < n {
        let e = entry_at(k);
        k = cx.rng.u64();
        let zc = slices && if cx.rng.chance(1, 4) { mode == Mode::SliceCopy } else { mode == Mode::SliceBorrow };
        let ok = if slices { if zc { Mode::SliceBorrow } else { Mode::SliceCopy }.ok(e) } else { mode.ok(e) };
        if !ok {
            continue;
        }
        let mut lim = ROOMY;
        let tree = match cx.rng.below(10) {
            0 | 1 => gen_for(e, &mut cx.rng).tree,
            2 => {
                let o = entry_at(cx.rng.u64());
                gen_for(o, &mut cx.rng).tree
            }
            3 => rand_body(&mut cx.rng, 3),
            4 => {
                lim = rand_limits(&mut cx.rng);
                let mut m = gen_for(e, &mut cx.rng);
                insert_unknown(&mut m.tree, &mut cx.rng, 40);
                m.tree
            }
            _ => {
                let mut m = gen_for(e, &mut cx.rng);
                for _ in 0..3 {
                    if m.tree.count() > 2 {
                        break;
                    }
                    m = gen_for(e, &mut cx.rng);
                }
                if cx.rng.chance(1, 4) {
                    insert_unknown(&mut m.tree, &mut cx.rng, 40);
                }
                for _ in 0..1 + cx.rng.below(2) {
                    let f = cx.rng.below(8);
                    spoil(f, &mut m.tree, &mut cx.rng, &mut lim);
                }
                m.tree
            }
        };
        let bytes = if cx.rng.chance(1, 6) { end_doc_variant(&tree) } else { render(&tree, &mut cx.rng, 20) };
        let mut bytes = bytes;
        if cx.rng.chance(1, 10) {
            // the document ends somewhere in the middle
            let mut p = Part { e, lim, zc, start: 0, bytes: bytes.clone(), depths: vec![], top: vec![] };
            if survey(&mut p).is_ok() {
                let n = p.depths.len() - 1;
                bytes.truncate(p.depths[cx.rng.usz(n)].1 as usize);
                bytes.push(END_DOC);
                cx.count("documents_ended_early", 1);
            }
        }
        let mut p = Part { e, lim, zc, start: base + cat.len() as u64, bytes, depths: vec![], top: vec![] };
        if survey(&mut p).is_err() {
            cx.count("not_well_formed", 1);
            continue;
        }
        cat.extend_from_slice(&p.bytes);
        parts.push(p);
    }
    cx.eval_bytes(cx.idx % 4, &cat, n > 1);
    cx.sample(|| format!("{:?} {} messages [{}]", mode, n, parts.iter().map(|p| p.e.name).collect::<Vec<_>>().join(", ")));
    let mut st = if slices {
        St::S(Stream::from_slice(&cat[..]))
    } else {
        let r = TestReader::with(&cat, rand_plan(&mut cx.rng));
        St::R(if mode == Mode::SeekReader { Stream::new_seek(r.clone()) } else { Stream::new(r.clone()) }, r)
    };
    each!(&mut st, s => s.set_pos(base));
    for (i, p) in parts.iter().enumerate() {
        let show = |what: String| -> Case {
            fail("recovery", format!("{:?} message {} ({}) of [{}] from {} in {}: {}", mode, i, p.e.name, parts.iter().map(|p| p.e.name).collect::<Vec<_>>().join(", "), p.start - base, hex(&cat), what))
        };
        let alone = {
            let mut a = if slices {
                St::S(Stream::from_slice(&p.bytes[..]))
            } else {
                let r = TestReader::with(&p.bytes, Plan::default());
                St::R(if mode == Mode::SeekReader { Stream::new_seek(r.clone()) } else { Stream::new(r.clone()) }, r)
            };
            each!(&mut a, s => s.set_pos(p.start));
            a.decode(p)
        };
        each!(&mut st, s => s.clear_eof());
        let d = st.decode(p);
        cx.count("messages_decoded", 1);
        let same = match (&alone.res, &d.res) {
            (Ok(a), Ok(b)) => a.dyn_.norm() == b.dyn_.norm(),
            (Err(a), Err(b)) => a.kind == b.kind && a.wo == b.wo && a.exception == b.exception && a.display == b.display,
            _ => false,
        };
        if !same {
            return show(format!("{:?} instead of {:?} when alone", d.res.map(|v| v.dyn_), alone.res.map(|v| v.dyn_)));
        }
        let pos = st.pos();
        let err = match &d.res {
            Ok(_) => {
                if pos != p.end() || st.depth() != 0 {
                    return show(format!("accepted, but at {} of {} with depth {}", pos.wrapping_sub(p.start), p.bytes.len(), st.depth()));
                }
                None
            }
            Err(e) => Some(e),
        };
        if let Some(e) = err {
            cx.count("messages_refused", 1);
            cx.count(
                match &e.kind {
                    Kind::Ref(EKind::Parse(_)) | Kind::Io(_) | Kind::Other => return show(format!("reported as not well-formed: {}", e.display)),
                    Kind::Ref(EKind::WrongType) => "refused_wrong_type",
                    Kind::Ref(EKind::OutOfRange) => "refused_out_of_range",
                    Kind::Ref(EKind::Exception) => "refused_exception",
                    Kind::Ref(EKind::Recursion) => "refused_recursion",
                    Kind::Ref(EKind::UnknownField(..)) => "refused_unknown_field",
                    Kind::Ref(EKind::UnknownVariant(..)) => "refused_unknown_variant",
                    Kind::Ref(EKind::MaxBlob) => "refused_max_blob",
                    Kind::Ref(EKind::MaxCollect) => "refused_max_collect",
                    _ => "refused_otherwise",
                },
                1,
            );
            let want = p.depth_at(pos);
            if want != Some(st.depth()) {
                return show(format!("refused ({}) at {} of {} with depth {}, the structure has {:?}", e.display, pos.wrapping_sub(p.start), p.bytes.len(), st.depth(), want));
            }
            cx.count(if pos == p.end() { "refused_at_end" } else if pos == p.start { "refused_at_start" } else if st.depth() > 1 { "refused_nested" } else { "refused_at_top" }, 1);
            if pos != p.end() {
                // calls without an effect
                if cx.rng.chance(1, 3) {
                    each!(&mut st, s => {
                        s.clear_eof();
                        s.set_graceful_eof(true);
                        s.set_graceful_eof(false);
                        s.set_pos(pos);
                        s.set_struct_depth(s.struct_depth());
                    });
                }
                // out of some of the nested structs first
                let mut d = st.depth();
                let mut at = p.depths.iter().position(|d| d.0 <= pos && pos <= d.1).unwrap();
                while d > 1 && cx.rng.chance(1, 2) {
                    d = 1 + cx.rng.below(d - 1);
                    if let Err(x) = st.skip_up(d) {
                        return show(format!("refused ({}), then skip_up({}): {}", e.display, d, x));
                    }
                    while p.depths[at].2 > d {
                        at += 1;
                    }
                    if (st.pos(), st.depth()) != (p.depths[at].0, p.depths[at].2) {
                        return show(format!("refused ({}) at {}, then skip_up({}) went to {} with depth {} instead of {} with {}", e.display, pos.wrapping_sub(p.start), d, st.pos().wrapping_sub(p.start), st.depth(), p.depths[at].0 - p.start, p.depths[at].2));
                    }
                    cx.count("skipped_out_of_nested", 1);
                    d = st.depth();
                }
                let inside = d > 0;
                match cx.rng.below(3) {
                    // to the end at once
                    0 if inside => {
                        if let Err(x) = st.skip_up(0) {
                            return show(format!("refused ({}), then skip_up(0): {}", e.display, x));
                        }
                    }
                    // to the outermost struct, then field by field
                    1 => {
                        if let Err(x) = st.skip_up(1) {
                            return show(format!("refused ({}), then skip_up(1): {}", e.display, x));
                        }
                        let mid = st.pos();
                        let mut want: Vec<_> = p.top.iter().filter(|t| t.0 >= mid).copied().collect();
                        want.reverse();
                        while st.pos() != p.end() {
                            match st.field() {
                                Ok(None) => break,
                                Ok(Some(f)) => {
                                    if want.pop() != Some(f) {
                                        return show(format!("refused ({}), skipped up to {}: then field {:?}", e.display, mid.wrapping_sub(p.start), f));
                                    }
                                    cx.count("fields_read_after_refusal", 1);
                                }
                                Err(Error::Exception(_)) => cx.count("exceptions_met_after_refusal", 1),
                                Err(x) => return show(format!("refused ({}), skipped up to {}: then {}", e.display, mid.wrapping_sub(p.start), x)),
                            }
                        }
                        if !want.is_empty() {
                            return show(format!("refused ({}), skipped up to {}: fields {:?} not seen", e.display, mid.wrapping_sub(p.start), want));
                        }
                    }
                    // element by element
                    _ => {
                        let r = (|| {
                            st.skip_up(1)?;
                            while st.pos() != p.end() && !st.element()? {}
                            Ok::<_, Error>(())
                        })();
                        if let Err(x) = r {
                            return show(format!("refused ({}), then element by element: {}", e.display, x));
                        }
                    }
                }
            }
            if st.pos() != p.end() || st.depth() != 0 {
                return show(format!("refused ({}) at {}, then moved on to {} of {} with depth {}", e.display, pos.wrapping_sub(p.start), st.pos().wrapping_sub(p.start), p.bytes.len(), st.depth()));
            }
        }
        if st.inner() != p.end() - base {
            return show(format!("reader at {} instead of {}", st.inner(), p.end() - base));
        }
    }
    if !slices {
        cx.count("sequences_over_readers", 1);
    }
    ensure!(st.pos() == base + cat.len() as u64, "recovery", "end");
    Ok(())
}
