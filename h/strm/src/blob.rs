//! C16: a blob handle against the model of a read-only file.
use crate::kinds::*;
use crate::read::*;
use flcore::ensure;
use flcore::io::Plan;
use flcore::model::*;
use flcore::refparse::*;
use flcore::rng::Rng;
use flcore::runner::*;
use fourleaf::stream::{self, Element, Stream, Value};

struct V<'a> {
    bytes: &'a [u8],
    rng: Rng,
    /// offset of the blob's descriptor, its content and length
    at: u64,
    start: u64,
    len: u64,
    exc: bool,
    base: u64,
    ops: u64,
    st: Stats,
}
impl<'a> Visit for V<'a> {
    type O = Case;
    fn go<R: Rd>(&mut self, mut s: Stream<R>) -> Case {
        s.set_pos(self.base);
        let src = self.bytes;
        let o = SessOpt { strict: false, ..SessOpt::reading() };
        let mut rp = RefParser::new(src);
        rp.base = self.base;
        // up to the blob
        loop {
            if rp.off == self.at && rp.blob_end.map_or(true, |e| e <= self.at) {
                break;
            }
            let pos = s.pos();
            match (s.next_element(), rp.next()) {
                (Ok(_), Ok(_)) => {
                    if rp.blob_end == Some(self.at) {
                        // a blob right before: leave its handle as it is
                        break;
                    }
                }
                (g, w) => return fail("stream-differs", format!("element at {}: {} instead of {:?}", pos, show_el(&g), w)),
            }
        }
        let w = rp.next();
        let end = match (s.next_element(), w) {
            (Ok(Element::Field(mut f)), Ok(PEl::Field { val: PVal::Blob { start, len }, .. })) if !self.exc => {
                ensure!(start == self.start && len == self.len, "harness", "blob located at {} {}", start, len);
                match f.value {
                    Value::Blob(ref mut b) => blob_ops(b, src, self.base, start, len, &mut self.rng, &o, &mut self.st, self.ops)?,
                    _ => return fail("stream-differs", "not a blob".into()),
                }
            }
            (Ok(Element::Exception(mut b)), Ok(PEl::Exc { start, len })) if self.exc => {
                ensure!(start == self.start && len == self.len, "harness", "exception located at {} {}", start, len);
                blob_ops(&mut b, src, self.base, start, len, &mut self.rng, &o, &mut self.st, self.ops)?
            }
            (g, w) => return fail("stream-differs", format!("{} instead of {:?}", show_el(&g), w)),
        };
        rp.off = self.start + end;
        if self.rng.chance(1, 3) {
            // settle explicitly
            if let Err(e) = s.commit() {
                return fail("blob-after", format!("commit after the blob failed: {}", e));
            }
            if let Err(e) = rp.commit() {
                return fail("reference", format!("{:?}", e));
            }
            ensure!(s.pos() == rp.pos(), "blob-after", "after the blob at {} instead of {}", s.pos(), rp.pos());
            if let Some(p) = s.get_ref().at() {
                ensure!(p == rp.off, "blob-after", "reader after the blob at {} instead of {}", p, rp.off);
            }
        }
        // everything after it
        session(&mut s, &mut rp, &mut self.rng, &o, &[], &mut self.st).map(|_| ())
    }
}

pub fn c16(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let mut bytes = Vec::new();
    for _ in 0..r.below(4) {
        let v = rand_val(r, 1);
        put_node(&mut bytes, &Node::Field(rand_tag(r), v), &mut Style::canon());
    }
    if r.chance(1, 4) {
        bytes.push(PADDING);
    }
    let at = bytes.len() as u64;
    let exc = r.chance(1, 6);
    bytes.push(if exc { EXCEPTION } else { T_BLOB | rand_tag(r) });
    let n = r.size_or_big(3000);
    let d = r.bytes(n);
    varint_padded(&mut bytes, n as u64, if r.chance(1, 8) { 1 + r.usz(5) } else { 0 });
    let start = bytes.len() as u64;
    bytes.extend_from_slice(&d);
    for _ in 0..r.below(4) {
        let v = rand_val(r, 1);
        put_node(&mut bytes, &Node::Field(rand_tag(r), v), &mut Style::canon());
    }
    bytes.push(END_STRUCT);
    let base = match r.below(4) {
        0 => u64::MAX - bytes.len() as u64 - r.below(20),
        1 => r.u64() >> 1,
        _ => 0,
    };
    let kind = r.below(KINDS);
    let plan = rand_plan(r);
    let ops = 1 + r.below(24);
    cx.eval_bytes(ops, &bytes[at as usize..], n > 0);
    cx.sample(|| format!("{}: blob of {} at {} of {}, {} operations", KIND_NAMES[kind as usize], n, start, hex(&bytes), ops));
    let mut v = V { bytes: &bytes, rng: cx.rng.fork(), at, start, len: n as u64, exc, base, ops, st: Stats::default() };
    let res = with_kind(kind, &bytes, &plan, &mut v);
    v.st.put(cx);
    let nc = v.st.ext_not_consuming;
    res.map_err(|f| Fail { sig: f.sig, msg: format!("{} base {} blob {}+{} of {}: {}", KIND_NAMES[kind as usize], base, start, n, hex(&bytes), f.msg) })?;
    if nc > 0 {
        cx.report(Fail {
            sig: "ext-slice-not-consuming".into(),
            msg: format!("{}: ext_slice returned the remaining bytes of a blob without consuming them", KIND_NAMES[kind as usize]),
        })?;
    }
    Ok(())
}

/// Blobs whose declared length exceeds the input: operations may use what is
/// there, nothing may pretend that the rest exists.
pub fn c16_short(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let mut bytes = vec![T_BLOB | rand_tag(r)];
    let there = r.size_or_big(300);
    let decl = match r.below(4) {
        0 => there as u64 + 1,
        1 => there as u64 + 1 + r.below(100),
        2 => u64::MAX >> 1 + r.below(40),
        _ => (there as u64) + 1 + (r.int() >> 1),
    };
    varint(&mut bytes, decl);
    let start = bytes.len() as u64;
    let d = r.bytes(there);
    bytes.extend_from_slice(&d);
    let kind = r.below(KINDS);
    let plan = rand_plan(r);
    cx.eval_bytes(9, &bytes, true);
    cx.sample(|| format!("{} of {} declared bytes", there, decl));
    struct W<'a> {
        bytes: &'a [u8],
        start: u64,
        decl: u64,
        rng: Rng,
        st: Stats,
    }
    impl<'a> Visit for W<'a> {
        type O = Case;
        fn go<R: Rd>(&mut self, mut s: Stream<R>) -> Case {
            let o = SessOpt { cap: 4096, ..SessOpt::reading() };
            {
                let mut f = match s.next_field() {
                    Ok(Some(f)) => f,
                    x => return fail("stream-differs", show_field(&x)),
                };
                let n = self.rng.below(8);
                match f.value {
                    Value::Blob(ref mut b) => drop(blob_ops(b, self.bytes, 0, self.start, self.decl, &mut self.rng, &o, &mut self.st, n)?),
                    _ => return fail("stream-differs", "not a blob".into()),
                }
            }
            let r = s.next_element();
            match r {
                Err(e) => match cls(&e) {
                    Some(PErr::Eof) => Ok(()),
                    _ => fail("truncated-blob", format!("wrong error {:?}", e)),
                },
                x => fail("truncated-blob", format!("reading continued after a truncated blob with {}", show_el(&x))),
            }
        }
    }
    let mut w = W { bytes: &bytes, start, decl, rng: cx.rng.fork(), st: Stats::default() };
    let res = with_kind(kind, &bytes, &plan, &mut w);
    w.st.put(cx);
    res.map_err(|f| Fail { sig: f.sig, msg: format!("{} {}: {}", KIND_NAMES[kind as usize], hex(&bytes), f.msg) })
}
#[allow(unused)]
fn unused(_: stream::Error, _: Plan) {}
