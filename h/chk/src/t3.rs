//! Checks C19, C20, C21, C22, C24 over typed values.
use crate::t2::*;
use crate::util::*;
use flcore::ensure;
use flcore::io::*;
use flcore::model::*;
use flcore::refparse::PErr;
use flcore::rng::{mix, Rng};
use flcore::runner::*;
use flcore::schema::*;
use flreg::{registry, stream_kind, Entry, Kind};
use fourleaf::stream::Stream;
use std::io::ErrorKind;

// ------------------------------------------------------------------- C19
const RMODES: [Mode; 3] = [Mode::SeekReader, Mode::PlainReader, Mode::ConvReader];
fn reader_entry(i: u64) -> &'static Entry {
    let mut k = i;
    loop {
        let e = entry_at(k);
        if e.reader.is_some() {
            return e;
        }
        k += 1;
    }
}
pub fn c19_chunks(cx: &mut Ctx) -> Case {
    let e = reader_entry(cx.idx);
    let bytes = if cx.rng.chance(1, 2) {
        let mut m = gen_for(e, &mut cx.rng);
        if cx.rng.chance(1, 2) {
            insert_unknown(&mut m.tree, &mut cx.rng, 60);
        }
        render(&m.tree, &mut cx.rng, 30)
    } else {
        hostile(e, &mut cx.rng)
    };
    let lim = if cx.rng.chance(1, 4) { rand_limits(&mut cx.rng) } else { ROOMY };
    let c = cfg(&lim);
    let want = decode(e, Mode::SliceCopy, &bytes, &c, &Opt::default());
    let mut splits = 0;
    for _ in 0..4 {
        let mut plan = rand_plan(&mut cx.rng);
        if cx.rng.chance(1, 3) {
            plan.seek_fail = Some(if cx.rng.chance(1, 2) { u64::MAX } else { cx.rng.below(6) });
        }
        for mode in RMODES {
            let p0 = decode(e, mode, &bytes, &c, &Opt::default());
            let o = decode(e, mode, &bytes, &c, &Opt { plan: plan.clone(), ..Default::default() });
            let io = o.io.unwrap();
            splits += io.0;
            cx.count("chunked_decodes", 1);
            let same = o.norm() == want.norm()
                && o.err().map(|x| class(x.kind)) == p0.err().map(|x| class(x.kind))
                && (o.err().is_some() || o.inner == want.inner)
                && (o.err().is_some() || o.pos.is_none() || o.pos == want.pos);
            ensure!(
                same,
                "delivery-dependent",
                "{} {:?} {:?}: {} -> {} but from a slice {}",
                e.name,
                mode,
                plan,
                hex(&bytes),
                o.show(),
                want.show()
            );
        }
    }
    cx.count("reader_calls_observed", splits);
    cx.count(if want.err().is_some() { "refused" } else { "accepted" }, 1);
    cx.eval_bytes(cx.idx % 1000, &bytes, true);
    cx.sample(|| format!("{} {} in 12 deliveries", e.name, hex(&bytes)));
    Ok(())
}
/// `k` tells of an underlying failure of kind `io`
fn io_kind(k: &Kind, io: ErrorKind) -> bool {
    *k == if io == ErrorKind::UnexpectedEof { Kind::Ref(EKind::Parse(PErr::Eof)) } else { Kind::Io(io) }
}
pub fn c19_faults(cx: &mut Ctx) -> Case {
    let e = reader_entry(cx.idx);
    let mut m = gen_for(e, &mut cx.rng);
    if cx.rng.chance(1, 2) {
        insert_unknown(&mut m.tree, &mut cx.rng, 60);
    }
    let bytes = render(&m.tree, &mut cx.rng, 20);
    let c = cfg(&ROOMY);
    let mut n = 0;
    for mode in RMODES {
        let mut plan = rand_plan(&mut cx.rng);
        if cx.rng.chance(1, 2) {
            plan.seek_fail = Some(u64::MAX);
        }
        let clean = decode(e, mode, &bytes, &c, &Opt { plan: plan.clone(), ..Default::default() });
        ensure!(clean.norm() == Some(m.d.norm()), "refused", "{} {:?} {:?}: {} -> {}", e.name, mode, plan, hex(&bytes), clean.show());
        let calls = clean.io.unwrap().0;
        let ks: Vec<u64> = if calls <= 40 { (0..calls).collect() } else { (0..40).map(|_| cx.rng.below(calls)).collect() };
        for k in ks {
            let kind = *cx.rng.pick(&[
                ErrorKind::Other,
                ErrorKind::PermissionDenied,
                ErrorKind::ConnectionReset,
                ErrorKind::InvalidData,
                ErrorKind::WouldBlock,
                ErrorKind::TimedOut,
                ErrorKind::InvalidInput,
                ErrorKind::BrokenPipe,
                ErrorKind::WriteZero,
                ErrorKind::NotFound,
                ErrorKind::OutOfMemory,
                ErrorKind::AlreadyExists,
            ]);
            let p = Plan { fail_at: Some(k), fail_kind: Some(kind), sticky: cx.rng.chance(1, 2), ..plan.clone() };
            let graceful = cx.rng.chance(1, 4);
            let o = decode(e, mode, &bytes, &c, &Opt { plan: p.clone(), graceful, ..Default::default() });
            n += 1;
            let ok = match o.err() {
                Some(x) => io_kind(&x.kind, kind) && x.display.contains(TOKEN),
                None => false,
            };
            ensure!(
                ok,
                "read-error-lost",
                "{} {:?} graceful={} read call {} of {} failed with {:?} ({:?}): {} -> {}",
                e.name,
                mode,
                graceful,
                k,
                calls,
                kind,
                p,
                hex(&bytes),
                o.show()
            );
        }
    }
    cx.count("injected_read_failures", n);
    cx.eval_bytes(cx.idx % 1000, &bytes, n > 0);
    cx.sample(|| format!("{} {} with {} injected failures", e.name, hex(&bytes), n));
    Ok(())
}

// ------------------------------------------------------------------- C20
pub fn c20(cx: &mut Ctx) -> Case {
    let m = gen_msg(cx);
    let full = m.inst.to_vec();
    ensure!(full.is_ok(), "ser-error", "{}: {:?}", describe(&m), full);
    let full = full.unwrap();
    let mut faults = 0;
    let run = |p: Plan, stream: bool| -> (Result<(), fourleaf::stream::Error>, Vec<u8>, u64) {
        let w = TestWriter::with(p);
        let r = if stream {
            let mut s = Stream::new(w.clone());
            m.inst.to_stream(&mut s)
        } else {
            m.inst.to_writer(w.clone())
        };
        let d = w.data();
        let c = w.calls();
        (r, d, c)
    };
    for stream in [false, true] {
        let plan = rand_plan(&mut cx.rng);
        let (r, d, calls) = run(plan.clone(), stream);
        cx.count("short_write_runs", 1);
        ensure!(
            r.is_ok() && d == full,
            "short-writes",
            "{} stream={} {:?}: {:?}, wrote {} instead of {}",
            describe(&m),
            stream,
            plan,
            r,
            hex(&d),
            hex(&full)
        );
        let ks: Vec<u64> = if calls <= 40 { (0..calls).collect() } else { (0..40).map(|_| cx.rng.below(calls)).collect() };
        for k in ks {
            let kind = *cx.rng.pick(&[
                ErrorKind::Other,
                ErrorKind::BrokenPipe,
                ErrorKind::PermissionDenied,
                ErrorKind::WouldBlock,
                ErrorKind::WriteZero,
                ErrorKind::UnexpectedEof,
                ErrorKind::InvalidInput,
                ErrorKind::StorageFull,
            ]);
            let p = Plan { fail_at: Some(k), fail_kind: Some(kind), sticky: cx.rng.chance(1, 2), ..plan.clone() };
            let (r, d, _) = run(p, stream);
            faults += 1;
            let ok = match &r {
                Err(x) => io_kind(&stream_kind(x), kind) && x.to_string().contains(TOKEN),
                Ok(()) => false,
            };
            ensure!(ok, "write-error-lost", "{} stream={}: write call {} of {} failed but the result is {:?}", describe(&m), stream, k, calls, r);
            ensure!(full.starts_with(&d), "not-a-prefix", "{} stream={}: write call {} failed, written {}", describe(&m), stream, k, hex(&d));
        }
        let len = full.len() as u64;
        let ks: Vec<u64> = if len <= 30 { (0..len).collect() } else { (0..30).map(|_| cx.rng.below(len)).collect() };
        for k in ks {
            let p = Plan { full_after: Some(k), ..plan.clone() };
            let (r, d, _) = run(p, stream);
            faults += 1;
            ensure!(r.is_err(), "full-writer-ignored", "{} stream={}: the writer accepted only {} of {} bytes", describe(&m), stream, k, len);
            ensure!(full.starts_with(&d), "not-a-prefix", "{} stream={}: writer full after {}, written {}", describe(&m), stream, k, hex(&d));
        }
    }
    cx.count("injected_write_faults", faults);
    cx.eval_bytes(cx.idx % 1000, &full, true);
    cx.sample(|| format!("{} with {} write faults", describe(&m), faults));
    Ok(())
}

// ------------------------------------------------------------------- C21
fn find(name: &str) -> Option<&'static Entry> {
    registry().iter().find(|e| e.name == name)
}
const INTS: [(&str, u32, bool); 10] = [
    ("u8", 8, false),
    ("i8", 8, true),
    ("u16", 16, false),
    ("i16", 16, true),
    ("u32", 32, false),
    ("i32", 32, true),
    ("u64", 64, false),
    ("i64", 64, true),
    ("usize", 64, false),
    ("isize", 64, true),
];
/// What wire integer `w` means for a scalar type: written from the
/// documentation, independently of the reference decoder.
fn domain(ty: &str, w: u64) -> Option<Dyn> {
    if let Some((_, bits, signed)) = INTS.iter().find(|i| i.0 == ty) {
        return if *signed {
            let mag = (w / 2) as i128;
            let v = if w % 2 == 1 { -mag - 1 } else { mag };
            let (lo, hi) = (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1);
            if v < lo || v > hi {
                None
            } else {
                Some(Dyn::I(v as i64))
            }
        } else if (w as u128) < 1u128 << bits {
            Some(Dyn::U(w))
        } else {
            None
        };
    }
    match ty {
        "bool" => match w {
            0 => Some(Dyn::B(false)),
            1 => Some(Dyn::B(true)),
            _ => None,
        },
        "PhantomData<String>" => (w == 0).then_some(Dyn::Null),
        "char" => {
            if w < 0xD800 || (w > 0xDFFF && w <= 0x10FFFF) {
                char::from_u32(w as u32).map(Dyn::C)
            } else {
                None
            }
        }
        _ => None,
    }
}
const SCALARS: [&str; 13] =
    ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "bool", "char", "PhantomData<String>"];

/// decodes integer `w` as `ty` in context `k`
fn int_case(cx: &mut Ctx, ty: &'static str, w: u64, k: u64, mode: Mode) -> Case {
    let want = domain(ty, w);
    let mut b = Body::default();
    b.field(1, Val::Int(w));
    let (e, want_d) = match k {
        0 => (find(ty).unwrap(), want.clone()),
        1 => {
            b.field(2, Val::Int(w));
            let n = SCALARS.iter().position(|s| *s == ty).unwrap();
            (
                pair_entry(n),
                want.clone().map(|d| Dyn::Tup(vec![d.clone(), Dyn::Opt(Some(Box::new(d)))])),
            )
        }
        _ => (find_vec(ty), want.clone().map(|d| if ty == "u8" { Dyn::Null } else { Dyn::Seq(SeqKind::List, vec![d]) })),
    };
    let bytes = encode(&b);
    let o = decode(e, mode, &bytes, &cfg(&ROOMY), &Opt::default());
    let ok = match (o.norm(), &want_d) {
        (Some(d), Some(x)) => d == x.norm(),
        (None, None) => true,
        _ => false,
    };
    ensure!(ok, "int-domain", "{} {:?}: wire integer {} ({:#x}) should give {:?} -> {}", e.name, mode, w, w, want_d, o.show());
    if let Some(x) = o.err() {
        let want_kind = if ty == "char" && w <= u32::MAX as u64 { EKind::Invalid } else { EKind::OutOfRange };
        ensure!(x.kind == Kind::Ref(want_kind), "int-domain-kind", "{} wire integer {}: {}", e.name, w, o.show());
        cx.count("out_of_domain_integers_refused", 1);
    } else {
        cx.count("in_domain_integers_accepted", 1);
    }
    Ok(())
}
fn pair_entry(n: usize) -> &'static Entry {
    static P: std::sync::OnceLock<Vec<&'static Entry>> = std::sync::OnceLock::new();
    P.get_or_init(|| SCALARS.iter().map(|s| find(&format!("({}, Option<..>)", s)).unwrap()).collect())[n]
}
fn find_vec(ty: &str) -> &'static Entry {
    // u8 vectors are blobs, so their elements are covered as VecDeque
    match ty {
        "PhantomData<String>" => find("Vec<PhantomData<u8>>").unwrap(),
        _ => find(&format!("Vec<{}>", ty)).unwrap(),
    }
}
const VECS: [&str; 6] = ["i8", "u16", "u64", "bool", "char", "PhantomData<String>"];

pub fn c21_small(cx: &mut Ctx) -> Case {
    // exhaustive sweep of small wire values over all scalar types
    let block = 256u64;
    let (ti, blk) = ((cx.idx % 13) as usize, cx.idx / 13);
    let ty = SCALARS[ti];
    for w in blk * block..(blk + 1) * block {
        for (k, mode) in [(0, Mode::SliceCopy), (1, Mode::PlainReader)] {
            int_case(cx, ty, w, k, mode)?;
        }
        if VECS.contains(&ty) {
            int_case(cx, ty, w, 2, Mode::SliceBorrow)?;
        }
    }
    cx.eval(mix(cx.idx), true);
    cx.sample(|| format!("{} wire integers {}..{}", ty, blk * block, (blk + 1) * block));
    Ok(())
}
pub fn c21_chars(cx: &mut Ctx) -> Case {
    let block = 1024u64;
    for w in cx.idx * block..(cx.idx + 1) * block {
        int_case(cx, "char", w, 1, Mode::SliceCopy)?;
    }
    cx.eval(mix(cx.idx), true);
    Ok(())
}
pub fn c21_wide(cx: &mut Ctx) -> Case {
    let mut h = 0;
    for ty in SCALARS {
        for _ in 0..4 {
            let mut w = cx.rng.int();
            if cx.rng.chance(1, 2) {
                // right at the boundaries of some width
                let bits = *cx.rng.pick(&[8u32, 16, 31, 32, 33, 63, 64, 7, 15]);
                let edge = if bits == 64 { 0 } else { 1u64 << bits };
                w = edge.wrapping_add(cx.rng.below(5)).wrapping_sub(2);
            }
            h = mix(h ^ w);
            let mode = *cx.rng.pick(&SMODES);
            let k = cx.rng.below(2);
            int_case(cx, ty, w, k, mode)?;
        }
    }
    cx.eval(h, true);
    Ok(())
}
/// UTF-8 well-formedness by the table of the Unicode standard.
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE | 0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        for k in 1..=n {
            let x = match b.get(i + k) {
                Some(x) => *x,
                None => return false,
            };
            let (lo, hi) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if x < lo || x > hi {
                return false;
            }
        }
        i += n + 1;
    }
    true
}
const TEXT: [(&str, u32); 8] = [
    ("String", 0),
    ("&'x str", 0),
    ("Cow<'x, str>", 0),
    ("(String, Option<..>)", 1),
    ("(&'x str, Option<..>)", 1),
    ("(Cow<'x, str>, Option<..>)", 1),
    ("Vec<String>", 2),
    ("Vec<&'x str>", 2),
];
fn text_case(cx: &mut Ctx, s: &[u8], all: bool) -> Case {
    let ok = utf8_ok(s);
    static T: std::sync::OnceLock<Vec<&'static Entry>> = std::sync::OnceLock::new();
    let es = T.get_or_init(|| TEXT.iter().map(|t| find(t.0).unwrap_or_else(|| panic!("{}", t.0))).collect());
    let pick = cx.rng.usz(TEXT.len());
    for (i, e) in es.iter().enumerate() {
        if !all && i != pick {
            continue;
        }
        let mut b = Body::default();
        b.field(1, Val::Blob(s.to_vec()));
        let bytes = encode(&b);
        let want = Dyn::Str(s.to_vec());
        let want = match TEXT[i].1 {
            0 => want,
            1 => Dyn::Tup(vec![want, Dyn::Opt(None)]),
            _ => Dyn::Seq(SeqKind::List, vec![want]),
        };
        for mode in SMODES {
            if !mode.ok(e) {
                continue;
            }
            let o = decode(e, mode, &bytes, &cfg(&ROOMY), &Opt::default());
            let good = match o.norm() {
                Some(d) => ok && d == want,
                None => !ok && o.err().unwrap().kind == Kind::Ref(EKind::Invalid),
            };
            ensure!(good, "text-domain", "{} {:?}: {} (valid UTF-8: {}) -> {}", e.name, mode, hex(s), ok, o.show());
            cx.count(if ok { "valid_utf8_accepted" } else { "invalid_utf8_refused" }, 1);
        }
    }
    Ok(())
}
pub fn c21_text(cx: &mut Ctx) -> Case {
    if cx.idx < 256 {
        // all strings of one and two bytes
        let a = cx.idx as u8;
        text_case(cx, &[a], true)?;
        for b in 0..=255u8 {
            text_case(cx, &[a, b], false)?;
        }
    } else if cx.idx < 256 + 64 {
        // all boundary combinations of three and four bytes
        let leads = [0x00u8, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
        let cont = [0x00u8, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xE1, 0xFF];
        let lead = leads[(cx.idx as usize - 256) % leads.len()];
        for a in cont {
            for b in cont {
                text_case(cx, &[lead, a, b], false)?;
                text_case(cx, &[b'x', lead, a, b], false)?;
                for c in [0x80u8, 0xBF, 0x7F, 0xC0] {
                    text_case(cx, &[lead, a, b, c], false)?;
                    text_case(cx, &[lead, a, b, c, b'y'], false)?;
                }
            }
        }
    } else {
        // mixtures of long ASCII runs and other characters
        let mut s = String::new();
        let ascii = cx.rng.below(101);
        let most = if cx.rng.chance(1, 20) { 3000 } else { 90 };
        for _ in 0..cx.rng.size(most) {
            let c = if cx.rng.below(100) < ascii { cx.rng.below(0x80) as u8 as char } else { char::from_u32((cx.rng.int() % 0x110000) as u32).unwrap_or('x') };
            s.push(c);
        }
        let mut b = s.into_bytes();
        if cx.rng.chance(2, 3) && !b.is_empty() {
            let i = match cx.rng.below(3) {
                0 => b.len() - 1 - cx.rng.usz(b.len().min(9)),
                1 => cx.rng.usz(b.len().min(9)),
                _ => cx.rng.usz(b.len()),
            };
            match cx.rng.below(4) {
                0 => {
                    b.remove(i);
                }
                1 => b.truncate(i),
                2 => b[i] = *cx.rng.pick(&[0x80, 0xC0, 0xED, 0xF8, 0xFF]),
                _ => b[i] ^= 1 << cx.rng.below(8),
            }
        }
        text_case(cx, &b, true)?;
        cx.eval_bytes(0, &b, true);
    }
    cx.eval(mix(cx.idx), true);
    Ok(())
}
/// Fixed-size blobs, durations, addresses: lengths and ranges against the
/// reference decoder.
pub fn c21_fixed(cx: &mut Ctx) -> Case {
    static F: std::sync::OnceLock<Vec<&'static Entry>> = std::sync::OnceLock::new();
    let es = F.get_or_init(|| {
        registry()
            .iter()
            .filter(|e| {
                let n = e.name;
                n.contains("[u8;") || n.contains("Ip") || n.contains("Socket") || n.contains("Duration") || n.contains("SFix")
            })
            .collect()
    });
    let e = es[(cx.idx % es.len() as u64) as usize];
    let mut m = gen_for(e, &mut cx.rng);
    let mut what = 0;
    at_body(&mut m.tree, &mut cx.rng, &mut |b, r| {
        if b.nodes.is_empty() {
            return false;
        }
        let i = r.usz(b.nodes.len());
        if let Node::Field(_, v) = &mut b.nodes[i] {
            match v {
                Val::Blob(d) => {
                    what = 1;
                    match r.below(6) {
                        0 => {
                            d.pop();
                        }
                        1 => d.push(0),
                        2 => d.clear(),
                        3 => *d = [&d[..], &d[..]].concat(),
                        4 => d.truncate(d.len() / 2),
                        _ => {
                            let n = r.size(70);
                            d.resize(n, 7)
                        }
                    }
                }
                Val::Int(n) => {
                    what = 2;
                    *n = match r.below(5) {
                        0 => 1_000_000_000 + r.below(3) - 1,
                        1 => (1u64 << *r.pick(&[8u32, 16, 20, 32])) + r.below(3) - 1,
                        2 => u64::MAX - r.below(2),
                        3 => 4_294_967_295 + r.below(3) - 1,
                        _ => r.int(),
                    };
                }
                _ => return false,
            }
        }
        true
    });
    let bytes = encode(&m.tree);
    cx.eval_bytes(cx.idx % es.len() as u64, &bytes, what > 0);
    cx.sample(|| format!("{} {}", e.name, hex(&bytes)));
    exact_all(cx, e, &bytes, ROOMY, "fixed-domain", "size or range changed")
}
/// Every type refuses every wire type but its own.
pub fn c21_wire(cx: &mut Ctx) -> Case {
    let e = entry_at(cx.idx / 4);
    let m = gen_for(e, &mut cx.rng);
    let mut tree = m.tree.clone();
    let kind = cx.idx % 4;
    let done = at_body(&mut tree, &mut cx.rng, &mut |b, r| {
        if b.nodes.is_empty() {
            return false;
        }
        let i = r.usz(b.nodes.len());
        if let Node::Field(_, v) = &mut b.nodes[i] {
            let sub = match v {
                Val::Struct(b) | Val::Enum(_, b) if r.chance(3, 4) => b.clone(),
                _ => {
                    let mut s = Body::default();
                    if r.chance(1, 2) {
                        s.field(1, v.clone());
                    }
                    s
                }
            };
            *v = match kind {
                0 => Val::Int(r.below(3)),
                1 => {
                    let n = r.size(20);
                    Val::Blob(vec![b'a'; n])
                }
                2 => Val::Struct(sub),
                _ => Val::Enum(r.below(3), sub),
            };
        }
        true
    });
    let bytes = encode(&tree);
    cx.eval_bytes(cx.idx % 4000, &bytes, done);
    cx.sample(|| format!("{} {}", e.name, hex(&bytes)));
    exact_all_any(cx, e, &bytes, ROOMY, "wire-type", "other wire type")
}
/// Like `exact_all` but error kinds are compared only on agreement about a
/// wrong type.
fn exact_all_any(cx: &mut Ctx, e: &Entry, bytes: &[u8], lim: Limits, sig: &str, what: &str) -> Case {
    for mode in MODES {
        if !mode.ok(e) {
            continue;
        }
        let r = ref_decode(e.schema(mode.zc()), bytes, lim);
        let o = decode(e, mode, bytes, &cfg(&lim), &Opt::default());
        if let Err(x) = agree(&o, &r, 0) {
            return fail(sig, format!("{} {:?} {}: {} -> {}", e.name, mode, what, hex(bytes), x));
        }
        if let Err(d) = &r.res {
            if d.kind == EKind::WrongType {
                cx.count("wrong_wire_type_refused", 1);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C22
/// Damages a tree in one place, or tightens the limits; false if there was
/// nothing to damage. Up to 7 the bytes remain well-formed.
pub fn spoil(f: u64, tree: &mut Body, rng: &mut Rng, lim: &mut Limits) -> bool {
    match f {
        0 => at_body(tree, rng, &mut |b, r| {
            if b.nodes.is_empty() {
                return false;
            }
            let i = r.usz(b.nodes.len());
            if let Node::Field(_, v) = &mut b.nodes[i] {
                *v = match v {
                    Val::Int(_) => Val::Blob(vec![]),
                    Val::Blob(_) => Val::Int(0),
                    Val::Struct(b) => Val::Enum(0, std::mem::take(b)),
                    Val::Enum(_, b) => Val::Struct(std::mem::take(b)),
                };
            }
            true
        }),
        1 => at_body(tree, rng, &mut |b, r| {
            let v: Vec<usize> = (0..b.nodes.len()).filter(|i| matches!(b.nodes[*i], Node::Field(_, Val::Int(_)))).collect();
            if v.is_empty() {
                return false;
            }
            let i = *r.pick(&v);
            if let Node::Field(_, Val::Int(n)) = &mut b.nodes[i] {
                *n = u64::MAX - r.below(5);
            }
            true
        }),
        2 => {
            lim.ignore_unknown = false;
            at_body(tree, rng, &mut |b, r| {
                if b.captures {
                    return false;
                }
                let free: Vec<u8> = (1..64u8).filter(|t| b.declared >> t & 1 == 0).collect();
                let t = *r.pick(&free);
                let v = rand_val(r, 2);
                b.nodes.insert(r.usz(b.nodes.len() + 1), Node::Field(t, v));
                true
            })
        }
        3 => at_body(tree, rng, &mut |b, r| {
            let v: Vec<usize> = (0..b.nodes.len()).filter(|i| matches!(b.nodes[*i], Node::Field(_, Val::Enum(..)))).collect();
            if v.is_empty() {
                return false;
            }
            let i = *r.pick(&v);
            if let Node::Field(_, Val::Enum(n, _)) = &mut b.nodes[i] {
                *n = 1_000_000 + r.int() / 2;
            }
            true
        }),
        4 => at_body(tree, rng, &mut |b, r| {
            if b.nodes.is_empty() {
                return false;
            }
            let i = r.usz(b.nodes.len());
            let n = b.nodes[i].clone();
            b.nodes.insert(r.usz(b.nodes.len() + 1), n);
            true
        }),
        5 => at_body(tree, rng, &mut |b, r| {
            if b.nodes.is_empty() {
                return false;
            }
            b.nodes.remove(r.usz(b.nodes.len()));
            true
        }),
        6 => at_body(tree, rng, &mut |b, r| {
            let v: Vec<usize> = (0..b.nodes.len()).filter(|i| matches!(b.nodes[*i], Node::Field(_, Val::Blob(_)))).collect();
            if v.is_empty() {
                return false;
            }
            let i = *r.pick(&v);
            if let Node::Field(_, Val::Blob(d)) = &mut b.nodes[i] {
                d.push(0xFF);
            }
            true
        }),
        7 => at_body(tree, rng, &mut |b, r| {
            let n = *r.pick(&[0usize, 3, 10, 255, 256, 257, 300]);
            let d = match r.below(3) {
                0 => vec![b'x'; n],
                1 => "\u{e9}\u{4e2d}".bytes().cycle().take(n).collect(),
                _ => r.bytes(n),
            };
            b.nodes.insert(r.usz(b.nodes.len() + 1), Node::Exc(d));
            true
        }),
        8 => at_body(tree, rng, &mut |b, r| {
            // an integer which cannot be read, as a declared or unknown field
            let ty = *r.pick(&[T_INT, T_BLOB, T_ENUM]);
            let t = 1 + r.below(63) as u8;
            let mut d = vec![ty | t];
            match r.below(3) {
                0 => {
                    d.extend([0xFF; 9]);
                    d.push(2 + r.below(126) as u8);
                }
                1 => {
                    d.extend(std::iter::repeat(0x80).take(260));
                    d.push(0);
                }
                _ => {
                    let n = 10 + r.usz(200);
                    d.extend(std::iter::repeat(0x80).take(n));
                    d.push(1);
                }
            }
            b.nodes.insert(r.usz(b.nodes.len() + 1), Node::Raw(d));
            true
        }),
        _ => unreachable!(),
    }
}
pub fn c22(cx: &mut Ctx) -> Case {
    let e = entry_at(cx.idx);
    let mut m = gen_for(e, &mut cx.rng);
    for _ in 0..4 {
        if m.tree.count() > 2 {
            break;
        }
        m = gen_for(e, &mut cx.rng);
    }
    let mut lim = ROOMY;
    let mut tree = m.tree.clone();
    let f = cx.rng.below(13);
    let mut cut = false;
    let mut limit = 0;
    let done = match f {
        0..=8 => spoil(f, &mut tree, &mut cx.rng, &mut lim),
        9 => {
            cut = true;
            true
        }
        k => {
            limit = k - 9;
            true
        }
    };
    let mut bytes = render(&tree, &mut cx.rng, 20);
    if cut {
        let n = cx.rng.usz(bytes.len());
        bytes.truncate(n);
    }
    cx.eval_bytes(f * 1000 + cx.idx % 1000, &bytes, done);
    for mode in MODES {
        if !mode.ok(e) {
            continue;
        }
        let mut lim = lim;
        if limit > 0 {
            let need = ref_decode(e.schema(mode.zc()), &bytes, ROOMY).need;
            match limit {
                1 if need.depth > 0 => lim.recursion = need.depth - 1,
                2 if need.collected > 0 => lim.collect = need.collected - 1,
                3 if need.blobs > 0 => lim.blob = need.blobs as usize - 1,
                _ => (),
            }
        }
        let base = if mode.has_stream() && cx.rng.chance(1, 4) { cx.rng.int() >> 1 } else { 0 };
        let r = ref_decode_at(e.schema(mode.zc()), &bytes, lim, base, false);
        let o = decode(e, mode, &bytes, &cfg(&lim), &Opt { base, ..Default::default() });
        let de = match &r.res {
            Ok(_) => {
                cx.count("no_fault_after_all", 1);
                ensure!(o.err().is_none(), "spurious-error", "{} {:?}: {} -> {}", e.name, mode, hex(&bytes), o.show());
                continue;
            }
            Err(d) => d,
        };
        let er = match o.err() {
            Some(x) => x,
            None => return fail("fault-accepted", format!("{} {:?} {:?}: {} -> {}", e.name, mode, de, hex(&bytes), o.show())),
        };
        let what = match de.kind {
            EKind::Parse(PErr::Eof) | EKind::Parse(PErr::TruncBlob) => "truncated",
            EKind::Parse(_) => "bad_integer",
            EKind::Exception => "exception",
            EKind::WrongType => "wrong_type",
            EKind::OutOfRange => "out_of_range",
            EKind::Recursion => "recursion",
            EKind::UnknownField(..) => "unknown_field",
            EKind::UnknownVariant(_) => "unknown_variant",
            EKind::TooFew(_) => "too_few",
            EKind::TooMany(_) => "too_many",
            EKind::Missing => "missing",
            EKind::Invalid => "invalid",
            EKind::MaxCollect => "max_collect",
            EKind::MaxBlob => "max_blob",
        };
        cx.count(what, 1);
        ensure!(
            class(er.kind) == class(Kind::Ref(de.kind)),
            "error-kind",
            "{} {:?}: {} -> {:?} ({}) but the fault is {:?}",
            e.name,
            mode,
            hex(&bytes),
            er.kind,
            er.display,
            de
        );
        // the path: every level with its offset, outermost first
        let mut rest = &er.wo[er.wo.find('}').map(|i| i + 1).unwrap_or(0)..];
        let last = de.path.len().wrapping_sub(1);
        for (i, (n, p)) in de.path.iter().enumerate() {
            // what is missing is flagged at the end of the structure: where
            // its end is, or right after it
            let finishing = i == last && matches!(de.kind, EKind::Missing | EKind::TooFew(_));
            let mut pat = format!(".{}{{{}}}", n, p);
            if finishing && rest.find(&pat).is_none() {
                pat = format!(".{}{{{}}}", n, p.wrapping_sub(1));
            }
            match rest.find(&pat) {
                Some(k) => rest = &rest[k + pat.len()..],
                None => {
                    return fail(
                        "error-path",
                        format!(
                            "{} {:?}: {} -> location {:?} does not name {:?} as in {:?}",
                            e.name,
                            mode,
                            hex(&bytes),
                            er.wo,
                            pat,
                            expected_wo(&de.path)
                        ),
                    )
                }
            }
            cx.count("path_levels_checked", 1);
        }
        // nothing further down is blamed
        let extra = rest.trim_start_matches(|c: char| c.is_ascii_digit()).trim_start_matches('}');
        ensure!(
            extra.is_empty(),
            "error-path",
            "{} {:?}: {} -> location {:?} goes beyond {:?}",
            e.name,
            mode,
            hex(&bytes),
            er.wo,
            expected_wo(&de.path)
        );
        ensure!(
            !er.wo.is_empty() && er.display.contains(&er.wo),
            "error-display",
            "{} {:?}: {:?} does not show the location {:?}",
            e.name,
            mode,
            er.display,
            er.wo
        );
        if let (EKind::Exception, Node::Exc(d)) = (de.kind, first_exc(&tree)) {
            let want = String::from_utf8_lossy(&d[..d.len().min(256)]).to_string();
            ensure!(
                er.exception.as_ref() == Some(&want),
                "exception-text",
                "{} {:?}: exception {:?} instead of {:?}",
                e.name,
                mode,
                er.exception,
                want
            );
        }
    }
    cx.sample(|| format!("{} fault class {} {}", e.name, f, hex(&bytes)));
    Ok(())
}
fn first_exc(b: &Body) -> Node {
    for n in &b.nodes {
        match n {
            Node::Exc(_) => return n.clone(),
            Node::Field(_, Val::Struct(b)) | Node::Field(_, Val::Enum(_, b)) => {
                let x = first_exc(b);
                if let Node::Exc(_) = x {
                    return x;
                }
            }
            _ => (),
        }
    }
    Node::Pad
}

// ------------------------------------------------------------------- C24
#[derive(Clone)]
struct Op {
    e: &'static Entry,
    mode: Mode,
    bytes: Vec<u8>,
    lim: Limits,
    plan: Plan,
}
fn op_result(o: &Op) -> String {
    let out = decode(o.e, o.mode, &o.bytes, &cfg(&o.lim), &Opt { plan: o.plan.clone(), ..Default::default() });
    match &out.dec.res {
        Ok(v) => format!("{:?} {:?} {:?}", v.dyn_.norm(), out.pos, out.inner),
        Err(e) => format!("{:?} {} {:?} {:?}", e.kind, e.display, out.pos, out.inner),
    }
}
pub fn c24(cx: &mut Ctx) -> Case {
    let mut ops = Vec::new();
    let n = 4 + cx.rng.usz(12);
    for i in 0..n {
        let e = entry_at(if i == 0 { cx.idx } else { cx.rng.u64() });
        let bytes = if cx.rng.chance(1, 2) { gen_for(e, &mut cx.rng).bytes } else { hostile(e, &mut cx.rng) };
        let modes: Vec<Mode> = MODES.iter().cloned().filter(|m| m.ok(e)).collect();
        let mode = *cx.rng.pick(&modes);
        let lim = if cx.rng.chance(1, 2) { rand_limits(&mut cx.rng) } else { Limits::default() };
        let mut plan = rand_plan(&mut cx.rng);
        if cx.rng.chance(1, 6) {
            plan.fail_at = Some(cx.rng.below(8));
        }
        ops.push(Op { e, mode, bytes, lim, plan });
    }
    let alone: Vec<String> = ops.iter().map(op_result).collect();
    let same = |i: usize, got: &str, how: &str| -> Case {
        ensure!(
            got == alone[i],
            "state-leak",
            "{} {:?} {}: {} instead of {} when decoding {}",
            ops[i].e.name,
            ops[i].mode,
            how,
            &got[..got.len().min(300)],
            &alone[i][..alone[i].len().min(300)],
            hex(&ops[i].bytes)
        );
        Ok(())
    };
    // again in another order, interleaved with serialisation
    let mut order: Vec<usize> = (0..n).chain(0..n).collect();
    cx.rng.shuffle(&mut order);
    for &i in &order {
        let m = gen_for(ops[i].e, &mut cx.rng);
        let a = m.inst.to_vec().unwrap();
        let bytes = ops[i].bytes.clone();
        let got = op_result(&ops[i]);
        same(i, &got, "repeated in another order")?;
        ensure!(bytes == ops[i].bytes, "input-modified", "decoding modified its input");
        let b = m.inst.to_vec().unwrap();
        ensure!(a == b && m.inst.dyn_() == m.d, "serialise-not-pure", "{}: {} then {}", describe(&m), hex(&a), hex(&b));
        cx.count("interleaved_calls", 3);
    }
    // one configuration object shared by every call
    let c = cfg(&ops[0].lim);
    let before = format!("{:?}", c);
    for o in &ops {
        let a = decode(o.e, o.mode, &o.bytes, &c, &Opt::default());
        let b = decode(o.e, o.mode, &o.bytes, &cfg(&ops[0].lim), &Opt::default());
        ensure!(
            a.norm() == b.norm() && a.err().map(|e| &e.display) == b.err().map(|e| &e.display),
            "config-state",
            "{}: a used configuration gives {} a fresh one {}",
            o.e.name,
            a.show(),
            b.show()
        );
    }
    ensure!(before == format!("{:?}", c), "config-modified", "configuration changed: {} -> {:?}", before, c);
    // concurrently
    if cx.idx % 8 == 0 {
        let seeds: Vec<u64> = (0..4).map(|_| cx.rng.u64()).collect();
        let ops2 = &ops;
        let res: Vec<Vec<(usize, String)>> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|s| {
                    let s = *s;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let mut r = Rng::new(s);
                            let mut v = Vec::new();
                            for _ in 0..40 {
                                let i = r.usz(ops2.len());
                                v.push((i, op_result(&ops2[i])));
                            }
                            v
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for v in res {
            ensure!(v.len() == 40, "panic", "a concurrent call panicked");
            for (i, s) in v {
                same(i, &s, "concurrently")?;
                cx.count("concurrent_calls", 1);
            }
        }
    }
    let h = ops.iter().fold(0, |h, o| mix(h ^ flcore::rng::hash_bytes(&o.bytes)));
    cx.eval(h, true);
    cx.sample(|| format!("{} calls on [{}]", n, ops.iter().map(|o| o.e.name).collect::<Vec<_>>().join(", ")));
    Ok(())
}
