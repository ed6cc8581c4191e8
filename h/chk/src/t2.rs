//! Checks C05, C07, C08, C10, C11, C12, C26 over typed values.
use crate::util::*;
use flcore::alloc::{mark, since};
use flcore::ensure;
use flcore::io::*;
use flcore::model::*;
use flcore::refparse::PErr;
use flcore::runner::*;
use flcore::schema::*;
use flreg::*;
use fourleaf::io::TransparentCursor;
use fourleaf::stream::Stream;

/// Canonical or (sometimes) equivalent rendering of a tree.
pub fn render(b: &Body, r: &mut flcore::rng::Rng, style_pct: u64) -> Vec<u8> {
    if r.below(100) < style_pct {
        let mut f = r.fork();
        let mut st = Style { rng: Some(&mut f), denorm: 40, pad: 30, marks: None };
        encode_styled(b, &mut st)
    } else {
        encode(b)
    }
}
/// Every mode: outcome must be the reference's, including the error kind.
pub fn exact_all(cx: &mut Ctx, e: &Entry, bytes: &[u8], lim: Limits, sig: &str, what: &str) -> Case {
    let mut refs: [Option<RefOut>; 2] = [None, None];
    for mode in MODES {
        if !mode.ok(e) {
            continue;
        }
        let z = mode.zc() as usize;
        if refs[z].is_none() {
            refs[z] = Some(ref_decode(e.schema(mode.zc()), bytes, lim));
        }
        let r = refs[z].as_ref().unwrap();
        let o = decode(e, mode, bytes, &cfg(&lim), &Opt::default());
        cx.count("decodes", 1);
        if let Err(x) = agree(&o, r, 0) {
            return fail(sig, format!("{} {:?} {}: {} -> {}", e.name, mode, what, hex(bytes), x));
        }
        if let (Some(er), Err(re)) = (o.err(), &r.res) {
            if class(er.kind) != class(Kind::Ref(re.kind)) {
                return fail(
                    sig,
                    format!(
                        "{} {:?} {}: {} -> error {:?} ({}) but the documentation prescribes {:?}",
                        e.name, mode, what, hex(bytes), er.kind, er.display, re
                    ),
                );
            }
        }
    }
    for r in refs.iter().flatten() {
        match &r.res {
            Ok(_) => cx.count("accepted", 1),
            Err(e) => cx.count(
                match e.kind {
                    EKind::TooMany(_) => "refused_too_many",
                    EKind::TooFew(_) => "refused_too_few",
                    EKind::Missing => "refused_missing",
                    EKind::UnknownField(..) => "refused_unknown",
                    _ => "refused_other",
                },
                1,
            ),
        }
    }
    Ok(())
}
/// Applies `f` to a uniformly chosen body of the tree.
pub fn at_body(b: &mut Body, r: &mut flcore::rng::Rng, f: &mut dyn FnMut(&mut Body, &mut flcore::rng::Rng) -> bool) -> bool {
    let mut n = 0u64;
    b.visit_mut(&mut |_| n += 1);
    // prefer a body where something can be done: try a few
    for _ in 0..4 {
        let k = r.below(n);
        let mut i = 0;
        let mut done = false;
        b.visit_mut(&mut |b| {
            if i == k {
                done = f(b, r);
            }
            i += 1;
        });
        if done {
            return true;
        }
    }
    false
}

// ------------------------------------------------------------------- C05
pub fn c05_reorder(cx: &mut Ctx) -> Case {
    let mut m = gen_msg(cx);
    let moved = reorder(&mut m.tree, &mut cx.rng);
    let bytes = render(&m.tree, &mut cx.rng, 25);
    cx.eval_bytes(cx.idx % 1000, &bytes, moved);
    cx.count("reordered_messages", moved as u64);
    cx.sample(|| format!("{} reordered {}", m.e.name, hex(&bytes)));
    exact_all(cx, m.e, &bytes, ROOMY, "reorder", "reordered fields")?;
    if !m.tree.any_captures() {
        let r = ref_decode(m.e.schema(m.e.slice_copy.is_none()), &bytes, ROOMY);
        ensure!(r.res.as_ref().ok().map(|d| d.0.norm()) == Some(m.d.norm()), "reference", "reference changed by reordering: {}", describe(&m));
    }
    Ok(())
}
pub fn c05_repeat(cx: &mut Ctx) -> Case {
    let mut m = gen_msg(cx);
    let other = gen_for(m.e, &mut cx.rng);
    let done = at_body(&mut m.tree, &mut cx.rng, &mut |b, r| {
        if b.nodes.is_empty() {
            return false;
        }
        let i = r.usz(b.nodes.len());
        let n = b.nodes[i].clone();
        let at = match r.below(3) {
            0 => i,
            1 => i + 1,
            _ => r.usz(b.nodes.len() + 1),
        };
        b.nodes.insert(at, n);
        if r.chance(1, 8) {
            let n = b.nodes[at].clone();
            b.nodes.push(n);
        }
        true
    });
    let _ = other;
    let bytes = render(&m.tree, &mut cx.rng, 25);
    cx.eval_bytes(cx.idx % 1000, &bytes, done);
    cx.sample(|| format!("{} with a repeated field {}", m.e.name, hex(&bytes)));
    exact_all(cx, m.e, &bytes, ROOMY, "repeat", "repeated field")
}
pub fn c05_drop(cx: &mut Ctx) -> Case {
    let mut m = gen_msg(cx);
    let done = at_body(&mut m.tree, &mut cx.rng, &mut |b, r| {
        if b.nodes.is_empty() {
            return false;
        }
        let i = r.usz(b.nodes.len());
        b.nodes.remove(i);
        true
    });
    let bytes = render(&m.tree, &mut cx.rng, 25);
    cx.eval_bytes(cx.idx % 1000, &bytes, done);
    cx.sample(|| format!("{} with a field removed {}", m.e.name, hex(&bytes)));
    exact_all(cx, m.e, &bytes, ROOMY, "drop", "field removed")
}
pub fn c05_unknown(cx: &mut Ctx) -> Case {
    let mut m = gen_msg(cx);
    let per = *cx.rng.pick(&[20u64, 80, 200]);
    let k = insert_unknown(&mut m.tree, &mut cx.rng, per);
    let bytes = render(&m.tree, &mut cx.rng, 40);
    cx.eval_bytes(cx.idx % 1000, &bytes, k > 0);
    cx.count("unknown_fields_inserted", k as u64);
    cx.sample(|| format!("{} with {} unknown fields {}", m.e.name, k, hex(&bytes)));
    let want = m.d.norm();
    for mode in MODES {
        if !mode.ok(m.e) {
            continue;
        }
        let o = decode(m.e, mode, &bytes, &cfg(&ROOMY), &Opt::default());
        ensure!(
            o.norm().as_ref() == Some(&want),
            "unknown-ignored",
            "{:?}: {} with unknown fields {} -> {}",
            mode,
            describe(&m),
            hex(&bytes),
            o.show()
        );
    }
    exact_all(cx, m.e, &bytes, Limits { ignore_unknown: false, ..ROOMY }, "unknown-refused", "unknown fields refused")
}

// ------------------------------------------------------------------- C07
pub fn c07(cx: &mut Ctx) -> Case {
    let mut m = gen_msg(cx);
    let mut k = 0;
    if cx.rng.chance(1, 2) {
        k = insert_unknown(&mut m.tree, &mut cx.rng, 60);
    }
    let bytes = if cx.rng.chance(1, 6) { end_doc_variant(&m.tree) } else { render(&m.tree, &mut cx.rng, 20) };
    let len = bytes.len();
    let mut cuts: Vec<usize> = if len <= 120 {
        (0..len).collect()
    } else {
        let mut v: Vec<usize> = (0..8).chain(len - 24..len).collect();
        if len > 6000 {
            // each takes long
            cx.rng.shuffle(&mut v);
            v.truncate(8);
        }
        for _ in 0..if len > 6000 { 6 } else { 32 } {
            v.push(cx.rng.usz(len));
        }
        v.sort();
        v.dedup();
        v
    };
    cuts.truncate(200);
    cx.eval_bytes(cx.idx % 1000, &bytes, true);
    cx.sample(|| format!("{} ({} unknown fields) cut at {} places: {}", m.e.name, k, cuts.len(), hex(&bytes)));
    let c = cfg(&ROOMY);
    for cut in cuts {
        let part = &bytes[..cut];
        for mode in MODES {
            if !mode.ok(m.e) {
                continue;
            }
            let o = decode(m.e, mode, part, &c, &Opt::default());
            cx.count("truncated_decodes", 1);
            ensure!(
                o.err().is_some(),
                "truncation-accepted",
                "{} {:?}: first {} of {} bytes {} accepted: {}",
                m.e.name,
                mode,
                cut,
                len,
                hex(part),
                o.show()
            );
            if mode.has_stream() {
                let r = ref_decode_at(m.e.schema(mode.zc()), part, ROOMY, 0, true);
                let o = decode(m.e, mode, part, &c, &Opt { graceful: true, ..Default::default() });
                cx.count("graceful_decodes", 1);
                if let Err(x) = agree(&o, &r, 0) {
                    return fail(
                        "graceful",
                        format!("{} {:?} graceful EOF: first {} of {} bytes {} -> {}", m.e.name, mode, cut, len, hex(part), x),
                    );
                }
                if r.res.is_ok() {
                    cx.count("graceful_accepted_between_elements", 1);
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C08
pub fn c08(cx: &mut Ctx) -> Case {
    let e = entry_at(cx.idx);
    let mut b = None;
    for _ in 0..6 {
        let budget = *cx.rng.pick(&[10i64, 60, 300, 2000]);
        let inst = (e.gen)(&mut cx.rng, budget);
        let d = inst.dyn_();
        let tree = e.schema(false).enc_body(&d);
        let n = ref_decode(e.schema(e.slice_copy.is_none()), &encode(&tree), ROOMY).need;
        let good = n.collected > 0 || n.blobs > 0 || n.depth > 1;
        b = Some((d, tree));
        if good {
            break;
        }
    }
    let (d, mut tree) = b.unwrap();
    if cx.rng.chance(1, 4) {
        insert_unknown(&mut tree, &mut cx.rng, 40);
    }
    let mut want = d.norm();
    if cx.rng.chance(1, 2) {
        // entries which occur again (equal keys, equal members) count as well
        let mut more = tree.clone();
        for _ in 0..1 + cx.rng.below(3) {
            at_body(&mut more, &mut cx.rng, &mut |b, r| {
                if b.nodes.is_empty() {
                    return false;
                }
                let n = b.nodes[r.usz(b.nodes.len())].clone();
                b.nodes.insert(r.usz(b.nodes.len() + 1), n);
                true
            });
        }
        let x = encode(&more);
        let rs: Vec<RefOut> = [e.slice_copy.is_some(), e.slice_borrow.is_some()]
            .iter()
            .enumerate()
            .filter(|(_, has)| **has)
            .map(|(z, _)| ref_decode(e.schema(z == 1), &x, ROOMY))
            .collect();
        if rs.iter().all(|r| r.res.is_ok()) && !rs.is_empty() {
            want = rs[0].res.as_ref().unwrap().0.norm();
            tree = more;
            cx.count("with_entries_occurring_again", 1);
        }
    }
    let bytes = encode(&tree);
    cx.eval_bytes(cx.idx % 1000, &bytes, true);
    cx.sample(|| format!("{} {}", e.name, hex(&bytes)));
    for mode in MODES {
        if !mode.ok(e) {
            continue;
        }
        let need = ref_decode(e.schema(mode.zc()), &bytes, ROOMY).need;
        let exact = Limits {
            recursion: need.depth,
            collect: need.collected,
            blob: need.blobs as usize,
            ignore_unknown: true,
        };
        let o = decode(e, mode, &bytes, &cfg(&exact), &Opt::default());
        cx.count("exact_limit_passes", 1);
        ensure!(
            o.norm().as_ref() == Some(&want),
            "exact-limit-refused",
            "{} {:?}: needs exactly {:?}, refused at those limits: {} -> {}",
            e.name,
            mode,
            need,
            hex(&bytes),
            o.show()
        );
        let mut tries: Vec<(Limits, EKind, &'static str)> = Vec::new();
        if need.depth > 0 {
            let d = if cx.rng.chance(1, 3) { cx.rng.usz(need.depth) } else { need.depth - 1 };
            tries.push((Limits { recursion: d, ..exact }, EKind::Recursion, "recursion_limit_refusals"));
        }
        if need.collected > 0 {
            let d = if cx.rng.chance(1, 3) { cx.rng.usz(need.collected) } else { need.collected - 1 };
            tries.push((Limits { collect: d, ..exact }, EKind::MaxCollect, "collect_limit_refusals"));
        }
        if need.blobs > 0 {
            let d = if cx.rng.chance(1, 3) { cx.rng.usz(need.blobs as usize) } else { need.blobs as usize - 1 };
            tries.push((Limits { blob: d, ..exact }, EKind::MaxBlob, "blob_limit_refusals"));
        }
        for (l, k, what) in tries {
            let o = decode(e, mode, &bytes, &cfg(&l), &Opt::default());
            cx.count(what, 1);
            ensure!(
                o.err().map(|e| e.kind) == Some(Kind::Ref(k)),
                "limit-not-enforced",
                "{} {:?}: needs {:?}, limits {:?}, expected {:?}: {} -> {}",
                e.name,
                mode,
                need,
                l,
                k,
                hex(&bytes),
                o.show()
            );
            // the other limits being generous makes no difference
            let l2 = match k {
                EKind::Recursion => Limits { recursion: l.recursion, ..ROOMY },
                EKind::MaxCollect => Limits { collect: l.collect, ..ROOMY },
                _ => Limits { blob: l.blob, ..ROOMY },
            };
            let o = decode(e, mode, &bytes, &cfg(&l2), &Opt::default());
            ensure!(
                o.err().map(|e| e.kind) == Some(Kind::Ref(k)),
                "limit-not-enforced",
                "{} {:?}: needs {:?}, limits {:?}, expected {:?}: {} -> {}",
                e.name,
                mode,
                need,
                l2,
                k,
                hex(&bytes),
                o.show()
            );
        }
        // consecutive calls each have the whole allowance
        let c = cfg(&exact);
        let mut cat = Vec::new();
        for _ in 0..3 {
            cat.extend_from_slice(&bytes);
        }
        let mut run = |i: usize, d: Dec| -> Case {
            ensure!(
                d.norm().as_ref() == Some(&want),
                "limits-accumulate",
                "{} {:?}: call {} of 3 with exact limits {:?} failed: {:?}",
                e.name,
                mode,
                i,
                exact,
                d.res.err()
            );
            Ok(())
        };
        match mode {
            Mode::SliceCopy | Mode::SliceBorrow => {
                let f = if mode == Mode::SliceCopy { e.slice_copy } else { e.slice_borrow }.unwrap();
                let mut s = Stream::from_slice(&cat[..]);
                for i in 0..3 {
                    run(i, f(&mut s, &c))?;
                }
            }
            Mode::SeekReader | Mode::PlainReader => {
                let r = TestReader::new(&cat);
                let mut s = if mode == Mode::SeekReader { Stream::new_seek(r) } else { Stream::new(r) };
                for i in 0..3 {
                    run(i, (e.reader.unwrap())(&mut s, &c))?;
                }
            }
            _ => continue,
        }
        cx.count("consecutive_exact_calls", 3);
    }
    Ok(())
}

/// The accounting functions user code calls, against a counter model.
pub fn c08_context(cx: &mut Ctx) -> Case {
    use fourleaf::de::{Config, Context, Error};
    let mut c = Config::default();
    c.recursion_limit = cx.rng.size(40);
    c.max_collect = if cx.rng.chance(1, 6) { usize::MAX } else { cx.rng.size(500) };
    c.max_blob = if cx.rng.chance(1, 6) { usize::MAX } else { cx.rng.size(500) };
    let top = Context::top(&c);
    let (mut col, mut blob) = (0u128, 0u128);
    let mut h = c.max_collect as u64 ^ (c.max_blob as u64) << 20 ^ (c.recursion_limit as u64) << 40;
    fn walk(cx: &mut Ctx, c: &Config, ctx: &Context, depth: usize, col: &mut u128, blob: &mut u128, h: &mut u64, left: &mut u32) -> Case {
        while *left > 0 {
            *left -= 1;
            let k = cx.rng.below(6);
            match k {
                0 | 1 => {
                    let n = if cx.rng.chance(1, 20) { cx.rng.int() as usize } else { cx.rng.size(60) };
                    *h = flcore::rng::mix(*h ^ n as u64);
                    let r = ctx.collect(n);
                    let ok = *col + n as u128 <= c.max_collect as u128;
                    ensure!(r.is_ok() == ok, "collect", "collect({}) with {} of {} used: {:?}", n, col, c.max_collect, r);
                    ensure!(ok || matches!(r, Err(Error::MaxCollectExceeded(_))), "collect-kind", "{:?}", r);
                    if ok {
                        *col += n as u128;
                    }
                    cx.count("context_accounting_calls", 1);
                }
                2 | 3 => {
                    let n = if cx.rng.chance(1, 20) { cx.rng.int() } else { cx.rng.size(60) as u64 };
                    *h = flcore::rng::mix(*h ^ n << 1);
                    let r = ctx.blob(n);
                    let ok = *blob + n as u128 <= c.max_blob as u128;
                    ensure!(r.is_ok() == ok, "blob", "blob({}) with {} of {} used: {:?}", n, blob, c.max_blob, r);
                    ensure!(ok || matches!(r, Err(Error::MaxBlobExceeded(_))), "blob-kind", "{:?}", r);
                    if ok {
                        *blob += n as u128;
                    }
                    cx.count("context_accounting_calls", 1);
                }
                4 => {
                    let pos = cx.rng.int();
                    let mut name = [0u8; 2];
                    let tag = 1 + cx.rng.below(63) as u8;
                    let r = if cx.rng.chance(1, 2) { ctx.push("f", pos) } else { ctx.push_tag(&mut name, tag, pos) };
                    let ok = depth < c.recursion_limit;
                    match r {
                        Ok(ref sub) => {
                            ensure!(ok, "push", "push at depth {} allowed with limit {}", depth, c.recursion_limit);
                            ensure!(sub.depth == depth + 1 && sub.pos == pos, "push", "subcontext depth {} pos {}", sub.depth, sub.pos);
                            walk(cx, c, sub, depth + 1, col, blob, h, left)?;
                        }
                        Err(ref e) => {
                            ensure!(!ok && matches!(e, Error::RecursionLimitExceeded(_)), "push", "push at depth {} with limit {}: {:?}", depth, c.recursion_limit, e)
                        }
                    }
                }
                _ => {
                    if depth > 0 && cx.rng.chance(1, 2) {
                        return Ok(());
                    }
                }
            }
        }
        Ok(())
    }
    let mut left = 60;
    walk(cx, &c, &top, 0, &mut col, &mut blob, &mut h, &mut left)?;
    cx.eval(h, true);
    Ok(())
}

// ------------------------------------------------------------------- C10
pub fn c10_ser(cx: &mut Ctx) -> Case {
    let m = gen_msg(cx);
    cx.eval_bytes(cx.idx % 1000, &m.bytes, true);
    cx.sample(|| format!("serialising {}", describe(&m)));
    let w = TestWriter::with_capacity(m.bytes.len() * 2 + 64);
    let w2 = w.clone();
    let mk = mark();
    let r = m.inst.to_writer(w2);
    let s = since(&mk);
    ensure!(r.is_ok(), "ser-error", "{}: {:?}", describe(&m), r);
    ensure!(s.calls == 0, "ser-allocates", "serialising {} to a writer made {} allocations ({} bytes)", describe(&m), s.calls, s.total);
    let mut st = Stream::new(w.clone());
    let mk = mark();
    let r = m.inst.to_stream(&mut st);
    let s = since(&mk);
    ensure!(r.is_ok(), "ser-error", "{}: {:?}", describe(&m), r);
    ensure!(s.calls == 0, "ser-allocates", "serialising {} to a stream made {} allocations ({} bytes)", describe(&m), s.calls, s.total);
    ensure!(w.data().len() == 2 * m.bytes.len(), "ser-length", "{}", describe(&m));
    cx.count("serialisations_without_allocation", 2);
    Ok(())
}
pub fn c10_de(cx: &mut Ctx) -> Case {
    let mut m = gen_msg(cx);
    let unknown = cx.rng.chance(1, 3);
    if unknown {
        insert_unknown(&mut m.tree, &mut cx.rng, 60);
    }
    let bytes = if unknown { render(&m.tree, &mut cx.rng, 30) } else { m.bytes.clone() };
    cx.eval_bytes(cx.idx % 1000, &bytes, true);
    cx.sample(|| format!("decoding {} from {}", m.e.name, hex(&bytes)));
    let c = cfg(&ROOMY);
    for mode in MODES {
        if !mode.ok(m.e) {
            continue;
        }
        let o = decode(m.e, mode, &bytes, &c, &Opt::default());
        ensure!(o.err().is_none(), "refused", "{} {:?}: {} -> {}", m.e.name, mode, hex(&bytes), o.show());
        let s = o.stat();
        if (m.e.heap)(mode.zc()) {
            // nothing but the value: temporaries never exceed a small multiple
            // of what the value itself keeps
            let live = s.live.max(0) as u64;
            ensure!(
                s.total <= 4 * live + 64,
                "excess-allocation",
                "{} {:?}: value keeps {} bytes but {} were allocated ({} calls): {}",
                m.e.name,
                mode,
                live,
                s.total,
                s.calls,
                hex(&bytes)
            );
            cx.count("owning_decodes_measured", 1);
        } else {
            ensure!(
                s.calls == 0,
                "de-allocates",
                "{} {:?}: decoding a type which owns no heap data made {} allocations ({} bytes): {}",
                m.e.name,
                mode,
                s.calls,
                s.total,
                hex(&bytes)
            );
            cx.count("non_owning_decodes_without_allocation", 1);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C11
fn range_of(b: &[u8]) -> (usize, usize) {
    (b.as_ptr() as usize, b.as_ptr() as usize + b.len())
}
pub fn c11_alias(cx: &mut Ctx) -> Case {
    let mut m = gen_msg(cx);
    if cx.rng.chance(1, 3) {
        insert_unknown(&mut m.tree, &mut cx.rng, 40);
    }
    let bytes = render(&m.tree, &mut cx.rng, 30);
    cx.eval_bytes(cx.idx % 1000, &bytes, true);
    cx.sample(|| format!("{} {}", m.e.name, hex(&bytes)));
    let (lo, hi) = range_of(&bytes);
    let c = cfg(&ROOMY);
    for mode in MODES {
        if !mode.ok(m.e) {
            continue;
        }
        let o = decode(m.e, mode, &bytes, &c, &Opt::default());
        let v = match &o.dec.res {
            Ok(v) => v,
            Err(_) => return fail("refused", format!("{} {:?}: {} -> {}", m.e.name, mode, hex(&bytes), o.show())),
        };
        let mut got: Vec<(u64, u64)> = Vec::new();
        for l in &v.loans {
            let inside = l.ptr >= lo && l.ptr + l.len <= hi;
            if l.borrowed {
                ensure!(
                    mode.zc() && inside,
                    "not-aliasing",
                    "{} {:?}: borrowed {} bytes at {:#x} are not part of the input {:#x}..{:#x}: {}",
                    m.e.name,
                    mode,
                    l.len,
                    l.ptr,
                    lo,
                    hi,
                    hex(&bytes)
                );
                got.push(((l.ptr - lo) as u64, l.len as u64));
            } else if l.len > 0 {
                ensure!(
                    l.ptr + l.len <= lo || l.ptr >= hi,
                    "owned-aliases",
                    "{} {:?}: owned data aliases the input: {}",
                    m.e.name,
                    mode,
                    hex(&bytes)
                );
                cx.count("owned_ranges_checked", 1);
            }
        }
        if mode.zc() {
            let r = ref_decode(m.e.schema(true), &bytes, ROOMY);
            let mut want = r.borrowed;
            want.sort();
            got.sort();
            cx.count("borrowed_ranges_checked", got.len() as u64);
            ensure!(
                got == want,
                "wrong-range",
                "{} {:?}: borrowed ranges {} but the blobs are at {}: {}",
                m.e.name,
                mode,
                short(&got),
                short(&want),
                hex(&bytes)
            );
        }
    }
    Ok(())
}
pub fn c11_agree(cx: &mut Ctx) -> Case {
    let both: Vec<&'static Entry> = registry().iter().filter(|e| e.slice_copy.is_some() && e.slice_borrow.is_some()).collect();
    let e = both[(cx.idx % both.len() as u64) as usize];
    let bytes = hostile(e, &mut cx.rng);
    let lim = Limits { ignore_unknown: cx.rng.chance(3, 4), ..ROOMY };
    let c = cfg(&lim);
    cx.eval_bytes(cx.idx % 1000, &bytes, true);
    let a = decode(e, Mode::SliceCopy, &bytes, &c, &Opt::default());
    let b = decode(e, Mode::SliceBorrow, &bytes, &c, &Opt::default());
    cx.count(if a.err().is_some() { "both_refuse" } else { "both_accept" }, 1);
    let ok = a.norm() == b.norm() && (a.err().is_some() || a.pos == b.pos);
    ensure!(ok, "styles-disagree", "{}: {} copying {} borrowing {}", e.name, hex(&bytes), a.show(), b.show());
    Ok(())
}

// ------------------------------------------------------------------- C12
pub fn c12(cx: &mut Ctx) -> Case {
    let mode = SMODES[(cx.idx % 4) as usize];
    let n = 1 + cx.rng.usz(8);
    let mut msgs = Vec::new();
    let mut cat = Vec::new();
    let mut ends = Vec::new();
    let mut k = cx.idx;
    while msgs.len() < n {
        let e = entry_at(k);
        k = cx.rng.u64();
        if !mode.ok(e) {
            continue;
        }
        let mut m = gen_for(e, &mut cx.rng);
        if cx.rng.chance(1, 5) {
            insert_unknown(&mut m.tree, &mut cx.rng, 40);
        }
        let b = if cx.rng.chance(1, 5) {
            cx.count("messages_ended_by_end_of_document", 1);
            end_doc_variant(&m.tree)
        } else {
            render(&m.tree, &mut cx.rng, 20)
        };
        cat.extend_from_slice(&b);
        ends.push(cat.len() as u64);
        msgs.push(m);
    }
    let junk = {
        let n = cx.rng.size(40);
        if cx.rng.chance(1, 2) {
            cx.rng.bytes(n)
        } else {
            vec![*cx.rng.pick(&[0u8, 0x40, 0x80, 0xC0, 0xFF, 0x41]); n]
        }
    };
    cat.extend_from_slice(&junk);
    cx.eval_bytes(cx.idx % 4, &cat, n > 1);
    cx.sample(|| format!("{:?} {} messages [{}] + {} junk bytes", mode, n, msgs.iter().map(|m| m.e.name).collect::<Vec<_>>().join(", "), junk.len()));
    let c = cfg(&ROOMY);
    let base = if cx.rng.chance(1, 4) { cx.rng.int() >> 1 } else { 0 };
    let err = |i: usize, what: String| -> Case {
        fail("framing", format!("{:?} message {} ({}) of {}: {}", mode, i, msgs[i].e.name, hex(&cat), what))
    };
    match mode {
        Mode::SliceCopy | Mode::SliceBorrow => {
            let mut s = Stream::from_slice(&cat[..]);
            s.set_pos(base);
            for (i, m) in msgs.iter().enumerate() {
                let f = if mode == Mode::SliceCopy { m.e.slice_copy } else { m.e.slice_borrow }.unwrap();
                s.clear_eof();
                let d = f(&mut s, &c);
                cx.count("messages_decoded", 1);
                if d.norm() != Some(m.d.norm()) {
                    return err(i, format!("value {:?} instead of {}", d.res.map(|v| v.dyn_), short(&m.d)));
                }
                let (p, q) = (s.pos(), s.get_ref().0.position());
                if p != base + ends[i] || q != ends[i] {
                    return err(i, format!("stream at {} and reader at {} instead of {}", p - base, q, ends[i]));
                }
            }
        }
        _ => {
            let plan = rand_plan(&mut cx.rng);
            let r = TestReader::with(&cat, plan);
            let via_reader = cx.rng.chance(1, 4);
            let mut s = if mode == Mode::SeekReader { Stream::new_seek(r.clone()) } else { Stream::new(r.clone()) };
            s.set_pos(base);
            for (i, m) in msgs.iter().enumerate() {
                s.clear_eof();
                let d = if via_reader { (m.e.conv_reader.unwrap())(r.clone(), &c) } else { (m.e.reader.unwrap())(&mut s, &c) };
                cx.count("messages_decoded", 1);
                if d.norm() != Some(m.d.norm()) {
                    return err(i, format!("value {:?} instead of {}", d.res.map(|v| v.dyn_), short(&m.d)));
                }
                let st = r.0.borrow();
                if (!via_reader && s.pos() != base + ends[i]) || st.pos != ends[i] || st.high > ends[i] {
                    return err(i, format!("stream at {} and reader at {} (touched up to {}) instead of {}", s.pos().wrapping_sub(base), st.pos, st.high, ends[i]));
                }
            }
        }
    }
    Ok(())
}
pub fn rand_plan(r: &mut flcore::rng::Rng) -> Plan {
    let chunks = match r.below(5) {
        0 => vec![],
        1 => vec![1],
        2 => (0..1 + r.usz(5)).map(|_| 1 + r.usz(9)).collect(),
        3 => vec![1, 1 << 20],
        _ => (0..3).map(|_| 1 + r.size(300)).collect(),
    };
    let interrupt = if r.chance(1, 3) { 1 + r.below(6) } else { 0 };
    Plan { chunks, interrupt, ..Default::default() }
}

// ------------------------------------------------------------------- C26
pub fn c26(cx: &mut Ctx) -> Case {
    let m = gen_msg(cx);
    let want = m.d.norm();
    let mut tree = m.tree.clone();
    let mut what = Vec::new();
    if !tree.any_captures() && cx.rng.chance(1, 2) && reorder(&mut tree, &mut cx.rng) {
        what.push("reordered");
    }
    if cx.rng.chance(1, 30) {
        // a long run of padding somewhere
        let n = match cx.rng.below(3) {
            0 => 200 + cx.rng.usz(100),
            1 => 900 + cx.rng.usz(10_000),
            _ => 65_000 + cx.rng.usz(10_000),
        };
        if at_body(&mut tree, &mut cx.rng, &mut |b, r| {
            b.nodes.insert(r.usz(b.nodes.len() + 1), Node::Raw(vec![PADDING; n]));
            true
        }) {
            what.push("padded_for_long");
        }
    }
    let bytes = if cx.rng.chance(1, 4) {
        what.push("end-of-document");
        end_doc_variant(&tree)
    } else {
        let (mut dn, mut pd) = *cx.rng.pick(&[(0u32, 0u32), (255, 0), (0, 255), (60, 60), (20, 0), (0, 20), (128, 128)]);
        if tree.count() > 1500 {
            // would be megabytes
            dn = dn.min(20);
            pd = pd.min(20);
        }
        if dn > 0 {
            what.push("denormalised");
        }
        if pd > 0 {
            what.push("padded");
        }
        let mut f = cx.rng.fork();
        let mut st = Style { rng: Some(&mut f), denorm: dn, pad: pd, marks: None };
        encode_styled(&tree, &mut st)
    };
    let changed = bytes != m.bytes;
    cx.eval_bytes(cx.idx % 1000, &bytes, changed);
    for w in &what {
        cx.count(w, 1);
    }
    cx.sample(|| format!("{} {:?} {} instead of {}", m.e.name, what, hex(&bytes), hex(&m.bytes)));
    for ign in [true, false] {
        let c = cfg(&Limits { ignore_unknown: ign, ..ROOMY });
        for mode in MODES {
            if !mode.ok(m.e) {
                continue;
            }
            let o = decode(m.e, mode, &bytes, &c, &Opt::default());
            cx.count("decodes", 1);
            ensure!(
                o.norm().as_ref() == Some(&want) && o.inner.unwrap_or(bytes.len() as u64) == bytes.len() as u64,
                "equivalent-differs",
                "{:?} {:?} ignore_unknown={}: {} instead of {} for {} -> {}",
                mode,
                what,
                ign,
                hex(&bytes),
                hex(&m.bytes),
                m.e.name,
                o.show()
            );
        }
    }
    Ok(())
}

#[allow(dead_code)]
fn unused(_: TransparentCursor<&[u8]>, _: PErr) {}

/// The limits of the default configuration are the documented ones.
pub fn c08_defaults(cx: &mut Ctx) -> Case {
    use fourleaf::{from_reader, from_slice_borrow, from_slice_copy, from_stream_copy, to_vec, DeConfig, UnknownFields};
    let conf = DeConfig::default();
    let r = &mut cx.rng;
    let n = match r.below(3) {
        0 => 256 + r.usz(2),
        1 => 240 + r.usz(32),
        _ => r.usz(600),
    };
    let total = match r.below(3) {
        0 => 65536 + r.usz(2),
        1 => 65520 + r.usz(32),
        _ => r.usz(140_000),
    };
    let which = r.below(4);
    let a = r.usz(n + 1);
    let b = r.usz(n - a + 1);
    let x = r.usz(total + 1);
    let y = r.usz(total - x + 1);
    let t1 = (vec![7u64; a], (0..b as u64).map(|i| (i, 1u8)).collect::<std::collections::BTreeMap<_, _>>(), vec![String::new(); n - a - b]);
    let t2 = ("x".repeat(x), vec![1u8; y], vec!["y".repeat((total - x - y) / 2), "z".repeat(total - x - y - (total - x - y) / 2)]);
    let (bytes, want) = match which {
        0 => (to_vec(&t1).unwrap(), n <= 256),
        1 => (to_vec(&t2).unwrap(), total <= 65536),
        2 => {
            // fields nobody knows
            let mut v = Vec::new();
            for _ in 0..n {
                v.extend_from_slice(&[0x45, 1]);
            }
            v.push(0);
            (v, n <= 256)
        }
        _ => {
            let mut v = vec![0x41, 9];
            for _ in 0..n {
                v.extend_from_slice(&[0x45, 1]);
            }
            v.push(0);
            (v, true)
        }
    };
    cx.eval_bytes(which, &bytes, true);
    cx.sample(|| format!("kind {}: {} in collections, {} in blobs", which, n, total));
    let what = format!("kind {}: {} ({}+{}) in collections, {} ({}+{}) in blobs", which, n, a, b, total, x, y);
    type T1 = (Vec<u64>, std::collections::BTreeMap<u64, u8>, Vec<String>);
    type T2 = (String, Vec<u8>, Vec<String>);
    let k = |e: fourleaf::de::Error| match e {
        fourleaf::de::Error::MaxCollectExceeded(_) => 1,
        fourleaf::de::Error::MaxBlobExceeded(_) => 2,
        _ => 0,
    };
    let res: Vec<Result<bool, u8>> = match which {
        0 => {
            let same = |v: T1| v == t1;
            vec![
                from_slice_copy::<T1>(&bytes, &conf).map(same).map_err(k),
                from_reader::<_, T1>(&bytes[..], &conf).map(same).map_err(k),
                from_stream_copy::<_, T1>(&mut Stream::new(&bytes[..]), &conf).map(same).map_err(k),
                from_slice_borrow::<T1>(&bytes, &conf).map(same).map_err(k),
            ]
        }
        1 => {
            let same = |v: T2| v == t2;
            vec![
                from_slice_copy::<T2>(&bytes, &conf).map(same).map_err(k),
                from_reader::<_, T2>(&bytes[..], &conf).map(same).map_err(k),
                from_slice_borrow::<(&str, &[u8], Vec<&str>)>(&bytes, &conf)
                    .map(|v| v.0 == t2.0 && v.1 == &t2.1[..] && v.2[..] == t2.2[..])
                    .map_err(|_| 9)
                    .or_else(|_| if total > 65536 { Ok(false) } else { Err(9) }),
            ]
        }
        2 => vec![
            from_slice_copy::<UnknownFields<'static>>(&bytes, &conf).map(|v| v.0.len() == n).map_err(k),
            from_reader::<_, UnknownFields<'static>>(&bytes[..], &conf).map(|v| v.0.len() == n).map_err(k),
        ],
        _ => vec![
            from_slice_copy::<u64>(&bytes, &conf).map(|v| v == 9).map_err(k),
            from_reader::<_, u64>(&bytes[..], &conf).map(|v| v == 9).map_err(k),
        ],
    };
    for (i, g) in res.iter().enumerate() {
        // borrowed data is not limited
        let (want, kind) = match (which, i) {
            (1, 2) => (true, 0),
            (1, _) => (want, 2),
            _ => (want, 1),
        };
        let ok = if want { *g == Ok(true) } else { *g == Err(kind) };
        ensure!(ok, "default-limits", "{}: with the default configuration, way {} gave {:?}", what, i, g);
    }
    cx.count(if want { "within_the_defaults" } else { "beyond_the_defaults" }, 1);
    Ok(())
}
