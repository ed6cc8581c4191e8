//! Checks C01, C02, C04, C05, C07, C08 over typed values.
use crate::util::*;
use flcore::ensure;
use flcore::io::*;
use flcore::model::*;
use flcore::runner::*;
use flcore::schema::*;
use flreg::*;
use fourleaf::stream::Stream;

// ------------------------------------------------------------------- C01
pub fn c01(cx: &mut Ctx) -> Case {
    let m = gen_msg(cx);
    let bytes = match m.inst.to_vec() {
        Ok(b) => b,
        Err(e) => return fail("ser-error", format!("{} cannot be serialised: {}", describe(&m), e)),
    };
    let want = m.d.norm();
    cx.eval_bytes(cx.idx % 1000, &bytes, bytes.len() > 1);
    cx.sample(|| describe(&m));
    for ign in [true, false] {
        for mode in MODES {
            if !mode.ok(m.e) {
                continue;
            }
            let mut lim = ROOMY;
            lim.ignore_unknown = ign;
            if cx.rng.chance(1, 3) {
                let need = ref_decode(m.e.schema(mode.zc()), &bytes, lim).need;
                let d = Limits::default();
                if need.depth <= d.recursion && need.collected <= d.collect && need.blobs <= d.blob as u64 {
                    lim = Limits { ignore_unknown: ign, ..d };
                    cx.count("decodes_with_default_limits", 1);
                }
            }
            let base = if mode.has_stream() && cx.rng.chance(1, 4) { cx.rng.int() >> 1 } else { 0 };
            let o = decode(m.e, mode, &bytes, &cfg(&lim), &Opt { base, ..Default::default() });
            cx.count("decodes", 1);
            match o.norm() {
                Some(d) => {
                    ensure!(d == want, "value-changed", "{:?} ignore_unknown={}: {} came back as {}", mode, ign, describe(&m), short(&d))
                }
                None => {
                    return fail(
                        "not-readable",
                        format!("{:?} ignore_unknown={}: {} -> {}", mode, ign, describe(&m), o.show()),
                    )
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- C02
pub fn c02(cx: &mut Ctx) -> Case {
    let m = gen_msg(cx);
    let want = &m.bytes;
    cx.eval_bytes(cx.idx % 1000, want, want.len() > 1);
    cx.sample(|| describe(&m));
    let chk = |what: &str, got: &[u8], want: &[u8]| -> Case {
        ensure!(got == want, "bytes-differ", "{} of {}: wrote {} but the format prescribes {}", what, describe(&m), hex(got), hex(want));
        Ok(())
    };
    match m.inst.to_vec() {
        Ok(b) => chk("to_vec", &b, want)?,
        Err(e) => return fail("ser-error", format!("to_vec of {}: {}", describe(&m), e)),
    }
    let w = TestWriter::new();
    if let Err(e) = m.inst.to_writer(w.clone()) {
        return fail("ser-error", format!("to_writer of {}: {}", describe(&m), e));
    }
    chk("to_writer", &w.data(), want)?;
    // into an existing stream with something before and after
    let w = TestWriter::new();
    let mut s = Stream::new(w.clone());
    let base = if cx.rng.chance(1, 2) { cx.rng.int() >> 1 } else { 0 };
    s.set_pos(base);
    let mut pre = Vec::new();
    for _ in 0..cx.rng.below(3) {
        let b = m.inst.to_stream(&mut s);
        ensure!(b.is_ok(), "ser-error", "to_stream of {}: {:?}", describe(&m), b);
        pre.extend_from_slice(want);
    }
    if cx.rng.chance(1, 2) {
        s.write_padding().unwrap();
        pre.push(PADDING);
    }
    let r = m.inst.to_stream(&mut s);
    ensure!(r.is_ok(), "ser-error", "to_stream of {}: {:?}", describe(&m), r);
    pre.extend_from_slice(want);
    ensure!(s.pos() == base + pre.len() as u64, "write-position", "stream position after writing is {} instead of {}", s.pos(), base + pre.len() as u64);
    chk("to_stream", &w.data(), &pre)?;
    cx.count("entry_points_compared", 3);
    if let Schema::Unk { .. } = **m.e.schema(false) {
        // documented not to be usable as a field
        return Ok(());
    }
    // wrappers
    let k = cx.rng.usz(WRAPS.len());
    let wr = WRAPS[k];
    let want = encode(&wrapped_schema(m.e.schema(false)).enc_body(&wrapped_dyn(wr, m.d.clone())));
    let w = TestWriter::new();
    let mut s = Stream::new(w.clone());
    let desc = describe(&m);
    if let Err(e) = m.inst.wrapped(wr, &mut s) {
        return fail("ser-error", format!("{:?} of {}: {}", wr, desc, e));
    }
    cx.count("wrappers_compared", 1);
    let got = w.data();
    ensure!(got == want, "wrapper-visible", "{:?} of {}: wrote {} but the format prescribes {}", wr, desc, hex(&got), hex(&want));
    Ok(())
}

// ------------------------------------------------------------------- C04
pub fn c04(cx: &mut Ctx) -> Case {
    let e = entry_at(cx.idx);
    let bytes = hostile(e, &mut cx.rng);
    let lim = rand_limits(&mut cx.rng);
    let base = if cx.rng.chance(1, 4) { cx.rng.int() >> 1 } else { 0 };
    let graceful = cx.rng.chance(1, 6);
    let c = cfg(&lim);
    let mut refs: [Option<RefOut>; 2] = [None, None];
    for mode in SMODES {
        if !mode.ok(e) {
            continue;
        }
        let z = mode.zc() as usize;
        if refs[z].is_none() {
            refs[z] = Some(ref_decode_at(e.schema(mode.zc()), &bytes, lim, base, graceful));
        }
        let r = refs[z].as_ref().unwrap();
        let o = decode(e, mode, &bytes, &c, &Opt { base, graceful, ..Default::default() });
        cx.count(if r.res.is_ok() { "accepted" } else { "refused" }, 1);
        if let Err(x) = agree(&o, r, base) {
            return fail(
                "typed-decode",
                format!("{} {:?} base {} graceful {} {:?}: {} -> {}", e.name, mode, base, graceful, lim, hex(&bytes), x),
            );
        }
    }
    let acc = refs.iter().flatten().any(|r| r.res.is_ok());
    cx.eval_bytes(cx.idx % 1000, &bytes, true);
    cx.sample(|| format!("{} {:?} {} accepted={}", e.name, lim, hex(&bytes), acc));
    Ok(())
}
