//! Checks C06 (no panic, overflow, spin) and C09 (memory bound) over types.
use crate::t2::rand_plan;
use crate::util::*;
use flcore::ensure;
use flcore::model::*;
use flcore::runner::*;
use flcore::schema::*;
use flreg::registry;
use fourleaf::de::Config;

/// Bound on the calls made to the reader: every call but the last few delivers
/// at least one byte, a blob is allowed a few probing calls of its own.
pub fn call_bound(len: usize) -> u64 {
    8 * len as u64 + 1000
}

fn any_config(r: &mut flcore::rng::Rng) -> Config {
    let l = match r.below(4) {
        0 => ROOMY,
        1 => Limits { recursion: 32, collect: 256, blob: 65536, ignore_unknown: r.chance(1, 2) },
        _ => rand_limits(r),
    };
    match r.below(6) {
        0 => Config::default(),
        1 => {
            let mut c = cfg(&l);
            c.max_blob = usize::max_value();
            c.max_collect = usize::max_value();
            c
        }
        _ => cfg(&l),
    }
}

/// Arbitrary bytes decoded as every type.
pub fn c06_typed(cx: &mut Ctx) -> Case {
    let e = entry_at(cx.idx);
    let mut bytes = hostile(e, &mut cx.rng);
    if cx.rng.chance(1, 3) {
        mutate_bytes(&mut bytes, &mut cx.rng);
    }
    let c = any_config(&mut cx.rng);
    cx.eval_bytes(cx.idx % 1000, &bytes, !bytes.is_empty());
    cx.sample(|| format!("{} from {}", e.name, hex(&bytes)));
    for mode in MODES {
        if !mode.ok(e) {
            continue;
        }
        let base = match cx.rng.below(4) {
            0 => u64::MAX - cx.rng.below(bytes.len() as u64 + 20),
            1 => cx.rng.u64(),
            _ => 0,
        };
        let plan = if cx.rng.chance(1, 3) { rand_plan(&mut cx.rng) } else { Default::default() };
        let chunked = plan.interrupt > 0;
        let o = decode(e, mode, &bytes, &c, &Opt { base, graceful: cx.rng.chance(1, 2), plan });
        cx.count(if o.err().is_some() { "errors_returned" } else { "values_returned" }, 1);
        if let Some((calls, zero, seeks, high)) = o.io {
            let b = call_bound(bytes.len()) * if chunked { 2 } else { 1 };
            ensure!(
                calls <= b && seeks <= b && zero <= b,
                "work-unbounded",
                "{} {:?}: {} read calls, {} of them at the end, {} seeks for {} input bytes {}",
                e.name,
                mode,
                calls,
                zero,
                seeks,
                bytes.len(),
                hex(&bytes)
            );
            ensure!(high <= bytes.len() as u64, "overread", "read up to {} of {}", high, bytes.len());
            cx.count("reader_calls_watched", calls);
        }
    }
    Ok(())
}

/// Deeply nested input under the default recursion limit, on a thread with the
/// default stack size.
pub fn c06_deep(cx: &mut Ctx) -> Case {
    let e = entry_at(cx.idx);
    let openers: [&[u8]; 14] = [
        &[0xC1],
        &[0xC2],
        &[0xC3],
        &[0xFF],
        &[0x41, 5, 0xC2],
        &[0x41, 5, 0xC2, 0x41, 7, 0xC2],
        &[0x02, 0x01, 0x41, 0x05],
        &[0x01, 0x01],
        &[0x01, 0x00],
        &[0x01, 0x01, 0x41, 0x05, 0xC2],
        &[0xC1, 0xC1, 0xC2],
        &[0x41, 1, 0xC1, 0xC2],
        &[0x3F, 0xFF, 0x01, 0xC1],
        &[0xC1, 0x01, 0x02, 0x41, 0],
    ];
    let mut unit: Vec<u8> = Vec::new();
    for _ in 0..1 + cx.rng.usz(2) {
        unit.extend_from_slice(*cx.rng.pick(&openers));
    }
    if cx.rng.chance(1, 5) {
        unit.extend(structured(&mut cx.rng, 2).iter().take(6));
    }
    let mut depth = *cx.rng.pick(&[31usize, 32, 33, 40, 200, 2000, 20_000]);
    // or wide instead of deep: long runs of small elements
    let flat = cx.rng.chance(1, 12);
    if flat {
        let flats: [&[u8]; 8] = [&[0xC0], &[0x7F, 1], &[0xBF, 0], &[0xFF, 0], &[0x3F, 1, 0], &[0xC0], &[0x41, 0], &[0xC1, 0]];
        unit = cx.rng.pick(&flats).to_vec();
        depth = 60_000;
    }
    let mut bytes: Vec<u8> = Vec::new();
    // possibly inside a real message
    if cx.rng.chance(1, 3) {
        let m = gen_for(e, &mut cx.rng);
        let k = cx.rng.usz(m.bytes.len() + 1);
        bytes.extend_from_slice(&m.bytes[..k.min(500)]);
    }
    for _ in 0..depth {
        bytes.extend_from_slice(&unit);
    }
    match cx.rng.below(3) {
        _ if flat => bytes.extend(gen_for(e, &mut cx.rng).bytes),
        0 => bytes.extend(std::iter::repeat(0).take(depth * 3)),
        1 => bytes.push(END_DOC),
        _ => (),
    }
    cx.eval(flcore::rng::hash_bytes(&unit) ^ cx.idx % 1000 ^ (depth as u64) << 32, true);
    cx.sample(|| format!("{}: {} x {} under the default configuration on a 2 MiB stack", e.name, hex(&unit), depth));
    let mut c = Config::default();
    c.ignore_unknown_fields = cx.rng.chance(1, 2);
    if cx.rng.chance(1, 2) {
        c.max_collect = usize::max_value();
    }
    let graceful = cx.rng.chance(1, 2);
    let mut counts = (0u64, 0u64);
    for mode in MODES {
        if !mode.ok(e) {
            continue;
        }
        let (bytes, c) = (&bytes, &c);
        let r = std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(sc, move || {
                    catch(|| {
                        let o = decode(e, mode, bytes, c, &Opt { graceful, ..Default::default() });
                        (o.err().is_some(), o.io.map(|i| (i.0, i.2)))
                    })
                })
                .unwrap()
                .join()
                .unwrap()
        });
        match r {
            Ok((err, io)) => {
                if err {
                    counts.0 += 1
                } else {
                    counts.1 += 1
                }
                if let Some((calls, seeks)) = io {
                    let b = call_bound(bytes.len());
                    ensure!(calls <= b && seeks <= b, "work-unbounded", "{} calls for {} bytes", calls, bytes.len());
                }
            }
            Err(p) => return fail("panic", format!("{} {:?} on {} x {}: panicked: {}", e.name, mode, hex(&unit), depth, p)),
        }
    }
    cx.count("deep_inputs_refused", counts.0);
    cx.count("deep_inputs_accepted", counts.1);
    Ok(())
}

/// Peak heap use allowed for `n` received bytes decoded as one of our types.
/// A two-byte element may become the largest element type's value (see
/// `max_elem`), vectors double when they grow.
const PER_BYTE: u64 = 256;
const CONST: u64 = 16384;

fn inflate(b: &mut Body, r: &mut flcore::rng::Rng) -> bool {
    // turn one blob into one with an absurd declared length
    let mut n = 0u64;
    fn count(b: &Body, n: &mut u64) {
        for x in &b.nodes {
            match x {
                Node::Field(_, Val::Blob(_)) | Node::Exc(_) => *n += 1,
                Node::Field(_, Val::Struct(s)) | Node::Field(_, Val::Enum(_, s)) => count(s, n),
                _ => (),
            }
        }
    }
    count(b, &mut n);
    if n == 0 {
        return false;
    }
    let mut k = r.below(n) as i64;
    let decl = match r.below(4) {
        0 => u64::MAX >> r.below(24),
        1 => 1 << (20 + r.below(44)),
        2 => (1 << (20 + r.below(12))) - 1,
        _ => 1 << 31,
    };
    b.visit_mut(&mut |b| {
        for x in b.nodes.iter_mut() {
            let (head, d): (u8, Vec<u8>) = match x {
                Node::Field(t, Val::Blob(d)) => (T_BLOB | *t, d.clone()),
                Node::Exc(d) => (EXCEPTION, d.clone()),
                _ => continue,
            };
            if k == 0 {
                let mut raw = vec![head];
                varint(&mut raw, decl);
                raw.extend_from_slice(&d);
                *x = Node::Raw(raw);
            }
            k -= 1;
        }
    });
    true
}

pub fn c09_typed(cx: &mut Ctx) -> Case {
    let e = entry_at(cx.idx);
    let kind = cx.rng.below(4);
    let bytes = if kind == 0 {
        hostile(e, &mut cx.rng)
    } else {
        let mut m = gen_for(e, &mut cx.rng);
        if kind == 1 {
            insert_unknown(&mut m.tree, &mut cx.rng, 60);
        }
        if kind == 3 {
            // an integer field replaced by a blob, so that lengths reach
            // types which hold none
            let d = cx.rng.bytes(3);
            m.tree.visit_mut(&mut |b| {
                if let Some(Node::Field(_, v)) = b.nodes.first_mut() {
                    *v = Val::Blob(d.clone());
                }
            });
        }
        inflate(&mut m.tree, &mut cx.rng);
        let mut b = encode(&m.tree);
        if cx.rng.chance(1, 3) {
            let n = cx.rng.size(3000);
            b.extend(cx.rng.bytes(n));
        }
        b
    };
    let huge = cx.rng.chance(2, 3);
    let mut c = Config::default();
    if huge {
        c.max_blob = *cx.rng.pick(&[usize::max_value(), usize::max_value() / 2, HUGE, 1 << 31]);
        c.max_collect = *cx.rng.pick(&[usize::max_value(), HUGE, 1 << 20]);
    }
    c.ignore_unknown_fields = cx.rng.chance(1, 2);
    cx.eval_bytes(cx.idx % 1000, &bytes, true);
    cx.sample(|| format!("{} limits {}/{}: {}", e.name, c.max_blob, c.max_collect, hex(&bytes)));
    for mode in MODES {
        if !mode.ok(e) {
            continue;
        }
        let o = decode(e, mode, &bytes, &c, &Opt { graceful: cx.rng.chance(1, 2), ..Default::default() });
        let got = bytes.len() as u64;
        let s = o.stat();
        let bound = PER_BYTE * got + CONST;
        ensure!(
            (s.peak.max(0) as u64) <= bound && s.largest <= bound,
            "allocation-unbounded",
            "{} {:?}: {} input bytes led to a peak of {} bytes, largest request {}: {}",
            e.name,
            mode,
            got,
            s.peak,
            s.largest,
            hex(&bytes)
        );
        cx.count("decodes_measured", 1);
        if huge && s.peak > 0 {
            cx.count("decodes_with_huge_limits_that_allocated", 1);
        }
        if std::env::var("C09_CAL").is_ok() && s.peak as u64 > 8 * got + 2048 {
            println!("{} {} {} {}", s.peak / got.max(1) as i64, got, s.peak, e.name);
        }
    }
    Ok(())
}
pub fn registered() -> usize {
    registry().len()
}
