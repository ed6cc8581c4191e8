//! C25: memory safety. The workloads of the other checks run under monitors
//! of heap balance and value validity, and (in child processes) under
//! AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri.
use flcore::alloc::{mark, since};
use flcore::ensure;
use flcore::rng::Rng;
use flcore::runner::*;
use flreg::desc::valid;
use flstrm::*;
use std::cell::Cell;
use std::process::{Command, Stdio};

type F = fn(&mut Ctx) -> Case;
/// (name, function, weight)
pub const POOL: &[(&str, F, u64)] = &[
    ("round trip", crate::t1::c01, 4),
    ("encodings", crate::t1::c02, 2),
    ("arbitrary input", crate::t1::c04, 6),
    ("reordered", crate::t2::c05_reorder, 2),
    ("dropped", crate::t2::c05_drop, 1),
    ("unknown fields", crate::t2::c05_unknown, 2),
    ("cuts", crate::t2::c07, 1),
    ("limits", crate::t2::c08, 2),
    ("borrowing", crate::t2::c11_alias, 4),
    ("styles", crate::t2::c11_agree, 3),
    ("concatenated", crate::t2::c12, 2),
    ("equivalent", crate::t2::c26, 2),
    ("deliveries", crate::t3::c19_chunks, 2),
    ("read faults", crate::t3::c19_faults, 1),
    ("write faults", crate::t3::c20, 1),
    ("text", crate::t3::c21_text, 3),
    ("fixed", crate::t3::c21_fixed, 3),
    ("characters", crate::t3::c21_chars, 1),
    ("wire types", crate::t3::c21_wire, 2),
    ("single faults", crate::t3::c22, 2),
    ("evolution", crate::t4::c13, 2),
    ("edit", crate::t4::c14_rmw, 2),
    ("rewrite", crate::t4::c14_trees, 2),
    ("typed garbage", crate::t5::c06_typed, 4),
    ("typed memory", crate::t5::c09_typed, 2),
    ("element sessions", read::c03, 4),
    ("skips", read::c15, 3),
    ("garbage elements", read::c06_elements, 4),
    ("truncated", read::c07_elements, 1),
    ("blob handles", blob::c16, 6),
    ("short blobs", blob::c16_short, 3),
    ("writing", write::c17_write, 4),
    ("unfinished blobs", write::c17_incomplete, 2),
    ("overwriting", write::c17_overwrite, 3),
    ("alignment", write::c18_align, 1),
    ("padding", more::c18_padding, 1),
    ("exceptions", more::c18_exceptions, 2),
    ("ends", more::c18_end, 1),
    ("growing", more::c18_growing, 1),
    ("copying", more::c23_copy, 2),
    ("partial copies", more::c23_partial, 2),
    ("write faults by element", more::c20_elements, 1),
    ("deliveries by element", more::c19_elements, 1),
    ("seeking and plain", giant::c29_pair, 2),
    ("writing at the maximum", giant::c29_write, 2),
    ("reading at the maximum", giant::c29_edge, 2),
    ("integer forms", wirec::c28_forms, 2),
    ("integers", wirec::c28_random, 1),
    ("hostile", crate::hostile::hostile, 10),
];
/// Runs fast enough under an interpreter.
const SMALL: &[&str] = &[
    "round trip", "encodings", "arbitrary input", "borrowing", "styles", "fixed", "typed garbage", "rewrite", "element sessions",
    "skips", "garbage elements", "blob handles", "short blobs", "writing", "unfinished blobs", "overwriting", "exceptions", "copying", "partial copies", "hostile", "single faults",
];

fn choose(r: &mut Rng, set: u64) -> (&'static str, F) {
    if set == 2 {
        return match r.below(3) {
            0 => ("interleavings", crate::t3::c24),
            1 => ("calls inside calls", crate::t8::c24_reentrant),
            _ => ("interleaved elements", more::c24_elements),
        };
    }
    let only = std::env::var("FL_ONLY").unwrap_or_default();
    let ok = |n: &str| (set == 0 || SMALL.contains(&n)) && (only.is_empty() || only == n);
    let sum: u64 = POOL.iter().filter(|p| ok(p.0)).map(|p| p.2).sum();
    let mut k = r.below(sum);
    for p in POOL.iter().filter(|p| ok(p.0)) {
        if k < p.2 {
            return (p.0, p.1);
        }
        k -= p.2;
    }
    unreachable!()
}

thread_local! {
    static KEPT: Cell<(i64, u64)> = const { Cell::new((0, 0)) };
}
/// What may stay allocated per thread (tables of the harness built on first
/// use, panic messages).
const KEEP: i64 = 24 << 20;

/// One workload, three times over: whatever it allocates must be gone
/// afterwards. Only memory matters here, not the verdict of the workload.
pub fn balance(cx: &mut Ctx) -> Case {
    let (name, f) = choose(&mut cx.rng, 0);
    let seed = cx.rng.u64();
    let idx = cx.rng.below(1200);
    let mut deltas = [0i64; 3];
    let mut evals = 0;
    let mut first = None;
    valid::take();
    for d in deltas.iter_mut() {
        let m = mark();
        {
            let mut obs = Obs::default();
            let mut c = Ctx::inner(&mut obs, &[], "C25", Rng::new(seed), idx, Tier::Quick);
            let r = catch(|| drop(f(&mut c)));
            drop(r);
            if evals == 0 {
                evals = obs.evaluations;
            }
        }
        *d = since(&m).live;
        if first.is_none() {
            first = Some(since(&m).calls);
        }
    }
    let (seen, bad) = valid::take();
    cx.eval(flcore::rng::hash_bytes(format!("{} {}", name, seed).as_bytes()), first > Some(0));
    cx.sample(|| format!("{} (seed {:x}): {} allocations, {} bytes left, {} values inspected", name, seed, first.unwrap(), deltas[1], seen));
    ensure!(bad.is_empty(), "invalid-value", "{} (seed {:x}) produced {}", name, seed, bad);
    ensure!(!(deltas[1] > 0 && deltas[1] == deltas[2]), "leak", "{} (seed {:x}) leaves {} bytes allocated each time it is repeated", name, seed, deltas[1]);
    let k = KEPT.with(|k| {
        let (a, n) = k.get();
        k.set((a + deltas[0], n + 1));
        k.get()
    });
    ensure!(k.0 < KEEP, "retained", "{} workloads leave {} bytes allocated", k.1, k.0);
    cx.count("workloads_balanced", 1);
    cx.count("allocations_followed", first.unwrap());
    cx.count("produced_values_inspected", seen);
    cx.count("calls_of_workloads", evals * 3);
    Ok(())
}

/// Workloads whose inputs are at the edges of the domains of text, characters
/// and enumerations; whatever they produce must be a valid value.
pub fn values(cx: &mut Ctx) -> Case {
    const W: &[(&str, F, u64)] = &[
        ("text", crate::t3::c21_text, 1 << 20),
        ("text", crate::t3::c21_text, 1 << 20),
        ("characters", crate::t3::c21_chars, 1200),
        ("wire types", crate::t3::c21_wire, 1 << 20),
        ("arbitrary input", crate::t1::c04, 1 << 20),
        ("typed garbage", crate::t5::c06_typed, 1 << 20),
        ("styles", crate::t2::c11_agree, 1 << 20),
    ];
    let (name, f, range) = *cx.rng.pick(W);
    let seed = cx.rng.u64();
    let idx = cx.rng.below(range);
    valid::take();
    let mut obs = Obs::default();
    {
        let mut c = Ctx::inner(&mut obs, &[], "C25", Rng::new(seed), idx, Tier::Quick);
        drop(catch(|| drop(f(&mut c))));
    }
    let (seen, bad) = valid::take();
    cx.eval(flcore::rng::hash_bytes(format!("{} {}", name, seed).as_bytes()), seen > 0);
    cx.count("edge_values_inspected", seen);
    ensure!(bad.is_empty(), "invalid-value", "{} (case {}, seed {:x}) produced {}", name, idx, seed, bad);
    Ok(())
}

/// In the child: `memrun <seed> <from> <to> <set of workloads>`.
pub fn memrun(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, from, to, set) = (n(0), n(1), n(2), n(3));
    let judge = a.get(4).is_some();
    install_hook();
    // Miri follows huge stacks as well as small ones
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut evals = 0;
        let mut ops = 0;
        for idx in from..to {
            let mut rng = Rng::new(seed ^ flcore::rng::mix(idx));
            let (name, f) = choose(&mut rng, set);
            println!("CASE {} {}", idx, name);
            valid::take();
            let mut obs = Obs::default();
            {
                let i = rng.below(1200);
                let mut c = Ctx::inner(&mut obs, &[], "C25", rng, i, Tier::Quick);
                match catch(|| f(&mut c)) {
                    Ok(Err(e)) if judge => println!("FAIL {} {}: {}", name, e.sig, e.msg.chars().take(600).collect::<String>()),
                    Err(p) if judge => println!("FAIL {} panic: {}", name, p),
                    _ => (),
                }
            }
            let (seen, bad) = valid::take();
            if !bad.is_empty() {
                println!("INVALID {}", bad);
                return 78;
            }
            evals += obs.evaluations;
            ops += seen;
        }
        println!("DONE {} {}", evals, ops);
        0
    });
    h.unwrap().join().unwrap_or(79)
}

fn child(cx: &mut Ctx, what: &'static str, env: &str, per: u64, set: u64) -> Case {
    let cmd = match std::env::var(env) {
        Ok(c) => c,
        Err(_) => return fail("harness", format!("{} is not set", env)),
    };
    let limit = if cx.tier == Tier::Quick { "120" } else { "500" };
    let mut parts = cmd.split(' ');
    let seed = cx.rng.u64();
    let from = cx.idx * per;
    let mut c = Command::new("timeout");
    c.args(["-k", "5", limit]).args(&mut parts).args(["memrun", &seed.to_string(), &from.to_string(), &(from + per).to_string(), &set.to_string()]);
    c.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1")
        .env("MSAN_OPTIONS", "exitcode=77:allocator_may_return_null=1")
        .env("TSAN_OPTIONS", "exitcode=77")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let o = match c.output() {
        Ok(o) => o,
        Err(e) => return fail("harness", format!("cannot run {}: {}", cmd, e)),
    };
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    let last = out.lines().filter(|l| l.starts_with("CASE")).last().unwrap_or("").to_string();
    cx.eval(flcore::rng::hash_bytes(format!("{} {}", what, seed).as_bytes()), true);
    cx.sample(|| format!("{}: workloads {}..{} of seed {:x}, the last being {}", what, from, from + per, seed, last));
    let done = out.lines().find(|l| l.starts_with("DONE")).map(|l| l.split(' ').filter_map(|n| n.parse::<u64>().ok()).collect::<Vec<_>>());
    match (done, o.status.success()) {
        (Some(d), true) => {
            let (a, b, c) = match what {
                "asan" => ("asan_workloads", "asan_calls", "asan_values_inspected"),
                "msan" => ("msan_workloads", "msan_calls", "msan_values_inspected"),
                "tsan" => ("tsan_workloads", "tsan_calls", "tsan_values_inspected"),
                _ => ("miri_workloads", "miri_calls", "miri_values_inspected"),
            };
            cx.count(a, per);
            cx.count(b, d[0]);
            cx.count(c, d[1]);
            Ok(())
        }
        _ => {
            let report: Vec<&str> = err.lines().filter(|l| !l.trim().is_empty()).collect();
            // other ends (panics while panicking, exhausted stacks or time)
            // are for other checks to judge
            let bad = |l: &str| {
                (l.contains("Sanitizer: ") && !l.contains("stack-overflow") && !l.contains("out of memory") && !l.contains("out-of-memory"))
                    || l.contains("Undefined Behavior")
                    || l.contains("memory leaked")
                    || l.contains("unsafe precondition")
            };
            let at = report.iter().position(|l| bad(l));
            let inv = out.lines().find(|l| l.starts_with("INVALID")).unwrap_or("");
            if at.is_none() && inv.is_empty() {
                cx.count("children_ended_otherwise", 1);
                if o.status.code() != Some(124) {
                    eprintln!("{} child ended with {} in {}: {}", what, o.status, last, report.last().unwrap_or(&""));
                }
                return Ok(());
            }
            let at = at.unwrap_or(report.len().saturating_sub(5));
            fail(what, format!("{} {} ({}) in {}\n{}", what, inv, o.status, last, report[at..].iter().take(45).cloned().collect::<Vec<_>>().join("\n")))
        }
    }
}
pub fn tsan(cx: &mut Ctx) -> Case {
    child(cx, "tsan", "VERIF_TSAN", 40, 2)
}
pub fn asan(cx: &mut Ctx) -> Case {
    child(cx, "asan", "VERIF_ASAN", 400, 0)
}
pub fn msan(cx: &mut Ctx) -> Case {
    child(cx, "msan", "VERIF_MSAN", 200, 0)
}
pub fn miri(cx: &mut Ctx) -> Case {
    child(cx, "miri", "VERIF_MIRI", if cx.tier == Tier::Quick { 2 } else { 12 }, 1)
}
