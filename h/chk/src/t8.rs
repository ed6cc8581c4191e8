//! C24: calls which happen while others are under way. A reader or writer of
//! the user may itself decode and serialise; two decodings may be driven in
//! turns. Neither may notice the other.
use crate::t2::rand_plan;
use crate::util::*;
use flcore::ensure;
use flcore::io::*;
use flcore::model::hex;
use flcore::rng::{mix, Rng};
use flcore::runner::*;
use flcore::schema::Limits;
use flreg::{Entry, Inst};
use fourleaf::de::{Config, Context};
use fourleaf::stream::Stream;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

struct Op {
    e: &'static Entry,
    mode: Mode,
    bytes: Vec<u8>,
    plan: Plan,
    inst: Box<dyn Inst>,
}
/// Everything observable of one decoding.
fn read(o: &Op, c: &Config) -> String {
    let out = decode(o.e, o.mode, &o.bytes, c, &Opt { plan: o.plan.clone(), ..Default::default() });
    match &out.dec.res {
        Ok(v) => format!("{:?} {:?} {:?}", v.dyn_.norm(), out.pos, out.inner),
        Err(e) => format!("{:?} {} {:?} {:?}", e.kind, e.display, out.pos, out.inner),
    }
}
/// Everything observable of one serialisation.
fn write(o: &Op, how: u64) -> String {
    match how {
        0 => format!("{:?}", o.inst.to_vec().map_err(|e| e.to_string())),
        1 => {
            let w = TestWriter::with(o.plan.clone());
            let r = o.inst.to_writer(w.clone()).map_err(|e| e.to_string());
            format!("{:?} {:?}", r, w.data())
        }
        _ => {
            let w = TestWriter::with(o.plan.clone());
            let mut s = Stream::new(w.clone());
            let r = o.inst.to_stream(&mut s).map_err(|e| e.to_string());
            format!("{:?} {:?} {}", r, w.data(), s.pos())
        }
    }
}

fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}

pub fn c24_reentrant(cx: &mut Ctx) -> Case {
    let lim = if cx.rng.chance(2, 3) { rand_limits(&mut cx.rng) } else { Limits::default() };
    let n = 3 + cx.rng.usz(5);
    let mut ops = Vec::new();
    for i in 0..n {
        let e = entry_at(if i == 0 { cx.idx } else { cx.rng.u64() });
        let m = gen_for(e, &mut cx.rng);
        let bytes = if cx.rng.chance(3, 4) { m.bytes } else { hostile(e, &mut cx.rng) };
        let modes: Vec<Mode> = MODES.iter().cloned().filter(|m| m.ok(e)).collect();
        let mode = *cx.rng.pick(&modes);
        let mut plan = rand_plan(&mut cx.rng);
        if cx.rng.chance(1, 8) {
            plan.fail_at = Some(cx.rng.below(8));
        }
        ops.push(Op { e, mode, bytes, plan, inst: m.inst });
    }
    let ops = Rc::new(ops);
    let c = Rc::new(cfg(&lim));
    let reads: Rc<Vec<String>> = Rc::new(ops.iter().map(|o| read(o, &cfg(&lim))).collect());
    let writes: Rc<Vec<Vec<String>>> = Rc::new(ops.iter().map(|o| (0..3).map(|h| write(o, h)).collect()).collect());
    let bad: Rc<RefCell<Option<String>>> = Rc::default();
    let inner: Rc<Cell<u64>> = Rc::default();
    let mut h = 0;
    for i in 0..n {
        h = mix(h ^ flcore::rng::hash_bytes(&ops[i].bytes));
        // a reader which does other things at (some of) its calls
        let mk = |seed: u64| -> Box<dyn FnMut()> {
            let (ops, c, reads, writes, bad, inner) = (ops.clone(), c.clone(), reads.clone(), writes.clone(), bad.clone(), inner.clone());
            let mut r = Rng::new(seed);
            let mut left = 12;
            Box::new(move || {
                if left == 0 || r.chance(1, 3) {
                    return;
                }
                left -= 1;
                let k = r.usz(ops.len());
                inner.set(inner.get() + 1);
                let (got, want, what) = if r.chance(2, 3) {
                    (read(&ops[k], &c), &reads[k], "decoding")
                } else {
                    let how = r.below(3);
                    (write(&ops[k], how), &writes[k][how as usize], "serialising")
                };
                if got != *want && bad.borrow().is_none() {
                    *bad.borrow_mut() = Some(format!("{} {} inside another call: {} instead of {}", what, ops[k].e.name, cut(&got), cut(want)));
                }
            })
        };
        let got = with_hook(mk(cx.rng.u64()), || read(&ops[i], &c));
        if let Some(b) = bad.borrow_mut().take() {
            ensure!(false, "inner-call", "{} (the outer one decodes {} {:?} from {}, limits {:?})", b, ops[i].e.name, ops[i].mode, hex(&ops[i].bytes), lim);
        }
        ensure!(
            got == reads[i],
            "outer-call",
            "{} {:?} whose reader decodes and serialises other values: {} instead of {} from {} (limits {:?})",
            ops[i].e.name,
            ops[i].mode,
            cut(&got),
            cut(&reads[i]),
            hex(&ops[i].bytes),
            lim
        );
        let how = 1 + cx.rng.below(2);
        let got = with_hook(mk(cx.rng.u64()), || write(&ops[i], how));
        if let Some(b) = bad.borrow_mut().take() {
            ensure!(false, "inner-call", "{} (the outer one serialises {})", b, ops[i].e.name);
        }
        ensure!(
            got == writes[i][how as usize],
            "outer-call",
            "serialising {} to a writer which decodes and serialises other values: {} instead of {}",
            ops[i].e.name,
            cut(&got),
            cut(&writes[i][how as usize])
        );
    }
    cx.eval(h, inner.get() > 0);
    cx.count("calls_made_inside_other_calls", inner.get());
    cx.count("calls_with_others_inside", 2 * n as u64);
    cx.sample(|| format!("{} calls with {} others inside, on [{}]", 2 * n, inner.get(), ops.iter().map(|o| o.e.name).collect::<Vec<_>>().join(", ")));
    Ok(())
}

/// Several contexts driven in turns, some with one configuration in common.
pub fn c24_contexts(cx: &mut Ctx) -> Case {
    let k = 1 + cx.rng.usz(2);
    let cfgs: Vec<Config> = (0..k)
        .map(|_| {
            let mut c = Config::default();
            c.recursion_limit = cx.rng.size(12);
            c.max_collect = cx.rng.size(400);
            c.max_blob = cx.rng.size(400);
            c
        })
        .collect();
    struct M {
        c: usize,
        depth: usize,
        owner: usize,
    }
    // totals are per top-level context
    let tops = 2 + cx.rng.usz(3);
    let mut used: Vec<(u64, u64)> = vec![(0, 0); tops];
    let mut metas: Vec<M> = Vec::new();
    let mut todo = Vec::new();
    for t in 0..tops {
        metas.push(M { c: cx.rng.usz(k), depth: 0, owner: t });
        todo.push(t);
    }
    let steps = 20 + cx.rng.usz(60);
    let mut h = 0;
    let arena: Vec<Context> = todo.iter().map(|&t| Context::top(&cfgs[metas[t].c])).collect();
    // one chain of children per top-level context, kept alive by recursion
    fn go(
        cx: &mut Ctx,
        cfgs: &[Config],
        live: &mut Vec<(&Context, M)>,
        used: &mut Vec<(u64, u64)>,
        left: &mut usize,
        h: &mut u64,
    ) -> Case {
        while *left > 0 {
            *left -= 1;
            let i = cx.rng.usz(live.len());
            let (ctx, m) = (live[i].0, &live[i].1);
            let c = &cfgs[m.c];
            let n = cx.rng.size(50);
            match cx.rng.below(8) {
                0..=2 => {
                    *h = mix(*h ^ (n as u64) << 1 ^ (i as u64) << 32);
                    let ok = used[m.owner].0 + n as u64 <= c.max_collect as u64;
                    let r = ctx.collect(n);
                    ensure!(
                        r.is_ok() == ok,
                        "context-leak",
                        "collect({}) with {} of {} used in this context, {} contexts in use: {:?}",
                        n,
                        used[m.owner].0,
                        c.max_collect,
                        live.len(),
                        r
                    );
                    if ok {
                        used[m.owner].0 += n as u64;
                    }
                }
                3..=5 => {
                    *h = mix(*h ^ (n as u64) << 2 ^ (i as u64) << 40);
                    let ok = used[m.owner].1 + n as u64 <= c.max_blob as u64;
                    let r = ctx.blob(n as u64);
                    ensure!(
                        r.is_ok() == ok,
                        "context-leak",
                        "blob({}) with {} of {} used in this context, {} contexts in use: {:?}",
                        n,
                        used[m.owner].1,
                        c.max_blob,
                        live.len(),
                        r
                    );
                    if ok {
                        used[m.owner].1 += n as u64;
                    }
                }
                6 => {
                    let (depth, owner, ci) = (m.depth, m.owner, m.c);
                    let mut name = [0u8; 2];
                    let r = if cx.rng.chance(1, 2) { ctx.push("f", n as u64) } else { ctx.push_tag(&mut name, 1 + (n % 63) as u8, n as u64) };
                    ensure!(
                        r.is_ok() == (depth < c.recursion_limit),
                        "context-leak",
                        "push at depth {} with limit {}: {:?}",
                        depth,
                        c.recursion_limit,
                        r.as_ref().map(|_| ())
                    );
                    if let Ok(ref sub) = r {
                        let mut l2: Vec<(&Context, M)> = live.iter().map(|(c, m)| (*c, M { c: m.c, depth: m.depth, owner: m.owner })).collect();
                        l2.push((sub, M { c: ci, depth: depth + 1, owner }));
                        go(cx, cfgs, &mut l2, used, left, h)?;
                    }
                }
                _ => {
                    if cx.rng.chance(1, 4) {
                        return Ok(());
                    }
                }
            }
            cx.count("calls_on_contexts_in_turns", 1);
        }
        Ok(())
    }
    let mut live: Vec<(&Context, M)> = arena.iter().zip(metas).collect();
    let mut left = steps;
    go(cx, &cfgs, &mut live, &mut used, &mut left, &mut h)?;
    cx.eval(h, true);
    cx.sample(|| format!("{} contexts of {} configurations in turns, {} steps, totals {:?}", tops, k, steps, used));
    Ok(())
}
