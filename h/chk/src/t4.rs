//! Checks C13 (schema evolution) and C14 (preservation of unknown content).
use crate::t2::render;
use crate::util::*;
use flcore::ensure;
use flcore::model::*;
use flcore::refparse::parse_tree;
use flcore::runner::*;
use flcore::schema::*;
use flevo::{map_message, pairs, rmw};
use flreg::{registry, Entry};

pub fn c13(cx: &mut Ctx) -> Case {
    let ps = pairs();
    let p = &ps[(cx.idx % ps.len() as u64) as usize];
    let (d, bytes) = (p.old.gen)(&mut cx.rng);
    cx.eval_bytes(cx.idx % ps.len() as u64, &bytes, true);
    cx.sample(|| format!("{}: {}", p.name, hex(&bytes)));
    let want = map_message(p, &d).map(|d| d.norm());
    for ign in [true, false] {
        let c = cfg(&Limits { ignore_unknown: ign, ..ROOMY });
        for (i, dec) in p.new.dec.iter().enumerate() {
            let got = dec(&bytes, &c);
            cx.count("cross_schema_decodes", 1);
            if !ign && p.drops {
                // a removed field may or may not be present
                if let (Ok(g), Some(w)) = (&got, &want) {
                    ensure!(g == w, "evolved-differs", "{} entry {}: {} read as {} instead of {}", p.name, i, hex(&bytes), short(g), short(w));
                }
                continue;
            }
            match (&got, &want) {
                (Ok(g), Some(w)) if g == w => cx.count("compatible_data_read", 1),
                (Err(_), None) => cx.count("incompatible_data_refused", 1),
                _ => {
                    return fail(
                        "evolved-differs",
                        format!(
                            "{} entry {} ignore_unknown={}: {} read as {} but should be {}",
                            p.name,
                            i,
                            ign,
                            hex(&bytes),
                            short(&got),
                            short(&want)
                        ),
                    )
                }
            }
        }
        // the old schema itself keeps reading its data
        for dec in p.old.dec.iter() {
            ensure!(dec(&bytes, &c).ok() == Some(d.norm()), "own-schema", "{}: {} not readable with its own schema", p.name, hex(&bytes));
        }
    }
    Ok(())
}

pub fn c14_rmw(cx: &mut Ctx) -> Case {
    let all = rmw::all();
    let t = &all[(cx.idx % all.len() as u64) as usize];
    let c = cfg(&Limits { ignore_unknown: cx.rng.chance(1, 2), ..ROOMY });
    match (t.run)(&mut cx.rng, &c) {
        Err(e) => fail("rmw-refused", format!("{}: {}", t.name, e)),
        Ok((seen, want, before, after)) => {
            cx.eval_bytes(cx.idx % all.len() as u64, &before, before != after);
            cx.sample(|| format!("{}: {} edited to {}", t.name, hex(&before), hex(&after)));
            cx.count("edited_messages", 1);
            ensure!(
                seen == want,
                "rmw-lost",
                "{}: {} became {}: full schema sees {} instead of {}",
                t.name,
                hex(&before),
                hex(&after),
                short(&seen),
                short(&want)
            );
            Ok(())
        }
    }
}

/// Arbitrary unknown content through every type with a catch-all.
pub fn c14_trees(cx: &mut Ctx) -> Case {
    static U: std::sync::OnceLock<Vec<&'static Entry>> = std::sync::OnceLock::new();
    let es = U.get_or_init(|| {
        registry()
            .iter()
            .filter(|e| e.rewrite.is_some() && ["U0", "U1", "U2", "UE", "UZ", "Unknown"].iter().any(|u| e.name.contains(u)))
            .collect()
    });
    let e = es[(cx.idx % es.len() as u64) as usize];
    let mut m = gen_for(e, &mut cx.rng);
    // scatter further unknown content, also where it is captured
    let mut added = 0;
    let mut f = cx.rng.fork();
    m.tree.visit_mut(&mut |b| {
        if b.captures && b.declared != u64::MAX {
            for _ in 0..f.below(4) {
                let free: Vec<u8> = (1..64u8).filter(|t| b.declared >> t & 1 == 0).collect();
                let t = *f.pick(&free);
                let mut v = rand_val(&mut f, 4);
                if let Val::Struct(b) | Val::Enum(_, b) = &mut v {
                    b.visit_mut(&mut |b| {
                        b.captures = true;
                        b.declared = u64::MAX
                    });
                }
                b.nodes.insert(f.usz(b.nodes.len() + 1), Node::Field(t, v));
                added += 1;
            }
        }
    });
    let bytes = render(&m.tree, &mut cx.rng, 25);
    cx.eval_bytes(cx.idx % es.len() as u64, &bytes, added > 0);
    cx.count("unknown_fields_added", added);
    cx.sample(|| format!("{} {}", e.name, hex(&bytes)));
    let c = cfg(&Limits { ignore_unknown: cx.rng.chance(1, 2), ..ROOMY });
    let want_tree = {
        // known fields in declared order, unknown ones after them unchanged
        let r = ref_decode(e.schema(false), &bytes, ROOMY);
        match r.res {
            Ok((d, _)) => e.schema(false).enc_body(&d),
            Err(x) => return fail("reference", format!("reference refuses {}: {:?}", hex(&bytes), x)),
        }
    };
    for (how, w) in e.rewrite.as_ref().unwrap().iter() {
        let got = match w(&bytes, &c) {
            Ok(g) => g,
            Err(x) => return fail("rewrite-refused", format!("{} {}: {}: {}", e.name, how, hex(&bytes), x)),
        };
        cx.count("rewrites_compared", 1);
        let t = match parse_tree(&got) {
            Ok((t, n)) if n == got.len() as u64 => t,
            x => return fail("rewrite-malformed", format!("{} {}: {} rewritten as {}: {:?}", e.name, how, hex(&bytes), hex(&got), x.map(|x| x.1))),
        };
        ensure!(
            strip(&t) == strip(&want_tree),
            "unknown-changed",
            "{} {}: {} rewritten as {} instead of {}",
            e.name,
            how,
            hex(&bytes),
            hex(&got),
            hex(&encode(&want_tree))
        );
    }
    Ok(())
}
fn strip(b: &Body) -> Body {
    let mut b = b.clone();
    b.visit_mut(&mut |b| {
        b.declared = 0;
        b.captures = false;
    });
    b
}
