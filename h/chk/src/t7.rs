//! C18 on typed decoding: padding, exceptions, ends of document, graceful end
//! of input.
use crate::t2::{rand_plan, render};
use crate::util::*;
use flcore::ensure;
use flcore::io::TestReader;
use flcore::model::*;
use flcore::refparse::*;
use flcore::runner::*;
use flcore::schema::*;
use flreg::*;
use fourleaf::stream::Stream;

/// Offsets between two elements (before the end of the message).
fn bounds(bytes: &[u8]) -> Vec<usize> {
    let mut v = vec![];
    let mut p = RefParser::new(bytes);
    loop {
        v.push(p.off as usize);
        match p.next() {
            Ok(PEl::EndDoc) | Err(_) => return v,
            Ok(_) => {
                if p.commit().is_err() {
                    return v;
                }
            }
        }
        if p.off as usize >= bytes.len() {
            return v;
        }
    }
}

pub fn c18_typed(cx: &mut Ctx) -> Case {
    let mut m = gen_msg(cx);
    if cx.rng.chance(1, 3) {
        insert_unknown(&mut m.tree, &mut cx.rng, 40);
    }
    let bytes = render(&m.tree, &mut cx.rng, 20);
    let at = {
        let b = bounds(&bytes);
        *cx.rng.pick(&b)
    };
    let lim = Limits { ignore_unknown: cx.rng.chance(2, 3), ..ROOMY };
    let c = cfg(&lim);
    let what = cx.rng.below(3);
    let text: Vec<u8> = {
        let n = match cx.rng.below(3) {
            0 => cx.rng.usz(8),
            1 => 250 + cx.rng.usz(12),
            _ => cx.rng.size(700),
        };
        if cx.rng.chance(1, 2) {
            "né€😀x".bytes().cycle().take(n).collect()
        } else {
            cx.rng.bytes(n)
        }
    };
    let (cut, graceful) = match what {
        0 => {
            let mut v = bytes[..at].to_vec();
            v.push(EXCEPTION);
            varint(&mut v, text.len() as u64);
            v.extend_from_slice(&text);
            v.extend_from_slice(&bytes[at..]);
            (v, false)
        }
        1 => {
            let mut v = bytes[..at].to_vec();
            v.push(END_DOC);
            // whatever follows does not belong to the document
            let k = cx.rng.usz(12);
            v.extend(cx.rng.bytes(k));
            (v, false)
        }
        _ => (bytes[..at].to_vec(), true),
    };
    cx.eval_bytes(what, &cut, cut.len() > 1);
    cx.sample(|| format!("{} {} at {}: {}", m.e.name, ["exception", "end of document", "graceful end"][what as usize], at, hex(&cut)));
    let plan = rand_plan(&mut cx.rng);
    for mode in MODES {
        if !mode.ok(m.e) || (graceful && !mode.has_stream()) {
            continue;
        }
        let r = ref_decode_at(m.e.schema(mode.zc()), &cut, lim, 0, graceful);
        let o = decode(m.e, mode, &cut, &c, &Opt { graceful, plan: plan.clone(), base: 0 });
        let ctx = || format!("{} {:?} {}", m.e.name, mode, hex(&cut));
        if let Err(x) = agree(&o, &r, 0) {
            return fail("typed-ends", format!("{}: {}", ctx(), x));
        }
        match (&r.res, o.err()) {
            (Err(e), Some(g)) if e.kind == EKind::Exception => {
                let k = text.len().min(256);
                let want = String::from_utf8_lossy(&text[..k]).into_owned();
                ensure!(g.exception.as_ref() == Some(&want), "exception-text", "{}: {:?} with text {:?} instead of {:?}", ctx(), g.kind, g.exception, want);
                ensure!(what == 0, "harness", "exception from nowhere");
                cx.count("exceptions_surfaced_by_typed_decoding", 1);
            }
            (Ok(_), None) => {
                if what > 0 && mode.has_stream() {
                    ensure!(o.eof == Some(r.eof), "end-flag", "{}: end flag {:?} instead of {}", ctx(), o.eof, r.eof);
                    // the same without the mark is not accepted, unless complete
                    if graceful && r.eof {
                        let p = decode(m.e, mode, &cut, &c, &Opt { graceful: false, plan: plan.clone(), base: 0 });
                        ensure!(p.err().is_some(), "graceful-off", "{}: accepted with graceful EOF off: {}", ctx(), p.show());
                    }
                }
                cx.count("documents_accepted", 1);
            }
            _ => cx.count("documents_refused", 1),
        }
    }
    // an exception between two messages: reported, then reading goes on
    if what == 0 {
        let mut v = vec![EXCEPTION];
        varint(&mut v, text.len() as u64);
        v.extend_from_slice(&text);
        v.extend_from_slice(&bytes);
        let l = Limits { ignore_unknown: true, ..ROOMY };
        let c = cfg(&l);
        if let Some(f) = m.e.reader {
            let rd = TestReader::with(&v, plan.clone());
            let mut s = if cx.rng.chance(1, 2) { Stream::new(rd.clone()) } else { Stream::new_seek(rd.clone()) };
            let a = f(&mut s, &c);
            ensure!(a.res.as_ref().err().map_or(false, |e| e.exception.is_some()), "exception-lost", "{} {}: {:?}", m.e.name, hex(&v), a.res.as_ref().map(|v| short(&v.dyn_)));
            let b = f(&mut s, &c);
            ensure!(b.norm() == Some(m.d.norm()), "after-exception", "{} {}: read as {:?} after the exception instead of {}", m.e.name, hex(&v), b.res.as_ref().map(|v| short(&v.dyn_)).map_err(|e| &e.display), short(&m.d));
            ensure!(s.pos() == v.len() as u64, "after-exception", "{} {}: at {}", m.e.name, hex(&v), s.pos());
            cx.count("messages_read_after_an_exception", 1);
        }
        for zc in [false, true] {
            let f = match if zc { m.e.slice_borrow } else { m.e.slice_copy } {
                Some(f) => f,
                None => continue,
            };
            let mut s = Stream::from_slice(&v[..]);
            let a = f(&mut s, &c);
            ensure!(a.res.is_err(), "exception-lost", "{} {}", m.e.name, hex(&v));
            let b = f(&mut s, &c);
            ensure!(b.norm() == Some(m.d.norm()), "after-exception", "{} {}: read as {:?} after the exception instead of {}", m.e.name, hex(&v), b.res.as_ref().map(|v| short(&v.dyn_)).map_err(|e| &e.display), short(&m.d));
            cx.count("messages_read_after_an_exception", 1);
        }
    }
    Ok(())
}
