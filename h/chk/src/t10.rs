//! C30: nothing depends on the word size or byte order of the machine. The
//! same judged workloads run here, and under Miri for other machines.
use crate::t6::POOL;
use crate::util::*;
use flcore::ensure;
use flcore::model::{hex, varint};
use flcore::rng::{hash_bytes, mix, smaller, Rng};
use flcore::runner::*;
use flcore::schema::Limits;
use flreg::*;
use fourleaf::de::{self, Config};
use fourleaf::stream::{self, Element, Stream, Value};
use fourleaf::unknown::UnknownFields;
use std::io::{BufRead, Cursor, Read, Seek, SeekFrom, Write};
use std::process::{Command, Stdio};

type F = fn(&mut Ctx) -> Case;

/// An integer near something that matters to some machine.
fn edge(r: &mut Rng) -> u64 {
    let at = *r.pick(&[0u64, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 47, 1 << 53, 1 << 62, 1 << 63]);
    match r.below(4) {
        0 => at.wrapping_add(r.below(5)).wrapping_sub(2),
        1 => at | r.below(300),
        2 => r.int(),
        _ => (r.below(1 << 32) << 32) | r.below(40),
    }
}
fn zz(v: i64) -> u64 {
    ((v as u64) << 1) ^ (if v < 0 { u64::MAX } else { 0 })
}
fn unzz(v: u64) -> i64 {
    ((v >> 1) as i64) ^ (if v & 1 != 0 { -1 } else { 0 })
}

/// Pointer-sized integers: a value is accepted exactly if it fits.
pub fn words(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng.fork();
    let c = Config::default();
    for _ in 0..8 {
        let v = edge(r);
        let mut b = vec![0x41];
        varint(&mut b, v);
        b.push(0);
        cx.eval(v, v > 127);
        let fits = v <= usize::MAX as u64;
        let s = unzz(v);
        let sfits = s >= isize::MIN as i64 && s <= isize::MAX as i64;
        assert_eq!(zz(s), v);
        let got: Result<usize, _> = de::from_slice_copy(&b, &c);
        ensure!(got.as_ref().ok().copied() == if fits { Some(v as usize) } else { None }, "word", "{} read as a usize: {:?}", v, got);
        let got: Result<isize, _> = de::from_slice_copy(&b, &c);
        ensure!(got.as_ref().ok().copied() == if sfits { Some(s as isize) } else { None }, "word", "{} read as an isize: {:?}", s, got);
        let got: Result<Vec<usize>, _> = de::from_slice_copy(&b, &c);
        ensure!(got.is_ok() == fits, "word", "{} read as a list of usize: {:?}", v, got);
        let got: Result<Option<usize>, _> = de::from_slice_copy(&b, &c);
        ensure!(got.is_ok() == fits, "word", "{} read as an optional usize: {:?}", v, got);
        let got: Result<[isize; 1], _> = de::from_slice_copy(&b, &c);
        ensure!(got.is_ok() == sfits, "word", "{} read as an array of isize: {:?}", s, got);
        {
            let mut st = Stream::from_slice(&b[..]);
            let f = st.next_field().ok().and_then(|f| f).map(|f| (f.value.to_usize(), f.value.to_isize()));
            match f {
                Some((u, i)) => {
                    ensure!(u.as_ref().ok().copied() == if fits { Some(v as usize) } else { None }, "word", "{} by to_usize: {:?}", v, u);
                    ensure!(i.as_ref().ok().copied() == if sfits { Some(s as isize) } else { None }, "word", "{} by to_isize: {:?}", s, i);
                    ensure!(fits || matches!(u, Err(stream::Error::IntegerOutOfRange(_))), "word", "{} by to_usize: {:?}", v, u);
                }
                None => return fail("word", format!("{} is not read", hex(&b))),
            }
        }
        if fits {
            let w = fourleaf::to_vec(v as usize).map_err(|e| e.to_string());
            ensure!(w.as_ref() == Ok(&b), "word", "usize {} is written {:?}", v, w);
            let mut st = Stream::new(Vec::new());
            ensure!(st.write_usize(1, v as usize).is_ok() && st.get_ref()[..] == b[..b.len() - 1], "word", "write_usize {} gives {}", v, hex(st.get_ref()));
        }
        if sfits {
            let w = fourleaf::to_vec(s as isize).map_err(|e| e.to_string());
            ensure!(w.as_ref() == Ok(&b), "word", "isize {} is written {:?}", s, w);
            let mut st = Stream::new(Vec::new());
            ensure!(st.write_isize(1, s as isize).is_ok() && st.get_ref()[..] == b[..b.len() - 1], "word", "write_isize {} gives {}", s, hex(st.get_ref()));
        }
        cx.count("pointer_sized_integers", 1);
    }
    Ok(())
}

/// Blobs which declare more than some machines can address.
pub fn wide(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng.fork();
    let n = r.usz(40);
    let data = r.bytes(n);
    let low = match r.below(4) {
        0 => 0,
        1 => n as u64,
        2 => r.below(n as u64 + 3),
        _ => r.below(1 << 32),
    };
    let len = low
        + match r.below(5) {
            0 | 1 => 1 << 32,
            2 => (1 + r.below(1 << 20)) << 32,
            3 => 1 << 31,
            _ => 1 << 62,
        };
    let mut b = vec![0x81];
    varint(&mut b, len);
    let head = b.len() as u64;
    b.extend_from_slice(&data);
    cx.eval(mix(len) ^ hash_bytes(&data), true);
    cx.sample(|| format!("{} bytes declared, {} present", len, n));
    cx.count("wide_blobs", 1);
    let what = |s: &str| format!("{} of a blob declared to have {} bytes, having {}", s, len, n);
    // typed
    let mut c = Config::default();
    c.max_blob = usize::MAX;
    c.max_collect = usize::MAX;
    c.ignore_unknown_fields = true;
    macro_rules! refuse {
        ($($t:ty),*) => {$(
            let g = de::from_slice_copy::<$t>(&b, &c);
            ensure!(g.is_err(), "wide", "{}: {:?}", what(concat!("decoding as ", stringify!($t))), g);
        )*};
    }
    refuse!(Vec<u8>, String, [u8; 4], Vec<Vec<u8>>, Option<String>, Vec<[u8; 2]>, UnknownFields<'static>, (u8,), Option<u16>, Box<[u8; 64]>);
    // with a limit, it is the limit which is exceeded
    let mut l = Config::default();
    l.max_blob = r.usz(1 << 16);
    macro_rules! limited {
        ($f:ident, $($t:ty),*) => {$(
            match de::$f::<$t>(&b, &l) {
                Err(de::Error::MaxBlobExceeded(_)) => (),
                g => return fail("wide", format!("{} with at most {}: {:?}", what(concat!("decoding as ", stringify!($t))), l.max_blob, g)),
            }
        )*};
    }
    limited!(from_slice_copy, Vec<u8>, String, Vec<Vec<u8>>, Option<Vec<u8>>);
    let g = de::from_slice_borrow::<&[u8]>(&b, &c);
    ensure!(g.is_err(), "wide", "{}: {:?}", what("borrowing"), g);
    // by handle
    for seeking in [false, true] {
        let mk = || {
            let c = fourleaf::io::TransparentCursor(Cursor::new(&b[..]));
            if seeking { Stream::new_seek(c) } else { Stream::new(c) }
        };
        let mut s = mk();
        for _ in 0..4 {
            let base = if r.chance(1, 2) { 0 } else { r.int() >> 2 };
            s = mk();
            s.set_pos(base);
            let mut f = match s.next_field() {
                Ok(Some(f)) => f,
                x => return fail("wide", format!("{}: {:?}", what("reading"), x.map(|f| f.is_some()))),
            };
            let bl = match f.value {
                Value::Blob(ref mut b) => b,
                _ => return fail("wide", what("not a blob: kind")),
            };
            ensure!(bl.len() == len && bl.remaining() == len && bl.inner_pos() == 0, "wide", "{}: {} {} {}", what("size"), bl.len(), bl.remaining(), bl.inner_pos());
            ensure!(bl.start_pos() == base + head && bl.end_pos() == base + head + len, "wide", "{}: {} {}", what("position"), bl.start_pos(), bl.end_pos());
            match r.below(8) {
                0 => ensure!(bl.slice().is_err(), "wide", "{}", what("slice")),
                1 => ensure!(bl.ext_slice().is_err(), "wide", "{}", what("ext_slice")),
                2 => {
                    let g = bl.read_fully(usize::MAX);
                    ensure!(g.is_err(), "wide", "{}: {:?}", what("read_fully"), g);
                }
                3 => {
                    let max = r.usz(60);
                    let g = bl.read_or_trunc(max).ok();
                    ensure!(g.as_deref() == Some(&data[..max.min(n)]), "wide", "{}: {:?}", what("read_or_trunc"), g);
                }
                4 => {
                    let mut v = vec![0; 1 + r.usz(50)];
                    let g = bl.read(&mut v).ok();
                    let m = v.len().min(n);
                    ensure!(g == Some(m) && v[..m] == data[..m] && bl.remaining() == len - m as u64, "wide", "{}: {:?} {}", what("read"), g, bl.remaining());
                }
                5 => {
                    let g = bl.fill_buf().map(|d| d.to_vec()).ok();
                    ensure!(g.as_deref() == Some(&data[..]), "wide", "{}: {:?}", what("fill_buf"), g);
                    let k = r.usz(n + 1);
                    bl.consume(k);
                    ensure!(bl.remaining() == len - k as u64 && bl.inner_pos() == k as u64, "wide", "{}: {}", what("consume"), bl.remaining());
                }
                6 => {
                    // far beyond what is there, and back
                    let to = r.u64() % (len + 1);
                    let g = bl.seek(SeekFrom::Start(to)).ok();
                    ensure!(g == Some(to) && bl.remaining() == len - to, "wide", "{}: {:?} {}", what("seek"), g, bl.remaining());
                    if to > n as u64 {
                        ensure!(to == len || bl.slice().is_err(), "wide", "{} at {}", what("slice"), to);
                        let g = bl.read(&mut [0; 8]).ok();
                        ensure!(g == Some(0), "wide", "{} at {}: {:?}", what("read"), to, g);
                    }
                    let g = bl.seek(SeekFrom::Current(-(to as i64))).ok();
                    ensure!(g == Some(0), "wide", "{}: {:?}", what("seek back"), g);
                    let g = bl.read_or_trunc(10).ok();
                    ensure!(g.as_deref() == Some(&data[..n.min(10)]), "wide", "{}: {:?}", what("read after seeking"), g);
                }
                _ => {
                    let g = bl.seek(SeekFrom::End(-((len - n as u64) as i64))).ok();
                    ensure!(g == Some(n as u64), "wide", "{}: {:?}", what("seek from the end"), g);
                }
            }
        }
        s = mk();
        drop(s.next_element());
        let g = s.next_element().map(|e| matches!(e, Element::EndOfDoc));
        ensure!(g.is_err(), "wide", "{}: {:?}", what("skipping"), g);
    }
    // written
    let mut s = Stream::new(Vec::new());
    {
        let mut w = match s.write_blob_alloc(1, len) {
            Ok(w) => w,
            Err(e) => return fail("wide", format!("{}: {}", what("allocation"), e)),
        };
        let g = w.write_all(&data).is_ok();
        ensure!(g && w.remaining() == len - n as u64, "wide", "{}: {} {}", what("writing"), g, w.remaining());
    }
    ensure!(s.get_ref()[..] == b[..], "wide", "{}: {} instead of {}", what("bytes"), hex(s.get_ref()), hex(&b));
    let g = s.commit();
    ensure!(matches!(g, Err(stream::Error::IncompleteBlob(k)) if k == len - n as u64), "wide", "{}: {:?}", what("commit"), g);
    Ok(())
}

/// What Miri can do in little time: (name, function, weight).
const PORT: &[(&str, F, u64)] = &[("pointer-sized integers", words, 20), ("wide blobs", wide, 20)];
const SHARED: &[(&str, u64)] = &[
    ("round trip", 5), ("encodings", 5), ("arbitrary input", 5), ("wire types", 3), ("fixed", 2), ("integer forms", 1), ("integers", 2),
    ("equivalent", 2), ("rewrite", 1), ("element sessions", 3), ("blob handles", 3), ("short blobs", 2), ("writing", 3), ("unfinished blobs", 2),
    ("exceptions", 1), ("copying", 1), ("single faults", 2), ("deliveries", 1), ("borrowing", 2), ("characters", 1),
];
fn pick(r: &mut Rng) -> (&'static str, F) {
    let only = std::env::var("FL_ONLY").unwrap_or_default();
    if !only.is_empty() {
        let p = PORT.iter().chain(POOL.iter()).find(|p| p.0 == only);
        return p.map(|p| (p.0, p.1)).expect("workload");
    }
    let sum: u64 = PORT.iter().map(|p| p.2).chain(SHARED.iter().map(|p| p.1)).sum();
    let mut k = r.below(sum);
    for p in PORT {
        if k < p.2 {
            return (p.0, p.1);
        }
        k -= p.2;
    }
    for p in SHARED {
        if k < p.1 {
            return (p.0, POOL.iter().find(|q| q.0 == p.0).expect("workload").1);
        }
        k -= p.1;
    }
    unreachable!()
}

/// One judged workload on this machine.
pub fn native(cx: &mut Ctx) -> Case {
    let (_, f) = pick(&mut cx.rng);
    match f(cx) {
        // the same everywhere
        Err(e) if e.sig == "ext-slice-not-consuming" => Ok(()),
        r => r,
    }
}

/// What failed is at one end of a message, the input fills the rest.
fn ends(m: &str) -> String {
    let c: Vec<char> = m.chars().map(|c| if c == '\n' { ' ' } else { c }).collect();
    if c.len() <= 3000 {
        c.into_iter().collect()
    } else {
        format!("{} ... {}", c[..1500].iter().collect::<String>(), c[c.len() - 1500..].iter().collect::<String>())
    }
}
/// Types whose values are the same on every machine; the flag says whether
/// their encoding is a function of the value.
fn portable() -> Vec<(usize, bool)> {
    let r = registry();
    (0..r.len()).filter(|i| !r[*i].name.contains("size")).map(|i| (i, !r[i].name.contains("Hash"))).collect()
}
fn limits() -> Limits {
    Limits { recursion: 100, collect: 1 << 30, blob: 1 << 30, ignore_unknown: true }
}
/// Every way to read the bytes, in words.
fn outcome(e: &'static Entry, b: &[u8]) -> String {
    let mut s = String::new();
    for ign in [true, false] {
        let c = cfg(&Limits { ignore_unknown: ign, ..limits() });
        for mode in MODES {
            if mode.ok(e) && (ign && mode.has_stream() || mode == Mode::SliceCopy) {
                let o = decode(e, mode, b, &c, &Opt::default());
                let t = match &o.dec.res {
                    Ok(v) => format!("{:?} {:?}; ", v.dyn_.norm(), o.pos),
                    Err(e) => format!("{:?} {}; ", e.kind, e.wo),
                };
                s.push_str(&t);
            }
        }
    }
    format!("{:016x} {}", hash_bytes(s.as_bytes()), s.chars().take(200).collect::<String>().replace('\n', " "))
}
/// Values and bytes with what becomes of them on this machine, one to a line:
/// type, seed, encoding of the value, bytes derived from it, their outcome.
fn lines(r: &mut Rng, n: usize) -> String {
    let types = portable();
    let mut s = String::new();
    for _ in 0..n {
        let (i, det) = *r.pick(&types);
        let e = &registry()[i];
        let seed = r.u64();
        let m = smaller(|| (e.gen)(&mut Rng::new(seed), 30));
        let own = m.to_vec().expect("encoding");
        if own.len() > 300 {
            continue;
        }
        let mut b = own.clone();
        for _ in 0..r.below(3) {
            match r.below(6) {
                0 if !b.is_empty() => b.truncate(r.usz(b.len())),
                1 => b.insert(r.usz(b.len() + 1), r.u64() as u8),
                2 if !b.is_empty() => drop(b.remove(r.usz(b.len()))),
                3 => {
                    let mut v = Vec::new();
                    varint(&mut v, edge(r));
                    let k = r.usz(b.len() + 1);
                    b.splice(k..k, v);
                }
                _ if !b.is_empty() => {
                    let k = r.usz(b.len());
                    b[k] = *r.pick(&[0, 1, 0x41, 0x42, 0x80, 0x81, 0xC0, 0xC1, 0xFF, 0x7F]);
                }
                _ => (),
            }
        }
        let o = outcome(e, &b);
        s.push_str(&format!("{} {} {} {} {}\n", i, seed, if det { enhex(&own) } else { "-".into() }, enhex(&b), o));
    }
    s
}
fn enhex(b: &[u8]) -> String {
    b.iter().fold("x".into(), |s, b| s + &format!("{:02x}", b))
}
fn unhex(s: &str) -> Vec<u8> {
    let s = s.trim_start_matches('x');
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// Compares one of these lines with what happens here.
fn line(l: &str) -> Case {
    let p: Vec<&str> = l.splitn(5, ' ').collect();
    let e = &registry()[p[0].parse::<usize>().unwrap()];
    let m = (e.gen)(&mut Rng::new(p[1].parse().unwrap()), 30);
    let own = m.to_vec().map_err(|e| e.to_string());
    if p[2] != "-" {
        ensure!(own == Ok(unhex(p[2])), "other-bytes", "{} {:?} is written {:?} here and {} there", e.name, m.dyn_(), own.map(|b| hex(&b)), &p[2][1..]);
    }
    let o = outcome(e, &unhex(p[3]));
    ensure!(o == p[4], "other-outcome", "{} reads {} as {} here and as {} there", e.name, &p[3][1..], o, p[4]);
    Ok(())
}

/// In the child: `portrun <seed> <from> <to> <milliseconds> [file of lines]`.
pub fn portrun(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, from, to, ms) = (n(0), n(1), n(2), n(3));
    let file = a.get(4).map(|f| std::fs::read_to_string(f).expect("lines")).unwrap_or_default();
    install_hook();
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let t0 = std::time::Instant::now();
        let (mut evals, mut cases, mut compared) = (0, 0, 0);
        let judge = |what: String, r: Result<Case, String>| match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) if e.sig == "ext-slice-not-consuming" => (),
            Ok(Err(e)) => println!("FAIL {} {}: {}", what, e.sig, ends(&e.msg)),
            Err(p) => println!("FAIL {} panic: {}", what, p),
        };
        for l in file.lines() {
            if t0.elapsed().as_millis() as u64 > ms / 2 {
                break;
            }
            judge("line".into(), catch(|| line(l)));
            compared += 1;
        }
        for idx in from..to {
            if t0.elapsed().as_millis() as u64 > ms {
                break;
            }
            let mut rng = Rng::new(seed ^ mix(idx));
            let (name, f) = pick(&mut rng);
            println!("CASE {} {}", idx, name);
            let mut obs = Obs::default();
            let i = rng.below(1200);
            let mut c = Ctx::inner(&mut obs, &[], "C30", rng, i, Tier::Quick);
            judge(format!("{} case {}", name, idx), catch(|| f(&mut c)));
            evals += obs.evaluations;
            cases += 1;
        }
        println!("DONE {} {} {} {} {}", cases, evals, usize::BITS, cfg!(target_endian = "big") as u8, compared);
        0
    });
    h.unwrap().join().unwrap_or(79)
}

fn machine(cx: &mut Ctx, what: &'static str, env: &str) -> Case {
    let cmd = match std::env::var(env) {
        Ok(c) => c,
        Err(_) => return fail("harness", format!("{} is not set", env)),
    };
    let (ms, limit, n) = if cx.tier == Tier::Quick { ("20000", "140", 150) } else { ("90000", "400", 800) };
    let seed = cx.rng.u64();
    let from = cx.idx * 1000;
    let path = std::env::temp_dir().join(format!("fl-port-{}-{}-{}", what, std::process::id(), cx.idx));
    if let Err(e) = std::fs::write(&path, lines(&mut cx.rng, n)) {
        return fail("harness", format!("cannot write {:?}: {}", path, e));
    }
    let mut parts = cmd.split(' ');
    let mut c = Command::new("timeout");
    c.args(["-k", "5", limit]).args(&mut parts).args(["portrun", &seed.to_string(), &from.to_string(), &(from + 1000).to_string(), ms]).arg(&path);
    let o = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output();
    let _ = std::fs::remove_file(&path);
    let o = match o {
        Ok(o) => o,
        Err(e) => return fail("harness", format!("cannot run {}: {}", cmd, e)),
    };
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    cx.eval(hash_bytes(format!("{} {}", what, seed).as_bytes()), true);
    cx.sample(|| format!("{}: workloads from {} of seed {:x}: {}", what, from, seed, text.lines().last().unwrap_or("")));
    if let Some(f) = text.lines().find(|l| l.starts_with("FAIL")) {
        return fail(what, format!("on {}: {}", what, f));
    }
    match text.lines().find(|l| l.starts_with("DONE")) {
        Some(d) if o.status.success() => {
            let d: Vec<u64> = d.split(' ').filter_map(|n| n.parse().ok()).collect();
            if what == "i686" {
                cx.count("workloads_on_i686", d[0]);
                cx.count("calls_on_i686", d[1]);
                cx.count("outcomes_compared_with_i686", d[4]);
                ensure!(d[2] == 32, "harness", "not a 32-bit machine");
            } else {
                cx.count("workloads_on_s390x", d[0]);
                cx.count("calls_on_s390x", d[1]);
                cx.count("outcomes_compared_with_s390x", d[4]);
                ensure!(d[3] == 1, "harness", "not a big-endian machine");
            }
        }
        _ => {
            cx.count("children_ended_otherwise", 1);
            let last = text.lines().filter(|l| l.starts_with("CASE")).last().unwrap_or("");
            eprintln!("{} child ended with {} in {}: {}", what, o.status, last, err.lines().filter(|l| !l.trim().is_empty()).last().unwrap_or(""));
        }
    }
    Ok(())
}
pub fn i686(cx: &mut Ctx) -> Case {
    machine(cx, "i686", "VERIF_MIRI32")
}
pub fn s390x(cx: &mut Ctx) -> Case {
    machine(cx, "s390x", "VERIF_MIRIBE")
}
