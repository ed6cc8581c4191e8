//! C28: the integer codec, and C27: tags.
use flcore::ensure;
use flcore::io::*;
use flcore::model::*;
use flcore::refparse::*;
use flcore::runner::*;
use fourleaf::stream::{self, Stream};
use fourleaf::wire;
use std::io::Read;

fn classify(e: &stream::Error) -> Option<PErr> {
    crate::read::cls(e)
}

pub fn one_int(cx: &mut Ctx, n: u64) -> Case {
    let mut want = Vec::new();
    varint(&mut want, n);
    let mut got = Vec::new();
    if let Err(e) = wire::encode_u64(&mut got, n) {
        return fail("encode", format!("encode_u64({}) failed: {}", n, e));
    }
    ensure!(got == want, "encode", "{} encoded as {} instead of {}", n, hex(&got), hex(&want));
    // followed by arbitrary bytes, exactly its own are consumed
    let mut b = got.clone();
    b.extend_from_slice(&[0xFF, 0x00, 0x80]);
    let mut rd = &b[..];
    match wire::decode_u64(&mut rd) {
        Ok(m) if m == n && b.len() - rd.len() == want.len() => (),
        x => return fail("decode", format!("{} from {}: {:?}, {} bytes used", n, hex(&want), x.ok(), b.len() - rd.len())),
    }
    // fixed width
    let mut f = Vec::new();
    if let Err(e) = wire::encode_fixed_u64(&mut f, n) {
        return fail("encode", format!("encode_fixed_u64({}) failed: {}", n, e));
    }
    let mut fw = Vec::new();
    varint_padded(&mut fw, n, 10 - want.len());
    ensure!(f == fw && f.len() == 10, "encode-fixed", "{} encoded in fixed width as {} instead of {}", n, hex(&f), hex(&fw));
    f.push(0x81);
    let mut rd = &f[..];
    match wire::decode_u64(&mut rd) {
        Ok(m) if m == n && rd.len() == 1 => (),
        x => return fail("decode", format!("{} from fixed {}: {:?}", n, hex(&f), x.ok())),
    }
    // zigzag
    let i = n as i64;
    ensure!(wire::zigzag(i) == zz(i), "zigzag", "zigzag({}) is {} instead of {}", i, wire::zigzag(i), zz(i));
    ensure!(wire::unzigzag(n) == unzz(n), "zigzag", "unzigzag({}) is {} instead of {}", n, wire::unzigzag(n), unzz(n));
    let mut s = Vec::new();
    if let Err(e) = wire::encode_i64(&mut s, i) {
        return fail("encode", format!("encode_i64({}) failed: {}", i, e));
    }
    let mut sw = Vec::new();
    varint(&mut sw, zz(i));
    ensure!(s == sw, "encode-signed", "{} encoded as {} instead of {}", i, hex(&s), hex(&sw));
    let mut rd = &s[..];
    match wire::decode_i64(&mut rd) {
        Ok(m) if m == i && rd.is_empty() => (),
        x => return fail("decode", format!("{} from {}: {:?}", i, hex(&s), x.ok())),
    }
    // every truncation is refused
    for k in 0..want.len() {
        match wire::decode_u64(&mut &want[..k]) {
            Err(ref e) if classify(e) == Some(PErr::Eof) => (),
            x => return fail("decode", format!("first {} bytes of {}: {:?}", k, hex(&want), x)),
        }
    }
    cx.eval(n, true);
    cx.count("integers_checked", 1);
    Ok(())
}
/// All values below 2^20 and all within 2^9 of a power of two.
pub fn c28_dense(cx: &mut Ctx) -> Case {
    let i = cx.idx;
    if i < 1024 {
        for n in i * 1024..(i + 1) * 1024 {
            one_int(cx, n)?;
            one_int(cx, !n)?;
        }
    } else {
        let p = 1u64 << (i - 1024);
        for d in 0..512 {
            one_int(cx, p.wrapping_add(d))?;
            one_int(cx, p.wrapping_sub(d))?;
        }
    }
    if i == 0 {
        cx.sample(|| "all integers 0..1024 and their complements".into());
    }
    Ok(())
}
pub fn c28_random(cx: &mut Ctx) -> Case {
    for _ in 0..50 {
        let n = if cx.rng.chance(1, 2) { cx.rng.int() } else { cx.rng.u64() >> cx.rng.below(64) };
        one_int(cx, n)?;
    }
    Ok(())
}
/// Padded, overflowing and absurd forms, decoded on their own and as fields.
pub fn c28_forms(cx: &mut Ctx) -> Case {
    let r = &mut cx.rng;
    let mut b = Vec::new();
    match r.below(6) {
        0 => {
            let n = r.int();
            let k = r.usz(258);
            varint_padded(&mut b, n, k);
        }
        1 => {
            // exactly at the width limits
            let n = if r.chance(1, 2) { 0 } else { r.int() };
            let mut w = Vec::new();
            varint(&mut w, n);
            let total = 250 + r.usz(14);
            varint_padded(&mut b, n, total - w.len());
        }
        2 => {
            // nine full groups, then something in the tenth or later
            for _ in 0..9 {
                b.push(0x80 | r.below(128) as u8);
            }
            let more = r.usz(4);
            for _ in 0..more {
                b.push(0x80);
            }
            b.push(r.below(128) as u8);
        }
        3 => {
            let n = 1 + r.usz(20);
            b = r.bytes(n);
        }
        4 => {
            for _ in 0..r.usz(270) {
                b.push(if r.chance(1, 40) { 0x80 | r.u64() as u8 } else { 0x80 });
            }
            b.push(r.below(3) as u8);
        }
        _ => {
            // one value bit at any place
            let k = r.usz(30);
            for _ in 0..k {
                b.push(0x80);
            }
            b.push(1 << r.below(7));
        }
    }
    if r.chance(1, 4) {
        let t = r.usz(b.len() + 1);
        b.truncate(t);
    }
    let tail = r.size(5);
    let t = r.bytes(tail);
    b.extend(t);
    cx.eval_bytes(5, &b, true);
    cx.sample(|| hex(&b));
    let mut p = RefParser::new(&b[..]);
    let want = p.int();
    let mut rd = &b[..];
    let got = wire::decode_u64(&mut rd);
    let used = (b.len() - rd.len()) as u64;
    cmp(&got, &want, Some((used, p.off)), "decode_u64", &b)?;
    let mut rd = &b[..];
    let gi = wire::decode_i64(&mut rd);
    match (&gi, &want) {
        (Ok(i), Ok(w)) if *i == unzz(*w) => (),
        (Err(_), Err(_)) => (),
        (g, w) => return fail("decode", format!("decode_i64 of {} gave {:?} instead of {:?}", hex(&b), g.as_ref().ok(), w)),
    }
    // as field, discriminant and length
    for head in [T_INT, T_ENUM, T_BLOB] {
        let mut f = vec![head | 5];
        f.extend_from_slice(&b);
        let mut s = Stream::new(TestReader::new(&f));
        let got = s.next_field().map(|f| match f.map(|f| f.value) {
            Some(stream::Value::Integer(i)) if head == T_INT => i,
            Some(stream::Value::Enum(d, _)) if head == T_ENUM => d,
            Some(stream::Value::Blob(b)) if head == T_BLOB => b.len(),
            _ => u64::MAX - 12345,
        });
        let mut want = want;
        if head == T_BLOB {
            if let Ok(n) = want {
                if n as u128 + 1 + p.off as u128 > u64::MAX as u128 {
                    want = Err(PErr::PosOverflow);
                }
            }
        }
        cmp(&got, &want, None, "field", &f)?;
    }
    cx.count(if want.is_ok() { "forms_accepted" } else { "forms_refused" }, 1);
    Ok(())
}
fn cmp(got: &stream::Result<u64>, want: &Result<u64, PErr>, used: Option<(u64, u64)>, what: &str, b: &[u8]) -> Case {
    match (got, want) {
        (Ok(g), Ok(w)) if g == w => {
            if let Some((u, v)) = used {
                ensure!(u == v, "decode", "{} of {} used {} bytes instead of {}", what, hex(b), u, v);
            }
            Ok(())
        }
        (Err(_), Err(PErr::PosOverflow)) => Ok(()),
        (Err(e), Err(w)) if classify(e) == Some(*w) => Ok(()),
        (g, w) => fail("decode", format!("{} of {} gave {:?} instead of {:?}", what, hex(b), g, w)),
    }
}
pub fn c28_descriptors(cx: &mut Ctx) -> Case {
    use wire::{Descriptor, DescriptorType as D, ParsedDescriptor as P, SpecialType as S};
    for b in 0..=255u8 {
        let want = match (b >> 6, b & 63) {
            (0, 0) => P::Special(S::EndOfStruct),
            (1, 0) => P::Special(S::EndOfDoc),
            (2, 0) => P::Special(S::Exception),
            (3, 0) => P::Special(S::Padding),
            (0, t) => P::Pair(D::Enum, t),
            (1, t) => P::Pair(D::Integer, t),
            (2, t) => P::Pair(D::Blob, t),
            (_, t) => P::Pair(D::Struct, t),
        };
        let got = Descriptor(b).parse();
        ensure!(got == want, "descriptor", "byte {:02x} parsed as {:?} instead of {:?}", b, got, want);
        ensure!(Descriptor::from(want).0 == b, "descriptor", "{:?} made into {:02x} instead of {:02x}", want, Descriptor::from(want).0, b);
        let mut rd = &[b, 7][..];
        match wire::decode_descriptor(&mut rd) {
            Ok(d) if d.0 == b && rd == &[7] => (),
            x => return fail("descriptor", format!("decode_descriptor of {:02x}: {:?}", b, x.ok())),
        }
        let mut w = Vec::new();
        ensure!(wire::encode_descriptor(&mut w, Descriptor(b)).is_ok() && w == [b], "descriptor", "encode_descriptor of {:02x} wrote {}", b, hex(&w));
        cx.eval(0x1000 + b as u64, true);
    }
    Ok(())
}

// ------------------------------------------------------------------ C27

/// One way of writing a field.
pub type WriteFn = fn(&mut Stream<TestWriter>, u8) -> stream::Result<()>;
pub const EXPECT_DATA: &[u8] = b"\x00\x40\x80\xC0 data";

macro_rules! wf {
    ($($n:expr, $ty:expr, $body:expr, $tail:expr;)*) => {
        pub fn writers() -> Vec<(&'static str, u8, WriteFn, Vec<u8>)> {
            let mut v: Vec<(&'static str, u8, WriteFn, Vec<u8>)> = Vec::new();
            $( v.push(($n, $ty, { fn f(s: &mut Stream<TestWriter>, tag: u8) -> stream::Result<()> { let g: fn(&mut Stream<TestWriter>, u8) -> stream::Result<()> = $body; g(s, tag) } f }, $tail)); )*
            v
        }
    };
}
fn field_copy(s: &mut Stream<TestWriter>, tag: u8, src: &[u8], element: bool) -> stream::Result<()> {
    let mut i = Stream::from_slice(src);
    if element {
        let mut e = i.next_element().unwrap();
        if let stream::Element::Field(ref mut f) = e {
            f.tag = tag;
        }
        s.write_element(&mut e)
    } else {
        let mut f = i.next_field().unwrap().unwrap();
        f.tag = tag;
        s.write_field(&mut f)
    }
}
use fourleaf::ser::Serialize;
use fourleaf::unknown::{UnknownField, UnknownFields};
fn blob_bytes_of(d: &[u8]) -> Vec<u8> {
    let mut v = vec![d.len() as u8];
    v.extend_from_slice(d);
    v
}
wf! {
    "write_null", T_INT, |s, t| s.write_null(t), vec![0];
    "write_u8", T_INT, |s, t| s.write_u8(t, 200), vec![0xC8, 1];
    "write_i8", T_INT, |s, t| s.write_i8(t, -3), vec![5];
    "write_u16", T_INT, |s, t| s.write_u16(t, 300), vec![0xAC, 2];
    "write_i16", T_INT, |s, t| s.write_i16(t, 64), vec![0x80, 1];
    "write_u32", T_INT, |s, t| s.write_u32(t, 1), vec![1];
    "write_i32", T_INT, |s, t| s.write_i32(t, -1), vec![1];
    "write_u64", T_INT, |s, t| s.write_u64(t, 127), vec![127];
    "write_i64", T_INT, |s, t| s.write_i64(t, 1), vec![2];
    "write_usize", T_INT, |s, t| s.write_usize(t, 9), vec![9];
    "write_isize", T_INT, |s, t| s.write_isize(t, -9), vec![17];
    "write_bool", T_INT, |s, t| s.write_bool(t, true), vec![1];
    "write_blob_data", T_BLOB, |s, t| s.write_blob_data(t, EXPECT_DATA).map(|_| ()), blob_bytes_of(EXPECT_DATA);
    "write_blob_alloc", T_BLOB, |s, t| { use std::io::Write; let mut b = s.write_blob_alloc(t, EXPECT_DATA.len() as u64)?; b.write_all(EXPECT_DATA)?; Ok(()) }, blob_bytes_of(EXPECT_DATA);
    "write_blob_dynamic", T_BLOB, |s, t| { { use std::io::Write; let mut b = s.write_blob_dynamic(t)?; b.write_all(EXPECT_DATA)?; } s.commit() }, {
        let mut v = vec![];
        varint_padded(&mut v, EXPECT_DATA.len() as u64, 9);
        v.extend_from_slice(EXPECT_DATA);
        v
    };
    "write_struct", T_STRUCT, |s, t| s.write_struct(t), vec![];
    "write_enum", T_ENUM, |s, t| s.write_enum(t, 5), vec![5];
    "write_field integer", T_INT, |s, t| field_copy(s, t, &[0x41, 7], false), vec![7];
    "write_field blob", T_BLOB, |s, t| field_copy(s, t, &[0x81, 2, 8, 9], false), vec![2, 8, 9];
    "write_field struct", T_STRUCT, |s, t| field_copy(s, t, &[0xC1], false), vec![];
    "write_field enum", T_ENUM, |s, t| field_copy(s, t, &[0x01, 3], false), vec![3];
    "write_element integer", T_INT, |s, t| field_copy(s, t, &[0x41, 7], true), vec![7];
    "write_element blob", T_BLOB, |s, t| field_copy(s, t, &[0x81, 2, 8, 9], true), vec![2, 8, 9];
    "write_element struct", T_STRUCT, |s, t| field_copy(s, t, &[0xC1], true), vec![];
    "write_element enum", T_ENUM, |s, t| field_copy(s, t, &[0x01, 3], true), vec![3];
    "u32 field", T_INT, |s, t| 7u32.serialize_field(s, t), vec![7];
    "i16 element", T_INT, |s, t| (-7i16).serialize_element(s, t), vec![13];
    "bool element", T_INT, |s, t| false.serialize_element(s, t), vec![0];
    "char field", T_INT, |s, t| 'a'.serialize_field(s, t), vec![97];
    "unit field", T_STRUCT, |s, t| ().serialize_element(s, t), vec![0];
    "str field", T_BLOB, |s, t| "ab".serialize_field(s, t), vec![2, 97, 98];
    "byte vector field", T_BLOB, |s, t| vec![1u8, 2].serialize_field(s, t), vec![2, 1, 2];
    "byte array element", T_BLOB, |s, t| [1u8, 2].serialize_element(s, t), vec![2, 1, 2];
    "integer vector field", T_INT, |s, t| vec![5u16].serialize_field(s, t), vec![5];
    "integer vector element", T_STRUCT, |s, t| vec![5u16].serialize_element(s, t), vec![0x41, 5, 0];
    "tuple field", T_STRUCT, |s, t| (1u8, 2u8).serialize_field(s, t), vec![0x41, 1, 0x42, 2, 0];
    "option field", T_INT, |s, t| Some(3u8).serialize_field(s, t), vec![3];
    "result field", T_ENUM, |s, t| { let r: Result<u8, u8> = Ok(1); r.serialize_field(s, t) }, vec![1, 0x41, 1, 0];
    "map field", T_STRUCT, |s, t| { let mut m = std::collections::BTreeMap::new(); m.insert(1u8, 2u8); m.serialize_field(s, t) }, vec![0x41, 1, 0x42, 2, 0];
    "duration field", T_STRUCT, |s, t| std::time::Duration::new(1, 2).serialize_field(s, t), vec![0x41, 1, 0x42, 2, 0];
    "address field", T_BLOB, |s, t| std::net::Ipv4Addr::new(1, 2, 3, 4).serialize_field(s, t), vec![4, 1, 2, 3, 4];
    "unknown integer", T_INT, |s, t| UnknownField::Integer(4).serialize_element(s, t), vec![4];
    "unknown blob", T_BLOB, |s, t| UnknownField::Blob(vec![4].into()).serialize_field(s, t), vec![1, 4];
    "unknown struct", T_STRUCT, |s, t| UnknownField::Struct(UnknownFields(vec![])).serialize_field(s, t), vec![0];
    "unknown enum", T_ENUM, |s, t| UnknownField::Enum(9, UnknownFields(vec![])).serialize_field(s, t), vec![9, 0];
    "unknown fields", T_INT, |s, t| UnknownFields(vec![(t, UnknownField::Integer(1))]).serialize_body(s), vec![1, 0];
}

/// Every tag value through every writing function. `prior`: what the stream
/// has just done.
pub fn tag_case(w: &(&'static str, u8, WriteFn, Vec<u8>), tag: u8, prior: u32) -> Result<bool, Fail> {
    let tw = TestWriter::new();
    let mut s = Stream::new(tw.clone());
    let ok = match prior {
        0 => Ok(()),
        1 => s.write_u64(63, 1),
        2 => s.write_struct(1),
        _ => s.write_blob_data(2, b"xyz").map(|_| ()),
    };
    if let Err(e) = ok {
        return fail("tag", format!("preparation failed: {}", e));
    }
    let before = tw.data();
    let r = catch(|| (w.2)(&mut s, tag));
    let after = tw.data();
    let valid = tag >= 1 && tag <= 63;
    match r {
        Ok(Ok(())) if valid => {
            let mut want = before.clone();
            want.push(w.1 | tag);
            want.extend_from_slice(&w.3);
            ensure!(after == want, "tag-written", "{} with tag {} wrote {} instead of {}", w.0, tag, hex(&after), hex(&want));
            // the reader reports the same tag and type
            let mut rs = Stream::from_slice(&after[before.len()..]);
            let got = match rs.next_field() {
                Ok(Some(f)) => (
                    f.tag,
                    match f.value {
                        stream::Value::Integer(_) => T_INT,
                        stream::Value::Blob(_) => T_BLOB,
                        stream::Value::Struct(_) => T_STRUCT,
                        stream::Value::Enum(..) => T_ENUM,
                    },
                ),
                x => return fail("tag-read", format!("{} with tag {} read back as {}", w.0, tag, crate::read::show_field(&x))),
            };
            ensure!(got == (tag, w.1), "tag-read", "{} with tag {} read back as {:?}", w.0, tag, got);
            Ok(true)
        }
        Err(_) if !valid => {
            ensure!(after == before, "tag-panic-wrote", "{} with tag {} panicked after writing {}", w.0, tag, hex(&after[before.len()..]));
            Ok(true)
        }
        Ok(x) if !valid => fail("invalid-tag-accepted", format!("{} with tag {} returned {:?} and wrote {}", w.0, tag, x.map_err(|e| e.to_string()), hex(&after[before.len()..]))),
        Ok(Err(e)) => fail("tag", format!("{} with tag {} failed: {}", w.0, tag, e)),
        Err(p) => fail("tag", format!("{} with tag {} panicked: {}", w.0, tag, p)),
        Ok(Ok(())) => unreachable!(),
    }
}
/// One writing function per case.
pub fn c27(cx: &mut Ctx) -> Case {
    let ws = writers();
    let w = &ws[(cx.idx % ws.len() as u64) as usize];
    for tag in 0..=255u8 {
        for prior in 0..4 {
            tag_case(w, tag, prior)?;
            cx.eval(cx.idx << 20 | (tag as u64) << 4 | prior as u64, true);
            cx.count(if tag >= 1 && tag <= 63 { "valid_tags_written_and_read" } else { "invalid_tags_refused" }, 1);
        }
    }
    cx.sample(|| format!("{} with tags 0 to 255", w.0));
    Ok(())
}
pub fn c27_count() -> u64 {
    writers().len() as u64
}
/// The same in a build without debug assertions and overflow checks.
pub fn c27_release(cx: &mut Ctx) -> Case {
    let exe = match std::env::var("VERIF_REL") {
        Ok(e) => e,
        Err(_) => return fail("harness", "VERIF_REL is not set".into()),
    };
    let mut ch = std::process::Command::new(&exe).arg("tags").stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| Fail { sig: "harness".into(), msg: format!("{}: {}", exe, e) })?;
    let mut out = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut out);
    let st = ch.wait();
    let mut done = 0;
    for l in out.lines() {
        if let Some(m) = l.strip_prefix("FAIL ") {
            let mut it = m.splitn(2, ' ');
            let (sig, msg) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
            return fail(&format!("release-{}", sig), format!("without debug assertions: {}", msg));
        }
        if let Some(n) = l.strip_prefix("DONE ") {
            done = n.trim().parse().unwrap_or(0);
        }
    }
    ensure!(done > 0, "release-crash", "release-mode sweep did not finish: {:?}", st);
    cx.count("writes_checked_without_debug_assertions", done);
    cx.eval(1 << 60, true);
    Ok(())
}
pub fn release_main() {
    let mut n = 0u64;
    for w in writers().iter() {
        for tag in 0..=255u8 {
            for prior in 0..4 {
                match tag_case(w, tag, prior) {
                    Ok(_) => n += 1,
                    Err(f) => {
                        println!("FAIL {} {}", f.sig, f.msg);
                        return;
                    }
                }
            }
        }
    }
    // the codec as well
    let mut r = flcore::rng::Rng::new(7);
    let mut obs = Obs::default();
    let known = [];
    let mut cx = Ctx::plain(&mut obs, &known);
    for i in 0..200_000u64 {
        let v = if i < 70_000 { i } else { r.int() };
        if let Err(f) = one_int(&mut cx, v) {
            println!("FAIL {} {}", f.sig, f.msg);
            return;
        }
        n += 1;
    }
    println!("DONE {}", n);
}
