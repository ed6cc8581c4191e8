//! Typed decoding from the readers of the standard library, unsized values,
//! and the large arrays.
use crate::util::*;
use flcore::ensure;
use flcore::io::*;
use flcore::model::*;
use flcore::rng::Rng;
use flcore::runner::*;
use flcore::schema::*;
use flreg::desc::{Desc, Gen};
use flreg::user::*;
use flreg::*;
use fourleaf::adapt::Copied;
use fourleaf::de::{self, style, Config, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::ser;
use fourleaf::stream::Stream;
use fourleaf::unknown::{UnknownField, UnknownFields};
use std::borrow::Cow;
use std::collections::*;
use std::io::{BufReader, Cursor, Read};
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

// --------------------------------------------------------------- readers
struct Got {
    how: &'static str,
    zc: bool,
    out: Out,
}
fn out<R: Read>(dec: Dec, s: Stream<R>, at: impl Fn(&R) -> Option<u64>) -> Out {
    Out { dec, pos: Some(s.pos()), inner: at(s.get_ref()), eof: Some(s.eof()), io: None }
}
fn st<R: Read>(mut s: Stream<R>, base: u64) -> Stream<R> {
    s.set_pos(base);
    s
}
fn copying<R: Read, T: Desc + Deserialize<R, style::Copying>>(how: &'static str, mut s: Stream<R>, c: &Config, at: impl Fn(&R) -> Option<u64>) -> Got {
    let dec = dec_copy::<R, T>(&mut s, c);
    Got { how, zc: false, out: out(dec, s, at) }
}
fn borrowing<R: Read, T: Desc + Deserialize<R, style::ZeroCopy>>(how: &'static str, mut s: Stream<R>, c: &Config, at: impl Fn(&R) -> Option<u64>) -> Got {
    let dec = dec_borrow::<R, T>(&mut s, c);
    Got { how, zc: true, out: out(dec, s, at) }
}
type All = for<'a> fn(&'a [u8], &Config, u64, u64) -> Vec<Got>;
macro_rules! kinds {
    (@copy $v:ident $b:ident $c:ident $base:ident $seed:ident $t:ty) => {
        let n = $b.len() as u64;
        $v.push(copying::<_, $t>("&[u8]", st(Stream::new($b), $base), $c, |r: &&[u8]| Some(n - r.len() as u64)));
        $v.push(copying::<_, $t>("Cursor<&[u8]>", st(Stream::new(Cursor::new($b)), $base), $c, |r| Some(r.position())));
        $v.push(copying::<_, $t>("seeking Cursor<Vec<u8>>", st(Stream::new_seek(Cursor::new($b.to_vec())), $base), $c, |r| Some(r.position())));
        $v.push(copying::<_, $t>("owned slice", st(Stream::from_slice($b.to_vec()), $base), $c, |r| Some(r.0.position())));
        $v.push(copying::<_, $t>("TransparentCursor without seeking", st(Stream::new(TransparentCursor(Cursor::new($b))), $base), $c, |r| Some(r.0.position())));
        let cap = 1 + ($seed % 29) as usize;
        $v.push(copying::<_, $t>("BufReader", st(Stream::new_seek(BufReader::with_capacity(cap, Cursor::new($b))), $base), $c,
            |r| Some(r.get_ref().position() - r.buffer().len() as u64)));
        let mid = ($seed >> 8) as usize % ($b.len() + 1);
        $v.push(copying::<_, $t>("Chain", st(Stream::new(($b[..mid]).chain(&$b[mid..])), $base), $c, |_| None));
        $v.push(copying::<_, $t>("Take", st(Stream::new(($b).take(n)), $base), $c, |r| Some(n - r.limit())));
        $v.push(copying::<_, $t>("VecDeque", st(Stream::new($b.iter().cloned().collect::<VecDeque<u8>>()), $base), $c, |r| Some(n - r.len() as u64)));
        {
            let mut r = Cursor::new($b);
            let g = copying::<&mut dyn Read, $t>("&mut dyn Read", st(Stream::new(&mut r), $base), $c, |_| None);
            $v.push(g);
            let p = r.position();
            $v.last_mut().unwrap().out.inner = Some(p);
        }
    };
    (@zc $v:ident $b:ident $c:ident $base:ident $seed:ident $t:ty) => {
        let n = $b.len() as u64;
        $v.push(borrowing::<_, $t>("&[u8]", st(Stream::new($b), $base), $c, |r: &&[u8]| Some(n - r.len() as u64)));
        $v.push(borrowing::<_, $t>("Cursor<&[u8]>", st(Stream::new(Cursor::new($b)), $base), $c, |r| Some(r.position())));
        $v.push(borrowing::<_, $t>("seeking Cursor<&[u8]>", st(Stream::new_seek(Cursor::new($b)), $base), $c, |r| Some(r.position())));
        $v.push(borrowing::<_, $t>("TransparentCursor without seeking", st(Stream::new(TransparentCursor(Cursor::new($b))), $base), $c, |r| Some(r.0.position())));
    };
    // types which own their data can be read in zero-copy style from anything
    (@own $v:ident $b:ident $c:ident $base:ident $seed:ident $t:ty) => {
        $v.push(borrowing::<_, $t>("reader", st(Stream::new(TestReader::new($b)), $base), $c, |r| Some(r.pos())));
        $v.push(borrowing::<_, $t>("seekable reader", st(Stream::new_seek(TestReader::new($b)), $base), $c, |r| Some(r.pos())));
    };
    (@styles [$($k:ident)*] $v:ident $b:ident $c:ident $base:ident $seed:ident $t:ty) => {
        $( kinds!(@$k $v $b $c $base $seed $t); )*
    };
    ($l:ident, $k:tt $($t:ty),* $(,)*) => { $( {
        fn all<'x>(b: &'x [u8], c: &Config, base: u64, seed: u64) -> Vec<Got> {
            let mut v = Vec::new();
            let _ = seed;
            kinds!(@styles $k v b c base seed $t);
            v
        }
        let e = registry().iter().find(|e| e.name == stringify!($t)).expect(stringify!($t));
        $l.push((e, all as All));
    } )* };
}
fn table() -> &'static [(&'static Entry, All)] {
    static T: std::sync::OnceLock<Vec<(&'static Entry, All)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut l: Vec<(&'static Entry, All)> = Vec::new();
        kinds!(l, [copy zc own] u8, u64, i32, char, (), String, Vec<u8>, Vec<u16>, Vec<String>, Option<String>, [u8; 17], [u8; 256], [u16; 64], [String; 2],
            Result<u32, String>, IpAddr, SocketAddr, Duration, BTreeMap<String, Vec<u8>>, HashSet<String>, VecDeque<Vec<u8>>, S1, S2, E0, DList, DBytes, EDel,
            Tree, (u8, String, bool, Vec<u8>), Copied<Vec<u8>>, Box<Rc<Arc<char>>>);
        kinds!(l, [copy zc] Cow<'x, str>, Cow<'x, [u8]>, Vec<Cow<'x, str>>, BTreeMap<Cow<'x, str>, Cow<'x, [u8]>>, UnknownFields<'x>, UnknownField<'x>, UZ<'x>, G<Cow<'x, str>>,
            (Cow<'x, str>, Copied<Cow<'x, [u8]>>, String), U1, U2, UE);
        kinds!(l, [zc] &'x str, &'x [u8], Vec<&'x str>, BTreeMap<&'x str, &'x [u8]>, BS<'x>, Result<&'x str, &'x [u8]>);
        l
    })
}
/// One input through the readers of the standard library, in both styles.
pub fn c12_readers(cx: &mut Ctx) -> Case {
    let t = table();
    let (e, all) = t[(cx.idx % t.len() as u64) as usize];
    let (mut bytes, lim) = if cx.rng.chance(1, 2) {
        (gen_for(e, &mut cx.rng).bytes, ROOMY)
    } else {
        let l = rand_limits(&mut cx.rng);
        (hostile(e, &mut cx.rng), l)
    };
    for _ in 0..cx.rng.below(5) {
        bytes.push(cx.rng.u64() as u8);
    }
    let base = if cx.rng.chance(1, 4) { cx.rng.int() >> 1 } else { 0 };
    let seed = cx.rng.u64();
    let refs = [false, true].map(|z| ref_decode_at(e.schema(z), &bytes, lim, base, false));
    cx.eval_bytes(cx.idx % t.len() as u64, &bytes, bytes.len() > 1);
    cx.sample(|| format!("{} {}", e.name, hex(&bytes)));
    for g in all(&bytes, &cfg(&lim), base, seed) {
        if let Err(x) = agree(&g.out, &refs[g.zc as usize], base) {
            return fail(
                "reader-dependent",
                format!("{} from {} ({}) base {} {:?}: {} -> {}", e.name, g.how, if g.zc { "borrowing" } else { "copying" }, base, lim, hex(&bytes), x),
            );
        }
        if let Ok(v) = &g.out.dec.res {
            cx.count("values_read", 1);
            if g.zc {
                cx.count("loans_seen", v.loans.len() as u64);
            }
        } else {
            cx.count("refusals_compared", 1);
        }
    }
    Ok(())
}

// --------------------------------------------------------------- unsized
fn same<T: ser::Serialize>(cx: &mut Ctx, what: &str, got: T, want: &[u8], d: &Dyn) -> Case {
    match ser::to_vec(got) {
        Ok(b) => ensure!(b == want, "wrapper-visible", "{} of {}: wrote {} but the format prescribes {}", what, short(d), hex(&b), hex(want)),
        Err(e) => return fail("ser-error", format!("{} of {}: {}", what, short(d), e)),
    }
    cx.count("unsized_values_compared", 1);
    Ok(())
}
fn slices<T: Desc + Gen + ser::Serialize + Clone + 'static>(cx: &mut Ctx) -> Case
where
    Vec<T>: Desc + Gen,
{
    let mut b = 40;
    let mut v: Vec<T> = Gen::gen(&mut cx.rng, &mut b);
    let d = v.to_dyn();
    let s = <Vec<T> as Desc>::schema(false);
    let top = encode(&s.enc_body(&d));
    cx.eval_bytes(0, &top, top.len() > 1);
    let bx: Box<[T]> = v.clone().into_boxed_slice();
    let rc: Rc<[T]> = Rc::from(v.clone());
    let ar: Arc<[T]> = Arc::from(v.clone());
    let cow: Cow<[T]> = Cow::Borrowed(&v[..]);
    same(cx, "a slice", &v[..], &top, &d)?;
    same(cx, "a reference to a slice", &&v[..], &top, &d)?;
    same(cx, "Box<[T]>", &bx, &top, &d)?;
    same(cx, "Rc<[T]>", &rc, &top, &d)?;
    same(cx, "Arc<[T]>", ar.clone(), &top, &d)?;
    same(cx, "Cow<[T]>", &cow, &top, &d)?;
    same(cx, "Box<Vec<T>>", Box::new(v.clone()), &top, &d)?;
    same(cx, "Box<Rc<[T]>>", Box::new(rc.clone()), &top, &d)?;
    // (field, [element], Option of element)
    let ts = tup_schema(vec![s.clone(), Arc::new(Schema::Seq(SeqKind::List, s.clone())), Arc::new(Schema::Opt(s.clone()))]);
    let td = Dyn::Tup(vec![d.clone(), Dyn::Seq(SeqKind::List, vec![d.clone(), d.clone()]), Dyn::Opt(Some(Box::new(d.clone())))]);
    let want = encode(&ts.enc_body(&td));
    same(cx, "slices in a tuple", (&v[..], [&v[..], &v[..]], Some(&v[..])), &want, &d)?;
    same(cx, "boxed slices in a tuple", (&bx, vec![bx.clone(), bx.clone()], Some(&bx)), &want, &d)?;
    same(cx, "shared slices in a tuple", (rc.clone(), [&rc, &rc], Some(&rc)), &want, &d)?;
    same(cx, "atomically shared slices in a tuple", (&ar, &[ar.clone(), ar.clone()][..], Some(Box::new(ar.clone()))), &want, &d)?;
    same(cx, "Cow in a tuple", (&cow, LinkedList::from([cow.clone(), cow.clone()]), Some(cow.clone())), &want, &d)?;
    same(cx, "mixed", (&cow, VecDeque::from(vec![v.clone(), v.clone()]), Some(Copied(&v[..]))), &want, &d)?;
    let mut w = v.clone();
    same(cx, "mutable slices", (&mut v[..], [&w, &w], None::<&[T]>), &{
        let td = Dyn::Tup(vec![d.clone(), Dyn::Seq(SeqKind::List, vec![d.clone(), d.clone()]), Dyn::Opt(None)]);
        encode(&ts.enc_body(&td))
    }, &d)?;
    let _ = &mut w;
    Ok(())
}
fn texts(cx: &mut Ctx) -> Case {
    let mut b = 40;
    let v: String = Gen::gen(&mut cx.rng, &mut b);
    let d = v.to_dyn();
    let s = <String as Desc>::schema(false);
    let top = encode(&s.enc_body(&d));
    cx.eval_bytes(0, &top, top.len() > 1);
    let bx: Box<str> = v.clone().into_boxed_str();
    let rc: Rc<str> = Rc::from(&v[..]);
    let ar: Arc<str> = Arc::from(&v[..]);
    let cow: Cow<str> = Cow::Borrowed(&v[..]);
    same(cx, "&str", &v[..], &top, &d)?;
    same(cx, "&&&str", &&&v[..], &top, &d)?;
    same(cx, "Box<str>", &bx, &top, &d)?;
    same(cx, "Rc<str>", &rc, &top, &d)?;
    same(cx, "Arc<str>", &ar, &top, &d)?;
    same(cx, "Cow<str>", &cow, &top, &d)?;
    let ts = tup_schema(vec![s.clone(), Arc::new(Schema::Seq(SeqKind::List, s.clone())), Arc::new(Schema::Opt(s.clone()))]);
    let td = Dyn::Tup(vec![d.clone(), Dyn::Seq(SeqKind::List, vec![d.clone(), d.clone()]), Dyn::Opt(Some(Box::new(d.clone())))]);
    let want = encode(&ts.enc_body(&td));
    same(cx, "strs in a tuple", (&v[..], [&v[..], &v[..]], Some(&v[..])), &want, &d)?;
    same(cx, "boxed strs in a tuple", (&bx, vec![bx.clone(), bx.clone()], Some(&bx)), &want, &d)?;
    same(cx, "shared strs in a tuple", (rc.clone(), [&rc, &rc], Some(&ar)), &want, &d)?;
    same(cx, "Cow in a tuple", (&cow, LinkedList::from([cow.clone(), cow.clone()]), Some(Copied(&bx))), &want, &d)?;
    Ok(())
}
pub fn c02_unsized(cx: &mut Ctx) -> Case {
    match cx.idx % 12 {
        0 => texts(cx),
        1 => slices::<u8>(cx),
        2 => slices::<u16>(cx),
        3 => slices::<i8>(cx),
        4 => slices::<String>(cx),
        5 => slices::<Vec<u8>>(cx),
        6 => slices::<Option<u8>>(cx),
        7 => slices::<(u8, String)>(cx),
        8 => slices::<[u8; 3]>(cx),
        9 => slices::<()>(cx),
        10 => slices::<Vec<Vec<u8>>>(cx),
        _ => slices::<Result<u8, bool>>(cx),
    }
}

// ---------------------------------------------------------- large arrays
fn array<const N: usize>(seed: u64) -> Case
where
    [u8; N]: for<'a> Deserialize<TransparentCursor<&'a [u8]>> + Deserialize<TestReader> + ser::Serialize,
{
    let mut r = Rng::new(seed);
    let x = r.u64();
    let mut data: Vec<u8> = (0..N).map(|i| (i as u64 ^ x ^ (i as u64 >> 8)) as u8).collect();
    data[N - 1] = !data[N - 1];
    let a: Box<[u8; N]> = data.clone().try_into().unwrap_or_else(|_| unreachable!());
    let msg = |d: &[u8]| {
        let mut m = vec![T_BLOB | 1];
        varint(&mut m, d.len() as u64);
        m.extend_from_slice(d);
        m.push(0);
        m
    };
    let want = msg(&data);
    let got = ser::to_vec(&*a);
    ensure!(got.as_ref().ok() == Some(&want), "large-array", "[u8; {}] is not written as a blob of its content", N);
    let c = Config::default();
    match de::from_slice_copy::<Box<[u8; N]>>(&want, &c) {
        Ok(b) => ensure!(b[..] == data[..], "large-array", "[u8; {}] comes back changed", N),
        Err(e) => return fail("large-array", format!("[u8; {}] cannot be read back: {}", N, e)),
    }
    let plan = Plan { chunks: vec![1 + r.usz(N), 4096], ..Default::default() };
    match de::from_reader::<_, Box<[u8; N]>>(TestReader::with(&want, plan), &c) {
        Ok(b) => ensure!(b[..] == data[..], "large-array", "[u8; {}] comes back changed from a reader", N),
        Err(e) => return fail("large-array", format!("[u8; {}] cannot be read back: {}", N, e)),
    }
    // other sizes, a repetition, a cut
    let short = msg(&data[1..]);
    let mut long = data.clone();
    long.push(7);
    let long = msg(&long);
    let mut twice = want[..want.len() - 1].to_vec();
    twice.extend_from_slice(&want);
    let cut = &want[..want.len() - 2];
    for (what, m) in [("a shorter blob", &short[..]), ("a longer blob", &long), ("two blobs", &twice), ("a cut blob", cut), ("nothing", &[0][..])] {
        ensure!(de::from_slice_copy::<Box<[u8; N]>>(m, &c).is_err(), "large-array", "[u8; {}] is read from {}", N, what);
    }
    Ok(())
}
fn elements<const N: usize>(seed: u64) -> Case
where
    [u16; N]: for<'a> Deserialize<TransparentCursor<&'a [u8]>> + ser::Serialize,
{
    let mut r = Rng::new(seed);
    let data: Vec<u16> = (0..N).map(|_| r.int() as u16).collect();
    let a: Box<[u16; N]> = data.clone().try_into().unwrap_or_else(|_| unreachable!());
    let msg = |d: &[u16]| {
        let mut m = Vec::new();
        for x in d {
            m.push(T_INT | 1);
            varint(&mut m, *x as u64);
        }
        m.push(0);
        m
    };
    let want = msg(&data);
    ensure!(ser::to_vec(&*a).ok().as_ref() == Some(&want), "large-array", "[u16; {}] is not written element by element", N);
    let mut c = Config::default();
    c.max_collect = 0;
    match de::from_slice_copy::<Box<[u16; N]>>(&want, &c) {
        Ok(b) => ensure!(b[..] == data[..], "large-array", "[u16; {}] comes back changed", N),
        Err(e) => return fail("large-array", format!("[u16; {}] cannot be read back: {}", N, e)),
    }
    let mut more = data.clone();
    more.push(1);
    for (what, m) in [("one element fewer", msg(&data[1..])), ("one element more", msg(&more)), ("nothing", vec![0])] {
        ensure!(de::from_slice_copy::<Box<[u16; N]>>(&m, &c).is_err(), "large-array", "[u16; {}] is read from {}", N, what);
    }
    Ok(())
}
pub fn c01_large(cx: &mut Ctx) -> Case {
    let seed = cx.rng.u64();
    macro_rules! sizes {
        ($($n:tt)*) => { [$( ($n as usize, array::<$n> as fn(u64) -> Case, elements::<$n> as fn(u64) -> Case) ),*] };
    }
    let all = sizes!(64 128 256 512 1024 2048 4096 8192 16384 32768 65536 131072 262144 524288 1048576 2097152 4194304 8388608 16777216);
    let big = if cx.tier == Tier::Quick { 2 } else { 4 };
    let (n, a, e) = all[(cx.idx % all.len() as u64) as usize];
    cx.eval(seed ^ n as u64, true);
    cx.count("large_arrays", 1);
    // these types live on the stack, several times over
    let stack = (64 << 20) + 40 * n;
    let res = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, move || {
                a(seed)?;
                if n <= 65536 << big {
                    e(seed)?;
                }
                Ok(())
            })
            .unwrap()
            .join()
    });
    match res {
        Ok(r) => r,
        Err(_) => fail("panic", format!("an array of {} elements makes a call panic", n)),
    }
}
