//! An older program (types with catch-alls) edits messages of a newer one.
use flcore::rng::Rng;
use flcore::schema::*;
use flreg::desc::{sst, st, Desc, Gen, Loan};
use flreg::user::*;
use fourleaf::de::{self, Config};
use std::collections::BTreeMap;
use std::sync::Arc;

ustruct!(F1 { 1 a: u32, 5 s: Option<String>, 9 v: Vec<u16>, 2 x: Vec<String>, 3 y: Option<S1>, 40 z: E0, 60 m: BTreeMap<u8, Vec<u8>>, 63 n: i64 });
uenum!(FE { 1 Foo { 1 a: u32, 2 b: String, 3 c: Vec<i32>, 63 d: Option<Box<F1>> }, 2 Bar { 1 b: String }, 0 New { 1 a: Vec<u16>, 2 s: F1 },
    900 L { 7 q: Vec<FQ> }, 18446744073709551615 Max {} });
ustruct!(FQ { 1 e: E0, 62 l: Vec<Vec<u8>> });
ustruct!(F2 { 2 inner: F1, 3 list: Vec<F1>, 63 o: Option<Box<F1>>, 7 e: Vec<FE>, 20 extra: Vec<FE>, 21 t: (u8, String) });
ustruct!(FZ { 1 a: u32, 2 s: Option<String>, 3 x: F1, 62 y: Vec<Vec<u8>>, 7 e: Vec<FE> });

fn edit1(a: &mut u32, s: &mut Option<String>, v: &mut Vec<u16>, k: u64) {
    *a = a.wrapping_add(k as u32);
    if k & 1 == 1 {
        *s = Some(format!("edited {}", k));
    } else if k & 6 == 0 {
        *s = None;
    }
    if k & 8 == 8 {
        v.push(k as u16);
    } else if k & 16 == 16 {
        v.clear();
    }
}
fn edit_f1(x: &mut F1, k: u64) {
    edit1(&mut x.a, &mut x.s, &mut x.v, k)
}
fn edit_u1(x: &mut U1, k: u64) {
    edit1(&mut x.a, &mut x.s, &mut x.v, k)
}
fn edit_fe(e: &mut FE, k: u64) {
    match e {
        FE::Foo { a, .. } => *a ^= k as u32,
        FE::Bar { b } => b.push('!'),
        _ => (),
    }
}
fn edit_ue(e: &mut UE, k: u64) {
    match e {
        UE::Foo(a, _) => *a ^= k as u32,
        UE::Bar(b) => b.push('!'),
        _ => (),
    }
}
/// structural edits common to both views of a list
fn edit_list<T>(l: &mut Vec<T>, k: u64, f: fn(&mut T, u64)) {
    if l.len() > 1 && k & 32 == 32 {
        l.remove(k as usize % l.len());
    }
    if l.len() > 1 && k & 64 == 64 {
        l.reverse();
    }
    for (i, x) in l.iter_mut().enumerate() {
        f(x, k.rotate_left(i as u32 * 5));
    }
}

/// Outcome: what the full schema sees afterwards and what it should see.
pub struct Rmw {
    pub name: &'static str,
    pub run: fn(&mut Rng, &Config) -> Result<(Dyn, Dyn, Vec<u8>, Vec<u8>), String>,
}
macro_rules! rmw {
    ($v:ident, $name:expr, $full:ty, $old:ty, $dec:path, $ef:expr, $eo:expr) => {{
        fn run(r: &mut Rng, c: &Config) -> Result<(Dyn, Dyn, Vec<u8>, Vec<u8>), String> {
            let mut b = *r.pick(&[10i64, 40, 120]);
            let mut full: $full = Gen::gen(r, &mut b);
            let bytes = fourleaf::to_vec(&full).map_err(|e| e.to_string())?;
            let k = r.u64();
            let mut again = bytes.clone();
            // several rounds through the older program
            for i in 0..1 + r.below(3) {
                let k = k.rotate_left(i as u32 * 7);
                let out = {
                    let mut old: $old = $dec(&again[..], c).map_err(|e| format!("older program cannot read {}: {}", flcore::model::hex(&again), e))?;
                    ($eo)(&mut old, k);
                    fourleaf::to_vec(&old).map_err(|e| e.to_string())?
                };
                ($ef)(&mut full, k);
                again = out;
            }
            let seen: $full = de::from_slice_copy(&again[..], c).map_err(|e| format!("full schema cannot read {}: {}", flcore::model::hex(&again), e))?;
            Ok((seen.to_dyn().norm(), full.to_dyn().norm(), bytes, again))
        }
        $v.push(Rmw { name: $name, run });
    }};
}
fn edit_f2(x: &mut F2, k: u64) {
    edit_f1(&mut x.inner, k);
    edit_list(&mut x.list, k, edit_f1);
    if let Some(o) = x.o.as_mut() {
        edit_f1(o, k / 3);
    }
    edit_list(&mut x.e, k / 5, edit_fe);
}
fn edit_u2(x: &mut U2, k: u64) {
    edit_u1(&mut x.inner, k);
    edit_list(&mut x.list, k, edit_u1);
    if let Some(o) = x.o.as_mut() {
        edit_u1(o, k / 3);
    }
    edit_list(&mut x.e, k / 5, edit_ue);
}
fn edit_fz(x: &mut FZ, k: u64) {
    x.a ^= k as u32;
    if k & 1 == 1 {
        x.s = Some(format!("edited {}", k));
    }
}
fn edit_uz(x: &mut UZ, k: u64) {
    x.a ^= k as u32;
    if k & 1 == 1 {
        x.s = Some(format!("edited {}", k).into());
    }
}

pub fn all() -> &'static Vec<Rmw> {
    static P: std::sync::OnceLock<Vec<Rmw>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::new();
        rmw!(v, "struct, copying", F1, U1, de::from_slice_copy, edit_f1, edit_u1);
        rmw!(v, "struct, borrowing", F1, U1, de::from_slice_borrow, edit_f1, edit_u1);
        rmw!(v, "struct, reader", F1, U1, de::from_reader, edit_f1, edit_u1);
        rmw!(v, "nothing known", F2, U0, de::from_slice_copy, |_: &mut F2, _| (), |_: &mut U0, _| ());
        rmw!(v, "nothing known, reader", F2, U0, de::from_reader, |_: &mut F2, _| (), |_: &mut U0, _| ());
        rmw!(v, "nested, copying", F2, U2, de::from_slice_copy, edit_f2, edit_u2);
        rmw!(v, "nested, borrowing", F2, U2, de::from_slice_borrow, edit_f2, edit_u2);
        rmw!(v, "nested, reader", F2, U2, de::from_reader, edit_f2, edit_u2);
        rmw!(v, "enum, copying", FE, UE, de::from_slice_copy, edit_fe, edit_ue);
        rmw!(v, "enum, borrowing", FE, UE, de::from_slice_borrow, edit_fe, edit_ue);
        rmw!(v, "list of enums", Vec<FE>, Vec<UE>, de::from_slice_copy, |x: &mut Vec<FE>, k| edit_list(x, k, edit_fe), |x: &mut Vec<UE>, k| edit_list(x, k, edit_ue));
        rmw!(v, "borrowed catch-all, copying", FZ, UZ, de::from_slice_copy, edit_fz, edit_uz);
        rmw!(v, "borrowed catch-all, borrowing", FZ, UZ, de::from_slice_borrow, edit_fz, edit_uz);
        rmw!(v, "borrowed catch-all, reader", FZ, UZ<'static>, de::from_reader, edit_fz, edit_uz);
        rmw!(v, "generic container, copying", F2, fourleaf::unknown::UnknownFields, de::from_slice_copy, |_: &mut F2, _| (), |_: &mut fourleaf::unknown::UnknownFields, _| ());
        rmw!(v, "generic container, borrowing", F2, fourleaf::unknown::UnknownFields, de::from_slice_borrow, |_: &mut F2, _| (), |_: &mut fourleaf::unknown::UnknownFields, _| ());
        rmw!(v, "generic container, reader", FZ, fourleaf::unknown::UnknownFields<'static>, de::from_reader, |_: &mut FZ, _| (), |_: &mut fourleaf::unknown::UnknownFields<'static>, _| ());
        v
    })
}
