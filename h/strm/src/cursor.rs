//! C16: the cursors blobs are sliced from. A TransparentCursor is a
//! std::io::Cursor which in addition exposes its unconsumed bytes.
use flcore::ensure;
use flcore::model::hex;
use flcore::rng::Rng;
use flcore::runner::*;
use fourleaf::io::{AsExtBytes, TransparentCursor};
use std::io::{BufRead, Cursor, Read, Seek, SeekFrom, Write};

/// The documented meaning: everything from the position on.
fn rest(data: &[u8], pos: u64) -> Vec<u8> {
    data.iter().skip(pos.min(data.len() as u64) as usize).copied().collect()
}
fn same<T: PartialEq + std::fmt::Debug>(op: &str, a: std::io::Result<T>, b: std::io::Result<T>) -> Result<(), String> {
    let k = |r: std::io::Result<T>| r.map_err(|e| (e.kind(), e.to_string()));
    let (a, b) = (k(a), k(b));
    if a == b {
        Ok(())
    } else {
        Err(format!("{}: {:?} instead of {:?}", op, a, b))
    }
}
fn target(r: &mut Rng, len: usize) -> SeekFrom {
    let near = |r: &mut Rng| r.below(2 * len as u64 + 4) as i64 - len as i64 - 2;
    match r.below(6) {
        0 => SeekFrom::Start(r.int()),
        1 => SeekFrom::End(near(r)),
        2 => SeekFrom::Current(near(r)),
        3 => SeekFrom::Current(r.int() as i64),
        4 => SeekFrom::End(r.int() as i64),
        _ => SeekFrom::Start(r.below(len as u64 + 3)),
    }
}
/// The operations every readable cursor has.
fn read_op<T: AsRef<[u8]>>(r: &mut Rng, c: &mut TransparentCursor<T>, m: &mut Cursor<T>) -> Result<(), String> {
    let len = m.get_ref().as_ref().len();
    match r.below(6) {
        0 => {
            let n = r.size(len + 4);
            let (mut a, mut b) = (vec![7; n], vec![7; n]);
            same("read", c.read(&mut a), m.read(&mut b))?;
            if a != b {
                return Err(format!("read {} instead of {}", hex(&a), hex(&b)));
            }
        }
        1 => {
            let n = r.size(len + 4);
            let (mut a, mut b) = (vec![7; n], vec![7; n]);
            let (x, y) = (c.read_exact(&mut a), m.read_exact(&mut b));
            if x.as_ref().map_err(|e| e.kind()) != y.as_ref().map_err(|e| e.kind()) || (x.is_ok() && a != b) {
                return Err(format!("read_exact {:?} {} instead of {:?} {}", x, hex(&a), y, hex(&b)));
            }
            if x.is_err() {
                m.set_position(c.0.position());
            }
        }
        2 => {
            let t = target(r, len);
            same(&format!("{:?}", t), c.seek(t), m.seek(t))?;
        }
        3 => {
            let n = {
                let (a, b) = (c.fill_buf().map(|b| b.to_vec()), m.fill_buf().map(|b| b.to_vec()));
                let n = b.as_ref().map(|b| b.len()).unwrap_or(0);
                same("fill_buf", a, b)?;
                r.usz(n + 1)
            };
            c.consume(n);
            m.consume(n);
        }
        4 => {
            if r.chance(1, 4) {
                let (mut a, mut b) = (vec![], vec![]);
                same("read_to_end", c.read_to_end(&mut a), m.read_to_end(&mut b))?;
                if a != b {
                    return Err(format!("read_to_end {} instead of {}", hex(&a), hex(&b)));
                }
            }
        }
        _ => {
            let p = if r.chance(1, 4) { r.int() } else { r.below(len as u64 + 3) };
            c.0.set_position(p);
            m.set_position(p);
        }
    }
    let w = rest(m.get_ref().as_ref(), m.position());
    if c.0.position() != m.position() || c.as_ref() != &w[..] {
        return Err(format!("at {} with {} instead of at {} with {}", c.0.position(), hex(c.as_ref()), m.position(), hex(&w)));
    }
    Ok(())
}
fn write_op<T>(r: &mut Rng, c: &mut TransparentCursor<T>, m: &mut Cursor<T>) -> Result<(), String>
where
    T: AsRef<[u8]>,
    Cursor<T>: Write,
{
    // a growing vector must not be asked to reach a huge position
    if m.position() > 4096 {
        c.0.set_position(3);
        m.set_position(3);
    }
    let n = r.size(20);
    let b = r.bytes(n);
    if b.is_empty() || r.chance(1, 2) {
        same("write", c.write(&b), m.write(&b))?;
    } else {
        let mut left = &b[..];
        let w = loop {
            if left.is_empty() {
                break true;
            }
            match m.write(left) {
                Ok(0) | Err(_) => break false,
                Ok(n) => left = &left[n..],
            }
        };
        let g = c.write_all(&b);
        if g.is_ok() != w || c.flush().is_err() {
            return Err(format!("write_all gave {:?}", g));
        }
    }
    if c.0.get_ref().as_ref() != m.get_ref().as_ref() || c.0.position() != m.position() {
        return Err(format!("after writing {}: {} at {} instead of {} at {}", hex(&b), hex(c.0.get_ref().as_ref()), c.0.position(), hex(m.get_ref().as_ref()), m.position()));
    }
    Ok(())
}
/// The unconsumed bytes, changed in place.
fn mut_op<T: AsRef<[u8]> + AsMut<[u8]>>(r: &mut Rng, c: &mut TransparentCursor<T>, m: &mut Cursor<T>) -> Result<(), String> {
    let p = m.position();
    let w = rest(m.get_ref().as_ref(), p);
    let s: &mut [u8] = c.as_mut();
    if *s != w[..] {
        return Err(format!("as_mut at {} is {} instead of {}", p, hex(s), hex(&w)));
    }
    if !s.is_empty() {
        let i = r.usz(s.len());
        s[i] ^= 0x55;
        m.get_mut().as_mut()[p as usize + i] ^= 0x55;
    }
    if c.0.get_ref().as_ref() != m.get_ref().as_ref() || c.0.position() != p {
        return Err(format!("after changing a byte: {} at {} instead of {} at {}", hex(c.0.get_ref().as_ref()), c.0.position(), hex(m.get_ref().as_ref()), p));
    }
    Ok(())
}

pub fn cursors(cx: &mut Ctx) -> Case {
    let n = cx.rng.size(60);
    let data = cx.rng.bytes(n);
    let mut r = cx.rng.fork();
    let r = &mut r;
    cx.eval_bytes(cx.idx % 4, &data, n > 0);
    let steps = 1 + r.usz(25);
    cx.count("cursor_operations", steps as u64);
    let mut other = data.clone();
    let res: Result<(), String> = (|| {
        match cx.idx % 4 {
            0 => {
                let (mut c, mut m) = (TransparentCursor(Cursor::new(&data[..])), Cursor::new(&data[..]));
                for _ in 0..steps {
                    read_op(r, &mut c, &mut m)?;
                    let w = rest(&data, m.position());
                    let (a, b) = (c.as_ext_bytes(), m.as_ext_bytes());
                    if a != &w[..] || b != &w[..] || c.0.position() != m.position() {
                        return Err(format!("as_ext_bytes at {}: {} and {}, not {}", m.position(), hex(a), hex(b), hex(&w)));
                    }
                    if !a.is_empty() && a.as_ptr() != data[m.position() as usize..].as_ptr() {
                        return Err("as_ext_bytes is not the slice itself".into());
                    }
                    let mut s: &[u8] = &data[w.len().min(data.len())..];
                    let k = s;
                    if s.as_ext_bytes() != k {
                        return Err("as_ext_bytes of a slice".into());
                    }
                    if r.chance(1, 8) {
                        c = c.clone();
                    }
                }
            }
            1 => {
                let (mut c, mut m) = (TransparentCursor(Cursor::new(data.clone())), Cursor::new(data.clone()));
                for _ in 0..steps {
                    match r.below(3) {
                        0 => write_op(r, &mut c, &mut m)?,
                        1 => mut_op(r, &mut c, &mut m)?,
                        _ => read_op(r, &mut c, &mut m)?,
                    }
                }
            }
            2 => {
                let mut d2 = data.clone();
                let (mut c, mut m) = (TransparentCursor(Cursor::new(&mut other[..])), Cursor::new(&mut d2[..]));
                for _ in 0..steps {
                    match r.below(3) {
                        0 => write_op(r, &mut c, &mut m)?,
                        1 => mut_op(r, &mut c, &mut m)?,
                        _ => read_op(r, &mut c, &mut m)?,
                    }
                }
            }
            _ => {
                let (a, b) = (data.clone().into_boxed_slice(), data.clone().into_boxed_slice());
                let (mut c, mut m) = (TransparentCursor(Cursor::new(a)), Cursor::new(b));
                for _ in 0..steps {
                    match r.below(3) {
                        0 => write_op(r, &mut c, &mut m)?,
                        1 => mut_op(r, &mut c, &mut m)?,
                        _ => read_op(r, &mut c, &mut m)?,
                    }
                }
            }
        }
        Ok(())
    })();
    ensure!(res.is_ok(), "cursor", "over {}: {}", hex(&data), res.unwrap_err());
    Ok(())
}
