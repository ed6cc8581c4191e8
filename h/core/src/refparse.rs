//! Reference element parser, written from the documented format only.
use crate::model::*;

/// Random access byte source (may be virtual and sparse).
pub trait Src {
    fn byte(&self, pos: u64) -> Option<u8>;
    /// Length in bytes (as 128 bit so that 2^64 can be expressed).
    fn len(&self) -> u128;
}
impl Src for [u8] {
    #[inline]
    fn byte(&self, pos: u64) -> Option<u8> {
        if pos < (self.len() as u64) {
            Some(self[pos as usize])
        } else {
            None
        }
    }
    fn len(&self) -> u128 {
        <[u8]>::len(self) as u128
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PErr {
    Eof,
    IntOverflow,
    Overwide,
    TruncBlob,
    PosOverflow,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PVal {
    Int(u64),
    Blob { start: u64, len: u64 },
    Struct,
    Enum(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PEl {
    Field { tag: u8, pos: u64, depth: u64, val: PVal },
    EndStruct,
    EndDoc,
    Exc { start: u64, len: u64 },
    Pad,
}

#[derive(Clone)]
pub struct RefParser<'a, S: Src + ?Sized> {
    pub src: &'a S,
    /// offset into src
    pub off: u64,
    /// logical position = off + base
    pub base: u64,
    pub depth: u64,
    pub eof: bool,
    pub graceful: bool,
    pub blob_end: Option<u64>,
}

impl<'a, S: Src + ?Sized> RefParser<'a, S> {
    pub fn new(src: &'a S) -> Self {
        RefParser { src, off: 0, base: 0, depth: 0, eof: false, graceful: false, blob_end: None }
    }
    pub fn pos(&self) -> u64 {
        self.base.wrapping_add(self.off)
    }
    fn take(&mut self) -> Result<u8, PErr> {
        if self.pos() == u64::MAX {
            return Err(PErr::PosOverflow);
        }
        let b = self.src.byte(self.off).ok_or(PErr::Eof)?;
        self.off += 1;
        Ok(b)
    }
    pub fn int(&mut self) -> Result<u64, PErr> {
        let mut acc: u128 = 0;
        for k in 0..258u32 {
            let b = self.take()?;
            let v = (b & 0x7F) as u128;
            if v != 0 {
                if k * 7 >= 64 || (v << (k * 7)) > u64::MAX as u128 {
                    return Err(PErr::IntOverflow);
                }
                acc |= v << (k * 7);
            }
            if b & 0x80 == 0 {
                return Ok(acc as u64);
            }
            if k >= 256 {
                return Err(PErr::Overwide);
            }
        }
        unreachable!()
    }
    /// Skips whatever is left of an open blob.
    pub fn commit(&mut self) -> Result<(), PErr> {
        if let Some(e) = self.blob_end.take() {
            if (e as u128) > self.src.len() {
                return Err(PErr::TruncBlob);
            }
            self.off = e;
        }
        Ok(())
    }
    fn blob(&mut self) -> Result<(u64, u64), PErr> {
        let len = self.int()?;
        if self.pos() as u128 + len as u128 > u64::MAX as u128 {
            return Err(PErr::PosOverflow);
        }
        self.blob_end = Some(self.off.checked_add(len).ok_or(PErr::PosOverflow)?);
        Ok((self.off, len))
    }
    /// Next element, padding included.
    pub fn next(&mut self) -> Result<PEl, PErr> {
        if self.eof {
            self.depth = 0;
            return Ok(PEl::EndDoc);
        }
        self.commit()?;
        let pos = self.pos();
        let d = match self.take() {
            Ok(d) => d,
            Err(PErr::Eof) if self.graceful => {
                self.eof = true;
                self.depth = 0;
                return Ok(PEl::EndDoc);
            }
            Err(e) => return Err(e),
        };
        let tag = d & 0x3F;
        let ty = d & 0xC0;
        if tag == 0 {
            return match ty {
                END_STRUCT => {
                    self.depth = self.depth.saturating_sub(1);
                    Ok(PEl::EndStruct)
                }
                END_DOC => {
                    self.eof = true;
                    self.depth = 0;
                    Ok(PEl::EndDoc)
                }
                EXCEPTION => {
                    let (start, len) = self.blob()?;
                    Ok(PEl::Exc { start, len })
                }
                _ => Ok(PEl::Pad),
            };
        }
        if self.depth == 0 {
            self.depth = 1;
        }
        let depth = self.depth;
        let val = match ty {
            T_INT => PVal::Int(self.int()?),
            T_BLOB => {
                let (start, len) = self.blob()?;
                PVal::Blob { start, len }
            }
            T_STRUCT => {
                self.depth += 1;
                PVal::Struct
            }
            _ => {
                let d = self.int()?;
                self.depth += 1;
                PVal::Enum(d)
            }
        };
        Ok(PEl::Field { tag, pos, depth, val })
    }
    /// Next element, skipping padding.
    pub fn next_nopad(&mut self) -> Result<PEl, PErr> {
        loop {
            match self.next()? {
                PEl::Pad => continue,
                e => return Ok(e),
            }
        }
    }
    pub fn skip_up(&mut self, depth: u64) -> Result<(), PErr> {
        while self.depth > depth {
            self.next()?;
        }
        Ok(())
    }
}

/// Parses one complete body from a slice into the tree model (padding
/// dropped); returns the tree and its end offset.
pub fn parse_tree(b: &[u8]) -> Result<(Body, u64), String> {
    fn body(p: &mut RefParser<[u8]>, depth: u32) -> Result<Body, String> {
        if depth > 4000 {
            return Err("too deep".into());
        }
        let mut out = Body::default();
        loop {
            match p.next().map_err(|e| format!("{:?} at {}", e, p.pos()))? {
                PEl::EndStruct | PEl::EndDoc => return Ok(out),
                PEl::Pad => (),
                PEl::Exc { start, len } => {
                    if start as u128 + len as u128 > p.src.len() as u128 {
                        return Err("truncated exception".into());
                    }
                    out.nodes.push(Node::Exc(p.src[start as usize..(start + len) as usize].to_vec()));
                }
                PEl::Field { tag, val, .. } => {
                    let v = match val {
                        PVal::Int(i) => Val::Int(i),
                        PVal::Blob { start, len } => {
                            if start as u128 + len as u128 > p.src.len() as u128 {
                                return Err("truncated blob".into());
                            }
                            Val::Blob(p.src[start as usize..(start + len) as usize].to_vec())
                        }
                        PVal::Struct => Val::Struct(body(p, depth + 1)?),
                        PVal::Enum(d) => Val::Enum(d, body(p, depth + 1)?),
                    };
                    out.nodes.push(Node::Field(tag, v));
                }
            }
        }
    }
    let mut p = RefParser::new(b);
    let r = body(&mut p, 0)?;
    p.commit().map_err(|e| format!("{:?}", e))?;
    Ok((r, p.pos()))
}
