//! Independent model of the documented physical format: element trees,
//! canonical and equivalence-preserving encoders.
use crate::rng::Rng;

pub const T_ENUM: u8 = 0x00;
pub const T_INT: u8 = 0x40;
pub const T_BLOB: u8 = 0x80;
pub const T_STRUCT: u8 = 0xC0;
pub const END_STRUCT: u8 = 0x00;
pub const END_DOC: u8 = 0x40;
pub const EXCEPTION: u8 = 0x80;
pub const PADDING: u8 = 0xC0;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Int(u64),
    Blob(Vec<u8>),
    Struct(Body),
    Enum(u64, Body),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
    Field(u8, Val),
    Pad,
    Exc(Vec<u8>),
    /// emitted verbatim (deliberately broken elements)
    Raw(Vec<u8>),
}

/// A struct/enum body. `declared` and `captures` describe the type it was
/// encoded from: bit t of `declared` is set if tag t is known to that type;
/// `captures` means unknown fields are semantically visible.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Body {
    pub nodes: Vec<Node>,
    pub declared: u64,
    pub captures: bool,
}

impl Body {
    pub fn new(declared: u64) -> Body {
        Body { nodes: Vec::new(), declared, captures: false }
    }
    pub fn field(&mut self, tag: u8, v: Val) {
        self.nodes.push(Node::Field(tag, v));
    }
    pub fn count(&self) -> usize {
        self.nodes
            .iter()
            .map(|n| match n {
                Node::Field(_, Val::Struct(b)) | Node::Field(_, Val::Enum(_, b)) => 1 + b.count(),
                _ => 1,
            })
            .sum()
    }
    /// Visits every body of the tree; `f` gets the path-free body.
    pub fn visit_mut(&mut self, f: &mut dyn FnMut(&mut Body)) {
        f(self);
        for n in self.nodes.iter_mut() {
            match n {
                Node::Field(_, Val::Struct(b)) | Node::Field(_, Val::Enum(_, b)) => b.visit_mut(f),
                _ => (),
            }
        }
    }
    pub fn any_captures(&self) -> bool {
        self.captures
            || self.nodes.iter().any(|n| match n {
                Node::Field(_, Val::Struct(b)) | Node::Field(_, Val::Enum(_, b)) => b.any_captures(),
                _ => false,
            })
    }
}

pub fn varint(out: &mut Vec<u8>, mut n: u64) {
    loop {
        let b = (n % 128) as u8;
        n /= 128;
        if n == 0 {
            out.push(b);
            return;
        }
        out.push(b + 128);
    }
}
pub fn varint_len(n: u64) -> usize {
    let mut v = Vec::new();
    varint(&mut v, n);
    v.len()
}
/// Writes `n` using `extra` additional zero groups.
pub fn varint_padded(out: &mut Vec<u8>, n: u64, extra: usize) {
    let s = out.len();
    varint(out, n);
    if extra > 0 {
        let l = out.len() - 1;
        debug_assert!(l >= s);
        out[l] |= 0x80;
        for _ in 1..extra {
            out.push(0x80);
        }
        out.push(0);
    }
}
/// ZigZag by definition: 0,-1,1,-2,2 -> 0,1,2,3,4 (128-bit arithmetic).
pub fn zz(i: i64) -> u64 {
    let w = i as i128;
    (if w >= 0 { 2 * w } else { -2 * w - 1 }) as u64
}
pub fn unzz(u: u64) -> i64 {
    let w = u as i128;
    (if w % 2 == 0 { w / 2 } else { -(w + 1) / 2 }) as i64
}

/// How to render integers / where to put padding.
pub struct Style<'a> {
    pub rng: Option<&'a mut Rng>,
    /// chance in 256 that an integer gets zero padding
    pub denorm: u32,
    /// chance in 256 that padding precedes an element
    pub pad: u32,
    /// byte offsets of each element start are recorded here
    pub marks: Option<&'a mut Vec<usize>>,
}
impl<'a> Style<'a> {
    pub fn canon() -> Style<'static> {
        Style { rng: None, denorm: 0, pad: 0, marks: None }
    }
    fn int(&mut self, out: &mut Vec<u8>, n: u64) {
        let mut extra = 0;
        if let Some(r) = self.rng.as_mut() {
            if (r.below(256) as u32) < self.denorm {
                extra = match r.below(8) {
                    0..=3 => 1 + r.below(3),
                    4 | 5 => 1 + r.below(12),
                    6 => 1 + r.below(240),
                    _ => 246,
                } as usize;
            }
        }
        varint_padded(out, n, extra);
    }
    fn padding(&mut self, out: &mut Vec<u8>) {
        if let Some(r) = self.rng.as_mut() {
            if (r.below(256) as u32) < self.pad {
                let k = match r.below(8) {
                    0..=4 => 1,
                    5 | 6 => 1 + r.below(5),
                    _ => 1 + r.below(300),
                };
                for _ in 0..k {
                    out.push(PADDING);
                }
            }
        }
    }
}

fn put_body(out: &mut Vec<u8>, b: &Body, st: &mut Style) {
    for n in &b.nodes {
        put_node(out, n, st);
    }
    st.padding(out);
    if let Some(m) = st.marks.as_mut() {
        m.push(out.len());
    }
    out.push(END_STRUCT);
}
pub fn put_node(out: &mut Vec<u8>, n: &Node, st: &mut Style) {
    st.padding(out);
    if let Some(m) = st.marks.as_mut() {
        m.push(out.len());
    }
    match n {
        Node::Pad => out.push(PADDING),
        Node::Raw(d) => out.extend_from_slice(d),
        Node::Exc(d) => {
            out.push(EXCEPTION);
            st.int(out, d.len() as u64);
            out.extend_from_slice(d);
        }
        Node::Field(t, v) => match v {
            Val::Int(i) => {
                out.push(T_INT | t);
                st.int(out, *i);
            }
            Val::Blob(d) => {
                out.push(T_BLOB | t);
                st.int(out, d.len() as u64);
                out.extend_from_slice(d);
            }
            Val::Struct(b) => {
                out.push(T_STRUCT | t);
                put_body(out, b, st);
            }
            Val::Enum(d, b) => {
                out.push(T_ENUM | t);
                st.int(out, *d);
                put_body(out, b, st);
            }
        },
    }
}
/// Canonical bytes of a top-level body (with its end-of-struct).
pub fn encode(b: &Body) -> Vec<u8> {
    let mut out = Vec::new();
    put_body(&mut out, b, &mut Style::canon());
    out
}
pub fn encode_styled(b: &Body, st: &mut Style) -> Vec<u8> {
    let mut out = Vec::new();
    put_body(&mut out, b, st);
    out
}

/// Replaces the maximal run of trailing end-of-struct bytes by one
/// end-of-document. `canon` must be the canonical encoding of a body.
/// Returns None if the tree's tail cannot be shortened that way.
pub fn end_doc_variant(b: &Body) -> Vec<u8> {
    // Depth of the right spine: number of bodies closed at the very end.
    fn spine(b: &Body) -> usize {
        match b.nodes.last() {
            Some(Node::Field(_, Val::Struct(s))) | Some(Node::Field(_, Val::Enum(_, s))) => 1 + spine(s),
            _ => 1,
        }
    }
    let mut out = encode(b);
    for _ in 0..spine(b) {
        let e = out.pop();
        debug_assert_eq!(e, Some(END_STRUCT));
    }
    out.push(END_DOC);
    out
}

/// Reorders fields of different tags in every body, keeping the relative
/// order of equal tags. Returns true if anything could move.
pub fn reorder(b: &mut Body, r: &mut Rng) -> bool {
    let mut changed = false;
    b.visit_mut(&mut |b| {
        let mut tags: Vec<u8> = b
            .nodes
            .iter()
            .filter_map(|n| if let Node::Field(t, _) = n { Some(*t) } else { None })
            .collect();
        if tags.len() != b.nodes.len() || tags.len() < 2 {
            return;
        }
        let before = tags.clone();
        match r.below(4) {
            0 => tags.sort_by(|a, b| b.cmp(a)),
            1 => tags.sort(),
            _ => r.shuffle(&mut tags),
        }
        if tags != before {
            changed = true;
        }
        let mut pools: Vec<std::collections::VecDeque<Node>> = (0..64).map(|_| Default::default()).collect();
        for n in b.nodes.drain(..) {
            if let Node::Field(t, _) = &n {
                pools[*t as usize].push_back(n);
            }
        }
        for t in tags {
            b.nodes.push(pools[t as usize].pop_front().unwrap());
        }
    });
    changed
}

/// Random content for unknown fields.
pub fn rand_val(r: &mut Rng, depth: u32) -> Val {
    match r.below(if depth == 0 { 2 } else { 4 }) {
        0 => Val::Int(r.int()),
        1 => {
            let n = if depth > 0 { r.size_or_big(400) } else { r.size(400) };
            Val::Blob(blob_bytes(r, n))
        }
        2 => Val::Struct(rand_body(r, depth - 1)),
        _ => Val::Enum(r.int(), rand_body(r, depth - 1)),
    }
}
/// Blob content likely to be mistaken for elements if misparsed.
pub fn blob_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => r.bytes(n),
        1 => (0..n).map(|_| *r.pick(&[0u8, 0x40, 0x80, 0xC0, 0x41, 0x81, 0xC1, 0x01, 0xFF])).collect(),
        2 => vec![*r.pick(&[0u8, 0x40, 0x80, 0xC0, 0xFF, 0x7F]); n],
        _ => (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(7)).collect(),
    }
}
pub fn rand_tag(r: &mut Rng) -> u8 {
    match r.below(6) {
        0 => 63,
        1 => 1,
        2 | 3 => 1 + r.below(8) as u8,
        _ => 1 + r.below(63) as u8,
    }
}
pub fn rand_body(r: &mut Rng, depth: u32) -> Body {
    let mut b = Body::default();
    let n = match r.below(6) {
        0 => 0,
        1 | 2 => 1,
        3 => 2,
        _ => r.below(6),
    };
    if depth > 0 && r.chance(1, 400) {
        // very many small ones
        let most = if r.chance(1, 6) { 5000 } else { 600 };
        let n = 250 + r.usz(most);
        for _ in 0..n {
            let v = match r.below(8) {
                0 => Val::Blob(blob_bytes(r, 2)),
                1 => Val::Struct(Body::default()),
                2 => Val::Enum(r.below(300), Body::default()),
                _ => Val::Int(r.below(300)),
            };
            b.field(rand_tag(r), v);
        }
        return b;
    }
    for _ in 0..n {
        let v = rand_val(r, depth);
        b.field(rand_tag(r), v);
    }
    b
}

/// Inserts unknown fields (tags the body does not declare) at random places
/// of bodies which do not capture them. Returns how many were inserted.
pub fn insert_unknown(b: &mut Body, r: &mut Rng, per_256: u64) -> usize {
    let mut k = 0;
    b.visit_mut(&mut |b| {
        if b.captures {
            return;
        }
        let mut i = 0;
        while i <= b.nodes.len() {
            // many in a long message would make it enormous
            if (k < 120 && r.below(256) < per_256) || r.below(4096) < per_256 && k < 300 {
                let free: Vec<u8> = (1..64u8).filter(|t| b.declared >> t & 1 == 0).collect();
                if !free.is_empty() {
                    let t = if r.chance(1, 4) { *free.last().unwrap() } else { *r.pick(&free) };
                    let depth = if k > 40 { 0 } else if r.chance(1, 30) { 12 } else { 3 };
                    let mut v = rand_val(r, depth);
                    // content of unknown fields must not be revisited
                    if let Val::Struct(b) | Val::Enum(_, b) = &mut v {
                        b.visit_mut(&mut |b| b.captures = true);
                        b.visit_mut(&mut |b| b.declared = u64::MAX);
                    }
                    b.nodes.insert(i, Node::Field(t, v));
                    k += 1;
                    i += 1;
                }
            }
            i += 1;
        }
    });
    k
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i >= 200 {
            s.push_str(&format!("..({} bytes)", b.len()));
            break;
        }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
