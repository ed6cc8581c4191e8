//! The kinds of reader a stream is put on, and what each can do.
use flcore::io::{Plan, TestReader};
use fourleaf::io::TransparentCursor;
use fourleaf::stream::{self, Blob, Stream};
use std::io::{self, BufRead, BufReader, Cursor, Read, Seek, SeekFrom};

/// A reader plus its optional capabilities.
pub trait Rd: Read + Sized {
    /// position of the reader proper, if it can be told
    fn at(&self) -> Option<u64>;
    fn fill(_: &mut Blob<Self>) -> Option<io::Result<Vec<u8>>> {
        None
    }
    fn consume(_: &mut Blob<Self>, _: usize) {}
    /// fill_buf without copying: its length
    fn fill_len(_: &mut Blob<Self>) -> Option<io::Result<usize>> {
        None
    }
    fn read_until(_: &mut Blob<Self>, _: u8) -> Option<io::Result<Vec<u8>>> {
        None
    }
    fn seek(_: &mut Blob<Self>, _: SeekFrom) -> Option<io::Result<u64>> {
        None
    }
    fn slice(_: &Blob<Self>) -> Option<stream::Result<Vec<u8>>> {
        None
    }
    fn slice_len(_: &Blob<Self>) -> Option<stream::Result<usize>> {
        None
    }
    fn ext_slice(_: &mut Blob<Self>) -> Option<stream::Result<Vec<u8>>> {
        None
    }
    fn ext_slice_len(_: &mut Blob<Self>) -> Option<stream::Result<usize>> {
        None
    }
    /// lets `f` change the unconsumed bytes
    fn slice_mut(_: &mut Blob<Self>, _: &mut dyn FnMut(&mut [u8])) -> Option<stream::Result<()>> {
        None
    }
    fn stream_seek(_: &mut Stream<Self>, _: SeekFrom) -> Option<stream::Result<u64>> {
        None
    }
    fn is_interrupting() -> bool {
        false
    }
}
macro_rules! caps {
    (buf) => {
        fn fill(b: &mut Blob<Self>) -> Option<io::Result<Vec<u8>>> {
            Some(b.fill_buf().map(|s| s.to_vec()))
        }
        fn fill_len(b: &mut Blob<Self>) -> Option<io::Result<usize>> {
            Some(b.fill_buf().map(|s| s.len()))
        }
        fn consume(b: &mut Blob<Self>, n: usize) {
            BufRead::consume(b, n)
        }
        fn read_until(b: &mut Blob<Self>, d: u8) -> Option<io::Result<Vec<u8>>> {
            let mut v = Vec::new();
            Some(BufRead::read_until(b, d, &mut v).map(|_| v))
        }
    };
    (seek) => {
        fn seek(b: &mut Blob<Self>, w: SeekFrom) -> Option<io::Result<u64>> {
            Some(Seek::seek(b, w))
        }
        fn stream_seek(s: &mut Stream<Self>, w: SeekFrom) -> Option<stream::Result<u64>> {
            Some(s.seek(w))
        }
    };
    (slice) => {
        fn slice(b: &Blob<Self>) -> Option<stream::Result<Vec<u8>>> {
            Some(b.slice().map(|s| s.to_vec()))
        }
        fn slice_len(b: &Blob<Self>) -> Option<stream::Result<usize>> {
            Some(b.slice().map(|s| s.len()))
        }
    };
    (ext) => {
        fn ext_slice(b: &mut Blob<Self>) -> Option<stream::Result<Vec<u8>>> {
            Some(b.ext_slice().map(|s| s.to_vec()))
        }
        fn ext_slice_len(b: &mut Blob<Self>) -> Option<stream::Result<usize>> {
            Some(b.ext_slice().map(|s| s.len()))
        }
    };
    (mutable) => {
        fn slice_mut(b: &mut Blob<Self>, f: &mut dyn FnMut(&mut [u8])) -> Option<stream::Result<()>> {
            Some(b.slice_mut().map(|s| f(s)))
        }
    };
}
impl<'a> Rd for TransparentCursor<&'a [u8]> {
    fn at(&self) -> Option<u64> {
        Some(self.0.position())
    }
    caps!(buf);
    caps!(seek);
    caps!(slice);
    caps!(ext);
}
impl Rd for TransparentCursor<Vec<u8>> {
    fn at(&self) -> Option<u64> {
        Some(self.0.position())
    }
    caps!(buf);
    caps!(seek);
    caps!(slice);
    caps!(mutable);
}
impl Rd for Cursor<Vec<u8>> {
    fn at(&self) -> Option<u64> {
        Some(self.position())
    }
    caps!(buf);
    caps!(seek);
}
impl<'a> Rd for Cursor<&'a [u8]> {
    fn at(&self) -> Option<u64> {
        Some(self.position())
    }
    caps!(buf);
    caps!(seek);
    caps!(ext);
}
impl<'a> Rd for &'a [u8] {
    fn at(&self) -> Option<u64> {
        None
    }
    caps!(buf);
    caps!(slice);
    caps!(ext);
}
impl Rd for TestReader {
    fn at(&self) -> Option<u64> {
        Some(self.pos())
    }
    caps!(seek);
    fn is_interrupting() -> bool {
        true
    }
}
impl Rd for BufReader<TestReader> {
    fn at(&self) -> Option<u64> {
        Some(self.get_ref().pos() - self.buffer().len() as u64)
    }
    caps!(buf);
    caps!(seek);
    fn is_interrupting() -> bool {
        true
    }
}

pub const KINDS: u64 = 10;
pub const KIND_NAMES: [&str; 10] = [
    "slice",
    "owned transparent cursor",
    "plain cursor",
    "seeking cursor",
    "byte slice",
    "plain reader",
    "seekable reader",
    "buffered reader",
    "plain slice cursor",
    "reader refusing to seek",
];

pub trait Visit {
    type O;
    fn go<R: Rd>(&mut self, s: Stream<R>) -> Self::O;
}
pub fn with_kind<V: Visit>(kind: u64, bytes: &[u8], plan: &Plan, v: &mut V) -> V::O {
    match kind % KINDS {
        0 => v.go(Stream::from_slice(bytes)),
        1 => v.go(Stream::from_slice(bytes.to_vec())),
        2 => v.go(Stream::new(Cursor::new(bytes.to_vec()))),
        3 => v.go(Stream::new_seek(Cursor::new(bytes.to_vec()))),
        4 => v.go(Stream::new(bytes)),
        5 => v.go(Stream::new(TestReader::with(bytes, plan.clone()))),
        6 => v.go(Stream::new_seek(TestReader::with(bytes, plan.clone()))),
        7 => {
            let cap = 1 + bytes.len() % 37;
            v.go(Stream::new_seek(BufReader::with_capacity(cap, TestReader::with(bytes, plan.clone()))))
        }
        8 => v.go(Stream::new(Cursor::new(bytes))),
        _ => {
            let mut p = plan.clone();
            p.seek_fail = Some(u64::MAX);
            v.go(Stream::new_seek(TestReader::with(bytes, p)))
        }
    }
}
