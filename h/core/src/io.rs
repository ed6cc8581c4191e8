//! Instrumented readers and writers: they record every call made by the code
//! under test and inject chunking, interruptions and failures.
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

/// Decides how the n-th call behaves.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// cyclic list of maximum transfer sizes (empty: unlimited)
    pub chunks: Vec<usize>,
    /// every k-th call is interrupted (0: never); never twice in a row
    pub interrupt: u64,
    /// the call with this number (0-based, reads/writes only) fails
    pub fail_at: Option<u64>,
    pub fail_kind: Option<io::ErrorKind>,
    /// failing calls keep failing
    pub sticky: bool,
    /// after this many bytes a writer accepts nothing (returns Ok(0))
    pub full_after: Option<u64>,
    /// number of the seek call which fails; u64::MAX: all of them
    pub seek_fail: Option<u64>,
}

#[derive(Default, Debug)]
pub struct IoState {
    pub data: Vec<u8>,
    pub pos: u64,
    pub plan: Plan,
    pub calls: u64,
    pub zero_reads: u64,
    pub seeks: u64,
    pub interrupts: u64,
    pub moved: u64,
    pub failed: bool,
    pub last_interrupted: bool,
    /// bytes delivered/accepted after the injected failure
    pub after_fail: u64,
    /// largest end position ever touched
    pub high: u64,
    pub flushes: u64,
}

/// The ways a seek is refused in practice.
pub fn seek_error(k: u64) -> io::Error {
    use io::ErrorKind::*;
    const KINDS: [io::ErrorKind; 8] = [Other, InvalidInput, PermissionDenied, Unsupported, UnexpectedEof, Interrupted, WouldBlock, BrokenPipe];
    match k % 10 {
        8 => io::Error::from_raw_os_error(29),
        9 => io::Error::from_raw_os_error(22),
        k => io::Error::new(KINDS[k as usize], "seek not possible"),
    }
}

type Hook = Box<dyn FnMut()>;
thread_local! {
    static HOOKED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}
/// Runs `f` while every call of a test reader or writer of this thread first
/// runs `h`; calls made by `h` itself do not run it again.
pub fn with_hook<R>(h: Hook, f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            HOOKED.with(|x| x.set(false));
            let h = HOOK.with(|x| x.borrow_mut().take());
            drop(h);
        }
    }
    HOOK.with(|x| *x.borrow_mut() = Some(h));
    HOOKED.with(|x| x.set(true));
    let _off = Off;
    f()
}
fn hook() {
    if HOOKED.with(|x| x.get()) {
        if let Some(mut h) = HOOK.with(|x| x.borrow_mut().take()) {
            h();
            HOOK.with(|x| *x.borrow_mut() = Some(h));
        }
    }
}

pub const TOKEN: &str = "injected-fault-7f3a";

impl IoState {
    fn gate(&mut self) -> io::Result<usize> {
        let n = self.calls;
        self.calls += 1;
        if self.failed && self.plan.sticky {
            return Err(self.fault());
        }
        if self.plan.fail_at == Some(n) {
            self.failed = true;
            return Err(self.fault());
        }
        if self.plan.interrupt > 0 && !self.last_interrupted && n % self.plan.interrupt == self.plan.interrupt - 1 {
            self.last_interrupted = true;
            self.interrupts += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        self.last_interrupted = false;
        if self.plan.chunks.is_empty() {
            Ok(usize::MAX)
        } else {
            let c = self.plan.chunks[(n % self.plan.chunks.len() as u64) as usize];
            Ok(c.max(1))
        }
    }
    fn fault(&self) -> io::Error {
        io::Error::new(self.plan.fail_kind.unwrap_or(io::ErrorKind::Other), TOKEN)
    }
    fn do_seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        let n = self.seeks;
        self.seeks += 1;
        if let Some(k) = self.plan.seek_fail {
            if k == u64::MAX || k == n {
                return Err(seek_error(self.data.len() as u64 + n));
            }
        }
        let p = match w {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// Seekable in-memory reader; clones share one state.
#[derive(Clone, Debug)]
pub struct TestReader(pub Rc<RefCell<IoState>>);
impl TestReader {
    pub fn new(data: &[u8]) -> Self {
        Self::with(data, Plan::default())
    }
    pub fn with(data: &[u8], plan: Plan) -> Self {
        TestReader(Rc::new(RefCell::new(IoState { data: data.to_vec(), plan, ..Default::default() })))
    }
    pub fn pos(&self) -> u64 {
        self.0.borrow().pos
    }
    pub fn calls(&self) -> u64 {
        self.0.borrow().calls
    }
}
impl Read for TestReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        hook();
        let st = &mut *self.0.borrow_mut();
        // a buffer handed to safe code must be initialised (MemorySanitizer
        // and Miri notice when it is not)
        if buf[0] ^ buf[buf.len() / 2] ^ buf[buf.len() - 1] == 0x37 {
            std::hint::black_box(&st.calls);
        }
        let lim = st.gate()?;
        let avail = (st.data.len() as u64).saturating_sub(st.pos) as usize;
        let n = buf.len().min(avail).min(lim);
        if n == 0 {
            st.zero_reads += 1;
            return Ok(0);
        }
        let p = st.pos as usize;
        buf[..n].copy_from_slice(&st.data[p..p + n]);
        st.pos += n as u64;
        st.moved += n as u64;
        if st.failed {
            st.after_fail += n as u64;
        }
        st.high = st.high.max(st.pos);
        Ok(n)
    }
}
impl Seek for TestReader {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        hook();
        self.0.borrow_mut().do_seek(w)
    }
}

/// Seekable in-memory writer (overwrites, then extends; seeking past the end
/// zero-fills); clones share one state.
#[derive(Clone, Debug)]
pub struct TestWriter(pub Rc<RefCell<IoState>>);
impl TestWriter {
    pub fn new() -> Self {
        Self::with(Plan::default())
    }
    pub fn with(plan: Plan) -> Self {
        TestWriter(Rc::new(RefCell::new(IoState { plan, ..Default::default() })))
    }
    pub fn with_capacity(n: usize) -> Self {
        let w = Self::new();
        w.0.borrow_mut().data.reserve(n);
        w
    }
    pub fn data(&self) -> Vec<u8> {
        self.0.borrow().data.clone()
    }
    pub fn calls(&self) -> u64 {
        self.0.borrow().calls
    }
}
impl Default for TestWriter {
    fn default() -> Self {
        Self::new()
    }
}
impl Write for TestWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        hook();
        let st = &mut *self.0.borrow_mut();
        let lim = st.gate()?;
        let mut n = buf.len().min(lim);
        if let Some(f) = st.plan.full_after {
            n = n.min(f.saturating_sub(st.moved) as usize);
            if n == 0 {
                st.failed = true;
                return Ok(0);
            }
        }
        let p = st.pos as usize;
        if st.data.len() < p {
            st.data.resize(p, 0);
        }
        let over = n.min(st.data.len() - p);
        st.data[p..p + over].copy_from_slice(&buf[..over]);
        st.data.extend_from_slice(&buf[over..n]);
        st.pos += n as u64;
        st.moved += n as u64;
        if st.failed {
            st.after_fail += n as u64;
        }
        st.high = st.high.max(st.pos);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.borrow_mut().flushes += 1;
        Ok(())
    }
}
impl Read for TestWriter {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        TestReader(self.0.clone()).read(buf)
    }
}
impl Seek for TestWriter {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        hook();
        self.0.borrow_mut().do_seek(w)
    }
}
