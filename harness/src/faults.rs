//! Sources and sinks which deliver, cut, interrupt or fail at chosen points, and count.

use crate::rng::Rng;
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

/// Panic payload: the code under test asked a source which is at its end again and again
pub struct Runaway(pub String);

#[derive(Default, Debug)]
pub struct SrcStats {
    pub reads: AtomicU64,
    pub delivered: AtomicU64,
    pub eof_reads: AtomicU64,
    pub interrupts: AtomicU64,
    pub errors: AtomicU64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Eof,
    /// this error, for ever
    Error(ErrorKind),
    /// this error once, then end of file
    ErrorThenEof(ErrorKind),
}

#[derive(Clone, Copy, Debug)]
pub enum Chunk {
    All,
    Fixed(usize),
    Random(usize),
}

pub struct Src {
    pub data: Arc<Vec<u8>>,
    pub pos: usize,
    /// the data ends here
    pub cut: usize,
    pub end: End,
    pub chunk: Chunk,
    /// 1 in this many reads is interrupted, 0 for never
    pub interrupt: usize,
    rng: Rng,
    pub stats: Arc<SrcStats>,
    pub tag: u64,
    ended: bool,
}

const EOF_READS_MAX: u64 = 20_000;

impl Src {
    pub fn new(data: &Arc<Vec<u8>>) -> Src {
        Src {
            data: data.clone(),
            pos: 0,
            cut: data.len(),
            end: End::Eof,
            chunk: Chunk::All,
            interrupt: 0,
            rng: Rng::new(1),
            stats: Arc::new(SrcStats::default()),
            tag: 0,
            ended: false,
        }
    }
    pub fn of(data: &[u8]) -> Src {
        Src::new(&Arc::new(data.to_vec()))
    }
    pub fn cut(mut self, at: usize, end: End) -> Src {
        self.cut = at;
        self.end = end;
        self
    }
    pub fn chunks(mut self, chunk: Chunk, interrupt: usize, seed: u64) -> Src {
        self.chunk = chunk;
        self.interrupt = interrupt;
        self.rng = Rng::new(seed);
        self
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.stats.reads.fetch_add(1, SeqCst);
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && self.rng.chance(1, self.interrupt) {
            self.stats.interrupts.fetch_add(1, SeqCst);
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let left = self.cut - self.pos;
        if left == 0 {
            match self.end {
                End::Error(k) => {
                    let n = self.stats.errors.fetch_add(1, SeqCst);
                    if n > EOF_READS_MAX {
                        std::panic::panic_any(Runaway(format!("{n} reads from a failed source")));
                    }
                    return Err(io::Error::new(k, "injected failure"));
                }
                End::ErrorThenEof(k) if !self.ended => {
                    self.ended = true;
                    self.stats.errors.fetch_add(1, SeqCst);
                    return Err(io::Error::new(k, "injected failure"));
                }
                _ => {
                    let n = self.stats.eof_reads.fetch_add(1, SeqCst);
                    if n > EOF_READS_MAX {
                        std::panic::panic_any(Runaway(format!(
                            "{n} reads after the end of the file"
                        )));
                    }
                    return Ok(0);
                }
            }
        }
        let want = match self.chunk {
            Chunk::All => left,
            Chunk::Fixed(n) => n,
            Chunk::Random(n) => 1 + self.rng.below(n),
        };
        let n = want.min(left).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.stats.delivered.fetch_add(n as u64, SeqCst);
        Ok(n)
    }
}

// ---------------------------------------------------------------------------------------------

#[derive(Default, Debug)]
pub struct SinkState {
    pub data: Vec<u8>,
    pub writes: u64,
    pub flushes: u64,
    pub failures: u64,
    /// an error was handed to the code under test since this was last cleared
    pub hit: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    Never,
    /// after accepting this many bytes, every write fails
    At(usize, ErrorKind),
    /// after this many bytes nothing is accepted any more (write returns Ok(0))
    Full(usize),
    /// fails once there, then works again
    Once(usize, ErrorKind),
}

/// A sink which can be looked at while the writer owns it
#[derive(Clone)]
pub struct Sink {
    pub st: Rc<RefCell<SinkState>>,
    pub fail: Fail,
    pub chunk: Chunk,
    pub interrupt: usize,
    rng: Rc<RefCell<Rng>>,
}

impl Sink {
    pub fn new() -> Sink {
        Sink {
            st: Rc::new(RefCell::new(SinkState::default())),
            fail: Fail::Never,
            chunk: Chunk::All,
            interrupt: 0,
            rng: Rc::new(RefCell::new(Rng::new(7))),
        }
    }
    pub fn fail(mut self, fail: Fail) -> Sink {
        self.fail = fail;
        self
    }
    pub fn chunks(mut self, chunk: Chunk, interrupt: usize, seed: u64) -> Sink {
        self.chunk = chunk;
        self.interrupt = interrupt;
        self.rng = Rc::new(RefCell::new(Rng::new(seed)));
        self
    }
    pub fn data(&self) -> Vec<u8> {
        self.st.borrow().data.clone()
    }
    pub fn len(&self) -> usize {
        self.st.borrow().data.len()
    }
    pub fn take_hit(&self) -> bool {
        std::mem::take(&mut self.st.borrow_mut().hit)
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut st = self.st.borrow_mut();
        let mut rng = self.rng.borrow_mut();
        st.writes += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupt > 0 && rng.chance(1, self.interrupt) {
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let mut n = match self.chunk {
            Chunk::All => buf.len(),
            Chunk::Fixed(n) => n,
            Chunk::Random(n) => 1 + rng.below(n),
        }
        .min(buf.len());
        match self.fail {
            Fail::Never => {}
            Fail::At(k, kind) => {
                if st.data.len() >= k {
                    st.failures += 1;
                    st.hit = true;
                    return Err(io::Error::new(kind, "injected failure"));
                }
                n = n.min(k - st.data.len());
            }
            Fail::Full(k) => {
                if st.data.len() >= k {
                    st.failures += 1;
                    st.hit = true;
                    return Ok(0);
                }
                n = n.min(k - st.data.len());
            }
            Fail::Once(k, kind) => {
                if st.failures == 0 {
                    if st.data.len() >= k {
                        st.failures += 1;
                        st.hit = true;
                        return Err(io::Error::new(kind, "injected failure"));
                    }
                    n = n.min(k - st.data.len());
                }
            }
        }
        st.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.st.borrow_mut().flushes += 1;
        Ok(())
    }
}

pub const ERROR_KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::ConnectionReset,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotFound,
];
