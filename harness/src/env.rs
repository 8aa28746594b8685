//! User-supplied components: sinks, sources, chunks, chunk creators and merge functions that count,
//! split, interrupt and fail.
use crate::vf;
use grenad::{ChunkCreator, Error, MergeFunction};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub struct Ctl {
    /// calls that can fail, so far
    pub calls: Cell<u64>,
    /// the one that fails
    pub fail_at: Cell<u64>,
    /// 0 an arbitrary OS error, 1-3 common kinds, 4 a write that takes nothing, 5 a custom payload, 6 any other kind
    pub kind: Cell<u64>,
    /// the OS error or the other kind
    pub code: Cell<u32>,
    pub failed: Cell<bool>,
    /// whose failure it is: 1 I/O, 2 the merge function, 3 the chunk creator
    pub who: Cell<u64>,
    /// how the chunk creator fails: 0 an I/O error, 1 and 2 the crate's other errors
    pub make: Cell<u64>,
    /// 0: whole buffers; an interruption or 1: any number of bytes, 2: a few, 3: one or all;
    /// 4: at most `unit` bytes, every call interrupted once when `intr`
    pub split: Cell<u64>,
    /// how many calls may still be split or interrupted
    pub devs: Cell<u64>,
    pub unit: Cell<u64>,
    pub intr: Cell<u64>,
    /// bytes allocated in advance for a sink or a chunk
    pub room: Cell<u64>,
    pub created: Cell<u64>,
    pub live: Cell<u64>,
    pub most: Cell<u64>,
}
impl Ctl {
    pub fn new() -> Rc<Ctl> {
        Rc::new(Ctl {
            calls: Cell::new(0),
            fail_at: Cell::new(u64::MAX),
            kind: Cell::new(0),
            code: Cell::new(5),
            failed: Cell::new(false),
            who: Cell::new(0),
            make: Cell::new(0),
            split: Cell::new(0),
            devs: Cell::new(u64::MAX),
            unit: Cell::new(0),
            intr: Cell::new(0),
            room: Cell::new(0),
            created: Cell::new(0),
            live: Cell::new(0),
            most: Cell::new(0),
        })
    }
    fn now(&self) -> bool {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n == self.fail_at.get() {
            vf::check(!self.failed.get(), "harness: two failures");
            self.failed.set(true);
            return true;
        }
        false
    }
    pub fn error(&self) -> io::Error {
        match self.kind.get() {
            0 => io::Error::from_raw_os_error(self.code.get() as i32),
            1 => io::ErrorKind::UnexpectedEof.into(),
            2 => io::ErrorKind::WouldBlock.into(),
            3 => io::ErrorKind::InvalidData.into(),
            4 => io::ErrorKind::WriteZero.into(),
            6 => KINDS[self.code.get() as usize].into(),
            _ => io::Error::new(io::ErrorKind::Other, Payload(77)),
        }
    }
    pub fn carried(&self, e: &io::Error) -> bool {
        match self.kind.get() {
            0 => e.raw_os_error() == Some(self.code.get() as i32),
            1 => e.kind() == io::ErrorKind::UnexpectedEof,
            2 => e.kind() == io::ErrorKind::WouldBlock,
            3 => e.kind() == io::ErrorKind::InvalidData,
            4 => e.kind() == io::ErrorKind::WriteZero,
            6 => e.kind() == KINDS[self.code.get() as usize],
            _ => {
                e.kind() == io::ErrorKind::Other
                    && match e.get_ref().and_then(|x| x.downcast_ref::<Payload>()) {
                        Some(p) => p.0 == 77,
                        None => false,
                    }
            }
        }
    }
    fn tick(&self) -> io::Result<()> {
        if self.now() {
            self.who.set(1);
            Err(self.error())
        } else {
            Ok(())
        }
    }
    /// how much of `n` bytes one call moves; `Err`: interrupted
    fn share(&self, n: usize) -> io::Result<usize> {
        if n == 0 || self.split.get() == 0 {
            return Ok(n);
        }
        // not part of the state
        self.calls.set(0);
        if self.split.get() == 4 {
            let i = self.intr.get();
            if i != 0 {
                self.intr.set(3 - i);
                if i == 1 {
                    return Err(io::ErrorKind::Interrupted.into());
                }
            }
            return Ok(n.min(self.unit.get() as usize));
        }
        if self.devs.get() == 0 {
            return Ok(n);
        }
        vf::checkpoint();
        // 0 is an interruption
        let m = match self.split.get() {
            1 => n - vf::pick("share", n as u64 + 1) as usize,
            2 => match vf::pick("share", 5) {
                0 => n,
                1 => 1,
                2 => (n / 2).max(1),
                3 => (n - 1).max(1),
                _ => 0,
            },
            _ => match vf::pick("share", 3) {
                0 => n,
                1 => 1,
                _ => 0,
            },
        };
        if m < n && self.devs.get() < u64::MAX {
            self.devs.set(self.devs.get() - 1);
        }
        if m == 0 {
            Err(io::ErrorKind::Interrupted.into())
        } else {
            Ok(m)
        }
    }
}

/// kinds of failure other than an interruption, which asks for another try
pub const KINDS: [io::ErrorKind; 32] = [
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkUnreachable,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::NotADirectory,
    io::ErrorKind::IsADirectory,
    io::ErrorKind::DirectoryNotEmpty,
    io::ErrorKind::ReadOnlyFilesystem,
    io::ErrorKind::StaleNetworkFileHandle,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::TimedOut,
    io::ErrorKind::StorageFull,
    io::ErrorKind::NotSeekable,
    io::ErrorKind::QuotaExceeded,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::ExecutableFileBusy,
    io::ErrorKind::Deadlock,
    io::ErrorKind::TooManyLinks,
    io::ErrorKind::ArgumentListTooLong,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Other,
];

#[derive(Debug)]
pub struct Payload(pub u32);
impl std::fmt::Display for Payload {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Payload {}

/// a sink, a source or a chunk
pub struct Io {
    pub data: Vec<u8>,
    pub at: u64,
    ctl: Rc<Ctl>,
    chunk: bool,
}
impl Io {
    pub fn new(data: Vec<u8>, ctl: &Rc<Ctl>) -> Io {
        Io { data, at: 0, ctl: ctl.clone(), chunk: false }
    }
    pub fn sink(ctl: &Rc<Ctl>) -> Io {
        Io::new(Vec::with_capacity(ctl.room.get() as usize), ctl)
    }
}
impl Drop for Io {
    fn drop(&mut self) {
        if self.chunk {
            self.ctl.live.set(self.ctl.live.get() - 1);
        }
    }
}
impl Read for Io {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.ctl.tick()?;
        let p = (self.at as usize).min(self.data.len());
        let n = self.ctl.share(b.len().min(self.data.len() - p))?;
        b[..n].copy_from_slice(&self.data[p..p + n]);
        self.at = (p + n) as u64;
        Ok(n)
    }
}
impl Write for Io {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.ctl.kind.get() == 4 && !b.is_empty() {
            // a sink that takes nothing
            if self.ctl.now() {
                self.ctl.who.set(1);
                return Ok(0);
            }
        } else {
            self.ctl.tick()?;
        }
        let n = self.ctl.share(b.len())?;
        // overwrites, as a file does
        let p = self.at as usize;
        if self.data.len() < p + n {
            self.data.resize(p + n, 0);
        }
        self.data[p..p + n].copy_from_slice(&b[..n]);
        self.at += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.ctl.tick()?;
        Ok(())
    }
}
impl Seek for Io {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.ctl.tick()?;
        let to = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::End(x) => self.data.len() as i64 + x,
            SeekFrom::Current(x) => self.at as i64 + x,
        };
        if to < 0 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.at = to as u64;
        Ok(self.at)
    }
}

/// makes chunks out of `Io`
pub struct Maker {
    pub ctl: Rc<Ctl>,
}
pub struct MakeError(Error);
impl From<MakeError> for Error {
    fn from(e: MakeError) -> Error {
        e.0
    }
}
impl ChunkCreator for Maker {
    type Chunk = Io;
    type Error = MakeError;
    fn create(&self) -> Result<Io, MakeError> {
        let c = &self.ctl;
        if let Err(e) = c.tick() {
            c.who.set(if c.make.get() == 0 { 1 } else { 3 });
            return Err(MakeError(match c.make.get() {
                0 => Error::Io(e),
                1 => Error::InvalidFormatVersion,
                _ => Error::InvalidCompressionType,
            }));
        }
        c.created.set(c.created.get() + 1);
        c.live.set(c.live.get() + 1);
        c.most.set(c.most.get().max(c.live.get()));
        let mut io = Io::sink(c);
        io.chunk = true;
        Ok(io)
    }
}

/// concatenates: associative, and a lone value comes back unchanged
pub struct Concat {
    pub ctl: Rc<Ctl>,
    pub log: Option<Rc<RefCell<Vec<(Vec<u8>, Vec<Vec<u8>>)>>>>,
    /// 0: plain concatenation; 1: each value preceded by its length (injective, not associative);
    /// 2: the last value, borrowed
    pub how: u64,
}
impl MergeFunction for Concat {
    type Error = u32;
    fn merge<'a>(&self, key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, u32> {
        if self.ctl.now() {
            self.ctl.who.set(2);
            return Err(4242);
        }
        if let Some(l) = &self.log {
            l.borrow_mut().push((key.to_vec(), values.iter().map(|v| v.to_vec()).collect()));
        }
        if values.len() == 1 {
            return Ok(values[0].clone());
        }
        Ok(match self.how {
            2 => match values.last() {
                Some(v) => v.clone(),
                None => Cow::Borrowed(&[]),
            },
            h => Cow::Owned(joined(h, values.iter().map(|v| &v[..]))),
        })
    }
}
pub fn joined<'a>(how: u64, vs: impl Iterator<Item = &'a [u8]>) -> Vec<u8> {
    let mut o = Vec::new();
    for v in vs {
        match how {
            2 => o.clear(),
            1 => o.push(v.len() as u8),
            _ => {}
        }
        o.extend_from_slice(v);
    }
    o
}
