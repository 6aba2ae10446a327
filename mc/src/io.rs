//! The environment: readers and writers whose every answer the explorer decides.
use std::cell::RefCell;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

thread_local! {
    /// The kind of the errors that this thread's readers and writers fail with.
    pub static FAULT_KIND: std::cell::Cell<io::ErrorKind> = const { std::cell::Cell::new(io::ErrorKind::Other) };
}

/// How the environment answers one call, when it deviates from its default.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Answer {
    /// At most this many bytes.
    Short(usize),
    Interrupted,
    Error,
    /// A failure that a later call does not meet again.
    Once,
    /// Nothing is taken, now and later (for writers).
    Zero,
}

#[derive(Default, Debug)]
pub struct Log {
    /// Calls that asked the environment for something (read, fill_buf on an empty buffer, seek).
    pub reads: usize,
    pub seeks: usize,
    pub writes: usize,
    pub flushes: usize,
    /// An injected error was delivered.
    pub injected: bool,
    /// After an injected error the device stays failed.
    pub sticky: bool,
}

pub type SharedLog = Rc<RefCell<Log>>;

/// A reader over `data`: `chunk` is the default size of an answer, `dev` the deviations by the
/// index of the environment call (reads and seeks are numbered together).
pub struct EnvReader {
    pub data: Rc<Vec<u8>>,
    pos: u64,
    chunk: usize,
    dev: Vec<(usize, Answer)>,
    calls: usize,
    /// The filled part of the buffer that has not been consumed (for BufRead).
    avail: usize,
    pub log: SharedLog,
}
impl EnvReader {
    pub fn new(data: Rc<Vec<u8>>, chunk: usize, dev: Vec<(usize, Answer)>) -> (EnvReader, SharedLog) {
        let log: SharedLog = Default::default();
        (EnvReader { data, pos: 0, chunk: chunk.max(1), dev, calls: 0, avail: 0, log: log.clone() }, log)
    }
    fn answer(&mut self, seek: bool) -> io::Result<usize> {
        let i = self.calls;
        self.calls += 1;
        for (k, a) in &self.dev {
            // Only reads and writes may ask to be retried.
            if seek && !matches!(a, Answer::Error | Answer::Once) {
                continue;
            }
            if *k == i || (matches!(a, Answer::Error | Answer::Zero) && self.log.borrow().sticky) {
                return match a {
                    Answer::Short(n) => Ok((*n).max(1)),
                    Answer::Interrupted => Err(io::Error::new(io::ErrorKind::Interrupted, "injected interrupt")),
                    Answer::Zero => {
                        let mut l = self.log.borrow_mut();
                        l.injected = true;
                        l.sticky = true;
                        Ok(0)
                    }
                    Answer::Error | Answer::Once => {
                        let mut l = self.log.borrow_mut();
                        l.injected = true;
                        l.sticky |= *a == Answer::Error;
                        Err(io::Error::new(FAULT_KIND.with(|k| k.get()), "injected fault"))
                    }
                };
            }
        }
        Ok(self.chunk)
    }
    fn left(&self) -> usize {
        (self.data.len() as u64).saturating_sub(self.pos) as usize
    }
}
impl Read for EnvReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let n = if self.avail > 0 {
            self.avail.min(buf.len())
        } else {
            self.log.borrow_mut().reads += 1;
            let a = self.answer(false)?;
            a.min(buf.len()).min(self.left())
        };
        let p = self.pos as usize;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[p..p + n]);
        }
        self.pos += n as u64;
        self.avail -= n.min(self.avail);
        Ok(n)
    }
}
impl BufRead for EnvReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.avail == 0 {
            self.log.borrow_mut().reads += 1;
            let a = self.answer(false)?;
            self.avail = a.min(self.left());
        }
        let p = (self.pos as usize).min(self.data.len());
        Ok(&self.data[p..p + self.avail])
    }
    fn consume(&mut self, amt: usize) {
        assert!(amt <= self.avail, "consume({amt}) of {} buffered bytes", self.avail);
        self.pos += amt as u64;
        self.avail -= amt;
    }
}
impl Seek for EnvReader {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let target = match s {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if let SeekFrom::Current(0) = s {
            // stream_position: no device access
            return Ok(self.pos);
        }
        self.log.borrow_mut().seeks += 1;
        self.answer(true)?;
        if target < 0 || target > u64::MAX as i128 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = target as u64;
        self.avail = 0;
        Ok(self.pos)
    }
}

/// A writer into memory with deviations by the index of the environment call.
pub struct EnvWriter {
    pub data: Rc<RefCell<Vec<u8>>>,
    pos: u64,
    chunk: usize,
    dev: Vec<(usize, Answer)>,
    calls: usize,
    pub log: SharedLog,
}
impl EnvWriter {
    pub fn new(chunk: usize, dev: Vec<(usize, Answer)>) -> (EnvWriter, Rc<RefCell<Vec<u8>>>, SharedLog) {
        let log: SharedLog = Default::default();
        let data: Rc<RefCell<Vec<u8>>> = Default::default();
        (EnvWriter { data: data.clone(), pos: 0, chunk: chunk.max(1), dev, calls: 0, log: log.clone() }, data, log)
    }
    fn answer(&mut self, seek: bool) -> io::Result<usize> {
        let i = self.calls;
        self.calls += 1;
        for (k, a) in &self.dev {
            // Only reads and writes may ask to be retried.
            if seek && !matches!(a, Answer::Error | Answer::Once) {
                continue;
            }
            if *k == i || (matches!(a, Answer::Error | Answer::Zero) && self.log.borrow().sticky) {
                return match a {
                    Answer::Short(n) => Ok((*n).max(1)),
                    Answer::Interrupted => Err(io::Error::new(io::ErrorKind::Interrupted, "injected interrupt")),
                    Answer::Zero => {
                        let mut l = self.log.borrow_mut();
                        l.injected = true;
                        l.sticky = true;
                        Ok(0)
                    }
                    Answer::Error | Answer::Once => {
                        let mut l = self.log.borrow_mut();
                        l.injected = true;
                        l.sticky |= *a == Answer::Error;
                        Err(io::Error::new(FAULT_KIND.with(|k| k.get()), "injected fault"))
                    }
                };
            }
        }
        Ok(self.chunk)
    }
}
impl Write for EnvWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.log.borrow_mut().writes += 1;
        let n = self.answer(false)?.min(buf.len());
        let mut d = self.data.borrow_mut();
        let p = self.pos as usize;
        if d.len() < p + n {
            d.resize(p + n, 0);
        }
        d[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.log.borrow_mut().flushes += 1;
        self.answer(true).map(|_| ())
    }
}
impl Seek for EnvWriter {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let len = self.data.borrow().len() as i128;
        let target = match s {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => len + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if let SeekFrom::Current(0) = s {
            return Ok(self.pos);
        }
        self.log.borrow_mut().seeks += 1;
        self.answer(true)?;
        if target < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = target as u64;
        Ok(self.pos)
    }
}
