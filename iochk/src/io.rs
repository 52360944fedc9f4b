//! Sources and sinks that behave as the I/O traits allow: short reads and writes, interruptions,
//! data held back until a flush, and failures at a chosen byte.
use mon::Rng;
use std::io::{BufRead, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex, MutexGuard};

/// Shared with the source or sink that the code under test owns
pub struct Shared<T>(Arc<Mutex<T>>);
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Shared(Arc::new(Mutex::new(t)))
    }
    pub fn borrow(&self) -> MutexGuard<'_, T> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn borrow_mut(&self) -> MutexGuard<'_, T> {
        self.borrow()
    }
}

/// What happened at a sink
#[derive(Default)]
pub struct SinkState {
    pub data: Vec<u8>,
    /// bytes that were there at the last flush
    pub flushed: Vec<u8>,
    pub flushes: usize,
    pub writes: usize,
    pos: u64,
    max: usize,
    interrupt: usize,
    fail_at: Option<usize>,
    pub failed: bool,
}

#[derive(Clone)]
pub struct Sink(pub Shared<SinkState>);

impl Sink {
    pub fn new(rng: &mut Rng) -> Sink {
        let s = SinkState {
            max: if rng.bool() { usize::MAX } else { *rng.pick(&[1usize, 2, 3, 7, 64]) },
            interrupt: if rng.chance(1, 4) { rng.range(2, 9) } else { 0 },
            ..Default::default()
        };
        Sink(Shared::new(s))
    }
    pub fn failing(rng: &mut Rng, at: usize) -> Sink {
        let s = Sink::new(rng);
        s.0.borrow_mut().fail_at = Some(at);
        s
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().data.clone()
    }
    pub fn flushed(&self) -> Vec<u8> {
        self.0.borrow().flushed.clone()
    }
    pub fn failed(&self) -> bool {
        self.0.borrow().failed
    }
    pub fn will_fail(&self) -> bool {
        self.0.borrow().fail_at.is_some()
    }
    /// Something is in the output already
    pub fn lead(&self, n: usize) {
        let mut s = self.0.borrow_mut();
        s.data = vec![0xEE; n];
        s.flushed = s.data.clone();
        s.pos = n as u64;
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut s = self.0.borrow_mut();
        s.writes += 1;
        if s.interrupt > 0 && s.writes % s.interrupt == 0 && !buf.is_empty() {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = buf.len().min(s.max);
        if let Some(f) = s.fail_at {
            if s.pos as usize + n > f {
                n = f.saturating_sub(s.pos as usize);
                if n == 0 && !buf.is_empty() {
                    s.failed = true;
                    return Err(Error::new(ErrorKind::Other, "disk full"));
                }
            }
        }
        let at = s.pos as usize;
        if s.data.len() < at + n {
            s.data.resize(at + n, 0);
        }
        s.data[at..at + n].copy_from_slice(&buf[..n]);
        s.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut s = self.0.borrow_mut();
        s.flushes += 1;
        s.flushed = s.data.clone();
        Ok(())
    }
}

fn seek_to(pos: &mut u64, len: usize, to: SeekFrom) -> Result<u64> {
    let t = match to {
        SeekFrom::Start(x) => x as i128,
        SeekFrom::End(x) => len as i128 + x as i128,
        SeekFrom::Current(x) => *pos as i128 + x as i128,
    };
    if t < 0 || t > u64::MAX as i128 {
        return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
    }
    *pos = t as u64;
    Ok(*pos)
}

impl Seek for Sink {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let mut s = self.0.borrow_mut();
        let len = s.data.len();
        let s = &mut *s;
        seek_to(&mut s.pos, len, to)
    }
}

pub struct Source {
    data: Vec<u8>,
    pos: u64,
    max: usize,
    interrupt: usize,
    reads: usize,
    fail_at: Option<usize>,
    pub failed: Shared<bool>,
}

impl Source {
    pub fn new(data: Vec<u8>, rng: &mut Rng) -> Source {
        Source {
            data,
            pos: 0,
            max: if rng.bool() { usize::MAX } else { *rng.pick(&[1usize, 2, 3, 7, 64]) },
            interrupt: if rng.chance(1, 4) { rng.range(2, 9) } else { 0 },
            reads: 0,
            fail_at: None,
            failed: Shared::new(false),
        }
    }
    pub fn failing(data: Vec<u8>, rng: &mut Rng, at: usize) -> Source {
        let mut s = Source::new(data, rng);
        s.fail_at = Some(at);
        s
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.reads += 1;
        if self.interrupt > 0 && self.reads % self.interrupt == 0 && !buf.is_empty() {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let at = (self.pos as usize).min(self.data.len());
        let mut n = buf.len().min(self.max).min(self.data.len() - at);
        if let Some(f) = self.fail_at {
            if at + n > f {
                n = f.saturating_sub(at);
                if n == 0 && !buf.is_empty() {
                    *self.failed.borrow_mut() = true;
                    return Err(Error::new(ErrorKind::Other, "device gone"));
                }
            }
        }
        buf[..n].copy_from_slice(&self.data[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Source {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let len = self.data.len();
        seek_to(&mut self.pos, len, to)
    }
}

/// A directory of its own for the cases that go through files
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(rng: &mut Rng) -> Scratch {
        let d = std::env::temp_dir().join(format!("iochk-{}-{:x}", std::process::id(), rng.u64()));
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
