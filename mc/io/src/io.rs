//! A byte device owned by the explorer: every read, write, seek and flush that the code under test
//! issues goes through it, so that the explorer chooses how many bytes each operation transfers and
//! which operation fails.
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct State {
    pub data: Vec<u8>,
    /// Number of operations (reads, writes, seeks, flushes) so far
    pub ops: usize,
    pub flushes: usize,
    /// Operations with these numbers fail
    pub fail_from: Option<usize>,
    /// Only operation `fail_from` fails, not the ones behind it
    pub once: bool,
    pub kind: Option<io::ErrorKind>,
    pub failed: usize,
    /// Maximum number of bytes per read and write
    pub chunk: usize,
    /// Writes beyond this size of the device fail
    pub capacity: usize,
}

#[derive(Clone)]
pub struct Chan {
    pub s: Arc<Mutex<State>>,
    pub pos: u64,
}

impl Chan {
    pub fn new(data: Vec<u8>) -> Chan {
        Chan { s: Arc::new(Mutex::new(State { data, chunk: usize::MAX, capacity: usize::MAX, ..Default::default() })), pos: 0 }
    }
    pub fn chunked(self, chunk: usize) -> Chan {
        self.s.lock().unwrap().chunk = chunk.max(1);
        self
    }
    pub fn failing(self, at: usize, once: bool, kind: io::ErrorKind) -> Chan {
        {
            let mut s = self.s.lock().unwrap();
            s.fail_from = Some(at);
            s.once = once;
            s.kind = Some(kind);
        }
        self
    }
    /// A second handle on the same device
    pub fn handle(&self) -> Chan {
        Chan { s: self.s.clone(), pos: 0 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.s.lock().unwrap().data.clone()
    }
    pub fn ops(&self) -> usize {
        self.s.lock().unwrap().ops
    }
    pub fn failures(&self) -> usize {
        self.s.lock().unwrap().failed
    }
    fn op(&self) -> io::Result<()> {
        let mut s = self.s.lock().unwrap();
        let n = s.ops;
        s.ops += 1;
        if let Some(k) = s.fail_from {
            if n == k || (n > k && !s.once) {
                s.failed += 1;
                return Err(io::Error::new(s.kind.unwrap_or(io::ErrorKind::Other), "injected fault"));
            }
        }
        Ok(())
    }
}
impl Read for Chan {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.op()?;
        let s = self.s.lock().unwrap();
        let from = (self.pos as usize).min(s.data.len());
        let n = buf.len().min(s.chunk).min(s.data.len() - from);
        buf[..n].copy_from_slice(&s.data[from..from + n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Chan {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.op()?;
        let mut s = self.s.lock().unwrap();
        let n = buf.len().min(s.chunk);
        let p = self.pos as usize;
        if n > 0 && p + n > s.capacity {
            s.failed += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "device full"));
        }
        if s.data.len() < p {
            s.data.resize(p, 0);
        }
        let overlap = n.min(s.data.len() - p);
        s.data[p..p + overlap].copy_from_slice(&buf[..overlap]);
        s.data.extend_from_slice(&buf[overlap..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.op()?;
        self.s.lock().unwrap().flushes += 1;
        Ok(())
    }
}
impl Seek for Chan {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        self.op()?;
        let len = self.s.lock().unwrap().data.len() as i64;
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => len + d,
        };
        if p < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek to a negative position"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// All words of length `n` over `0..k`
pub fn words(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut w = vec![0; n];
    if k == 0 && n > 0 {
        return;
    }
    loop {
        f(&w);
        let mut i = n;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            w[i] += 1;
            if w[i] < k {
                break;
            }
            w[i] = 0;
        }
    }
}
