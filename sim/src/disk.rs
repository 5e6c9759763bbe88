//! Fault-injecting storage: readers and writers that transfer byte by byte as a
//! real file would under pressure, and a crash model.
use crate::prng::Prng;
use std::io::{Error, ErrorKind, Read, Result, Write};

#[derive(Clone, Debug, Default)]
pub struct IoFaults {
    pub seed: u64,
    /// Transfer at most a few bytes per call.
    pub short: bool,
    /// Return `Interrupted` now and then.
    pub interrupt: bool,
    /// Hard error once this many bytes were transferred.
    pub fail_at: Option<u64>,
    /// 0 = EIO, 1 = full disk (write returns Ok(0)), 2 = storage-full error.
    pub fail_kind: u64,
}

#[derive(Default, Clone, Debug)]
pub struct IoCount {
    pub short: u64,
    pub interrupt: u64,
    pub failed: u64,
}

/// `(limit for this call, or the error)`.
fn gate(f: &IoFaults, r: &mut Prng, c: &mut IoCount, done: u64, want: usize) -> Result<usize> {
    if want == 0 {
        return Ok(0);
    }
    if f.interrupt && r.chance(1, 4) {
        c.interrupt += 1;
        return Err(Error::new(ErrorKind::Interrupted, "simulated EINTR"));
    }
    let mut n = want;
    if f.short && r.chance(3, 4) {
        n = r.range(1, (want as u64).min(7)) as usize;
        if n < want {
            c.short += 1;
        }
    }
    if let Some(at) = f.fail_at {
        if done >= at {
            c.failed += 1;
            return match f.fail_kind {
                1 => Ok(0),
                2 => Err(Error::new(ErrorKind::Other, "simulated ENOSPC")),
                _ => Err(Error::new(ErrorKind::Other, "simulated EIO")),
            };
        }
        n = n.min((at - done) as usize);
    }
    Ok(n)
}

pub struct SimWriter {
    pub data: Vec<u8>,
    pub count: IoCount,
    f: IoFaults,
    r: Prng,
}
impl SimWriter {
    pub fn new(f: IoFaults) -> Self {
        let r = Prng::new(f.seed);
        Self { data: vec![], count: IoCount::default(), f, r }
    }
}
impl Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        let n = gate(&self.f, &mut self.r, &mut self.count, self.data.len() as u64, b.len())?;
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

pub struct SimReader {
    pub data: Vec<u8>,
    pub pos: usize,
    pub count: IoCount,
    f: IoFaults,
    r: Prng,
}
impl SimReader {
    pub fn new(data: Vec<u8>, mut f: IoFaults) -> Self {
        let r = Prng::new(f.seed);
        if f.fail_kind == 1 {
            f.fail_kind = 0;
        }
        Self { data, pos: 0, count: IoCount::default(), f, r }
    }
}
impl Read for SimReader {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        let want = b.len().min(self.data.len() - self.pos);
        if want == 0 {
            return Ok(0);
        }
        let n = gate(&self.f, &mut self.r, &mut self.count, self.pos as u64, want)?;
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Damage to a byte string in storage or transit.  Returns the fault's name.
pub fn damage(data: &mut Vec<u8>, kind: u64, seed: u64) -> &'static str {
    let mut r = Prng::new(seed);
    let n = data.len();
    match kind % 9 {
        0 => {
            if n > 0 {
                let i = r.below(n as u64) as usize;
                data[i] ^= 1 << r.below(8);
            }
            "bit_flip"
        },
        1 => {
            data.truncate(r.below(n as u64 + 1) as usize);
            "truncate"
        },
        2 => {
            let k = r.range(1, 16) as usize;
            data.extend(r.bytes(k));
            "extend"
        },
        3 => {
            if n > 0 {
                let a = r.below(n as u64) as usize;
                let k = (r.range(1, 64) as usize).min(n - a);
                data[a..a + k].fill(0);
            }
            "zero_block"
        },
        4 => {
            if n > 1 {
                let a = r.below(n as u64) as usize;
                let b = r.below(n as u64) as usize;
                data.swap(a, b);
            }
            "swap_bytes"
        },
        5 => {
            if n > 0 {
                let a = r.below(n as u64) as usize;
                let k = (r.range(1, 32) as usize).min(n - a);
                let x = r.bytes(k);
                data[a..a + k].copy_from_slice(&x);
            }
            "overwrite"
        },
        6 => {
            if n > 0 {
                let a = r.below(n as u64) as usize;
                let k = (r.range(1, 32) as usize).min(n - a);
                data.drain(a..a + k);
            }
            "lost_block"
        },
        7 => {
            if n > 0 {
                let i = r.below(n as u64) as usize;
                data[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]);
            }
            "byte_set"
        },
        _ => {
            data.clear();
            "empty"
        },
    }
}

/// One file of a simulated disk: what a crash may keep.
#[derive(Clone, Default, Debug)]
pub struct SimFile {
    pub durable: Vec<u8>,
    pub volatile: Vec<u8>,
}
impl SimFile {
    pub fn write_all(&mut self, b: &[u8]) {
        self.volatile = b.to_vec();
    }
    pub fn sync(&mut self) {
        self.durable = self.volatile.clone();
    }
    /// Crash with unsynced data: old, new, a prefix of new, or new with a zeroed tail.
    pub fn crash(&mut self, kind: u64, seed: u64) -> &'static str {
        let mut r = Prng::new(seed);
        let name;
        if self.durable != self.volatile {
            let n = self.volatile.len() as u64;
            self.durable = match kind % 4 {
                0 => {
                    name = "crash_lost_write";
                    self.durable.clone()
                },
                1 => {
                    name = "crash_kept_write";
                    self.volatile.clone()
                },
                2 => {
                    name = "crash_torn_write";
                    self.volatile[..r.below(n + 1) as usize].to_vec()
                },
                _ => {
                    name = "crash_zeroed_tail";
                    let k = r.below(n + 1) as usize;
                    let mut v = self.volatile.clone();
                    v[k..].fill(0);
                    v
                },
            };
        } else {
            name = "crash_clean";
        }
        self.volatile = self.durable.clone();
        name
    }
}
