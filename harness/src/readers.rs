//! Instrumented readers.
use crate::util::Rng;
use std::io::{self, Read};

/// How bytes are handed out.
#[derive(Clone, Debug)]
pub enum Delivery {
    Whole,
    OneByOne,
    Chunks(usize),
    Random,
    /// Random chunks with `Interrupted` errors in between.
    Interrupted,
    /// An interruption before every single byte and before the end.
    AlwaysInterrupted,
}

#[derive(Default, Clone, Debug)]
pub struct Log {
    pub calls: u64,
    pub consumed: usize,
    /// Reads that returned no bytes although some were asked for.
    pub ends: u64,
    pub interrupts: u64,
    pub max_request: usize,
    /// Failures handed out.
    pub failures: u64,
    /// Calls after a failure or after the end was seen.
    pub calls_after: u64,
}

pub struct Mon<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub delivery: Delivery,
    pub rng: Rng,
    pub log: Log,
    /// Fail (once or for ever) when the read position reaches this offset.
    pub fail_at: Option<usize>,
    pub fail_once: bool,
    pub make_err: fn(usize) -> io::Error,
    pub err_arg: usize,
    interrupted_last: bool,
}
impl<'a> Mon<'a> {
    pub fn new(b: &'a [u8], delivery: Delivery, rng: Rng) -> Mon<'a> {
        Mon {
            b,
            pos: 0,
            delivery,
            rng,
            log: Log::default(),
            fail_at: None,
            fail_once: false,
            make_err: |_| io::Error::other("injected"),
            err_arg: 0,
            interrupted_last: false,
        }
    }
}
impl Read for Mon<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.log.calls += 1;
        self.log.max_request = self.log.max_request.max(buf.len());
        if self.log.failures > 0 || self.log.ends > 0 {
            self.log.calls_after += 1;
        }
        if self.log.calls > 1_000_000 + 64 * self.b.len() as u64 {
            panic!("the decoder keeps reading: {} read calls for {} bytes", self.log.calls, self.b.len());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        match self.delivery {
            Delivery::Interrupted if !self.interrupted_last && self.rng.chance(1, 3) => {
                self.interrupted_last = true;
                self.log.interrupts += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            Delivery::AlwaysInterrupted if !self.interrupted_last => {
                self.interrupted_last = true;
                self.log.interrupts += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            _ => {}
        }
        self.interrupted_last = false;
        let mut left = self.b.len() - self.pos;
        if let Some(f) = self.fail_at
            && (self.log.failures == 0 || !self.fail_once)
        {
            if self.pos >= f {
                self.log.failures += 1;
                return Err((self.make_err)(self.err_arg));
            }
            left = left.min(f - self.pos);
        }
        let want = match self.delivery {
            Delivery::Whole => buf.len(),
            Delivery::OneByOne | Delivery::AlwaysInterrupted => 1,
            Delivery::Chunks(n) => n,
            Delivery::Random | Delivery::Interrupted => self.rng.range(1, 9) as usize,
        };
        let n = want.min(buf.len()).min(left);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        self.log.consumed = self.pos;
        if n == 0 {
            self.log.ends += 1;
        }
        Ok(n)
    }
}
