//! What one decode yields, boiled down to a number that is the same on every
//! platform. Compiled into the monitor and into the probe (../../probe).
use crate::bridge;
use std::error::Error;
use std::fmt::Write;
use std::io::{self, Read};

/// Text first, hashed in words at the end (Miri is slow).
struct Text(Vec<u8>);
impl Text {
    fn digest(mut self) -> u64 {
        self.0.push(1);
        while self.0.len() % 8 != 0 {
            self.0.push(0);
        }
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut i = 0;
        while i < self.0.len() {
            let w: [u8; 8] = self.0[i..i + 8].try_into().unwrap();
            h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
            h ^= h >> 29;
            i += 8;
        }
        h
    }
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

/// Ways of handing out the bytes.
pub const SLICE: u8 = 0;
pub const BYTEWISE: u8 = 1;
pub const INTERRUPTED: u8 = 2;
/// In threes; looks at what the buffer holds before filling it.
pub const PEEKING: u8 = 3;
/// From some offset on, claims to have delivered more than it was asked for.
pub const LYING: u8 = 4;
/// Panics at some offset.
pub const PANICKING: u8 = 5;
/// Fails at some offset.
pub const FAILING: u8 = 6;
pub const MODES: u8 = 7;

pub struct Odd<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub mode: u8,
    pub arg: usize,
    pub seen: u64,
    pub turn: bool,
}
impl Read for Odd<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut left = self.b.len() - self.pos;
        let due = self.pos >= self.arg;
        let mut want = buf.len();
        match self.mode {
            BYTEWISE => want = 1,
            INTERRUPTED => {
                self.turn = !self.turn;
                if self.turn {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                want = 2;
            }
            PEEKING => {
                for x in buf.iter() {
                    self.seen = self.seen.wrapping_mul(31).wrapping_add(*x as u64);
                    if *x == 0xA5 {
                        self.seen ^= 1;
                    }
                }
                want = 3;
            }
            LYING if due && !buf.is_empty() => {
                self.arg = usize::MAX;
                return Ok(buf.len() + 1 + self.b.len() % 7);
            }
            PANICKING if due => panic!("reader panics"),
            FAILING if due => return Err(io::Error::other("reader fails")),
            _ => {}
        }
        if matches!(self.mode, LYING | PANICKING | FAILING) && self.arg < usize::MAX {
            left = left.min(self.arg - self.pos);
        }
        let n = want.min(buf.len()).min(left);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// 0 module, 1 error, 2 panic, 3 a module with text that is no UTF-8; and the digest of everything in it (with the
/// debug forms of wadec's own types if `forms`).
pub fn run(b: &[u8], mode: u8, arg: usize, forms: bool) -> (u8, u64) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let r = if mode == SLICE {
            wadec::decode_module(b)
        } else {
            let mut o = Odd { b, pos: 0, mode, arg, seen: 0, turn: false };
            let r = wadec::decode_module(&mut o);
            std::hint::black_box(o.seen);
            r
        };
        let mut h = Text(vec![]);
        match &r {
            Ok(m) => {
                let (mut x, odd) = bridge::module(m);
                // how text is escaped depends on the standard library: it goes
                // into the digest as bytes
                let mut plain = true;
                for s in x.names() {
                    if std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_err() {
                        return (3, 0);
                    }
                    h.0.extend_from_slice(s.as_bytes());
                    h.0.push(0xFF);
                    plain &= s.is_ascii();
                    s.clear();
                }
                let _ = write!(h, "{x:?}{odd:?}");
                if forms && plain && b.len() < 2000 {
                    let _ = write!(h, "{m:?}");
                }
                (0, h.digest())
            }
            Err(e) => {
                if forms {
                    let _ = write!(h, "{e:?}");
                }
                let _ = write!(h, "|{e}");
                let mut s = e.source();
                while let Some(x) = s {
                    let _ = write!(h, "|{x}");
                    s = x.source();
                }
                (1, h.digest())
            }
        }
    }));
    r.unwrap_or_else(|p| {
        let mut h = Text(vec![]);
        let t = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned());
        let _ = write!(h, "{t:?}");
        (2, h.digest())
    })
}

/// A file of cases: for each the way of reading, its argument, the bytes.
pub fn pack(cases: &[(u8, usize, Vec<u8>)]) -> Vec<u8> {
    let mut v = vec![];
    for (m, a, b) in cases {
        v.push(*m);
        v.extend((*a as u32).to_le_bytes());
        v.extend((b.len() as u32).to_le_bytes());
        v.extend_from_slice(b);
    }
    v
}
pub fn unpack(v: &[u8]) -> Vec<(u8, usize, &[u8])> {
    let n = |i: usize| u32::from_le_bytes(v[i..i + 4].try_into().unwrap()) as usize;
    let mut at = 0;
    let mut r = vec![];
    while at < v.len() {
        let len = n(at + 5);
        r.push((v[at], n(at + 1), &v[at + 9..at + 9 + len]));
        at += 9 + len;
    }
    r
}
