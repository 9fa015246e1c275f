//! Small helpers: deterministic randomness, hashing, JSON output.
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ b.len() as u64;
    let mut c = b.chunks_exact(8);
    for w in &mut c {
        h = mix(h ^ u64::from_le_bytes(w.try_into().unwrap()));
    }
    for &x in c.remainder() {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, stream: &str, idx: u64) -> Rng {
        Rng(mix(mix(seed) ^ hash_bytes(stream.as_bytes()) ^ mix(idx.wrapping_mul(0x2545_F491_4F6C_DD1D))))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn byte(&mut self) -> u8 {
        (self.u64() >> 32) as u8
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// One of the numbers that are new in the sources, or a neighbour.
    pub fn hot(&mut self) -> Option<u64> {
        let d = crate::dict::dict();
        let v = if d.fresh.is_empty() || self.chance(1, 8) { &d.old } else { &d.fresh };
        if v.is_empty() || self.bool() {
            return None;
        }
        let x = *self.pick(v);
        Some(match self.below(6) {
            0 => x.wrapping_add(1),
            1 => x.wrapping_sub(1),
            _ => x,
        })
    }
    /// Boundary-biased u32.
    pub fn u32b(&mut self) -> u32 {
        match self.below(10) {
            0..=4 => self.below(8) as u32,
            5 => match self.hot() {
                Some(v) => v as u32,
                None => *self.pick(&U32_EDGES),
            },
            6 => self.below(300) as u32,
            7 => {
                let e = 1u32 << self.below(32);
                e.wrapping_add(self.below(3) as u32).wrapping_sub(1)
            }
            _ => (self.u64() >> (32 + self.below(32))) as u32,
        }
    }
    pub fn u64b(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(8),
            1 => match self.hot() {
                Some(v) => v,
                None => self.u32b() as u64,
            },
            2 => u64::MAX - self.below(3),
            3 => (1u64 << self.below(64)).wrapping_add(self.below(3)).wrapping_sub(1),
            _ => self.u64() >> self.below(64),
        }
    }
    pub fn i64b(&mut self) -> i64 {
        let v = self.u64b() as i64;
        match self.below(4) {
            0 => v.wrapping_neg(),
            1 => !v,
            2 => i64::MIN.wrapping_add(self.below(3) as i64),
            _ => v,
        }
    }
    pub fn i32b(&mut self) -> i32 {
        let v = self.u32b() as i32;
        match self.below(4) {
            0 => v.wrapping_neg(),
            1 => !v,
            2 => i32::MIN.wrapping_add(self.below(3) as i32),
            _ => v,
        }
    }
}

pub const U32_EDGES: [u32; 22] = [
    0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 8191, 8192, 16383, 16384, 65535, 65536, 2097151, 2097152, 268435455,
    0x7FFF_FFFF, 0xFFFF_FFFF,
];

/// Canonical and padded LEB128 encodings. `len` counts bytes; 0 means minimal.
pub fn leb_u(v: u64, len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut v = v;
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        let more = v != 0 || out.len() + 1 < len;
        out.push(if more { b | 0x80 } else { b });
        if !more {
            return out;
        }
    }
}
pub fn leb_u_min(v: u64) -> usize {
    leb_u(v, 0).len()
}
pub fn leb_s(v: i64, len: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut v = v as i128;
    loop {
        let b = (v & 0x7F) as u8;
        v >>= 7;
        let done = (v == 0 && b & 0x40 == 0) || (v == -1 && b & 0x40 != 0);
        let more = !done || out.len() + 1 < len;
        out.push(if more { b | 0x80 } else { b });
        if !more {
            return out;
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
pub fn hex_short(b: &[u8]) -> String {
    if b.len() <= 96 { hex(b) } else { format!("{}..({} bytes)..{}", hex(&b[..48]), b.len(), hex(&b[b.len() - 32..])) }
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.trim();
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len()).step_by(2).map(|i| u8::from_str_radix(s.get(i..i + 2)?, 16).ok()).collect()
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…({} chars)", &s[..e], s.len())
}

#[derive(Clone)]
pub enum J {
    N(u64),
    F(f64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(BTreeMap<String, J>),
}
impl J {
    pub fn s(x: impl Into<String>) -> J {
        J::S(x.into())
    }
    pub fn write(&self, o: &mut String, ind: usize) {
        match self {
            J::N(n) => {
                let _ = write!(o, "{n}");
            }
            J::F(n) => {
                let _ = write!(o, "{n:.3}");
            }
            J::B(n) => {
                let _ = write!(o, "{n}");
            }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7F => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.write(o, ind + 1);
                }
                o.push(']');
            }
            J::O(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    o.push_str(if i > 0 { ",\n" } else { "\n" });
                    o.push_str(&"  ".repeat(ind + 1));
                    J::S(k.clone()).write(o, 0);
                    o.push_str(": ");
                    x.write(o, ind + 1);
                }
                o.push('\n');
                o.push_str(&"  ".repeat(ind));
                o.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s, 0);
        s
    }
}
