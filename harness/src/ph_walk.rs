//! Walks over small alphabets: contents of sections grown byte by byte from
//! what matters there, as long as the reference finds no fault but their
//! being cut short; and well-formed ones with one or two bytes changed.
use crate::ctx::Ctx;
use crate::dict;
use crate::lib_::*;
use crate::model::*;
use crate::refdec::{self, Cause};
use crate::util::{Rng, hex_short, leb_u};

struct Place {
    name: &'static str,
    alphabet: &'static [u8],
    /// Contents grow to this many bytes.
    len: usize,
    wrap: fn(&[u8]) -> Vec<u8>,
}
fn body(b: &[u8]) -> Vec<u8> {
    module(&[sec(FUNCTION, &[1, 0]), sec(DATACOUNT, &[0]), sec(CODE, &cat(&[&[1], &leb_u(b.len() as u64, 0), b]))])
}
static PLACES: [Place; 22] = [
    Place { name: "type", alphabet: &[0x4E, 0x4F, 0x50, 0x60, 0x5F, 0x5E, 0x63, 0x64, 0x7F, 0x70, 0x78, 0, 1, 2], len: 9, wrap: |b| module(&[sec(TYPE, &cat(&[&[1], b]))]) },
    Place { name: "types", alphabet: &[0x4E, 0x4F, 0x50, 0x60, 0x5F, 0x5E, 0x7B, 0x77, 0, 1, 2], len: 12, wrap: |b| module(&[sec(TYPE, b)]) },
    Place { name: "subtype in a group", alphabet: &[0x4E, 0x4F, 0x50, 0x60, 0x5F, 0x5E, 0x7E, 0x6B, 0, 1, 2], len: 9, wrap: |b| module(&[sec(TYPE, &cat(&[&[1, 0x4E, 1], b]))]) },
    Place { name: "second of a group", alphabet: &[0x4E, 0x4F, 0x50, 0x60, 0x5F, 0x5E, 0x7E, 0x6B, 0, 1, 2], len: 9, wrap: |b| module(&[sec(TYPE, &cat(&[&[1, 0x4E, 2, 0x50, 1, 0, 0x60, 0, 0], b]))]) },
    Place { name: "field", alphabet: &[0x63, 0x64, 0x7F, 0x7B, 0x78, 0x77, 0x76, 0x70, 0x6B, 0x40, 0x80, 0xFF, 0, 1, 2], len: 7, wrap: |b| module(&[sec(TYPE, &cat(&[&[1, 0x5F, 1], b]))]) },
    Place { name: "import", alphabet: &[0, 1, 2, 3, 4, 5, 0x61, 0x70, 0x63, 0x7F, 0x80], len: 9, wrap: |b| module(&[sec(IMPORT, &cat(&[&[1], b]))]) },
    Place { name: "table", alphabet: &[0x40, 0, 1, 2, 3, 4, 5, 8, 0x70, 0x63, 0x64, 0x7F, 0x0B, 0xD0], len: 9, wrap: |b| module(&[sec(TABLE, &cat(&[&[1], b]))]) },
    Place { name: "memory", alphabet: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 0x80, 0xFF, 0x7F], len: 7, wrap: |b| module(&[sec(MEMORY, &cat(&[&[1], b]))]) },
    Place { name: "global", alphabet: &[0x7F, 0x63, 0x70, 0x7B, 0x78, 0, 1, 2, 0x41, 0x0B, 0xD2, 0x23, 0x6A, 0x02, 0x40], len: 9, wrap: |b| module(&[sec(GLOBAL, &cat(&[&[1], b]))]) },
    Place { name: "export", alphabet: &[0, 1, 2, 3, 4, 5, 0x61, 0x80, 0xC3, 0xA9], len: 8, wrap: |b| module(&[sec(EXPORT, &cat(&[&[1], b]))]) },
    Place { name: "tag", alphabet: &[0, 1, 2, 0x80, 0x7F, 0xFF, 0x0F], len: 8, wrap: |b| module(&[sec(TAG, &cat(&[&[1], b]))]) },
    Place { name: "start", alphabet: &[0, 1, 2, 0x80, 0x7F, 0xFF, 0x0F, 0x10], len: 7, wrap: |b| module(&[sec(START, b)]) },
    Place { name: "element", alphabet: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 0x41, 0x0B, 0x70, 0x63, 0x64, 0xD2, 0xD0], len: 11, wrap: |b| module(&[sec(ELEMENT, &cat(&[&[1], b]))]) },
    Place { name: "data", alphabet: &[0, 1, 2, 3, 0x41, 0x0B, 0x80, 0x7F, 0x23], len: 10, wrap: |b| module(&[sec(DATA, &cat(&[&[1], b]))]) },
    Place { name: "body", alphabet: &[0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x18, 0x19, 0x1F, 0x0B, 0x40, 0x7F, 0x63, 0, 1, 0x0C, 0x1A], len: 12, wrap: |b| body(&cat(&[&[0], b])) },
    Place { name: "structure", alphabet: &[0x02, 0x03, 0x04, 0x05, 0x0B, 0x40, 0x01], len: 14, wrap: |b| body(&cat(&[&[0], b])) },
    Place { name: "handlers", alphabet: &[0, 1, 2, 3, 4, 0x0B, 0x40, 0x80, 0x05], len: 11, wrap: |b| body(&cat(&[&[0, 0x1F], b])) },
    Place { name: "operands", alphabet: &[0xFC, 0xFB, 0xFD, 0x1C, 0x0E, 0x28, 0x36, 0x41, 0x42, 0x11, 0x20, 0x0B, 0x80, 0, 1, 2, 0x7F, 0x40, 0x63], len: 9, wrap: |b| body(&cat(&[&[0], b])) },
    Place { name: "memory argument", alphabet: &[0, 1, 2, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0xC0, 0xFF, 0x0B], len: 9, wrap: |b| body(&cat(&[&[0, 0x28], b])) },
    Place { name: "locals", alphabet: &[0, 1, 2, 3, 0x7F, 0x7B, 0x63, 0x70, 0x80, 0xFF, 0x0F, 0x0B], len: 11, wrap: body },
    Place { name: "bodies", alphabet: &[0, 1, 2, 3, 4, 5, 0x0B, 0x7F, 0x01, 0x80], len: 12, wrap: |b| module(&[sec(FUNCTION, &[2, 0, 0]), sec(CODE, b)]) },
    Place { name: "sections", alphabet: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0x0B, 0x80], len: 12, wrap: |b| cat(&[PRE, b]) },
];
const PARTS: usize = 120;

pub fn walks_n() -> u64 {
    (PLACES.len() * PARTS) as u64
}

struct Walk<'a> {
    place: &'a Place,
    alphabet: Vec<u8>,
    budget: u64,
    whole: Vec<Vec<u8>>,
}
impl Walk<'_> {
    fn run(&mut self, c: &mut Ctx, s: &[u8]) {
        let b = (self.place.wrap)(s);
        c.eval(&b);
        c.differential(&b);
    }
    fn visit(&mut self, c: &mut Ctx, s: &mut Vec<u8>) {
        if self.budget == 0 {
            return;
        }
        self.budget -= 1;
        self.run(c, s);
        let cut = match refdec::decode(&(self.place.wrap)(s)).0 {
            Ok(_) => {
                c.count("well-formed contents reached", 1);
                c.max("longest content reached", s.len() as u64);
                self.whole.push(s.clone());
                false
            }
            Err(f) => f.cause == Cause::Eof,
        };
        if !cut {
            // a decoder that does not stop here may find something behind
            if c.rng.chance(1, 8) {
                let mut t = s.clone();
                for _ in 0..1 + c.rng.below(5) {
                    t.push(*c.rng.pick(&self.alphabet));
                }
                self.run(c, &t);
            }
            return;
        }
        if s.len() >= self.place.len {
            return;
        }
        let mut next = self.alphabet.clone();
        shuffle(&mut c.rng, &mut next);
        // all paths down are as likely, whatever the budget
        let here = self.budget;
        let share = (here / next.len() as u64).max(1) * 2;
        for x in next {
            let keep = self.budget;
            self.budget = share.min(keep);
            let given = self.budget;
            s.push(x);
            self.visit(c, s);
            s.pop();
            self.budget = keep - (given - self.budget);
        }
    }
    /// One path down, as far as it goes.
    fn dive(&mut self, c: &mut Ctx) {
        let mut s = vec![];
        for _ in 0..6 * self.place.len {
            if s.len() >= self.place.len {
                return;
            }
            s.push(*c.rng.pick(&self.alphabet));
            self.run(c, &s);
            match refdec::decode(&(self.place.wrap)(&s)).0 {
                Ok(_) => {
                    c.count("well-formed contents reached", 1);
                    c.max("longest content reached", s.len() as u64);
                    self.whole.push(s);
                    return;
                }
                Err(f) if f.cause == Cause::Eof => {}
                Err(_) => drop(s.pop()),
            }
        }
    }
    /// One or two bytes of a well-formed content changed, put in, taken out.
    fn edits(&mut self, c: &mut Ctx, s: &[u8], n: u64) {
        for _ in 0..n {
            let mut t = s.to_vec();
            let x = *c.rng.pick(&self.alphabet);
            let y = *c.rng.pick(&self.alphabet);
            let at = c.rng.usize(t.len() + 1);
            match c.rng.below(8) {
                0..=2 => drop(t.splice(at..at, [x, y])),
                3 => t.insert(at, x),
                4 if at < t.len() => t[at] = x,
                5 if at + 1 < t.len() => {
                    t.swap(at, at + 1);
                }
                6 if at < t.len() => {
                    t[at] = x;
                    let at = c.rng.usize(t.len() + 1);
                    t.insert(at, y);
                }
                7 if at < t.len() => drop(t.remove(at)),
                _ => drop(t.splice(at..at, [x, y, *c.rng.pick(&self.alphabet)])),
            }
            self.run(c, &t);
        }
    }
}
fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.usize(i + 1));
    }
}
pub fn walks(c: &mut Ctx, idx: u64) {
    let place = &PLACES[idx as usize % PLACES.len()];
    let mut alphabet = place.alphabet.to_vec();
    // numbers that are new in the sources under test
    for &x in dict::dict().fresh.iter().filter(|x| **x < 256).take(4) {
        if !alphabet.contains(&(x as u8)) {
            alphabet.push(x as u8);
        }
    }
    let mut w = Walk { place, alphabet, budget: 1_200, whole: vec![] };
    w.visit(c, &mut vec![]);
    for _ in 0..50 {
        w.dive(c);
    }
    let mut whole = std::mem::take(&mut w.whole);
    shuffle(&mut c.rng, &mut whole);
    for s in whole.iter().take(40) {
        w.edits(c, s, 25);
    }
    c.seen("places walked", place.name);
    if let Some(s) = whole.first() {
        c.sample(|| format!("{}: grown to {}", place.name, hex_short(s)));
    }
}
