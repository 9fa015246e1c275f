//! Phases that compare wadec with the reference decoder.
use crate::ctx::Ctx;
use crate::enc::{self, Class, Style};
use crate::gen_::{self, Plan, Prof};
use crate::lib_::*;
use crate::model::{self, *};
use crate::observe::Out;
use crate::refdec::{self, ref_func, ref_null};
use crate::spec::{self, K, OPS};
use crate::util::{Rng, U32_EDGES, hex_short, leb_s, leb_u};

fn run(c: &mut Ctx, b: &[u8]) {
    c.eval(b);
    c.differential(b);
}
fn run_enum(c: &mut Ctx, b: &[u8]) {
    c.st.evals += 1;
    c.st.distinct_enum += 1;
    c.differential(b);
}

// ---------------------------------------------------------------- generated

pub fn generated(c: &mut Ctx, idx: u64) {
    let p = match idx % 8 {
        0..=2 => Prof::general(),
        3 => Prof::dense(),
        4 => Prof { items: 2, ins: 60, depth: 12, ..Prof::general() },
        5 => Prof { items: 40, ins: 4, depth: 2, bytes: 300, ..Prof::general() },
        6 => Prof { secs: [3; 14], customs: 8, ..Prof::general() },
        _ => Prof { items: 3, ins: 30, depth: 40, bytes: 4, ..Prof::dense() },
    };
    let (_, b, m) = c.generated(&p);
    run(c, &b);
    c.sample(|| format!("generated module of {} sections: {}", m.headers.len(), hex_short(&b)));
}
/// Dense in one section kind after another.
pub fn generated_sections(c: &mut Ctx, idx: u64) {
    let k = ORDER[(idx % 13) as usize];
    let mut p = Prof::only(&[k]);
    if k == CODE || k == FUNCTION {
        p = Prof::only(&[FUNCTION, CODE]);
    }
    p.items = *c.rng.pick(&[1, 3, 12, 140]);
    p.bytes = *c.rng.pick(&[3, 40, 400]);
    p.customs = c.rng.below(2) * 2;
    if p.items > 50 {
        p.ins = 3;
    }
    let (_, b, _) = c.generated(&p);
    run(c, &b);
}
pub fn generated_types(c: &mut Ctx, _: u64) {
    let mut p = Prof::only(&[TYPE, IMPORT, TABLE, MEMORY, TAG, GLOBAL, ELEMENT]);
    p.secs[TYPE as usize] = 16;
    for k in [IMPORT, TABLE, MEMORY, TAG, GLOBAL, ELEMENT] {
        p.secs[k as usize] = 4;
    }
    p.items = 1 + c.rng.below(9);
    p.ins = 2;
    if c.rng.chance(1, 3) {
        p.secs[FUNCTION as usize] = 16;
        p.secs[CODE as usize] = 16;
        p.ops = &[0x02, 0x03, 0x04, 0x1F, 0x1C, 0xD0, 0xFB_0014, 0xFB_0015, 0xFB_0016, 0xFB_0017, 0xFB_0018, 0xFB_0019];
        p.ins = 8;
    }
    let (_, b, _) = c.generated(&p);
    run(c, &b);
}
pub fn generated_code(c: &mut Ctx, idx: u64) {
    let mut p = Prof::only(&[FUNCTION, CODE]);
    p.secs[DATACOUNT as usize] = 8;
    p.items = 1 + c.rng.below(6);
    match idx % 4 {
        0 => p.ins = 40,
        1 => {
            p.ins = 60;
            p.depth = 30;
        }
        2 => {
            p.ins = 4;
            p.locals_max = 100_000;
        }
        _ => p.items = 60,
    }
    let (_, b, _) = c.generated(&p);
    run(c, &b);
}
/// Float, vector and byte payloads.
pub fn generated_payloads(c: &mut Ctx, _: u64) {
    let mut p = Prof::only(&[FUNCTION, CODE, DATA, GLOBAL]);
    p.ops = &[0x43, 0x44, 0xFD_000C, 0xFD_000D, 0xFD_0015, 0xFD_0054, 0xFD_005B, 0x02, 0x04];
    p.ins = 20;
    p.bytes = *c.rng.pick(&[1, 64, 1000, 5000]);
    p.customs = 3;
    let (_, b, _) = c.generated(&p);
    run(c, &b);
}
/// The same module in encodings that differ only where the format permits.
pub fn paddings(c: &mut Ctx, idx: u64) {
    let p = if idx % 2 == 0 { Prof::general() } else { Prof::dense() };
    let plan = gen_::module(&mut c.rng, &p);
    let mut first: Option<Module> = None;
    for pad in [0, 3, 8, 16, 16] {
        let (b, _, _) = c.encode(&plan, &Style { pad, long: 0 });
        c.eval(&b);
        if let Some(st) = c.differential(&b)
            && let Out::Ok(w) = &st.out
        {
            let mut m = crate::bridge::module(w).0;
            m.headers.clear();
            match &first {
                None => first = Some(m),
                Some(f) if *f != m => {
                    let d = model::diff(f, &m);
                    c.fail(format!("re-encoding integers with other lengths changes the result: {d:?}; input {}", hex_short(&b)), Some(&b));
                }
                _ => c.count("re-encodings with equal results", 1),
            }
        }
    }
}

// ------------------------------------------------------------------- faults

fn other_int(r: &mut Rng, class: Class, val: i128) -> Vec<u8> {
    let (bits, signed) = match class {
        Class::U(b) => (b, false),
        Class::S(b) => (b, true),
        _ => unreachable!(),
    };
    let max = bits.div_ceil(7) as usize;
    let enc = |v: i128, n: usize| if signed { leb_s(v as i64, n) } else { leb_u(v as u64, n) };
    match r.below(10) {
        // legal but other value
        0 => enc(val + 1, 0),
        1 => enc((val - 1).max(if signed { -2 } else { 0 }), 0),
        2 => enc(r.u32b() as i128 & 0xFFFF, 0),
        // too long
        3 => enc(val, max + 1 + r.usize(2)),
        // unused bits of the last byte
        4 | 5 => {
            let mut v = enc(val, max);
            let l = v.len() - 1;
            v[l] ^= 1 << r.below(7);
            v
        }
        6 => {
            let mut v = enc(val, max);
            let l = v.len() - 1;
            v[l] |= 0x80;
            v
        }
        // legal padding
        7 => enc(val, r.range(1, max as u64) as usize),
        // for narrow integers, the value with high bits added
        8 => {
            let mut v = enc(val, max);
            let l = v.len() - 1;
            v[l] = r.byte() & 0x7F;
            v
        }
        _ => r.bytes(max),
    }
}
/// One token of a generated module is replaced, sizes follow suit.
pub fn fault_bytes(c: &mut Ctx, idx: u64) -> Vec<u8> {
    let p = match idx % 4 {
        0 => Prof::general(),
        1 => Prof { items: 3, ins: 5, ..Prof::dense() },
        2 => Prof { secs: [3; 14], items: 12, ..Prof::general() },
        _ => Prof { ins: 40, depth: 12, ..Prof::general() },
    };
    let plan = gen_::module(&mut c.rng, &p);
    fault_in(c, &plan)
}
const BEGINNINGS: [&[u8]; 34] = [
    &[0x4E, 1], &[0x4E, 2], &[0x50, 0], &[0x4F, 0], &[0x50, 1, 0], &[0x4F, 1, 0], &[0x60], &[0x60, 0, 0], &[0x5F, 0], &[0x5E], &[0x63], &[0x64],
    &[0x7F], &[0x40], &[0x40, 0], &[0x02, 0x40], &[0x03, 0x40], &[0x04, 0x40], &[0x06, 0x40], &[0x07, 0], &[0x18, 0], &[0x19],
    &[0x1F, 0x40, 0], &[0x0B], &[0x05], &[0], &[1], &[2], &[0, 0], &[0xFC], &[0xFB], &[0xFD], &[0xFE], &[0x80],
];
pub fn fault_in(c: &mut Ctx, plan: &Plan) -> Vec<u8> {
    let st = c.style();
    let er = Rng::new(c.rng.u64(), "enc", 0);
    let e = enc::encode(plan, &er, &st, vec![], true);
    let k = c.rng.usize(e.toks.len());
    let t = e.toks[k];
    let r = &mut c.rng;
    // something that begins another construct comes before the token
    if t.class != Class::Raw && r.chance(1, 8) {
        let mut new = r.pick(&BEGINNINGS).to_vec();
        let fresh = &crate::dict::dict().fresh;
        if !fresh.is_empty() && r.chance(1, 4) {
            new[0] = *r.pick(fresh) as u8;
        }
        new.extend(match t.class {
            Class::U(_) => leb_u(t.val as u64, 0),
            Class::S(_) => leb_s(t.val as i64, 0),
            _ => vec![t.val as u8],
        });
        return enc::encode(plan, &er, &st, vec![(k, new)], false).bytes;
    }
    let new = match t.class {
        Class::Byte => match r.below(4) {
            0 => vec![(t.val as u8).wrapping_add(1)],
            1 => vec![],
            2 => vec![*r.pick(&[0x00, 0x05, 0x0B, 0x40, 0x60, 0x63, 0x70, 0x7F, 0x80, 0xFF])],
            _ => vec![r.byte()],
        },
        Class::U(_) | Class::S(_) => other_int(r, t.class, t.val),
        Class::Raw => {
            let n = t.val as usize;
            match r.below(4) {
                0 => r.bytes(n.saturating_sub(1)),
                1 => r.bytes(n + 1),
                _ => r.bytes(n),
            }
        }
    };
    enc::encode(plan, &er, &st, vec![(k, new)], false).bytes
}
pub fn faults(c: &mut Ctx, idx: u64) {
    let b = fault_bytes(c, idx);
    run(c, &b);
    c.sample(|| format!("one item replaced: {}", hex_short(&b)));
}
pub fn mutate(c: &mut Ctx, b: &mut Vec<u8>) {
    let n = 1 + c.rng.below(3);
    for _ in 0..n {
        if b.is_empty() {
            return;
        }
        let at = c.rng.usize(b.len());
        match c.rng.below(9) {
            0 => b[at] ^= 1 << c.rng.below(8),
            1 => b[at] = c.rng.byte(),
            2 => b[at] = *c.rng.pick(&[0, 1, 0x0B, 0x40, 0x7F, 0x80, 0xFF]),
            3 => {
                let x = c.rng.byte();
                b.insert(at, x);
            }
            4 => {
                b.remove(at);
            }
            5 => b.truncate(at),
            6 => {
                let end = (at + 1 + c.rng.usize(16)).min(b.len());
                let s = b[at..end].to_vec();
                let to = c.rng.usize(b.len() + 1);
                b.splice(to..to, s);
            }
            7 => {
                let end = (at + 1 + c.rng.usize(16)).min(b.len());
                b.drain(at..end);
            }
            _ => {
                let n = c.rng.usize(4);
                let x = c.rng.bytes(n);
                b.extend(x);
            }
        }
    }
}
pub fn mutations(c: &mut Ctx, idx: u64) {
    let p = if idx % 2 == 0 { Prof { items: 3, ins: 6, ..Prof::general() } } else { Prof { secs: [3; 14], ..Prof::general() } };
    let (_, mut b, _) = c.generated(&p);
    mutate(c, &mut b);
    run(c, &b);
}
/// Mutations within one section's content; the declared size follows.
pub fn section_mutations(c: &mut Ctx, _: u64) {
    let (_, b, m) = c.generated(&Prof { items: 3, ins: 6, ..Prof::general() });
    let (r, info) = refdec::decode(&b);
    if r.is_err() || m.headers.is_empty() {
        return;
    }
    let mut s = parts(&b, &ranges(&m, &info.section_ends));
    for _ in 0..4 {
        let i = c.rng.usize(s.len());
        let mut x = std::mem::take(&mut s[i].1);
        let old = x.clone();
        mutate(c, &mut x);
        s[i].1 = x;
        run(c, &rebuild(&s));
        s[i].1 = old;
    }
}
/// Random bytes behind a preamble, and behind a section header.
pub fn random_bytes(c: &mut Ctx, idx: u64) {
    let n = c.rng.usize(40);
    let x = c.rng.bytes(n);
    let b = match idx % 4 {
        0 => x,
        1 => cat(&[PRE, &x]),
        _ => module(&[sec(c.rng.below(14) as u8, &x)]),
    };
    run(c, &b);
}

// -------------------------------------------------------------- enumeration

/// Every section id with every content of at most two bytes, and of three
/// bytes when the first is small. idx: id * 256 + first byte.
pub fn tiny_sections(c: &mut Ctx, idx: u64) {
    let id = (idx / 256) as u8;
    let a = idx as u8;
    if a == 0 {
        run_enum(c, &module(&[sec(id, &[])]));
    }
    run_enum(c, &module(&[sec(id, &[a])]));
    // a code section needs declared functions to be accepted
    let pre = if id == CODE && a < 3 { vec![sec(FUNCTION, &cat(&[&[a], &vec![0; a as usize]]))] } else { vec![] };
    for x in 0..=255u8 {
        let mut v = pre.clone();
        v.push(sec(id, &[a, x]));
        run_enum(c, &module(&v));
    }
    if a < 3 {
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                let mut v = pre.clone();
                v.push(sec(id, &[a, x, y]));
                run_enum(c, &module(&v));
            }
        }
    }
}
/// All three-byte contents. idx: id * 65536 + first two bytes.
pub fn tiny_sections3(c: &mut Ctx, idx: u64) {
    let id = (idx >> 16) as u8;
    let (a, x) = ((idx >> 8) as u8, idx as u8);
    for y in 0..=255u8 {
        run_enum(c, &module(&[sec(id, &[a, x, y])]));
    }
}
/// Short expressions: every one- and two-byte sequence before the final end
/// byte, in every place. idx: place * 256 + first byte.
pub fn tiny_exprs(c: &mut Ctx, idx: u64) {
    let ctx = (idx / 256) as usize;
    let a = idx as u8;
    run_enum(c, &wrap_expr(ctx, &[a, 0x0B]));
    for x in 0..=255u8 {
        run_enum(c, &wrap_expr(ctx, &[a, x, 0x0B]));
        run_enum(c, &wrap_expr(ctx, &[a, x, 0x00, 0x0B]));
        run_enum(c, &wrap_expr(ctx, &[a, x, 0x00, 0x00, 0x0B]));
    }
}
/// All three-byte sequences before the end byte. idx: first two bytes.
pub fn tiny_exprs3(c: &mut Ctx, idx: u64) {
    let ctx = (idx >> 16) as usize;
    for y in 0..=255u8 {
        run_enum(c, &wrap_expr(ctx, &[(idx >> 8) as u8, idx as u8, y, 0x0B]));
    }
}
/// Every single-byte type marker position: all one- and two-byte type
/// encodings (three in thorough) at each kind of type position.
pub const TYPE_CTX: usize = 11;
fn wrap_type(ctx: usize, t: &[u8]) -> Vec<u8> {
    let body = |x: &[u8]| {
        let b = cat(&[&[0], x]);
        module(&[sec(FUNCTION, &[1, 0]), sec(CODE, &cat(&[&[1], &leb_u(b.len() as u64, 0), &b]))])
    };
    match ctx {
        0 => module(&[sec(TYPE, &cat(&[&[1, 0x60, 1], t, &[0]]))]),
        1 => module(&[sec(TYPE, &cat(&[&[1, 0x5F, 1], t, &[0]]))]),
        2 => module(&[sec(TYPE, &cat(&[&[1, 0x5E], t, &[1]]))]),
        3 => module(&[sec(TABLE, &cat(&[&[1], t, &[0, 0]]))]),
        4 => module(&[sec(GLOBAL, &cat(&[&[1], t, &[0, 0x0B]]))]),
        5 => module(&[sec(ELEMENT, &cat(&[&[1, 5], t, &[0]]))]),
        6 => body(&cat(&[&[0x02], t, &[0x0B, 0x0B]])),
        7 => body(&cat(&[&[0xD0], t, &[0x0B]])),
        8 => body(&cat(&[&[0x1C, 1], t, &[0x0B]])),
        9 => body(&cat(&[&[0xFB, 0x18, 1, 0], t, &[0x70, 0x0B]])),
        _ => {
            let b = cat(&[&[1, 2], t, &[0x0B]]);
            module(&[sec(FUNCTION, &[1, 0]), sec(CODE, &cat(&[&[1], &leb_u(b.len() as u64, 0), &b]))])
        }
    }
}
pub fn tiny_types(c: &mut Ctx, idx: u64) {
    let ctx = (idx / 256) as usize;
    let a = idx as u8;
    run_enum(c, &wrap_type(ctx, &[a]));
    for x in 0..=255u8 {
        run_enum(c, &wrap_type(ctx, &[a, x]));
        // index encodings of more bytes
        run_enum(c, &wrap_type(ctx, &[a, x | 0x80, 0x00]));
        run_enum(c, &wrap_type(ctx, &[a, x | 0x80, 0x80, 0x80, 0x80, 0x00]));
        run_enum(c, &wrap_type(ctx, &[a | 0x80, x | 0x80, 0xFF, 0xFF, 0x0F]));
    }
    if matches!(a, 0x63 | 0x64 | 0x40) {
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                run_enum(c, &wrap_type(ctx, &[a, x, y]));
            }
        }
    }
}
pub fn tiny_types3(c: &mut Ctx, idx: u64) {
    let ctx = (idx >> 16) as usize;
    for y in 0..=255u8 {
        run_enum(c, &wrap_type(ctx, &[(idx >> 8) as u8, idx as u8, y]));
    }
}

/// At every kind of integer: encodings of 1 to 11 bytes, every final byte.
/// idx: spot * 11 + length - 1.
pub fn lebs(c: &mut Ctx, idx: u64) {
    let spots = int_spots();
    let s = spots[(idx / 11) as usize % spots.len()];
    let len = (idx % 11) as usize + 1;
    c.seen("integer roles", s.t.role);
    let val = s.t.val;
    let (legal_max, signed) = match s.t.class {
        Class::U(b) => (b.div_ceil(7) as usize, false),
        Class::S(b) => (b.div_ceil(7) as usize, true),
        _ => return,
    };
    // continuation bytes: of the value, zeros, ones, random
    for pat in 0..4 {
        let base: Vec<u8> = match pat {
            0 => {
                let v = if signed { leb_s(val as i64, len) } else { leb_u(val as u64, len) };
                (0..len).map(|i| v.get(i).copied().unwrap_or(0) | 0x80).collect()
            }
            1 => vec![0x80; len],
            2 => vec![0xFF; len],
            _ => c.rng.bytes(len).iter().map(|x| x | 0x80).collect(),
        };
        for last in 0..=255u8 {
            let mut v = base.clone();
            v[len - 1] = last;
            let b = s.with(v);
            run(c, &b);
        }
    }
    if len <= legal_max {
        // the value itself in this many bytes decodes to itself
        let v = if signed { leb_s(val as i64, len) } else { leb_u(val as u64, len) };
        if v.len() == len {
            let b = s.with(v);
            c.eval(&b);
            if let Some(st) = c.differential(&b) {
                if st.reference.is_err() {
                    c.harness_error(format!("padded {} rejected by the reference: {}", s.t.role, hex_short(&b)));
                }
                c.count("padded integers", 1);
            }
        }
    }
}
pub fn lebs_n() -> u64 {
    int_spots().len() as u64 * 11
}
/// Boundary values at every kind of integer, in every legal length.
pub fn leb_values(c: &mut Ctx, idx: u64) {
    let spots = int_spots();
    let s = spots[idx as usize % spots.len()];
    let mut vals: Vec<i128> = vec![];
    let (bits, signed) = match s.t.class {
        Class::U(b) => (b, false),
        Class::S(b) => (b, true),
        _ => return,
    };
    for k in 0..=bits {
        let p = 1i128 << k;
        vals.extend([p - 1, p, p + 1]);
        if signed {
            vals.extend([-p - 1, -p, -p + 1]);
        }
    }
    for _ in 0..40 {
        vals.push(if signed { c.rng.i64b() as i128 } else { c.rng.u64b() as i128 });
    }
    for v in vals {
        if v >= 1i128 << 64 || v < -(1i128 << 63) || (signed && v >= 1i128 << 63) {
            continue;
        }
        let enc = |n| if signed { leb_s(v as i64, n) } else { leb_u(v as u64, n) };
        let min = enc(0).len();
        for n in [min, bits.div_ceil(7) as usize, min + 1] {
            let b = s.with(enc(n));
            run(c, &b);
        }
    }
}
/// At every kind of marker, flag or opcode byte: all 256 values, also with
/// random bytes inserted behind. idx: spot.
pub fn markers(c: &mut Ctx, idx: u64) {
    let spots = byte_spots();
    let s = spots[idx as usize % spots.len()];
    c.seen("marker roles", s.t.role);
    for v in 0..=255u8 {
        let mut t = vec![v];
        let b = s.with(t.clone());
        run(c, &b);
        for _ in 0..3 {
            t.push(if c.rng.bool() { c.rng.below(0x80) as u8 } else { c.rng.byte() });
            let b = s.with(t.clone());
            run(c, &b);
        }
    }
}
pub fn markers_n() -> u64 {
    byte_spots().len() as u64
}
pub fn ints_n() -> u64 {
    int_spots().len() as u64
}

/// Every assigned opcode with boundary immediates in every place.
/// idx: opcode * 10 + place, repeated.
pub fn opcodes(c: &mut Ctx, idx: u64) {
    let n = OPS.len() as u64 * EXPR_CTX.len() as u64;
    let i = idx % n;
    let op = &OPS[(i / EXPR_CTX.len() as u64) as usize];
    let ctx = (i % EXPR_CTX.len() as u64) as usize;
    let p = Prof { items: 4, ins: 4, ..Prof::general() };
    for _ in 0..3 {
        let mut budget = 4;
        let ins = gen_::ins_of(&mut c.rng, op, &p, 1, &mut budget);
        let mut e = vec![ins];
        // surrounded by other instructions, so that lengths matter
        for _ in 0..c.rng.below(3) {
            let o = c.rng.pick(OPS);
            let mut budget = 2;
            let x = gen_::ins_of(&mut c.rng, o, &p, 3, &mut budget);
            if c.rng.bool() { e.push(x) } else { e.insert(0, x) }
        }
        let st = c.style();
        let er = Rng::new(c.rng.u64(), "e", 0);
        let b = wrap_expr(ctx, &enc::encode_expr(&e, &er, &st));
        c.eval(&b);
        c.seen("opcodes", op.name);
        c.seen("places of expressions", EXPR_CTX[ctx]);
        if let Some(s) = c.differential(&b)
            && let Err(f) = &s.reference
        {
            c.harness_error(format!("reference rejects {} in {}: {f:?}", op.name, EXPR_CTX[ctx]));
        }
    }
}
pub fn opcodes_n() -> u64 {
    OPS.len() as u64 * EXPR_CTX.len() as u64
}
/// Unassigned opcodes and sub-opcodes, each followed by bytes that some
/// instruction's immediates would accept. idx < 256: plain opcode; then
/// blocks of 256 sub-opcodes of each prefix.
pub fn unassigned(c: &mut Ctx, idx: u64) {
    let tails: [&[u8]; 6] = [&[], &[0], &[0, 0], &[0, 0, 0], &[0, 0, 0, 0], &[0; 16]];
    let go = |c: &mut Ctx, op: &[u8]| {
        for t in tails {
            for ctx in [0, 1, 6, 7, 8, 9] {
                if ctx > 1 && t.len() > 2 {
                    continue;
                }
                let b = wrap_expr(ctx, &cat(&[op, t, &[0x0B]]));
                run_enum(c, &b);
            }
        }
    };
    if idx < 256 {
        go(c, &[idx as u8]);
        c.seen("opcode bytes tried", format!("{idx:#x}"));
        return;
    }
    let i = idx - 256;
    let prefix = [0xFB, 0xFC, 0xFD][(i % 3) as usize];
    let block = i / 3;
    for k in 0..256u64 {
        let sub = if block < 4 { block * 256 + k } else { ((block - 4) << 16) + 0x0101_0000 * (k / 64) + k % 256 + (1 << (8 + k % 24)) } as u32;
        if block >= 4 || k % 16 == 0 {
            let mut v = vec![prefix];
            v.extend(leb_u(sub as u64, 5));
            go(c, &v);
        }
        let mut v = vec![prefix];
        v.extend(leb_u(sub as u64, 0));
        go(c, &v);
    }
}
/// Sub-opcodes that equal an assigned one modulo 2^7, 2^8, 2^16 etc.
pub fn aliases(c: &mut Ctx, idx: u64) {
    let op = &OPS[idx as usize % OPS.len()];
    if op.op >> 16 == 0 {
        return;
    }
    let prefix = (op.op >> 16) as u8;
    let sub = op.op & 0xFFFF;
    let p = Prof { items: 2, ins: 2, ..Prof::general() };
    for k in 7..32 {
        let alias = sub ^ (1 << k);
        let mut budget = 2;
        let ins = gen_::ins_of(&mut c.rng, op, &p, 1, &mut budget);
        let er = Rng::new(c.rng.u64(), "e", 0);
        let e = enc::encode_expr(&vec![ins], &er, &MIN);
        let skip = 1 + leb_u(sub as u64, 0).len();
        let mut v = vec![prefix];
        v.extend(leb_u(alias as u64, 0));
        v.extend_from_slice(&e[skip..]);
        for ctx in [0, 1, 8] {
            let b = wrap_expr(ctx, &v);
            run_enum(c, &b);
        }
    }
}

// ---------------------------------------------------------------- structure

/// Every prefix of a generated module.
pub fn prefixes(c: &mut Ctx, idx: u64) {
    let p = Prof { items: 2, ins: 4, depth: 3, bytes: 12, secs: [5; 14], ..Prof::general() };
    let (_, b, m) = c.generated(&p);
    if b.len() > 1500 {
        return;
    }
    for n in 0..b.len() {
        run(c, &b[..n]);
    }
    c.max("prefixes of one module", b.len() as u64);
    if idx < 2 {
        c.sample(|| format!("all {} prefixes of a module with sections {:?}", b.len(), m.headers));
    }
}
/// Content of one section cut off at every point, its size following, with
/// and without the sections behind it; the same with bytes appended.
pub fn cuts(c: &mut Ctx, _: u64) {
    let p = Prof { items: 2, ins: 4, depth: 3, bytes: 12, secs: [5; 14], ..Prof::general() };
    let (_, b, m) = c.generated(&p);
    let (r, info) = refdec::decode(&b);
    if r.is_err() || m.headers.is_empty() || b.len() > 1200 {
        return;
    }
    let s = parts(&b, &ranges(&m, &info.section_ends));
    let i = c.rng.usize(s.len());
    for n in 0..s[i].1.len() {
        let mut t = s.clone();
        t[i].1.truncate(n);
        run(c, &rebuild(&t));
        t.truncate(i + 1);
        run(c, &rebuild(&t));
    }
    for n in 1..4 {
        for x in [0x00, 0x0B, 0xFF] {
            let mut t = s.clone();
            t[i].1.extend(vec![x; n]);
            run(c, &rebuild(&t));
        }
    }
    // declared size off while the content stays
    for d in [-3i64, -2, -1, 1, 2, 3, 100, 1 << 20] {
        let n = s[i].1.len() as i64 + d;
        if n < 0 {
            continue;
        }
        let mut v = PRE.to_vec();
        for (k, (id, x)) in s.iter().enumerate() {
            v.push(*id);
            v.extend(leb_u(if k == i { n as u64 } else { x.len() as u64 }, 0));
            v.extend_from_slice(x);
        }
        run(c, &v);
        c.count("wrong section sizes", 1);
    }
}
/// Numbers that go wrong together in a narrower type.
fn turns() -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 258, 511, 512, 1000, 4095, 4096, 16_383, 16_384, 32_767, 32_768, 65_535, 65_536, 65_537, 65_538, 131_072];
    v.extend(crate::dict::lens(150_000).iter().take(12));
    v.sort();
    v.dedup();
    v
}
pub fn count_pairs_n() -> u64 {
    (turns().len() * turns().len() * 2) as u64 + 192
}
/// Every pair of numbers of functions and bodies, and of data segments
/// announced and present.
pub fn count_pairs(c: &mut Ctx, idx: u64) {
    let v = turns();
    let (kind, at) = (idx % 2, idx as usize / 2);
    let (mut x, y) = (v[at / v.len() % v.len()], v[at % v.len()]);
    if kind == 1 && at >= v.len() * v.len() {
        // announced counts of any magnitude
        let k = at - v.len() * v.len();
        x = ((1u64 << (17 + k % 16)) + k as u64 / 16).saturating_sub(1).min(u32::MAX as u64);
    }
    let y = if at >= v.len() * v.len() { at as u64 % 3 } else { y };
    if kind == 0 && at >= v.len() * v.len() {
        return;
    }
    let b = if kind == 0 {
        let f = cat(&[&leb_u(x, 0), &vec![0; x as usize]]);
        let s = cat(&[&leb_u(y, 0), &[2, 0, 0x0B].repeat(y as usize)]);
        match c.rng.below(4) {
            0 if x == 0 => module(&[sec(CODE, &s)]),
            0 if y == 0 => module(&[sec(FUNCTION, &f)]),
            _ => module(&[sec(FUNCTION, &f), sec(CODE, &s)]),
        }
    } else {
        let d = cat(&[&leb_u(y, 0), &[1, 0].repeat(y as usize)]);
        let n = sec(DATACOUNT, &leb_u(x, 0));
        if y == 0 && c.rng.bool() { module(&[n]) } else { module(&[n, sec(DATA, &d)]) }
    };
    run(c, &b);
    c.count("pairs of counts", 1);
}
pub fn surpluses_n() -> u64 {
    turns().len() as u64 * 16
}
/// Sections and bodies with a surplus that would be well-formed behind them.
pub fn surpluses(c: &mut Ctx, idx: u64) {
    let v = turns();
    let n = v[idx as usize / 16] as usize;
    let id = (idx % 16) as u8;
    // custom sections or bodies that fill n bytes
    let fill = |start: &[u8], end: &[u8]| {
        let fixed = start.len() + end.len();
        for w in 1..4 {
            let Some(k) = n.checked_sub(w + fixed - 1) else { break };
            let size = leb_u((n - w - if start[0] == 0 && id < 14 { 1 } else { 0 }) as u64, w);
            if size.len() != w {
                continue;
            }
            let head: &[u8] = if id < 14 { &start[..1] } else { &[] };
            let rest = &start[head.len()..];
            let room = n - head.len() - w - rest.len() - end.len();
            let _ = k;
            return Some(cat(&[head, &size, rest, &vec![1; room], end]));
        }
        None
    };
    let b = match id {
        14 | 15 => {
            // a body that declares the next one as its own
            let Some(next) = (if n < 3 { None } else { fill(&[0], &[0x0B]) }) else { return };
            let s = cat(&[&[2], &leb_u(2 + n as u64, 0), &[0, 0x0B], &next]);
            let f = if id == 14 { [2u8, 0, 0] } else { [1, 0, 0] };
            module(&[sec(FUNCTION, &f[..f[0] as usize + 1]), sec(CODE, &s)])
        }
        _ => {
            let content: &[u8] = match id {
                CUSTOM => &[1, b'x'],
                START | DATACOUNT => &[0],
                _ => &[0],
            };
            let more = if n < 4 { vec![0; n] } else { fill(&[0, 0], &[]).unwrap_or(vec![0; n]) };
            let mut m = vec![];
            if id == DATACOUNT || id == START || id == CUSTOM {
                m.push(sec(TYPE, &[0]));
            }
            m.push(sec(id, &cat(&[content, &more])));
            module(&m)
        }
    };
    run(c, &b);
    c.count("surpluses", 1);
}
/// Body sizes off by a little, bodies cut and extended.
pub fn bodies(c: &mut Ctx, _: u64) {
    let n = 1 + c.rng.usize(4);
    let p = Prof { items: 2, ins: 6, depth: 3, ..Prof::general() };
    let mut bodies = vec![];
    for _ in 0..n {
        let mut groups: Vec<u8> = vec![];
        let g = c.rng.below(4);
        for _ in 0..g {
            groups.extend(leb_u(c.rng.below(200), 0));
            groups.push(0x7F);
        }
        let mut body = leb_u(g, 0);
        body.extend(groups);
        let mut e = gen_::expr(&mut c.rng, &p);
        e.retain(|i| !gen_::uses_data(&vec![i.clone()]));
        let er = Rng::new(c.rng.u64(), "e", 0);
        body.extend(enc::encode_expr(&e, &er, &MIN));
        bodies.push(body);
    }
    let pick = c.rng.usize(n);
    let make = |sizes: &dyn Fn(usize, usize) -> i64, bodies: &[Vec<u8>], funcs: usize, codes: usize| {
        let mut f = leb_u(funcs as u64, 0);
        f.extend(vec![0; funcs]);
        let mut s = leb_u(codes as u64, 0);
        for (i, b) in bodies.iter().enumerate() {
            s.extend(leb_u(sizes(i, b.len()).max(0) as u64, 0));
            s.extend_from_slice(b);
        }
        module(&[sec(FUNCTION, &f), sec(CODE, &s)])
    };
    let exact = |_: usize, n: usize| n as i64;
    let b = make(&exact, &bodies, n, n);
    run(c, &b);
    for d in [-40i64, -3, -2, -1, 1, 2, 3, 40, 1 << 30] {
        let b = make(&|i, n| n as i64 + if i == pick { d } else { 0 }, &bodies, n, n);
        run(c, &b);
        c.count("wrong body sizes", 1);
        // the following body's size makes up for it
        let b = make(&|i, n| n as i64 + if i == pick { d } else if i == pick + 1 { -d } else { 0 }, &bodies, n, n);
        run(c, &b);
    }
    for d in 1..3usize {
        let b = make(&exact, &bodies, n + d, n);
        run(c, &b);
        let b = make(&exact, &bodies, n.saturating_sub(d), n);
        run(c, &b);
        let b = make(&exact, &bodies, n, n + d);
        run(c, &b);
        let b = make(&exact, &bodies, n, n.saturating_sub(d));
        run(c, &b);
        c.count("wrong function or body counts", 4);
    }
    let mut t = bodies.clone();
    let x = c.rng.byte();
    t[pick].push(x);
    let b = make(&exact, &t, n, n);
    run(c, &b);
    while t[pick].pop().is_some() && !t[pick].is_empty() {
        let b = make(&exact, &t, n, n);
        run(c, &b);
    }
}
/// Minimal content of a section that is accepted whatever else is present.
fn minimal(k: u8, variant: u64) -> Vec<u8> {
    match (k, variant % 2) {
        (CUSTOM, 0) => vec![0],
        (CUSTOM, _) => vec![1, b'x', 0xFF, 0x00],
        (START, _) => vec![0],
        (DATACOUNT, _) => vec![0],
        (_, 0) => vec![0],
        (TYPE, _) => vec![1, 0x60, 0, 0],
        (IMPORT, _) => vec![1, 0, 0, 0, 0],
        (TABLE, _) => vec![1, 0x70, 0, 0],
        (MEMORY, _) => vec![1, 0, 0],
        (TAG, _) => vec![1, 0, 0],
        (GLOBAL, _) => vec![1, 0x7F, 0, 0x0B],
        (EXPORT, _) => vec![1, 0, 0, 0],
        (ELEMENT, _) => vec![1, 1, 0, 0],
        _ => vec![0],
    }
}
/// All sequences of at most three section ids (0 to 13), and four when the
/// tier asks for it, with customs strewn in. idx: base-14 digits.
pub fn orders3(c: &mut Ctx, idx: u64) {
    let ids = [(idx / 196 % 14) as u8, (idx / 14 % 14) as u8, (idx % 14) as u8];
    for n in 1..=3 {
        if n < 3 && ids[n..].iter().any(|x| *x != 0) {
            continue;
        }
        for v in 0..2 {
            let s: Vec<_> = ids[..n].iter().map(|&k| sec(k, &minimal(k, v))).collect();
            run_enum(c, &module(&s));
        }
    }
    let mut s = vec![];
    for &k in &ids {
        s.push(sec(k, &minimal(k, idx)));
        s.push(sec(CUSTOM, &minimal(CUSTOM, 1)));
    }
    run_enum(c, &module(&s));
    c.count("section sequences", 3);
}
pub fn orders4(c: &mut Ctx, idx: u64) {
    let ids = [(idx / 2744 % 14) as u8, (idx / 196 % 14) as u8, (idx / 14 % 14) as u8, (idx % 14) as u8];
    let s: Vec<_> = ids.iter().map(|&k| sec(k, &minimal(k, idx))).collect();
    run_enum(c, &module(&s));
    c.count("section sequences", 1);
}
/// The complete order with any subset removed and one disturbance.
pub fn orders(c: &mut Ctx, _: u64) {
    let mut l: Vec<u8> = ORDER.iter().copied().filter(|_| true).collect();
    let keep = c.rng.below(17);
    l.retain(|_| c.rng.chance(keep, 16));
    match c.rng.below(5) {
        0 if l.len() > 1 => {
            let i = c.rng.usize(l.len() - 1);
            l.swap(i, i + 1);
        }
        1 if !l.is_empty() => {
            let (i, j) = (c.rng.usize(l.len()), c.rng.usize(l.len()));
            l.swap(i, j);
        }
        2 if !l.is_empty() => {
            let i = c.rng.usize(l.len());
            let k = l[i];
            let j = c.rng.usize(l.len() + 1);
            l.insert(j, k);
        }
        3 => {
            let j = c.rng.usize(l.len() + 1);
            l.insert(j, 14 + c.rng.below(242) as u8);
        }
        _ => {}
    }
    let v = c.rng.u64();
    let mut s = vec![];
    for (i, k) in l.iter().enumerate() {
        while c.rng.chance(1, 4) {
            s.push(sec(CUSTOM, &minimal(CUSTOM, c.rng.u64())));
        }
        s.push(sec(*k, &minimal(*k, v >> i)));
    }
    while c.rng.chance(1, 3) {
        s.push(sec(CUSTOM, &minimal(CUSTOM, c.rng.u64())));
    }
    run(c, &module(&s));
    c.count("section sequences", 1);
}
/// A generated module with its sections permuted, repeated or dropped.
pub fn relayouts(c: &mut Ctx, _: u64) {
    let mut plan = gen_::module(&mut c.rng, &Prof { items: 2, ins: 3, ..Prof::general() });
    let n = plan.layout.len();
    if n == 0 {
        return;
    }
    let l = &mut plan.layout;
    match c.rng.below(4) {
        0 => {
            let (i, j) = (c.rng.usize(n), c.rng.usize(n));
            l.swap(i, j);
        }
        1 => {
            let k = l[c.rng.usize(n)];
            if k != CUSTOM {
                let j = c.rng.usize(n + 1);
                l.insert(j, k);
            }
        }
        2 => {
            let i = c.rng.usize(n);
            if l[i] != CUSTOM {
                l.remove(i);
            }
        }
        _ => {
            for i in (1..n).rev() {
                let j = c.rng.usize(i + 1);
                l.swap(i, j);
            }
        }
    }
    let er = Rng::new(c.rng.u64(), "enc", 0);
    let st = c.style();
    let b = enc::encode(&plan, &er, &st, vec![], false).bytes;
    run(c, &b);
}
/// All section ids and all preambles that differ in one byte.
pub fn ids_and_preambles(c: &mut Ctx, idx: u64) {
    let v = idx as u8;
    for i in 0..8 {
        let mut b = PRE.to_vec();
        b[i] = v;
        run_enum(c, &b);
        b.extend(sec(CUSTOM, &[0]));
        run_enum(c, &b);
    }
    for content in [&[][..], &[0], &[0, 0], &[1, 0, 0]] {
        run_enum(c, &module(&[sec(v, content)]));
        run_enum(c, &module(&[sec(TYPE, &[0]), sec(v, content)]));
        run_enum(c, &module(&[sec(TYPE, &[0]), sec(v, content), sec(CUSTOM, &[0])]));
    }
    c.count("section ids", 1);
}

// ------------------------------------------------------------------- C10

fn data_ins(r: &mut Rng, k: u64) -> Ins {
    let ops = OPS.iter().filter(|o| matches!(o.k, K::Data | K::TypeData | K::DataMem)).collect::<Vec<_>>();
    let o = ops[k as usize % ops.len()];
    let n = if o.k == K::Data { 1 } else { 2 };
    let mut imm = vec![Imm::U(0); n];
    if r.chance(3, 4) {
        imm = gen_::imms(r, o.k, &Prof::general());
    }
    Ins { op: o.op, imm, body: vec![] }
}
fn nest(r: &mut Rng, e: Expr, shape: u64) -> Expr {
    let bt = vec![Imm::Bt(BlockTy::Empty)];
    let pad = |r: &mut Rng| (0..if r.chance(1, 200) { r.below(600) } else { r.below(3) }).map(|_| Ins { op: 0x01, imm: vec![], body: vec![] }).collect::<Expr>();
    let wrap = |r: &mut Rng, e: Expr| {
        let mut v = pad(r);
        v.extend(e);
        v.extend(pad(r));
        v
    };
    let e = wrap(r, e);
    let i = match shape {
        0 => return e,
        1 => Ins { op: 0x02, imm: bt, body: vec![e] },
        2 => Ins { op: 0x03, imm: bt, body: vec![e] },
        3 => Ins { op: 0x04, imm: bt, body: vec![e] },
        4 => Ins { op: 0x04, imm: bt, body: vec![e, pad(r)] },
        5 => Ins { op: 0x04, imm: bt, body: vec![pad(r), e] },
        _ => Ins { op: 0x1F, imm: vec![bt[0].clone(), Imm::Catches(vec![])], body: vec![e] },
    };
    wrap(r, vec![i])
}
/// Data count and data indices in every combination.
pub fn data_shapes(c: &mut Ctx, idx: u64) {
    let b = data_shape(c, idx);
    run(c, &b);
}
fn data_shape(c: &mut Ctx, idx: u64) -> Vec<u8> {
    let n_datas = c.rng.below(4);
    let data_sec = n_datas > 0 || c.rng.bool();
    let count = match c.rng.below(4) {
        0 => None,
        1 => Some(n_datas),
        2 => Some(n_datas + 1),
        _ => Some(*c.rng.pick(&[0, 1, 2, 255, 256, 65536, 0xFFFF_FFFF])),
    };
    let nfuncs = 1 + if c.rng.chance(1, 24) { c.rng.below(700) } else { c.rng.below(4) };
    let user = if c.rng.chance(3, 4) { Some(c.rng.below(nfuncs)) } else { None };
    let mut codes = vec![];
    for f in 0..nfuncs {
        let mut e: Expr = vec![];
        let mut depth = if nfuncs > 4 && user != Some(f) { 0 } else { c.rng.below(7) };
        if user == Some(f) {
            e = vec![data_ins(&mut c.rng, idx)];
            c.count("bodies with a data index", 1);
            if c.rng.chance(1, 8) {
                depth = c.rng.below(400);
            }
            c.max("blocks around a data index", depth);
        }
        for _ in 0..depth {
            let shape = c.rng.below(7);
            e = nest(&mut c.rng, e, shape);
        }
        // decoys: instructions that name other spaces
        if c.rng.bool() {
            let o = spec::find(*c.rng.pick(&[0xFC_000C, 0xFC_000D, 0xFC_000A, 0xFB_000A, 0xFB_0013, 0xFC_000B]));
            let mut budget = 1;
            let x = gen_::ins_of(&mut c.rng, o, &Prof::general(), 0, &mut budget);
            e.push(x);
        }
        codes.push(Code { locals: vec![], body: e });
    }
    let mut m = Module { func_types: vec![0; nfuncs as usize], codes, ..Default::default() };
    m.datas = (0..n_datas).map(|i| Data { init: vec![i as u8; i as usize], mode: None }).collect();
    m.data_count = count.map(|x| x as u32);
    if c.rng.chance(1, 4) {
        // data indices outside function bodies ask for nothing
        m.globals.push(Global { ty: GlobalTy { var: false, vt: ValTy::Num(0x7F) }, init: vec![data_ins(&mut c.rng, idx)] });
    }
    if c.rng.chance(1, 4) {
        m.elems.push(Elem { rt: RefTy { null: true, heap: Heap::Abs(0x70) }, init: vec![vec![data_ins(&mut c.rng, idx + 1)]], mode: ElemMode::Passive });
    }
    let mut layout = vec![FUNCTION];
    if !m.globals.is_empty() {
        layout.push(GLOBAL);
    }
    if !m.elems.is_empty() {
        layout.push(ELEMENT);
    }
    if m.data_count.is_some() {
        layout.push(DATACOUNT);
    }
    layout.push(CODE);
    if data_sec {
        layout.push(DATA);
    }
    if c.rng.chance(1, 4) {
        // no code at all
        m.codes.clear();
        m.func_types.clear();
        layout.retain(|k| *k != CODE && *k != FUNCTION);
    }
    let er = Rng::new(c.rng.u64(), "enc", 0);
    let st = c.style();
    let b = enc::encode(&Plan { m, layout }, &er, &st, vec![], false).bytes;
    c.seen(
        "data count vs data section",
        format!("count {} segments {}", if count.is_none() { "absent" } else if count == Some(n_datas) { "equal" } else { "other" }, if !data_sec { "absent" } else if n_datas == 0 { "0" } else { "some" }),
    );
    b
}
/// (id, content) of each section, by the headers alone.
fn split_sections(b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut v = vec![];
    let mut i = 8;
    while i < b.len() {
        let id = b[i];
        i += 1;
        let (mut n, mut sh) = (0u64, 0);
        while i < b.len() && sh < 35 {
            n |= ((b[i] & 0x7F) as u64) << sh;
            sh += 7;
            i += 1;
            if b[i - 1] & 0x80 == 0 {
                break;
            }
        }
        let e = (i + n as usize).min(b.len());
        v.push((id, b[i..e].to_vec()));
        i = e;
    }
    v
}

// ------------------------------------------------------------------- sizes

pub const KINDS: [&str; 46] = [
    "types", "params", "results", "fields", "rec", "supers", "imports", "funcs", "tables", "mems", "tags", "globals", "exports", "elems",
    "elem funcs", "elem exprs", "datas", "data bytes", "custom bytes", "custom name", "import module", "import item", "export name",
    "customs", "locals groups", "locals zero groups", "locals one group", "br_table", "select", "catches", "instructions", "offset instructions",
    "array types", "data zeros", "data tail", "custom zeros", "custom tail", "distinct exports", "distinct imports", "distinct customs",
    "same exports", "passive datas", "active elems", "memory instructions", "br_tables", "funcs with locals",
];
const LENS: [u64; 20] =
    [0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 4096, 16383, 16384, 65535, 65536, 65537, 100_003];
pub fn sizes_n() -> u64 {
    KINDS.len() as u64 * LENS.len() as u64
}
fn rep<T: Clone>(n: u64, f: impl Fn(u64) -> T) -> Vec<T> {
    (0..n).map(f).collect()
}
/// A module that is long in one respect.
pub fn sized_module(kind: &str, n: u64) -> Plan {
    let mut m = Module::default();
    let mut layout: Vec<u8> = vec![];
    let i32t = ValTy::Num(0x7F);
    let alt = |i: u64| if i % 3 == 0 { ValTy::Num(0x7E) } else if i % 7 == 1 { ValTy::Ref(RefTy { null: i % 2 == 0, heap: Heap::Idx(i as u32) }) } else { ValTy::Num(0x7B) };
    let sub = |comp: Comp| vec![SubTy { is_final: true, supers: vec![], comp }];
    let nop = || Ins { op: 0x01, imm: vec![], body: vec![] };
    let c32 = |i: u64| Ins { op: 0x41, imm: vec![Imm::I32(i as i32)], body: vec![] };
    let text = |n: u64| (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>();
    let func = |m: &mut Module, layout: &mut Vec<u8>, locals: Vec<(u64, ValTy)>, body: Expr| {
        m.func_types = vec![3];
        m.codes = vec![Code { locals, body }];
        layout.extend([FUNCTION, CODE]);
    };
    match kind {
        "types" => {
            m.types = rep(n, |i| sub(Comp::Func(vec![alt(i)], vec![])));
            layout.push(TYPE);
        }
        "array types" => {
            m.types = rep(n, |i| sub(Comp::Array(FieldTy { var: i % 2 == 0, st: Storage::Pack(0x77 + (i % 2) as u8) })));
            layout.push(TYPE);
        }
        "params" => {
            m.types = vec![sub(Comp::Func(rep(n, alt), vec![i32t]))];
            layout.push(TYPE);
        }
        "results" => {
            m.types = vec![sub(Comp::Func(vec![i32t], rep(n, alt)))];
            layout.push(TYPE);
        }
        "fields" => {
            m.types = vec![sub(Comp::Struct(rep(n, |i| FieldTy { var: i % 5 == 0, st: Storage::Val(alt(i)) })))];
            layout.push(TYPE);
        }
        "rec" => {
            m.types = vec![rep(n, |i| SubTy { is_final: i % 2 == 0, supers: vec![i as u32], comp: Comp::Struct(vec![]) })];
            layout.push(TYPE);
        }
        "supers" => {
            m.types = vec![vec![SubTy { is_final: false, supers: rep(n, |i| i as u32), comp: Comp::Struct(vec![]) }]];
            layout.push(TYPE);
        }
        "imports" => {
            m.imports = rep(n, |i| Import { module: text(i % 3), item: text(i % 5), ty: Ext::Func(i as u32) });
            layout.push(IMPORT);
        }
        "import module" => {
            m.imports = vec![Import { module: text(n), item: "x".into(), ty: Ext::Func(1) }];
            layout.push(IMPORT);
        }
        "import item" => {
            m.imports = vec![Import { module: "x".into(), item: text(n), ty: Ext::Tag(1) }];
            layout.push(IMPORT);
        }
        "funcs" => {
            m.func_types = rep(n, |i| i as u32);
            m.codes = rep(n, |i| Code { locals: vec![], body: if i % 3 == 0 { vec![] } else { vec![c32(i)] } });
            layout.extend([FUNCTION, CODE]);
        }
        "tables" => {
            m.tables = rep(n, |i| {
                let ty = TableTy { rt: RefTy { null: true, heap: Heap::Abs(0x69 + (i % 12) as u8) }, lim: Limits { a64: i % 2 == 0, min: i, max: None } };
                Table { ty, init: if i % 3 == 0 { vec![ref_func(i as u32)] } else { vec![ref_null(ty.rt.heap)] } }
            });
            layout.push(TABLE);
        }
        "mems" => {
            m.mems = rep(n, |i| Limits { a64: i % 2 == 0, min: i, max: if i % 3 == 0 { Some(i + 1) } else { None } });
            layout.push(MEMORY);
        }
        "tags" => {
            m.tags = rep(n, |i| i as u32);
            layout.push(TAG);
        }
        "globals" => {
            m.globals = rep(n, |i| Global { ty: GlobalTy { var: i % 2 == 0, vt: alt(i) }, init: vec![c32(i)] });
            layout.push(GLOBAL);
        }
        "exports" => {
            m.exports = rep(n, |i| Export { name: text(i % 4), kind: (i % 5) as u8, idx: i as u32 });
            layout.push(EXPORT);
        }
        "export name" => {
            m.exports = vec![Export { name: text(n), kind: 3, idx: 7 }];
            layout.push(EXPORT);
        }
        "elems" => {
            m.elems = rep(n, |i| Elem {
                rt: RefTy { null: true, heap: Heap::Abs(0x70) },
                init: vec![vec![ref_func(i as u32)]],
                mode: if i % 2 == 0 { ElemMode::Passive } else { ElemMode::Declare },
            });
            layout.push(ELEMENT);
        }
        "elem funcs" => {
            m.elems = vec![Elem {
                rt: RefTy { null: false, heap: Heap::Abs(0x70) },
                init: rep(n, |i| vec![ref_func(i as u32)]),
                mode: ElemMode::Active(0, vec![c32(9)]),
            }];
            layout.push(ELEMENT);
        }
        "elem exprs" => {
            m.elems = vec![Elem {
                rt: RefTy { null: false, heap: Heap::Idx(4) },
                init: rep(n, |i| vec![ref_null(Heap::Idx(i as u32))]),
                mode: ElemMode::Active(1, vec![c32(9)]),
            }];
            layout.push(ELEMENT);
        }
        "datas" => {
            m.datas = rep(n, |i| Data { init: vec![i as u8; (i % 4) as usize], mode: if i % 2 == 0 { None } else { Some((0, vec![c32(i)])) } });
            m.data_count = Some(n as u32);
            layout.extend([DATACOUNT, DATA]);
        }
        "data bytes" => {
            m.datas = vec![
                Data { init: rep(n, |i| (i ^ (i >> 8)) as u8), mode: None },
                Data { init: vec![1, 2, 3], mode: Some((2, vec![c32(1)])) },
            ];
            layout.push(DATA);
        }
        "custom bytes" => {
            m.customs = vec![Custom { name: "big".into(), contents: rep(n, |i| (i ^ (i >> 8)) as u8) }];
            layout.push(CUSTOM);
        }
        "custom name" => {
            m.customs = vec![Custom { name: text(n), contents: vec![1, 2, 3] }];
            layout.push(CUSTOM);
        }
        "data zeros" => {
            m.datas = vec![Data { init: vec![0; n as usize], mode: None }, Data { init: vec![0xFF; n as usize], mode: Some((0, vec![])) }];
            layout.push(DATA);
        }
        "data tail" => {
            let init: Vec<u8> = rep(n, |i| if i < n / 2 { i as u8 | 1 } else { 0 });
            let back = init.iter().rev().copied().collect();
            m.datas = vec![Data { init, mode: None }, Data { init: back, mode: None }];
            layout.push(DATA);
        }
        "custom zeros" => {
            m.customs = vec![
                Custom { name: "z".into(), contents: vec![0; n as usize] },
                Custom { name: "f".into(), contents: vec![0xFF; n as usize] },
                Custom { name: "s".into(), contents: vec![b' '; n as usize] },
            ];
            layout = vec![CUSTOM; 3];
        }
        "custom tail" => {
            m.customs = vec![Custom { name: "name".into(), contents: rep(n, |i| if i < n / 2 { i as u8 | 1 } else { 0 }) }];
            layout.push(CUSTOM);
        }
        "distinct exports" => {
            m.exports = rep(n, |i| Export { name: format!("e{i:07}"), kind: 0, idx: i as u32 });
            layout.push(EXPORT);
        }
        "same exports" => {
            m.exports = rep(n, |_| Export { name: "same".into(), kind: 0, idx: 1 });
            layout.push(EXPORT);
        }
        "distinct imports" => {
            m.imports = rep(n, |i| Import { module: "env".into(), item: format!("i{i:07}"), ty: Ext::Global(GlobalTy { var: false, vt: i32t }) });
            layout.push(IMPORT);
        }
        "distinct customs" => {
            m.customs = rep(n, |i| Custom { name: format!("c{i:06}"), contents: vec![] });
            layout = vec![CUSTOM; n as usize];
        }
        "passive datas" => {
            m.datas = rep(n, |i| Data { init: vec![i as u8], mode: None });
            layout.push(DATA);
        }
        "active elems" => {
            m.elems = rep(n, |i| Elem {
                rt: RefTy { null: false, heap: Heap::Abs(0x70) },
                init: vec![vec![ref_func(i as u32)]],
                mode: ElemMode::Active(0, vec![c32(i)]),
            });
            layout.push(ELEMENT);
        }
        "memory instructions" => func(
            &mut m,
            &mut layout,
            vec![],
            rep(n, |i| Ins { op: 0x28 + (i % 0x17) as u32, imm: vec![Imm::Memarg { align: 2, mem: (i % 3) as u32, off: i }], body: vec![] }),
        ),
        "br_tables" => func(
            &mut m,
            &mut layout,
            vec![],
            rep(n, |i| Ins { op: 0x0E, imm: vec![Imm::Labels(rep(i % 5, |k| k as u32)), Imm::U(i as u32)], body: vec![] }),
        ),
        "funcs with locals" => {
            m.func_types = rep(n, |_| 0);
            m.codes = rep(n, |i| Code { locals: vec![(1 + i % 3, i32t), (1, ValTy::Num(0x7C))], body: vec![nop()] });
            layout.extend([FUNCTION, CODE]);
        }
        "customs" => {
            m.customs = rep(n, |i| Custom { name: text(i % 4), contents: vec![i as u8; (i % 3) as usize] });
            layout = vec![CUSTOM; n as usize];
            m.start = Some(1);
            layout.insert(layout.len() / 2, START);
        }
        "locals groups" => func(&mut m, &mut layout, rep(n, |i| (1, if i % 2 == 0 { i32t } else { ValTy::Num(0x7C) })), vec![]),
        "locals one group" => func(&mut m, &mut layout, if n == 0 { vec![] } else { vec![(n, i32t)] }, vec![nop()]),
        "locals zero groups" => func(&mut m, &mut layout, vec![(2, i32t)], rep(n % 1000, |_| nop())),
        "br_table" => func(&mut m, &mut layout, vec![], vec![Ins { op: 0x0E, imm: vec![Imm::Labels(rep(n, |i| i as u32)), Imm::U(5)], body: vec![] }]),
        "select" => func(&mut m, &mut layout, vec![], vec![Ins { op: 0x1C, imm: vec![Imm::Types(rep(n, alt))], body: vec![] }]),
        "catches" => func(
            &mut m,
            &mut layout,
            vec![],
            vec![Ins {
                op: 0x1F,
                imm: vec![
                    Imm::Bt(BlockTy::Idx(n as u32)),
                    Imm::Catches(rep(n, |i| Catch { kind: (i % 4) as u8, tag: if i % 4 < 2 { Some(i as u32) } else { None }, label: i as u32 })),
                ],
                body: vec![vec![nop()]],
            }],
        ),
        "instructions" => func(&mut m, &mut layout, vec![], rep(n, c32)),
        "offset instructions" => {
            m.globals = vec![Global { ty: GlobalTy { var: true, vt: i32t }, init: rep(n, c32) }];
            layout.push(GLOBAL);
        }
        k => panic!("kind {k}"),
    }
    Plan { m, layout }
}
pub fn sizes(c: &mut Ctx, idx: u64) {
    let kind = KINDS[idx as usize % KINDS.len()];
    let i = idx as usize / KINDS.len();
    // beyond the listed lengths: just above 2^20, then anything
    let mut n = LENS.get(i).copied().unwrap_or((1 << 20) + 1 + c.rng.below(64));
    if i >= LENS.len() + 1 {
        n = (1 << 18) + c.rng.below(1 << 18);
    }
    sized(c, kind, n);
    if idx % 97 == 0 {
        c.sample(|| format!("{kind} x {n}"));
    }
}
/// Lists as long as the numbers that are new in the sources under test.
pub fn hot_sizes(c: &mut Ctx, idx: u64) {
    let kind = KINDS[idx as usize % KINDS.len()];
    let n = crate::dict::lens(1 << 21)[idx as usize / KINDS.len()];
    sized(c, kind, n);
}
pub fn hot_sizes_n() -> u64 {
    (crate::dict::lens(1 << 21).len().min(24) * KINDS.len()) as u64
}
const SMALL: [&str; 12] = [
    "params", "results", "fields", "supers", "select", "br_table", "data bytes", "custom bytes", "export name", "instructions", "data zeros",
    "import item",
];
/// Lists of millions of the smallest elements.
pub fn huge_sizes(c: &mut Ctx, idx: u64) {
    let n = [(2u64 << 20) + 1, (4 << 20) + 3, (16 << 20) + 5][idx as usize / SMALL.len() % 3] + c.rng.below(4);
    sized(c, SMALL[idx as usize % SMALL.len()], n);
}
/// Those of the smallest elements, as long as new numbers beyond two millions.
pub fn hot_huge(c: &mut Ctx, idx: u64) {
    let v = hot_huge_lens();
    let at = idx as usize;
    if at < v.len() * SMALL.len() {
        return sized(c, SMALL[at % SMALL.len()], v[at / SMALL.len()]);
    }
    let at = at - v.len() * SMALL.len();
    let v = hot_vast_lens();
    vast(c, BYTES[at % BYTES.len()], v[at / BYTES.len()]);
}
fn hot_huge_lens() -> Vec<u64> {
    let v = crate::dict::lens(1 << 24);
    v[crate::dict::lens(1 << 21).len()..].iter().copied().take(6).collect()
}
fn hot_vast_lens() -> Vec<u64> {
    let v = crate::dict::lens(1 << 28);
    v[crate::dict::lens(1 << 24).len()..].iter().copied().take(3).collect()
}
const BYTES: [&str; 2] = ["data bytes", "custom bytes"];
/// One payload of very many bytes.
fn vast(c: &mut Ctx, kind: &'static str, n: u64) {
    if c.sink.is_some() {
        return;
    }
    sized(c, kind, n);
}
pub fn hot_huge_n() -> u64 {
    (hot_huge_lens().len() * SMALL.len() + hot_vast_lens().len() * BYTES.len()) as u64
}
fn sized(c: &mut Ctx, kind: &'static str, n: u64) {
    let plan = sized_module(kind, n);
    let (b, _, _) = c.encode(&plan, &MIN);
    run(c, &b);
    if n < 20_000 {
        let (b, _, _) = c.encode(&plan, &Style { pad: 8, long: 4 });
        run(c, &b);
        let b = fault_in(c, &plan);
        run(c, &b);
    }
    c.seen("kinds of long lists", kind);
    c.max("longest list", n);
}
/// Two long modules put together (sections that both have come from the first).
pub fn merged(a: Plan, b: Plan) -> Plan {
    let (mut p, b) = (a, b);
    if p.layout.contains(&FUNCTION) && b.layout.contains(&FUNCTION) {
        return p;
    }
    let has = |k: u8| p.layout.contains(&k);
    let add: Vec<u8> = b.layout.iter().copied().filter(|&k| k != CUSTOM && !has(k)).collect();
    if add.contains(&DATACOUNT) != add.contains(&DATA) || (add.contains(&DATA) && has(DATACOUNT)) {
        return p;
    }
    let (m, n) = (&mut p.m, b.m);
    for &k in &add {
        match k {
            TYPE => m.types = n.types.clone(),
            IMPORT => m.imports = n.imports.clone(),
            FUNCTION => m.func_types = n.func_types.clone(),
            TABLE => m.tables = n.tables.clone(),
            MEMORY => m.mems = n.mems.clone(),
            TAG => m.tags = n.tags.clone(),
            GLOBAL => m.globals = n.globals.clone(),
            EXPORT => m.exports = n.exports.clone(),
            START => m.start = n.start,
            ELEMENT => m.elems = n.elems.clone(),
            DATACOUNT => m.data_count = n.data_count,
            CODE => m.codes = n.codes.clone(),
            DATA => m.datas = n.datas.clone(),
            _ => {}
        }
    }
    let customs = p.layout.iter().filter(|k| **k == CUSTOM).count();
    let mut l: Vec<u8> = ORDER.iter().copied().filter(|k| p.layout.contains(k) || add.contains(k)).collect();
    l.extend(vec![CUSTOM; customs]);
    p.layout = l;
    p
}
/// Long modules (in one or two respects) with something wrong about their
/// extent: sections and bodies cut, extended, or of another declared size.
/// One list of byte strings per case.
pub fn scaled_inputs(c: &mut Ctx, idx: u64) -> Vec<Vec<u8>> {
    const AT: [u64; 14] = [130, 260, 300, 520, 1001, 1030, 2050, 4097, 5000, 8200, 16390, 33_000, 65_540, 70_000];
    let kind = KINDS[idx as usize % KINDS.len()];
    let hot = crate::dict::lens(140_000);
    let pick = |r: &mut Rng| if !hot.is_empty() && r.bool() { *r.pick(hot) + r.below(4) } else { *r.pick(&AT) + r.below(8) };
    let n = pick(&mut c.rng);
    let mut plan = sized_module(kind, n);
    if c.rng.chance(1, 3) {
        let n = pick(&mut c.rng).min(5000);
        let other = *c.rng.pick(&KINDS);
        plan = merged(plan, sized_module(other, n));
    }
    let er = Rng::new(c.rng.u64(), "enc", 0);
    let e = enc::encode(&plan, &er, &MIN, vec![], true);
    let b = e.bytes;
    let (r, info) = refdec::decode(&b);
    let m = match r {
        Ok(m) => m,
        Err(f) => {
            c.harness_error(format!("reference rejects a sized module: {kind} {n} {f:?}"));
            return vec![];
        }
    };
    c.seen("kinds of long lists", kind);
    c.max("longest list", n);
    let s = parts(&b, &ranges(&m, &info.section_ends));
    let mut out = vec![b.clone()];
    if s.is_empty() {
        return out;
    }
    let big = (0..s.len()).max_by_key(|&i| s[i].1.len()).unwrap();
    let r = &mut c.rng;
    for _ in 0..4 {
        let i = if r.chance(3, 4) { big } else { r.usize(s.len()) };
        let len = s[i].1.len();
        let lie = |n: u64| {
            let mut v = PRE.to_vec();
            for (k, (id, x)) in s.iter().enumerate() {
                v.push(*id);
                v.extend(leb_u(if k == i { n } else { x.len() as u64 }, 0));
                v.extend_from_slice(x);
            }
            v
        };
        let k = (*r.pick(&[1u64, 1, 2, 3, 17, 300, 65_536, 65_537])).min(len as u64) as usize;
        out.push(match r.below(8) {
            0 => {
                let mut t = s.clone();
                t[i].1.truncate(len - k);
                rebuild(&t)
            }
            1 | 2 => {
                let mut t = s.clone();
                let x = *r.pick(&[0x00u8, 0x01, 0x0B, 0xFF, 0x80]);
                t[i].1.extend(vec![x; k.max(1)]);
                rebuild(&t)
            }
            3 => lie((len - k) as u64),
            4 => lie((len + k.max(1)) as u64),
            5 => {
                let at = if r.bool() { b.len() - k.min(b.len()) } else { r.usize(b.len()) };
                b[..at].to_vec()
            }
            6 => {
                let mut t = s.clone();
                t.push((*r.pick(&[0u8, 0, 1, 3, 10, 11, 13, 14]), vec![0]));
                rebuild(&t)
            }
            _ => {
                // behind everything: junk
                let mut v = b.clone();
                let n = 1 + r.usize(20);
                v.extend(r.bytes(n));
                v
            }
        });
    }
    // one item replaced, mostly near the end
    let toks = &e.toks;
    for _ in 0..2 {
        let last = toks.len();
        let k = if r.bool() { r.usize(last) } else { last - 1 - r.usize(last.min(40)) };
        let t = toks[k];
        let new = match t.class {
            Class::Byte => vec![r.byte()],
            Class::Raw => {
                let n = t.val as usize;
                let mut v = r.bytes(n.max(1));
                if t.role.contains("name") || t.role.starts_with("import") {
                    v = vec![b'a'; n];
                    if n > 0 {
                        let at = r.usize(n);
                        v[at] = r.byte();
                    }
                }
                v
            }
            _ => other_int(r, t.class, t.val),
        };
        out.push(enc::encode(&plan, &er, &MIN, vec![(k, new)], false).bytes);
    }
    // bodies
    let ends: Vec<usize> =
        (0..toks.len()).filter(|&i| toks[i].role == "end" && toks.get(i + 1).is_none_or(|t| t.role == "body.size" || t.role == "section.id")).collect();
    let sizes: Vec<usize> = (0..toks.len()).filter(|&i| toks[i].role == "body.size").collect();
    if !sizes.is_empty() && !ends.is_empty() {
        for _ in 0..3 {
            // the largest body as a rule
            let j = if r.chance(3, 4) { (0..sizes.len()).max_by_key(|&j| toks[sizes[j]].val).unwrap() } else { r.usize(sizes.len()) };
            let len = toks[sizes[j]].val as u64;
            let end = *ends.iter().find(|e| **e > sizes[j]).unwrap_or(&ends[0]);
            let k = *r.pick(&[1u64, 1, 2, 3, 40, 300, 65_536]);
            let x = *r.pick(&[0x00u8, 0x01, 0x0B, 0x05, 0xFF]);
            let over = match r.below(6) {
                0 => vec![(end, vec![])],
                1 | 2 => vec![(end, [vec![0x0B], vec![x; k as usize]].concat())],
                3 => vec![(sizes[j], leb_u(len.saturating_sub(k), 0))],
                4 => vec![(sizes[j], leb_u(len + k, 0))],
                _ => vec![(end, vec![x])],
            };
            let mut v = enc::encode(&plan, &er, &MIN, over, false).bytes;
            if r.chance(1, 3) {
                v.extend(sec(0, &[1, b'z', 1, 2, 3]));
            }
            out.push(v);
        }
    }
    c.count("inputs from long modules", out.len() as u64);
    out
}
pub fn scaled(c: &mut Ctx, idx: u64) {
    for b in scaled_inputs(c, idx) {
        run(c, &b);
    }
}
/// A malformed item at a chosen place of a long list.
pub fn late_faults(c: &mut Ctx, idx: u64) {
    let kind = KINDS[idx as usize % KINDS.len()];
    let mut n = *c.rng.pick(&[100, 127, 128, 129, 200, 256, 300, 1000, 5000]);
    let hot = crate::dict::lens(10_000);
    if !hot.is_empty() && c.rng.bool() {
        n = *c.rng.pick(hot) + c.rng.below(40);
    }
    let plan = sized_module(kind, n);
    let er = Rng::new(c.rng.u64(), "enc", 0);
    let e = enc::encode(&plan, &er, &MIN, vec![], true);
    for _ in 0..3 {
        let last = e.toks.len();
        let k = if c.rng.bool() { c.rng.usize(last) } else { last - 1 - c.rng.usize(last.min(40)) };
        let t = e.toks[k];
        let new = match t.class {
            Class::Byte => vec![c.rng.byte()],
            Class::Raw => {
                let n = (t.val as usize).max(1);
                c.rng.bytes(n)
            }
            _ => other_int(&mut c.rng, t.class, t.val),
        };
        let b = enc::encode(&plan, &er, &MIN, vec![(k, new)], false).bytes;
        run(c, &b);
    }
}
/// Structured instructions nested up to 1,000 deep.
pub fn deep(c: &mut Ctx, idx: u64) {
    let depths = [2, 3, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 750, 998, 999, 1000];
    let mut d = depths[idx as usize % depths.len()];
    let hot = crate::dict::lens(4_000);
    if !hot.is_empty() && idx % 2 == 1 {
        d = *c.rng.pick(hot);
    }
    let shape = idx / depths.len() as u64;
    let mut e: Expr = vec![c_i32(7)];
    if shape % 3 == 1 {
        e = vec![];
    }
    if c.rng.bool() {
        // any instruction at the bottom
        let o = if c.rng.chance(1, 4) { spec::find(*c.rng.pick(&[0xFC_0008, 0xFC_0009, 0xFB_0009, 0xFB_0012])) } else { c.rng.pick(OPS) };
        let mut budget = 2;
        let x = gen_::ins_of(&mut c.rng, o, &Prof::general(), 1, &mut budget);
        e.push(x);
    }
    for i in 0..d {
        let s = if shape < 6 { 1 + shape } else { 1 + c.rng.below(6) };
        let bt = Imm::Bt(match i % 3 {
            0 => BlockTy::Empty,
            1 => BlockTy::Idx(i as u32),
            _ => BlockTy::Val(ValTy::Num(0x7F)),
        });
        let pre: Expr = if c.rng.chance(1, 4) { vec![c_i32(i as i32)] } else { vec![] };
        let ins = match s {
            1 => Ins { op: 0x02, imm: vec![bt], body: vec![e] },
            2 => Ins { op: 0x03, imm: vec![bt], body: vec![e] },
            3 => Ins { op: 0x04, imm: vec![bt], body: vec![e] },
            4 => Ins { op: 0x04, imm: vec![bt], body: vec![e, pre.clone()] },
            5 => Ins { op: 0x04, imm: vec![bt], body: vec![pre.clone(), e] },
            _ => Ins { op: 0x1F, imm: vec![bt, Imm::Catches(vec![Catch { kind: 2, tag: None, label: i as u32 }])], body: vec![e] },
        };
        e = vec![ins];
        e.extend(pre);
    }
    let mut m = Module { func_types: vec![0], codes: vec![Code { locals: vec![], body: e.clone() }], ..Default::default() };
    m.data_count = Some(0);
    let mut layout = vec![FUNCTION, DATACOUNT, CODE];
    if idx % 5 == 0 {
        m = Module { globals: vec![Global { ty: GlobalTy { var: false, vt: ValTy::Num(0x7F) }, init: e }], ..Default::default() };
        layout = vec![GLOBAL];
    }
    let mut plan = Plan { m, layout };
    let (b, _, _) = c.encode(&plan, &MIN);
    run(c, &b);
    // without the data count, which a data index requires
    let layout = plan.layout.clone();
    let count = plan.m.data_count.take();
    plan.layout.retain(|k| *k != DATACOUNT);
    let er = Rng::new(c.rng.u64(), "enc", 0);
    let b = enc::encode(&plan, &er, &MIN, vec![], false).bytes;
    run(c, &b);
    plan.layout = layout;
    plan.m.data_count = count;
    // also with something wrong inside
    let b = fault_in(c, &plan);
    run(c, &b);
}
fn c_i32(i: i32) -> Ins {
    Ins { op: 0x41, imm: vec![Imm::I32(i)], body: vec![] }
}

/// Locals: sums at the limit, empty groups, group boundaries.
pub fn locals(c: &mut Ctx, idx: u64) {
    let make = |groups: &[(u64, u8)]| {
        let mut body = leb_u(groups.len() as u64, 0);
        for (n, t) in groups {
            body.extend(leb_u(*n, 0));
            body.push(*t);
        }
        body.push(0x0B);
        module(&[sec(FUNCTION, &[2, 0, 1]), sec(CODE, &cat(&[&[2], &leb_u(body.len() as u64, 0), &body, &[2, 0, 0x0B]]))])
    };
    if idx % 8 == 1 {
        // totals at round numbers and powers of two, in one group or more
        const TOTALS: [u64; 16] =
            [255, 256, 257, 1000, 1024, 4096, 10_000, 32_767, 32_768, 50_000, 65_535, 65_536, 100_000, 131_072, 262_144, 1_000_000];
        let hot = crate::dict::lens(1_500_000);
        let mut left = if !hot.is_empty() && c.rng.bool() { *c.rng.pick(hot) } else { *c.rng.pick(&TOTALS) - 1 + c.rng.below(3) };
        let total = left;
        let mut g = vec![];
        let groups = *c.rng.pick(&[1u64, 1, 2, 3, 50]);
        for k in 0..groups {
            let n = if k + 1 == groups { left } else { c.rng.below(left + 1) };
            g.push((n, *c.rng.pick(&[0x7F, 0x7E, 0x7D, 0x7C, 0x7B, 0x70])));
            left -= n;
        }
        let b = make(&g);
        run(c, &b);
        c.count("locals expanded", total);
        return;
    }
    if idx % 2 == 0 {
        // sums that reach 2^32 in various ways
        let target = (1u64 << 32) + c.rng.below(3) * c.rng.below(1 << 20);
        let mut left = target;
        let mut g = vec![];
        while left > 0 {
            let n = match c.rng.below(4) {
                0 => left,
                1 => left / 2,
                2 => c.rng.below(1000),
                _ => 1 << 31,
            }
            .min(left)
            .min(0xFFFF_FFFF);
            g.push((n, *c.rng.pick(&[0x7F, 0x7E, 0x7D, 0x7C, 0x7B, 0x70])));
            left -= n;
            if g.len() > 200 && left > 0 {
                g.push((left.min(0xFFFF_FFFF), 0x7F));
                left -= left.min(0xFFFF_FFFF);
            }
            if c.rng.chance(1, 8) {
                g.push((0, 0x7F));
            }
        }
        let b = make(&g);
        run(c, &b);
        c.count("sums of locals at or above 2^32", 1);
    } else {
        let n = c.rng.below(12);
        let g: Vec<(u64, u8)> = (0..n)
            .map(|_| (if c.rng.chance(1, 5) { c.rng.below(30_000) } else { c.rng.below(4) }, *c.rng.pick(&[0x7F, 0x7E, 0x7D, 0x7C, 0x7B, 0x70])))
            .collect();
        let b = make(&g);
        run(c, &b);
        c.count("locals expanded", g.iter().map(|x| x.0).sum());
    }
}

// -------------------------------------------------------------------- UTF-8

pub const NAME_CTX: usize = 4;
pub fn wrap_name(ctx: usize, s: &[u8]) -> Vec<u8> {
    let n = leb_u(s.len() as u64, 0);
    match ctx {
        0 => module(&[sec(CUSTOM, &cat(&[&n, s, &[7, 8]]))]),
        1 => module(&[sec(IMPORT, &cat(&[&[1], &n, s, &[1, b'y', 0, 3]]))]),
        2 => module(&[sec(IMPORT, &cat(&[&[1, 1, b'y'], &n, s, &[4, 0, 3]]))]),
        _ => module(&[sec(EXPORT, &cat(&[&[1], &n, s, &[0, 3]]))]),
    }
}
/// All one- and two-byte names, three bytes with boundary third bytes, four
/// with boundary third and fourth. idx: place * 256 + first byte.
pub fn utf8_enum(c: &mut Ctx, idx: u64) {
    let ctx = (idx / 256) as usize;
    let a = idx as u8;
    if a == 0 {
        run_enum(c, &wrap_name(ctx, &[]));
    }
    run_enum(c, &wrap_name(ctx, &[a]));
    let edge = [0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xED, 0xF4, 0xFF];
    for x in 0..=255u8 {
        run_enum(c, &wrap_name(ctx, &[a, x]));
        for y in edge {
            run_enum(c, &wrap_name(ctx, &[a, x, y]));
            if a >= 0xE0 {
                for z in edge {
                    run_enum(c, &wrap_name(ctx, &[a, x, y, z]));
                }
            }
        }
    }
}
/// All three-byte names. idx: first two bytes.
pub fn utf8_enum3(c: &mut Ctx, idx: u64) {
    for y in 0..=255u8 {
        run_enum(c, &wrap_name((idx >> 16) as usize, &[(idx >> 8) as u8, idx as u8, y]));
    }
}
/// Every Unicode scalar value and every surrogate, one per name, in blocks.
pub fn utf8_scalars(c: &mut Ctx, idx: u64) {
    for k in 0..512u32 {
        let u = idx as u32 * 512 + k;
        let mut v = vec![];
        match u {
            0..0x80 => v.push(u as u8),
            0x80..0x800 => v.extend([0xC0 | (u >> 6) as u8, 0x80 | (u & 63) as u8]),
            0x800..0x10000 => v.extend([0xE0 | (u >> 12) as u8, 0x80 | (u >> 6 & 63) as u8, 0x80 | (u & 63) as u8]),
            _ => v.extend([0xF0 | (u >> 18) as u8, 0x80 | (u >> 12 & 63) as u8, 0x80 | (u >> 6 & 63) as u8, 0x80 | (u & 63) as u8]),
        }
        run_enum(c, &wrap_name(k as usize % NAME_CTX, &v));
    }
    c.count("code points tried", 512);
}
/// Long names, valid or with one flaw anywhere (also across any chunk size).
pub fn utf8_long(c: &mut Ctx, _: u64) {
    let n = *c.rng.pick(&[5, 15, 31, 63, 64, 127, 128, 255, 256, 1000, 4095, 4096, 8191, 8192, 8193, 16384, 70_000]);
    let hot = crate::dict::lens(200_000);
    let n = if !hot.is_empty() && c.rng.chance(1, 3) { *c.rng.pick(hot) as usize } else { n };
    let mut s = String::new();
    let plain = c.rng.chance(1, 3);
    let run_of = c.rng.chance(1, 4);
    while s.len() < n {
        if run_of {
            s.push_str(&crate::gen_::one_kind(&mut c.rng, 64));
            continue;
        }
        match if plain { 0 } else { c.rng.below(6) } {
            0..=2 => s.push((b' ' + c.rng.below(95) as u8) as char),
            3 => s.push('é'),
            4 => s.push('\u{20ac}'),
            _ => s.push('\u{1f600}'),
        }
    }
    let mut v = s.into_bytes();
    match c.rng.below(6) {
        0 => {}
        1 => {
            v.truncate(n);
        }
        2 => {
            let bad: &[u8] =
                c.rng.pick(&[&[0xC0u8, 0x80][..], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0x80], &[0xFF], &[0xE0, 0x80, 0x80], &[0xF8, 0x88, 0x80, 0x80, 0x80], &[0xED, 0xB0, 0x80], &[0xF0, 0x80, 0x80, 0x80], &[0xC1, 0xBF]]);
            let mut at = c.rng.usize(v.len() + 1);
            while at < v.len() && v[at] & 0xC0 == 0x80 {
                at += 1;
            }
            v.splice(at..at, bad.iter().copied());
        }
        3 => {
            let at = c.rng.usize(v.len());
            v[at] ^= 1 << c.rng.below(8);
        }
        4 => {
            // trailing incomplete sequence
            let bad: &[u8] = c.rng.pick(&[&[0xC3u8][..], &[0xE2, 0x82], &[0xF0, 0x9F, 0x98]]);
            v.extend_from_slice(bad);
        }
        _ => {
            // what normalisation or trimming would change
            let x: &[u8] = c.rng.pick(&["e\u{301}".as_bytes(), " ".as_bytes(), "\0".as_bytes(), "\u{feff}".as_bytes(), "\n".as_bytes(), "\u{212b}".as_bytes()]);
            if c.rng.bool() { v.extend_from_slice(x) } else { v.splice(0..0, x.iter().copied()); }
        }
    }
    for ctx in 0..NAME_CTX {
        let b = wrap_name(ctx, &v);
        run(c, &b);
        // declared length off by one
        let mut t = v.clone();
        t.push(b'q');
        let b = wrap_name(ctx, &t);
        let at = b.windows(v.len().max(1)).position(|w| w == &v[..]).unwrap_or(0);
        if at > 0 && at < b.len() && leb_u(v.len() as u64, 0).len() == leb_u(t.len() as u64, 0).len() {
            let mut x = b.clone();
            let l = leb_u(v.len() as u64, 0);
            let s = at - l.len();
            x[s..at].copy_from_slice(&l);
            run(c, &x);
        }
    }
    c.max("longest name", v.len() as u64);
}

// ------------------------------------------------------------------ customs

fn strip(mut m: Module) -> Module {
    m.customs.clear();
    m.headers.retain(|h| h.0 != CUSTOM);
    m
}
/// Custom sections put in, taken out and altered, in well-formed and in
/// malformed modules.
pub fn customs(c: &mut Ctx, idx: u64) {
    let p = Prof { items: 3, ins: 5, customs: 3, ..Prof::general() };
    let (_, b, m) = c.generated(&p);
    let (r, info) = refdec::decode(&b);
    if r.is_err() {
        return;
    }
    let mut s = parts(&b, &ranges(&m, &info.section_ends));
    if idx % 4 == 3 {
        // something is amiss between sections
        let d = data_shape(c, idx);
        let (r, info) = refdec::decode(&d);
        // the section contents, whatever the verdict
        s = match r {
            Ok(m) => parts(&d, &ranges(&m, &info.section_ends)),
            Err(_) => split_sections(&d),
        };
    }
    if idx % 3 == 2 && !s.is_empty() {
        // spoil one other section or their order
        let others: Vec<usize> = (0..s.len()).filter(|&i| s[i].0 != CUSTOM).collect();
        if !others.is_empty() {
            let i = *c.rng.pick(&others);
            if c.rng.bool() {
                let mut x = std::mem::take(&mut s[i].1);
                mutate(c, &mut x);
                s[i].1 = x;
            } else {
                let j = *c.rng.pick(&others);
                s.swap(i, j);
            }
        }
    }
    let mut base: Option<(bool, Option<Module>)> = None;
    for v in 0..5 {
        let mut t: Vec<(u8, Vec<u8>)> = s.clone();
        if v == 1 || c.rng.bool() {
            t.retain(|x| x.0 != CUSTOM);
        }
        if v > 1 {
            let n = 1 + c.rng.below(if v == 4 { 40 } else { 4 });
            for _ in 0..n {
                let name = gen_::name(&mut c.rng, 20);
                let mut x = leb_u(name.len() as u64, 0);
                x.extend(name.as_bytes());
                let max = *c.rng.pick(&[60, 60, 60, 60, 5_000, 70_000]);
                let blob = gen_::blob(&mut c.rng, max);
                x.extend(blob);
                let at = c.rng.usize(t.len() + 1);
                t.insert(at, (CUSTOM, x));
            }
        }
        let b = rebuild(&t);
        c.eval(&b);
        let Some(st) = c.differential(&b) else { continue };
        let got = match &st.out {
            Out::Ok(w) => (true, Some(strip(crate::bridge::module(w).0))),
            _ => (false, None),
        };
        c.count("custom section variants compared", 1);
        match &base {
            None => base = Some(got),
            Some(x) if *x != got => {
                let what = match (&x.1, &got.1) {
                    (Some(a), Some(b)) => format!("{:?}", model::diff(a, b)),
                    _ => format!("accepted: {} and {}", x.0, got.0),
                };
                c.fail(format!("custom sections change the rest of the result: {what}; input {}", hex_short(&b)), Some(&b));
            }
            _ => {}
        }
    }
}

/// Boundary values in every index role and immediate (C03, C04).
pub fn edge_values(c: &mut Ctx, idx: u64) {
    let spots = int_spots();
    let s = spots[idx as usize % spots.len()];
    for &e in &U32_EDGES {
        let v = match s.t.class {
            Class::S(33) => leb_s(e as i64, 0),
            Class::S(32) => leb_s(e as i32 as i64, 0),
            Class::S(_) => leb_s(e as i64, 0),
            _ => leb_u(e as u64, 0),
        };
        let b = s.with(v);
        run(c, &b);
    }
}
