//! Random well-formed modules (as models), biased to boundaries.
use crate::model::*;
use crate::refdec::{ref_func, ref_null};
use crate::spec::{self, K, OPS};
use crate::util::Rng;

#[derive(Clone)]
pub struct Prof {
    /// Chance (of 16) that a section is present, by id.
    pub secs: [u8; 14],
    /// List lengths are up to this, usually far less.
    pub items: u64,
    /// Instructions per expression.
    pub ins: u64,
    pub depth: u32,
    pub customs: u64,
    /// Length of names and payloads.
    pub bytes: u64,
    /// Restrict instructions to these opcodes (empty: all).
    pub ops: &'static [u32],
    pub locals_max: u64,
}
impl Prof {
    pub fn general() -> Prof {
        Prof { secs: [8; 14], items: 6, ins: 12, depth: 5, customs: 3, bytes: 24, ops: &[], locals_max: 300 }
    }
    pub fn only(ids: &[u8]) -> Prof {
        let mut p = Prof::general();
        p.secs = [0; 14];
        for &i in ids {
            p.secs[i as usize] = 16;
        }
        p.customs = 0;
        p
    }
    pub fn dense() -> Prof {
        Prof { secs: [16; 14], ..Prof::general() }
    }
}

pub fn len(r: &mut Rng, max: u64) -> usize {
    (match r.below(8) {
        0 => 0,
        1 => 1,
        2 => max,
        _ => r.below(max + 1),
    }) as usize
}

pub fn heap(r: &mut Rng) -> Heap {
    if r.chance(2, 3) { Heap::Abs(r.range(0x69, 0x74) as u8) } else { Heap::Idx(r.u32b()) }
}
pub fn refty(r: &mut Rng) -> RefTy {
    RefTy { null: r.bool(), heap: heap(r) }
}
pub fn valty(r: &mut Rng) -> ValTy {
    if r.bool() { ValTy::Num(r.range(0x7B, 0x7F) as u8) } else { ValTy::Ref(refty(r)) }
}
/// Some lists repeat elements, or consist of one element only.
fn many<T: Clone>(r: &mut Rng, max: u64, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = len(r, max);
    let again = *r.pick(&[0, 0, 0, 1, 4, 8]);
    let mut v: Vec<T> = Vec::with_capacity(n);
    for _ in 0..n {
        let x = if !v.is_empty() && r.chance(again, 8) {
            let i = if r.bool() { v.len() - 1 } else { r.usize(v.len()) };
            v[i].clone()
        } else {
            f(r)
        };
        v.push(x);
    }
    v
}
pub fn field(r: &mut Rng) -> FieldTy {
    FieldTy { var: r.bool(), st: if r.chance(1, 3) { Storage::Pack(r.range(0x77, 0x78) as u8) } else { Storage::Val(valty(r)) } }
}
pub fn comp(r: &mut Rng, p: &Prof) -> Comp {
    match r.below(3) {
        0 => Comp::Func(many(r, p.items, valty), many(r, p.items, valty)),
        1 => Comp::Struct(many(r, p.items, field)),
        _ => Comp::Array(field(r)),
    }
}
pub fn subty(r: &mut Rng, p: &Prof) -> SubTy {
    SubTy { is_final: r.bool(), supers: if r.bool() { vec![] } else { many(r, p.items, |r| r.u32b()) }, comp: comp(r, p) }
}
pub fn rectype(r: &mut Rng, p: &Prof) -> RecTy {
    if r.bool() { vec![subty(r, p)] } else { many(r, p.items, |r| subty(r, p)) }
}
pub fn limits(r: &mut Rng) -> Limits {
    let min = r.u64b();
    let max = match r.below(8) {
        0..=3 => None,
        4 => Some(min),
        _ => Some(r.u64b()),
    };
    Limits { a64: r.bool(), min, max }
}
pub fn tablety(r: &mut Rng) -> TableTy {
    TableTy { rt: refty(r), lim: limits(r) }
}
pub fn globalty(r: &mut Rng) -> GlobalTy {
    GlobalTy { var: r.bool(), vt: valty(r) }
}
/// Characters of one kind: what text handling elsewhere folds, strips,
/// reorders or escapes. Some after a letter, so that marks have a base.
pub fn one_kind(r: &mut Rng, max: u64) -> String {
    const KINDS: [(u32, u32); 30] = [
        (0x00, 0x1F),
        (0x20, 0x2F),
        (0x3A, 0x40),
        (0x5B, 0x60),
        (0x7B, 0x7F),
        (0x80, 0x9F),
        (0xA0, 0xFF),
        (0x100, 0x24F),
        (0x300, 0x36F),
        (0x370, 0x3FF),
        (0x400, 0x4FF),
        (0x590, 0x5FF),
        (0x600, 0x6FF),
        (0x1100, 0x11FF),
        (0x2000, 0x200F),
        (0x2028, 0x202F),
        (0x2060, 0x206F),
        (0x20D0, 0x20FF),
        (0x2100, 0x214F),
        (0x3000, 0x303F),
        (0x4E00, 0x4E20),
        (0xAC00, 0xAC20),
        (0xE000, 0xE010),
        (0xFB00, 0xFB4F),
        (0xFDD0, 0xFDEF),
        (0xFE00, 0xFE0F),
        (0xFF00, 0xFFFF),
        (0x1F1E6, 0x1F1FF),
        (0x1F600, 0x1F64F),
        (0xE0000, 0xE01EF),
    ];
    let n = if r.chance(1, 3) { 1 + r.usize(max as usize) } else { 1 + r.usize(8) };
    let (a, b) = *r.pick(&KINDS);
    let d = crate::dict::dict();
    let one = if r.bool() { char::from_u32(a + r.below((b - a + 1) as u64) as u32) } else { None };
    // characters whose code is new in the sources
    let one = if !d.fresh.is_empty() && r.chance(1, 4) { char::from_u32(*r.pick(&d.fresh) as u32).or(one) } else { one };
    let mut s = String::new();
    if r.bool() {
        s.push(*r.pick(&['a', 'e', ' ', '\u{e9}', '0']));
    }
    while s.chars().count() < n {
        match one.or_else(|| char::from_u32(a + r.below((b - a + 1) as u64) as u32)) {
            Some(c) => s.push(c),
            None => s.push('x'),
        }
        if r.chance(1, 12) {
            s.push((b' ' + r.below(95) as u8) as char);
        }
    }
    s
}
pub fn name(r: &mut Rng, max: u64) -> String {
    let d = crate::dict::dict();
    if r.chance(1, 8) && !d.fresh_texts.is_empty() {
        return r.pick(&d.fresh_texts).clone();
    }
    if r.chance(1, 32) && !d.texts.is_empty() {
        return r.pick(&d.texts).clone();
    }
    const FIXED: [&str; 31] = [
        "linking",
        "reloc.CODE",
        "reloc.DATA",
        "dylink",
        "dylink.0",
        "sourceMappingURL",
        "external_debug_info",
        ".debug_info",
        ".debug_line",
        ".debug_str",
        "build_id",
        "metadata.code.branch_hint",
        "component-type",
        "env",
        "_start",
        "memory",
        "wasi_snapshot_preview1",
        "",
        "name",
        "\0",
        " a ",
        "\u{feff}x",
        "é",
        "e\u{301}",
        "\u{7f}\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}",
        "\u{d7ff}\u{e000}",
        "a\nb\r\t",
        "producers",
        "target_features",
        "\u{fffd}",
        "Straße\u{202e}",
    ];
    match r.below(6) {
        0 => r.pick(&FIXED).to_string(),
        5 => one_kind(r, max.max(4) / 2),
        // from a few: equal names are common
        1 => r.pick(&["a", "b", "ab", "é"]).to_string(),
        2 => {
            let n = len(r, max);
            (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect()
        }
        _ => {
            let n = len(r, max / 2);
            (0..n)
                .map(|_| loop {
                    let hi = *r.pick(&[0x80u64, 0x800, 0x10000, 0x110000]);
                    if let Some(c) = char::from_u32(r.below(hi) as u32) {
                        break c;
                    }
                })
                .collect()
        }
    }
}
/// Contents that look like something: a known beginning (or one that is new in
/// the sources under test), lines of text, a module.
fn formatted(r: &mut Rng, n: usize) -> Vec<u8> {
    const MAGIC: [&[u8]; 18] = [
        b"\0asm\x01\0\0\0",
        b"\0asm\x0d\0\x01\0",
        b"\x1f\x8b\x08\0",
        b"\x78\x9c",
        b"\x28\xb5\x2f\xfd",
        b"\x7fELF\x02\x01\x01\0",
        b"PK\x03\x04",
        b"\xef\xbb\xbf",
        b"\xff\xfe",
        b"\xfe\xff",
        b"{\"a\":[1]}",
        b"#!/bin/sh\n",
        b"\xd9\xd9\xf7",
        b"\x89PNG\r\n\x1a\n",
        b"MZ",
        b"BZh9",
        b"\xfd7zXZ\0",
        b"-----BEGIN X-----\n",
    ];
    let d = crate::dict::dict();
    let mut v = vec![];
    if !d.fresh_bytes.is_empty() && r.bool() {
        v.extend(r.pick(&d.fresh_bytes));
    } else {
        v.extend(*r.pick(&MAGIC));
    }
    if r.bool() {
        let k = r.usize(4);
        let k = r.bytes(k);
        v.splice(0..0, k);
    }
    if r.bool() {
        let eol: &[u8] = r.pick(&[&b"\n"[..], b"\r\n", b"\r", b"\0"]);
        while v.len() < n {
            for _ in 0..r.below(20) {
                v.push(b' ' + r.below(95) as u8);
            }
            v.extend(eol);
        }
    } else if v.len() < n {
        let k = n - v.len();
        v.extend(r.bytes(k));
    }
    if r.chance(1, 4) && !d.fresh_bytes.is_empty() {
        v.extend(r.pick(&d.fresh_bytes));
    }
    v
}
pub fn blob(r: &mut Rng, max: u64) -> Vec<u8> {
    let n = len(r, max);
    match r.below(8) {
        7 => formatted(r, n),
        3 => {
            // ends (or begins) in a run of one value
            let mut v = r.bytes(n);
            let x = *r.pick(&[0u8, 0, 0xFF, b' ', b'\n']);
            let k = r.usize(n + 1);
            if r.bool() { v[k..].fill(x) } else { v[..k].fill(x) }
            v
        }
        4 => {
            // nested structure: what looks like sections or names
            let mut v = vec![];
            while v.len() < n {
                let k = 1 + r.usize(9);
                v.extend([r.below(14) as u8, k as u8]);
                v.extend(r.bytes(k));
            }
            v.truncate(n);
            v
        }
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => vec![*r.pick(&[0x0Bu8, 0x80, 0x05, 0x0A, 0x0D, 0x7F]); n],
        _ => r.bytes(n),
    }
}
pub fn blockty(r: &mut Rng) -> BlockTy {
    match r.below(3) {
        0 => BlockTy::Empty,
        1 => BlockTy::Val(valty(r)),
        _ => BlockTy::Idx(r.u32b()),
    }
}
fn f32bits(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[
            0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0xFFC0_0000, 0x7F80_0001, 0x7FA0_0000, 0xFF80_0001, 0x7FFF_FFFF, 0xFFFF_FFFF,
            0x8000_0000, 0, 1, 0x8000_0001, 0x007F_FFFF,
        ]),
        1 => 0x7F80_0000 | (r.u64() as u32 & 0x807F_FFFF),
        _ => r.u64() as u32,
    }
}
fn f64bits(r: &mut Rng) -> u64 {
    match r.below(4) {
        0 => *r.pick(&[
            0x7FF0_0000_0000_0000,
            0xFFF0_0000_0000_0000,
            0x7FF8_0000_0000_0000,
            0x7FF0_0000_0000_0001,
            0xFFF0_0000_0000_0001,
            0x7FF4_0000_0000_0000,
            u64::MAX,
            1 << 63,
            (1 << 63) | 1,
            1,
            0,
            0x000F_FFFF_FFFF_FFFF,
        ]),
        1 => 0x7FF0_0000_0000_0000 | (r.u64() & 0x800F_FFFF_FFFF_FFFF),
        _ => r.u64(),
    }
}
fn memarg(r: &mut Rng) -> Imm {
    let mem = if r.bool() { 0 } else { r.u32b() };
    let off = if r.chance(1, 8) { mem as u64 } else { r.u64b() };
    Imm::Memarg { align: r.below(64) as u32, mem, off }
}
pub fn catch(r: &mut Rng) -> Catch {
    let kind = r.below(4) as u8;
    let tag = if kind < 2 { Some(r.u32b()) } else { None };
    let label = if r.chance(1, 6) { tag.unwrap_or(kind as u32) } else { r.u32b() };
    Catch { kind, tag, label }
}
pub fn imms(r: &mut Rng, k: K, p: &Prof) -> Vec<Imm> {
    let u = |r: &mut Rng| Imm::U(r.u32b());
    match k {
        K::None => vec![],
        K::Label | K::Func | K::Type | K::Tag | K::Local | K::Global | K::Table | K::Mem | K::Elem | K::Data => vec![u(r)],
        K::TypeTable
        | K::TypeField
        | K::TypeLen
        | K::TypeData
        | K::TypeElem
        | K::TypeType
        | K::DataMem
        | K::MemMem
        | K::ElemTable
        | K::TableTable => {
            let x = u(r);
            let y = if r.chance(1, 4) { x.clone() } else { u(r) };
            vec![x, y]
        }
        K::Heap => vec![Imm::Heap(heap(r))],
        K::BrTable => vec![Imm::Labels(many(r, p.items, |r| r.u32b())), u(r)],
        K::SelectT => vec![Imm::Types(many(r, p.items, valty))],
        K::Memarg => vec![memarg(r)],
        K::MemargLane => vec![memarg(r), Imm::Lane(r.byte())],
        K::Lane => vec![Imm::Lane(r.byte())],
        K::I32 => vec![Imm::I32(r.i32b())],
        K::I64 => vec![Imm::I64(r.i64b())],
        K::F32 => vec![Imm::F32(f32bits(r))],
        K::F64 => vec![Imm::F64(f64bits(r))],
        K::V128 | K::Shuffle => vec![Imm::Bytes16(r.bytes(16).try_into().unwrap())],
        K::BrCast => {
            let a = refty(r);
            let b = if r.chance(1, 4) { a } else { refty(r) };
            vec![u(r), Imm::Ref(a), Imm::Ref(b)]
        }
        K::Block | K::If => vec![Imm::Bt(blockty(r))],
        K::TryTable => vec![Imm::Bt(blockty(r)), Imm::Catches(many(r, p.items, catch))],
    }
}
pub fn ins_of(r: &mut Rng, op: &spec::Op, p: &Prof, depth: u32, budget: &mut u64) -> Ins {
    let imm = imms(r, op.k, p);
    let body = match op.k {
        K::Block | K::TryTable => vec![expr_in(r, p, depth + 1, budget)],
        K::If => {
            if r.bool() {
                vec![expr_in(r, p, depth + 1, budget)]
            } else {
                vec![expr_in(r, p, depth + 1, budget), expr_in(r, p, depth + 1, budget)]
            }
        }
        _ => vec![],
    };
    Ins { op: op.op, imm, body }
}
fn expr_in(r: &mut Rng, p: &Prof, depth: u32, budget: &mut u64) -> Expr {
    let n = if depth == 0 { len(r, p.ins) } else { r.below(4) as usize };
    let mut v = vec![];
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        let op = if p.ops.is_empty() {
            match r.below(8) {
                0 if depth < p.depth => spec::find(*r.pick(&[0x02, 0x03, 0x04, 0x04, 0x1F])),
                1 => spec::find(*r.pick(&[0x41, 0x42, 0x43, 0x44, 0x28, 0x20, 0x10, 0xFD_000C])),
                _ => r.pick(OPS),
            }
        } else {
            spec::find(*r.pick(p.ops))
        };
        if depth >= p.depth && matches!(op.k, K::Block | K::If | K::TryTable) {
            continue;
        }
        v.push(ins_of(r, op, p, depth, budget));
    }
    v
}
pub fn expr(r: &mut Rng, p: &Prof) -> Expr {
    let mut budget = p.ins;
    expr_in(r, p, 0, &mut budget)
}
/// Mostly short constant expressions, sometimes anything.
pub fn const_expr(r: &mut Rng, p: &Prof) -> Expr {
    match r.below(6) {
        0 => vec![],
        1 => vec![ref_func(r.u32b())],
        2 => vec![ref_null(heap(r))],
        3 => vec![Ins { op: 0x41, imm: vec![Imm::I32(r.i32b())], body: vec![] }],
        4 => vec![Ins { op: 0x23, imm: vec![Imm::U(r.u32b())], body: vec![] }],
        _ => expr(r, p),
    }
}
pub fn uses_data(e: &Expr) -> bool {
    e.iter().any(|i| matches!(spec::find(i.op).k, K::Data | K::TypeData | K::DataMem) || i.body.iter().any(uses_data))
}
pub fn depth(e: &Expr) -> usize {
    e.iter().map(|i| i.body.iter().map(|b| 1 + depth(b)).max().unwrap_or(0)).max().unwrap_or(0)
}
pub fn ext(r: &mut Rng) -> Ext {
    match r.below(5) {
        0 => Ext::Func(r.u32b()),
        1 => Ext::Table(tablety(r)),
        2 => Ext::Mem(limits(r)),
        3 => Ext::Global(globalty(r)),
        _ => Ext::Tag(r.u32b()),
    }
}
pub fn elem(r: &mut Rng, p: &Prof) -> Elem {
    let funcs = r.bool();
    let init: Vec<Expr> = if funcs { many(r, p.items, |r| vec![ref_func(r.u32b())]) } else { many(r, p.items, |r| const_expr(r, p)) };
    let rt = match r.below(3) {
        0 => RefTy { null: false, heap: Heap::Abs(0x70) },
        1 => RefTy { null: true, heap: Heap::Abs(0x70) },
        _ => refty(r),
    };
    let mode = match r.below(4) {
        0 => ElemMode::Passive,
        1 => ElemMode::Declare,
        _ => ElemMode::Active(if r.bool() { 0 } else { r.u32b() }, const_expr(r, p)),
    };
    Elem { rt, init, mode }
}
pub fn data(r: &mut Rng, p: &Prof) -> Data {
    Data {
        init: blob(r, p.bytes),
        mode: match r.below(3) {
            0 => None,
            1 => Some((0, const_expr(r, p))),
            _ => Some((r.u32b(), const_expr(r, p))),
        },
    }
}
pub fn locals(r: &mut Rng, p: &Prof) -> Vec<(u64, ValTy)> {
    let max = p.locals_max;
    merge_locals(many(r, p.items, |r| (if r.chance(1, 6) { r.below(max + 1) } else { r.below(5) }, valty(r))))
}
pub fn table(r: &mut Rng, p: &Prof) -> Table {
    let ty = tablety(r);
    Table { ty, init: if r.bool() { vec![ref_null(ty.rt.heap)] } else { const_expr(r, p) } }
}

/// A module and the order of its sections (custom sections included).
#[derive(Clone, Debug)]
pub struct Plan {
    pub m: Module,
    pub layout: Vec<u8>,
}

pub fn module(r: &mut Rng, p: &Prof) -> Plan {
    let mut m = Module::default();
    let on = |r: &mut Rng, k: u8| r.chance(p.secs[k as usize] as u64, 16);
    let mut present = [false; 14];
    for k in ORDER {
        present[k as usize] = on(r, k);
    }
    let has = |k: u8| present[k as usize];
    if has(TYPE) {
        m.types = many(r, p.items, |r| rectype(r, p));
    }
    if has(IMPORT) {
        m.imports = many(r, p.items, |r| {
            let module = name(r, p.bytes);
            let item = if r.chance(1, 8) { module.clone() } else { name(r, p.bytes) };
            Import { module, item, ty: ext(r) }
        });
    }
    if has(TABLE) {
        m.tables = many(r, p.items, |r| table(r, p));
    }
    if has(MEMORY) {
        m.mems = many(r, p.items, limits);
    }
    if has(TAG) {
        m.tags = many(r, p.items, |r| r.u32b());
    }
    if has(GLOBAL) {
        m.globals = many(r, p.items, |r| Global { ty: globalty(r), init: const_expr(r, p) });
    }
    if has(EXPORT) {
        m.exports = many(r, p.items, |r| Export { name: name(r, p.bytes), kind: r.below(5) as u8, idx: r.u32b() });
    }
    if has(START) {
        m.start = Some(r.u32b());
    }
    if has(ELEMENT) {
        m.elems = many(r, p.items, |r| elem(r, p));
    }
    if has(DATA) {
        m.datas = many(r, p.items, |r| data(r, p));
    }
    if has(CODE) && p.secs[FUNCTION as usize] > 0 {
        m.codes = many(r, p.items, |r| Code { locals: locals(r, p), body: expr(r, p) });
        m.func_types = m.codes.iter().map(|_| r.u32b()).collect();
    }
    if m.codes.iter().any(|c| uses_data(&c.body)) || has(DATACOUNT) {
        m.data_count = Some(m.datas.len() as u32);
    }
    let mut layout = vec![];
    for k in ORDER {
        let need = match k {
            FUNCTION | CODE => !m.codes.is_empty() || (has(k) && p.secs[FUNCTION as usize] > 0 && r.chance(1, 2)),
            DATACOUNT => m.data_count.is_some(),
            START => m.start.is_some(),
            _ => has(k),
        };
        if need {
            layout.push(k);
        }
    }
    let n = if p.customs == 0 { 0 } else { len(r, p.customs) };
    for _ in 0..n {
        let at = r.usize(layout.len() + 1);
        layout.insert(at, CUSTOM);
        m.customs.push(Custom { name: name(r, p.bytes), contents: blob(r, p.bytes) });
    }
    Plan { m, layout }
}
