//! Encodes a model, choosing among all permitted encodings with the given
//! randomness, and records every token so that one of them can be replaced.
use crate::gen_::Plan;
use crate::model::*;
use crate::refdec::{ref_func, ref_null};
use crate::spec::{self, K};
use crate::util::{Rng, leb_s, leb_u};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Class {
    /// Unsigned integer of so many bits.
    U(u32),
    /// Signed integer of so many bits.
    S(u32),
    /// A single marker, flag or opcode byte.
    Byte,
    /// Raw bytes.
    Raw,
}
#[derive(Clone, Copy, Debug)]
pub struct Tok {
    pub class: Class,
    pub role: &'static str,
    pub val: i128,
}
#[derive(Clone, Debug)]
pub struct Style {
    /// Chance (of 16) to pad an integer.
    pub pad: u64,
    /// Chance (of 16) to use a longer form where a shorthand exists.
    pub long: u64,
}
pub struct Enc {
    r: Rng,
    st: Style,
    over: Vec<(usize, Vec<u8>)>,
    pub toks: Vec<Tok>,
    next: usize,
    keep: bool,
    pub headers: Vec<(u8, u32)>,
}

pub struct Encoded {
    pub bytes: Vec<u8>,
    pub toks: Vec<Tok>,
    pub headers: Vec<(u8, u32)>,
}

/// Encodes `p`. Same `rng` and `st` -> same choices, whatever is overridden.
pub fn encode(p: &Plan, rng: &Rng, st: &Style, over: Vec<(usize, Vec<u8>)>, keep: bool) -> Encoded {
    let mut e = Enc { r: rng.clone(), st: st.clone(), over, toks: vec![], next: 0, keep, headers: vec![] };
    let mut o = vec![];
    e.raw(&mut o, "preamble", b"\0asm\x01\0\0\0");
    let mut custom = 0;
    for &k in &p.layout {
        e.section(&mut o, p, k, &mut custom);
    }
    Encoded { bytes: o, toks: e.toks, headers: e.headers }
}
/// One expression, with its end byte.
pub fn encode_expr(x: &Expr, rng: &Rng, st: &Style) -> Vec<u8> {
    let mut e = Enc { r: rng.clone(), st: st.clone(), over: vec![], toks: vec![], next: 0, keep: false, headers: vec![] };
    let mut o = vec![];
    e.expr(&mut o, x);
    o
}

impl Enc {
    fn reserve(&mut self, class: Class, role: &'static str) -> usize {
        let i = self.next;
        self.next += 1;
        if self.keep {
            self.toks.push(Tok { class, role, val: 0 });
        }
        i
    }
    fn put(&mut self, o: &mut Vec<u8>, i: usize, val: i128, b: &[u8]) {
        if self.keep {
            self.toks[i].val = val;
        }
        match self.over.iter().find(|x| x.0 == i) {
            Some(x) => o.extend_from_slice(&x.1),
            None => o.extend_from_slice(b),
        }
    }
    fn padlen(&mut self, bits: u32) -> usize {
        if self.r.chance(self.st.pad, 16) { self.r.range(1, bits.div_ceil(7) as u64) as usize } else { 0 }
    }
    fn u(&mut self, o: &mut Vec<u8>, bits: u32, role: &'static str, v: u64) {
        let i = self.reserve(Class::U(bits), role);
        let n = self.padlen(bits);
        self.put(o, i, v as i128, &leb_u(v, n));
    }
    fn s(&mut self, o: &mut Vec<u8>, bits: u32, role: &'static str, v: i64) {
        let i = self.reserve(Class::S(bits), role);
        let n = self.padlen(bits);
        self.put(o, i, v as i128, &leb_s(v, n));
    }
    fn u32(&mut self, o: &mut Vec<u8>, role: &'static str, v: u32) {
        self.u(o, 32, role, v as u64)
    }
    fn byte(&mut self, o: &mut Vec<u8>, role: &'static str, b: u8) {
        let i = self.reserve(Class::Byte, role);
        self.put(o, i, b as i128, &[b]);
    }
    fn raw(&mut self, o: &mut Vec<u8>, role: &'static str, b: &[u8]) {
        let i = self.reserve(Class::Raw, role);
        self.put(o, i, b.len() as i128, b);
    }
    fn sized(&mut self, o: &mut Vec<u8>, role: &'static str, f: impl FnOnce(&mut Enc, &mut Vec<u8>)) -> u32 {
        let i = self.reserve(Class::U(32), role);
        let n = self.padlen(32);
        let mut t = vec![];
        f(self, &mut t);
        self.put(o, i, t.len() as i128, &leb_u(t.len() as u64, n));
        o.extend_from_slice(&t);
        t.len() as u32
    }
    fn long(&mut self) -> bool {
        self.r.chance(self.st.long, 16)
    }
    fn list<T>(&mut self, o: &mut Vec<u8>, role: &'static str, v: &[T], mut f: impl FnMut(&mut Enc, &mut Vec<u8>, &T)) {
        self.u32(o, role, v.len() as u32);
        for x in v {
            f(self, o, x);
        }
    }
    fn name(&mut self, o: &mut Vec<u8>, role: &'static str, s: &str) {
        self.u32(o, "name.len", s.len() as u32);
        self.raw(o, role, s.as_bytes());
    }
    fn heap(&mut self, o: &mut Vec<u8>, h: Heap) {
        match h {
            Heap::Abs(b) => self.byte(o, "heap.abs", b),
            Heap::Idx(x) => self.s(o, 33, "heap.index", x as i64),
        }
    }
    fn refty(&mut self, o: &mut Vec<u8>, r: RefTy) {
        match r {
            RefTy { null: true, heap: Heap::Abs(b) } if !self.long() => self.byte(o, "reftype", b),
            RefTy { null, heap } => {
                self.byte(o, "reftype", if null { 0x63 } else { 0x64 });
                self.heap(o, heap);
            }
        }
    }
    fn valty(&mut self, o: &mut Vec<u8>, v: &ValTy) {
        match v {
            ValTy::Num(b) => self.byte(o, "valtype", *b),
            ValTy::Ref(r) => self.refty(o, *r),
        }
    }
    fn mutab(&mut self, o: &mut Vec<u8>, v: bool) {
        self.byte(o, "mut", v as u8)
    }
    fn field(&mut self, o: &mut Vec<u8>, f: &FieldTy) {
        match &f.st {
            Storage::Pack(b) => self.byte(o, "storage", *b),
            Storage::Val(v) => self.valty(o, v),
        }
        self.mutab(o, f.var);
    }
    fn comp(&mut self, o: &mut Vec<u8>, c: &Comp) {
        match c {
            Comp::Func(p, r) => {
                self.byte(o, "comptype", 0x60);
                self.list(o, "params.count", p, |e, o, x| e.valty(o, x));
                self.list(o, "results.count", r, |e, o, x| e.valty(o, x));
            }
            Comp::Struct(f) => {
                self.byte(o, "comptype", 0x5F);
                self.list(o, "fields.count", f, |e, o, x| e.field(o, x));
            }
            Comp::Array(f) => {
                self.byte(o, "comptype", 0x5E);
                self.field(o, f);
            }
        }
    }
    fn sub(&mut self, o: &mut Vec<u8>, s: &SubTy) {
        if s.is_final && s.supers.is_empty() && !self.long() {
            return self.comp(o, &s.comp);
        }
        self.byte(o, "subtype", if s.is_final { 0x4F } else { 0x50 });
        self.list(o, "supers.count", &s.supers, |e, o, x| e.u32(o, "supers.idx", *x));
        self.comp(o, &s.comp);
    }
    fn rec(&mut self, o: &mut Vec<u8>, r: &RecTy) {
        if r.len() == 1 && !self.long() {
            return self.sub(o, &r[0]);
        }
        self.byte(o, "rectype", 0x4E);
        self.list(o, "rec.count", r, |e, o, x| e.sub(o, x));
    }
    fn limits(&mut self, o: &mut Vec<u8>, l: &Limits) {
        self.byte(o, "limits.flag", (l.max.is_some() as u8) | if l.a64 { 4 } else { 0 });
        self.u(o, 64, "limits.min", l.min);
        if let Some(m) = l.max {
            self.u(o, 64, "limits.max", m);
        }
    }
    fn tablety(&mut self, o: &mut Vec<u8>, t: &TableTy) {
        self.refty(o, t.rt);
        self.limits(o, &t.lim);
    }
    fn globalty(&mut self, o: &mut Vec<u8>, g: &GlobalTy) {
        self.valty(o, &g.vt);
        self.mutab(o, g.var);
    }
    fn tag(&mut self, o: &mut Vec<u8>, x: u32) {
        self.byte(o, "tag.attr", 0);
        self.u32(o, "tag.type", x);
    }
    fn blockty(&mut self, o: &mut Vec<u8>, b: &BlockTy) {
        match b {
            BlockTy::Empty => self.byte(o, "blocktype", 0x40),
            BlockTy::Val(v) => self.valty(o, v),
            BlockTy::Idx(x) => self.s(o, 33, "blocktype.index", *x as i64),
        }
    }
    fn imms(&mut self, o: &mut Vec<u8>, k: K, imm: &[Imm]) {
        if k == K::BrCast {
            if let [Imm::U(l), Imm::Ref(a), Imm::Ref(b)] = imm {
                self.byte(o, "castop", a.null as u8 | (b.null as u8) << 1);
                self.u32(o, "label", *l);
                self.heap(o, a.heap);
                self.heap(o, b.heap);
                return;
            }
            panic!("br_on_cast immediates");
        }
        for (n, i) in imm.iter().enumerate() {
            match i {
                Imm::U(x) => {
                    let role = match (k, n) {
                        (K::Label, _) | (K::BrTable, _) => "label",
                        (K::Func, _) => "funcidx",
                        (K::Tag, _) => "tagidx",
                        (K::Local, _) => "localidx",
                        (K::Global, _) => "globalidx",
                        (K::Table, _) | (K::TableTable, _) | (K::TypeTable, 1) | (K::ElemTable, 1) => "tableidx",
                        (K::Mem, _) | (K::MemMem, _) | (K::DataMem, 1) => "memidx",
                        (K::Elem, _) | (K::ElemTable, 0) | (K::TypeElem, 1) => "elemidx",
                        (K::Data, _) | (K::DataMem, 0) | (K::TypeData, 1) => "dataidx",
                        (K::TypeField, 1) => "fieldidx",
                        (K::TypeLen, 1) => "array.len",
                        _ => "typeidx",
                    };
                    self.u32(o, role, *x)
                }
                Imm::I32(x) => self.s(o, 32, "i32", *x as i64),
                Imm::I64(x) => self.s(o, 64, "i64", *x),
                Imm::F32(x) => self.raw(o, "f32", &x.to_le_bytes()),
                Imm::F64(x) => self.raw(o, "f64", &x.to_le_bytes()),
                Imm::Bytes16(x) => self.raw(o, "bytes16", x),
                Imm::Lane(x) => self.byte(o, "lane", *x),
                Imm::Memarg { align, mem, off } => {
                    let explicit = *mem != 0 || self.long();
                    self.u32(o, "memarg.flags", align | if explicit { 64 } else { 0 });
                    if explicit {
                        self.u32(o, "memarg.mem", *mem);
                    }
                    self.u(o, 64, "memarg.offset", *off);
                }
                Imm::Heap(h) => self.heap(o, *h),
                Imm::Ref(_) => unreachable!(),
                Imm::Labels(l) => self.list(o, "labels.count", l, |e, o, x| e.u32(o, "label", *x)),
                Imm::Types(t) => self.list(o, "select.count", t, |e, o, x| e.valty(o, x)),
                Imm::Bt(b) => self.blockty(o, b),
                Imm::Catches(c) => self.list(o, "catch.count", c, |e, o, x| {
                    e.byte(o, "catch.kind", x.kind);
                    if let Some(t) = x.tag {
                        e.u32(o, "tagidx", t);
                    }
                    e.u32(o, "label", x.label);
                }),
            }
        }
    }
    fn ins(&mut self, o: &mut Vec<u8>, i: &Ins) {
        if i.op >> 16 == 0 {
            self.byte(o, "opcode", i.op as u8);
        } else {
            self.byte(o, "opcode", (i.op >> 16) as u8);
            self.u32(o, "subopcode", i.op & 0xFFFF);
        }
        self.imms(o, spec::find(i.op).k, &i.imm);
        for (n, b) in i.body.iter().enumerate() {
            if n > 0 {
                self.byte(o, "else", 0x05);
            }
            self.seq(o, b);
        }
        if !i.body.is_empty() {
            self.byte(o, "end", 0x0B);
        }
    }
    fn seq(&mut self, o: &mut Vec<u8>, x: &Expr) {
        for i in x {
            self.ins(o, i);
        }
    }
    pub fn expr(&mut self, o: &mut Vec<u8>, x: &Expr) {
        self.seq(o, x);
        self.byte(o, "end", 0x0B);
    }
    fn elem(&mut self, o: &mut Vec<u8>, x: &Elem) {
        let funcs: Option<Vec<u32>> = x
            .init
            .iter()
            .map(|e| match &e[..] {
                [Ins { op: 0xD2, imm, .. }] => match imm[..] {
                    [Imm::U(y)] if *e == vec![ref_func(y)] => Some(y),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        let fr = |null| RefTy { null, heap: Heap::Abs(0x70) };
        let mut flags = vec![];
        let f = funcs.is_some();
        match &x.mode {
            ElemMode::Active(t, _) => {
                if *t == 0 && f && x.rt == fr(false) {
                    flags.push(0);
                }
                if f && x.rt == fr(true) {
                    flags.push(2);
                }
                if *t == 0 && x.rt == fr(true) {
                    flags.push(4);
                }
                flags.push(6);
            }
            ElemMode::Passive => {
                if f && x.rt == fr(true) {
                    flags.push(1);
                }
                flags.push(5);
            }
            ElemMode::Declare => {
                if f && x.rt == fr(true) {
                    flags.push(3);
                }
                flags.push(7);
            }
        }
        let flag = *self.r.pick(&flags);
        self.u32(o, "elem.flag", flag);
        if let ElemMode::Active(t, off) = &x.mode {
            if flag & 2 != 0 {
                self.u32(o, "elem.table", *t);
            }
            self.expr(o, off);
        }
        if flag & 3 != 0 {
            if flag & 4 != 0 {
                self.refty(o, x.rt);
            } else {
                self.byte(o, "elem.kind", 0);
            }
        }
        if flag & 4 != 0 {
            self.list(o, "elem.count", &x.init, |e, o, x| e.expr(o, x));
        } else {
            self.list(o, "elem.count", &funcs.unwrap(), |e, o, x| e.u32(o, "elem.func", *x));
        }
    }
    fn code(&mut self, o: &mut Vec<u8>, c: &Code) {
        self.sized(o, "body.size", |e, o| {
            let mut groups: Vec<(u32, ValTy)> = vec![];
            for &(n, t) in &c.locals {
                let mut n = n;
                while n > 0 {
                    let take = if e.long() { e.r.range(1, n) } else { n };
                    groups.push((take as u32, t));
                    n -= take;
                    if e.long() {
                        let t = crate::gen_::valty(&mut e.r);
                        groups.push((0, t));
                    }
                }
            }
            e.list(o, "locals.groups", &groups, |e, o, g| {
                e.u32(o, "locals.count", g.0);
                e.valty(o, &g.1);
            });
            e.expr(o, &c.body);
        });
    }
    fn section(&mut self, o: &mut Vec<u8>, p: &Plan, k: u8, custom: &mut usize) {
        let m = &p.m;
        self.byte(o, "section.id", k);
        let n = self.sized(o, "section.size", |e, o| match k {
            CUSTOM => {
                let c = &m.customs[*custom];
                *custom += 1;
                e.name(o, "custom.name", &c.name);
                e.raw(o, "custom.contents", &c.contents);
            }
            TYPE => e.list(o, "types.count", &m.types, |e, o, x| e.rec(o, x)),
            IMPORT => e.list(o, "imports.count", &m.imports, |e, o, x| {
                e.name(o, "import.module", &x.module);
                e.name(o, "import.item", &x.item);
                match &x.ty {
                    Ext::Func(i) => {
                        e.byte(o, "import.kind", 0);
                        e.u32(o, "import.func", *i);
                    }
                    Ext::Table(t) => {
                        e.byte(o, "import.kind", 1);
                        e.tablety(o, t);
                    }
                    Ext::Mem(l) => {
                        e.byte(o, "import.kind", 2);
                        e.limits(o, l);
                    }
                    Ext::Global(g) => {
                        e.byte(o, "import.kind", 3);
                        e.globalty(o, g);
                    }
                    Ext::Tag(t) => {
                        e.byte(o, "import.kind", 4);
                        e.tag(o, *t);
                    }
                }
            }),
            FUNCTION => e.list(o, "funcs.count", &m.func_types, |e, o, x| e.u32(o, "func.type", *x)),
            TABLE => e.list(o, "tables.count", &m.tables, |e, o, x| {
                if x.init == vec![ref_null(x.ty.rt.heap)] && !e.long() {
                    e.tablety(o, &x.ty);
                } else {
                    e.byte(o, "table.form", 0x40);
                    e.byte(o, "table.zero", 0x00);
                    e.tablety(o, &x.ty);
                    e.expr(o, &x.init);
                }
            }),
            MEMORY => e.list(o, "mems.count", &m.mems, |e, o, x| e.limits(o, x)),
            TAG => e.list(o, "tags.count", &m.tags, |e, o, x| e.tag(o, *x)),
            GLOBAL => e.list(o, "globals.count", &m.globals, |e, o, x| {
                e.globalty(o, &x.ty);
                e.expr(o, &x.init);
            }),
            EXPORT => e.list(o, "exports.count", &m.exports, |e, o, x| {
                e.name(o, "export.name", &x.name);
                e.byte(o, "export.kind", x.kind);
                e.u32(o, "export.index", x.idx);
            }),
            START => e.u32(o, "start", m.start.unwrap()),
            ELEMENT => e.list(o, "elems.count", &m.elems, |e, o, x| e.elem(o, x)),
            DATACOUNT => e.u32(o, "datacount", m.data_count.unwrap()),
            CODE => e.list(o, "codes.count", &m.codes, |e, o, x| e.code(o, x)),
            DATA => e.list(o, "datas.count", &m.datas, |e, o, x| {
                match &x.mode {
                    None => e.u32(o, "data.flag", 1),
                    Some((mem, off)) => {
                        if *mem != 0 || e.long() {
                            e.u32(o, "data.flag", 2);
                            e.u32(o, "data.mem", *mem);
                        } else {
                            e.u32(o, "data.flag", 0);
                        }
                        e.expr(o, off);
                    }
                }
                e.u32(o, "data.len", x.init.len() as u32);
                e.raw(o, "data.bytes", &x.init);
            }),
            _ => unreachable!(),
        });
        self.headers.push((k, n));
    }
}
