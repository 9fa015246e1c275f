//! Reference decoder: the binary grammar of WebAssembly 3.0, applied to a byte
//! slice strictly from left to right. Yields the model of the module or the
//! first fault. Shares no code with wadec.
use crate::model::*;
use crate::spec::{self, K};

#[derive(Clone, Debug, PartialEq)]
pub enum Cause {
    /// Bytes are missing (end of section, body or input).
    Eof,
    /// A single marker, flag or opcode byte that is not allowed.
    BadByte(u8),
    /// A LEB-encoded flag, bit field or sub-opcode that is not allowed.
    BadValue(u32),
    /// A negative type index; its first byte.
    NegIndex(i64, u8),
    /// An integer encoding that is too long or does not fit.
    /// Too many bytes, or bits that do not belong to the number.
    Int { bits: u32, signed: bool, long: bool, large: bool },
    Utf8,
    Else,
    Preamble([u8; 8]),
    OutOfOrder { current: u8, previous: u8 },
    Duplicate(u8),
    SectionSize { kind: u8, declared: u32, got: u64 },
    BodySize { declared: u32, got: u64 },
    TooManyLocals(u64),
    FuncCode { funcs: u64, codes: u64 },
    DataCount { declared: u32, got: u64 },
    DataIndexWithoutCount,
}
impl Cause {
    pub fn tag(&self) -> &'static str {
        match self {
            Cause::Eof => "eof",
            Cause::BadByte(_) => "bad-byte",
            Cause::BadValue(_) => "bad-value",
            Cause::NegIndex(..) => "negative-index",
            Cause::Int { .. } => "ill-formed-integer",
            Cause::Utf8 => "utf8",
            Cause::Else => "unexpected-else",
            Cause::Preamble(_) => "preamble",
            Cause::OutOfOrder { .. } => "out-of-order",
            Cause::Duplicate(_) => "duplicate",
            Cause::SectionSize { .. } => "section-size",
            Cause::BodySize { .. } => "body-size",
            Cause::TooManyLocals(_) => "too-many-locals",
            Cause::FuncCode { .. } => "func-code",
            Cause::DataCount { .. } => "data-count",
            Cause::DataIndexWithoutCount => "data-index-without-count",
        }
    }
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// Where the offending item starts.
    pub off: usize,
    /// The section whose content is at fault.
    pub sec: Option<u8>,
    /// A decoder that stops here has consumed at most this many bytes.
    pub bound: usize,
    /// Positions in the enclosing lists, outermost first.
    pub path: Vec<u32>,
    pub cause: Cause,
    /// What was being read.
    pub role: &'static str,
    /// The instruction whose immediates were being read.
    pub op: Option<u32>,
    /// Which expression the fault is in: "body", "offset", "init" or none.
    pub place: &'static str,
    /// Another order of checking the same bytes could name another cause.
    pub ambiguous: bool,
}

pub type R<T> = Result<T, Box<Fault>>;

#[derive(Clone, Debug, Default)]
pub struct Info {
    pub depth: usize,
    pub instructions: u64,
    pub data_index: bool,
    /// Largest sum of declared locals met, also if the module is rejected.
    pub locals_total: u64,
    /// Sum of declared locals over all functions met.
    pub locals_all: u64,
    /// End offset of each section completed.
    pub section_ends: Vec<usize>,
}

pub struct Dec<'a> {
    b: &'a [u8],
    pos: usize,
    /// Declared end of the current section or body; may exceed the input.
    end: u64,
    path: Vec<u32>,
    sec: Option<u8>,
    pub info: Info,
    pending: bool,
    op: Option<u32>,
    place: &'static str,
}

pub fn decode(b: &[u8]) -> (R<Module>, Info) {
    let mut d = Dec { b, pos: 0, end: u64::MAX, path: vec![], sec: None, info: Info::default(), pending: false, op: None, place: "" };
    let mut r = d.module();
    if let Err(f) = &mut r
        && d.pending
    {
        // A module-wide defect was already certain when the fault was met.
        f.ambiguous |= !matches!(f.cause, Cause::DataIndexWithoutCount | Cause::FuncCode { .. });
    }
    (r, d.info)
}

impl<'a> Dec<'a> {
    fn fault_at<T>(&self, off: usize, role: &'static str, cause: Cause) -> R<T> {
        let bound = if self.sec.is_some() { (self.end.min(self.b.len() as u64)) as usize } else { self.pos };
        Err(Box::new(Fault { off, sec: self.sec, bound, path: self.path.clone(), cause, role, op: self.op, place: self.place, ambiguous: false }))
    }
    fn avail(&self) -> usize {
        (self.end.min(self.b.len() as u64) as usize).saturating_sub(self.pos)
    }
    fn byte(&mut self, role: &'static str) -> R<u8> {
        if self.avail() == 0 {
            return self.fault_at(self.pos, role, Cause::Eof);
        }
        let x = self.b[self.pos];
        self.pos += 1;
        Ok(x)
    }
    fn peek(&self) -> Option<u8> {
        if self.avail() == 0 { None } else { Some(self.b[self.pos]) }
    }
    fn take(&mut self, n: usize, role: &'static str) -> R<&'a [u8]> {
        if self.avail() < n {
            return self.fault_at(self.pos, role, Cause::Eof);
        }
        let s = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    /// uN / sN: at most ceil(bits/7) bytes; value in range. 128-bit arithmetic.
    fn leb(&mut self, bits: u32, signed: bool, role: &'static str) -> R<i128> {
        let start = self.pos;
        let max = bits.div_ceil(7);
        let mut v: i128 = 0;
        for i in 0..max {
            let b = self.byte(role)?;
            v |= ((b & 0x7F) as i128) << (7 * i);
            if b & 0x80 == 0 {
                if signed && b & 0x40 != 0 {
                    v -= 1i128 << (7 * (i + 1));
                }
                let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) };
                if v < lo || v > hi {
                    return self.fault_at(start, role, Cause::Int { bits, signed, long: false, large: true });
                }
                return Ok(v);
            }
        }
        let top = (self.b[self.pos - 1] & 0x7F) as i128;
        let left = bits - 7 * (max - 1);
        let large = if signed { !(top >> (left - 1) == 0 || top >> (left - 1) == 0x7F >> (left - 1)) } else { top >> left != 0 };
        self.fault_at(start, role, Cause::Int { bits, signed, long: true, large })
    }
    fn u32(&mut self, role: &'static str) -> R<u32> {
        Ok(self.leb(32, false, role)? as u32)
    }
    fn u64(&mut self, role: &'static str) -> R<u64> {
        Ok(self.leb(64, false, role)? as u64)
    }
    fn list<T>(&mut self, role: &'static str, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        let n = self.u32(role)?;
        let mut v = Vec::new();
        for i in 0..n {
            self.path.push(i);
            v.push(f(self)?);
            self.path.pop();
        }
        Ok(v)
    }
    fn bytevec(&mut self, role: &'static str) -> R<&'a [u8]> {
        let n = self.u32(role)?;
        self.take(n as usize, role)
    }
    fn name(&mut self, role: &'static str) -> R<String> {
        let start = self.pos;
        let b = self.bytevec(role)?;
        if !utf8_ok(b) {
            return self.fault_at(start, role, Cause::Utf8);
        }
        Ok(String::from_utf8(b.to_vec()).expect("utf8_ok"))
    }

    // ---- types ----
    fn heap(&mut self, role: &'static str) -> R<Heap> {
        let start = self.pos;
        if let Some(b @ 0x69..=0x74) = self.peek() {
            self.pos += 1;
            return Ok(Heap::Abs(b));
        }
        let first = self.peek();
        let x = self.leb(33, true, role)? as i64;
        if x < 0 {
            return self.fault_at(start, role, Cause::NegIndex(x, first.unwrap()));
        }
        Ok(Heap::Idx(x as u32))
    }
    fn reftype(&mut self, role: &'static str) -> R<RefTy> {
        let start = self.pos;
        match self.byte(role)? {
            0x63 => Ok(RefTy { null: true, heap: self.heap(role)? }),
            0x64 => Ok(RefTy { null: false, heap: self.heap(role)? }),
            b @ 0x69..=0x74 => Ok(RefTy { null: true, heap: Heap::Abs(b) }),
            b => self.fault_at(start, role, Cause::BadByte(b)),
        }
    }
    fn valtype(&mut self, role: &'static str) -> R<ValTy> {
        match self.peek() {
            Some(b @ 0x7B..=0x7F) => {
                self.pos += 1;
                Ok(ValTy::Num(b))
            }
            _ => Ok(ValTy::Ref(self.reftype(role)?)),
        }
    }
    fn mutability(&mut self, role: &'static str) -> R<bool> {
        let start = self.pos;
        match self.byte(role)? {
            0 => Ok(false),
            1 => Ok(true),
            b => self.fault_at(start, role, Cause::BadByte(b)),
        }
    }
    fn field(&mut self) -> R<FieldTy> {
        let st = match self.peek() {
            Some(b @ 0x77..=0x78) => {
                self.pos += 1;
                Storage::Pack(b)
            }
            _ => Storage::Val(self.valtype("field.type")?),
        };
        Ok(FieldTy { var: self.mutability("field.mut")?, st })
    }
    fn comptype(&mut self) -> R<Comp> {
        let start = self.pos;
        Ok(match self.byte("comptype")? {
            0x5E => Comp::Array(self.field()?),
            0x5F => Comp::Struct(self.list("struct.fields", |d| d.field())?),
            0x60 => {
                let p = self.list("func.params", |d| d.valtype("func.param"))?;
                let r = self.list("func.results", |d| d.valtype("func.result"))?;
                Comp::Func(p, r)
            }
            b => return self.fault_at(start, "comptype", Cause::BadByte(b)),
        })
    }
    fn subtype(&mut self) -> R<SubTy> {
        match self.peek() {
            Some(b @ 0x4F..=0x50) => {
                self.pos += 1;
                let supers = self.list("sub.supers", |d| d.u32("sub.super"))?;
                Ok(SubTy { is_final: b == 0x4F, supers, comp: self.comptype()? })
            }
            _ => Ok(SubTy { is_final: true, supers: vec![], comp: self.comptype()? }),
        }
    }
    fn rectype(&mut self) -> R<RecTy> {
        if self.peek() == Some(0x4E) {
            self.pos += 1;
            return self.list("rec.subtypes", |d| d.subtype());
        }
        Ok(vec![self.subtype()?])
    }
    fn limits(&mut self) -> R<Limits> {
        let start = self.pos;
        let f = self.byte("limits.flag")?;
        if !matches!(f, 0 | 1 | 4 | 5) {
            return self.fault_at(start, "limits.flag", Cause::BadByte(f));
        }
        let min = self.u64("limits.min")?;
        let max = if f & 1 != 0 { Some(self.u64("limits.max")?) } else { None };
        Ok(Limits { a64: f & 4 != 0, min, max })
    }
    fn tabletype(&mut self) -> R<TableTy> {
        let rt = self.reftype("table.reftype")?;
        Ok(TableTy { rt, lim: self.limits()? })
    }
    fn globaltype(&mut self) -> R<GlobalTy> {
        let vt = self.valtype("global.type")?;
        Ok(GlobalTy { var: self.mutability("global.mut")?, vt })
    }
    fn tagtype(&mut self) -> R<u32> {
        let start = self.pos;
        match self.byte("tag.attr")? {
            0 => self.u32("tag.type"),
            b => self.fault_at(start, "tag.attr", Cause::BadByte(b)),
        }
    }
    fn externtype(&mut self) -> R<Ext> {
        let start = self.pos;
        Ok(match self.byte("import.kind")? {
            0 => Ext::Func(self.u32("import.func")?),
            1 => Ext::Table(self.tabletype()?),
            2 => Ext::Mem(self.limits()?),
            3 => Ext::Global(self.globaltype()?),
            4 => Ext::Tag(self.tagtype()?),
            b => return self.fault_at(start, "import.kind", Cause::BadByte(b)),
        })
    }

    // ---- instructions ----
    fn blocktype(&mut self) -> R<BlockTy> {
        let start = self.pos;
        match self.peek() {
            Some(0x40) => {
                self.pos += 1;
                Ok(BlockTy::Empty)
            }
            Some(0x7B..=0x7F | 0x63 | 0x64 | 0x69..=0x74) => Ok(BlockTy::Val(self.valtype("blocktype")?)),
            first => {
                let x = self.leb(33, true, "blocktype.index")? as i64;
                if x < 0 {
                    return self.fault_at(start, "blocktype.index", Cause::NegIndex(x, first.unwrap()));
                }
                Ok(BlockTy::Idx(x as u32))
            }
        }
    }
    fn catch(&mut self) -> R<Catch> {
        let start = self.pos;
        Ok(match self.byte("catch.kind")? {
            k @ 0..=1 => {
                let tag = Some(self.u32("catch.tag")?);
                Catch { kind: k, tag, label: self.u32("catch.label")? }
            }
            k @ 2..=3 => Catch { kind: k, tag: None, label: self.u32("catch.label")? },
            b => return self.fault_at(start, "catch.kind", Cause::BadByte(b)),
        })
    }
    fn memarg(&mut self) -> R<Imm> {
        let start = self.pos;
        let n = self.u32("memarg.flags")?;
        if n >= 128 {
            return self.fault_at(start, "memarg.flags", Cause::BadValue(n));
        }
        let mem = if n & 64 != 0 { self.u32("memarg.mem")? } else { 0 };
        let off = self.u64("memarg.offset")?;
        Ok(Imm::Memarg { align: n & 63, mem, off })
    }
    fn imms(&mut self, k: K) -> R<Vec<Imm>> {
        Ok(match k {
            K::None => vec![],
            K::Label => vec![Imm::U(self.u32("label")?)],
            K::Func => vec![Imm::U(self.u32("funcidx")?)],
            K::Type => vec![Imm::U(self.u32("typeidx")?)],
            K::Tag => vec![Imm::U(self.u32("tagidx")?)],
            K::Local => vec![Imm::U(self.u32("localidx")?)],
            K::Global => vec![Imm::U(self.u32("globalidx")?)],
            K::Table => vec![Imm::U(self.u32("tableidx")?)],
            K::Mem => vec![Imm::U(self.u32("memidx")?)],
            K::Elem => vec![Imm::U(self.u32("elemidx")?)],
            K::Data => {
                self.info.data_index = true;
                vec![Imm::U(self.u32("dataidx")?)]
            }
            K::TypeTable => vec![Imm::U(self.u32("typeidx")?), Imm::U(self.u32("tableidx")?)],
            K::TypeField => vec![Imm::U(self.u32("typeidx")?), Imm::U(self.u32("fieldidx")?)],
            K::TypeLen => vec![Imm::U(self.u32("typeidx")?), Imm::U(self.u32("array.len")?)],
            K::TypeData => {
                self.info.data_index = true;
                vec![Imm::U(self.u32("typeidx")?), Imm::U(self.u32("dataidx")?)]
            }
            K::TypeElem => vec![Imm::U(self.u32("typeidx")?), Imm::U(self.u32("elemidx")?)],
            K::TypeType => vec![Imm::U(self.u32("typeidx")?), Imm::U(self.u32("typeidx")?)],
            K::DataMem => {
                self.info.data_index = true;
                vec![Imm::U(self.u32("dataidx")?), Imm::U(self.u32("memidx")?)]
            }
            K::MemMem => vec![Imm::U(self.u32("memidx")?), Imm::U(self.u32("memidx")?)],
            K::ElemTable => vec![Imm::U(self.u32("elemidx")?), Imm::U(self.u32("tableidx")?)],
            K::TableTable => vec![Imm::U(self.u32("tableidx")?), Imm::U(self.u32("tableidx")?)],
            K::Heap => vec![Imm::Heap(self.heap("heaptype")?)],
            K::BrTable => {
                let l = self.list("br_table.labels", |d| d.u32("label"))?;
                vec![Imm::Labels(l), Imm::U(self.u32("label")?)]
            }
            K::SelectT => vec![Imm::Types(self.list("select.types", |d| d.valtype("select.type"))?)],
            K::Memarg => vec![self.memarg()?],
            K::MemargLane => vec![self.memarg()?, Imm::Lane(self.byte("lane")?)],
            K::Lane => vec![Imm::Lane(self.byte("lane")?)],
            K::I32 => vec![Imm::I32(self.leb(32, true, "i32")? as i32)],
            K::I64 => vec![Imm::I64(self.leb(64, true, "i64")? as i64)],
            K::F32 => vec![Imm::F32(u32::from_le_bytes(self.take(4, "f32")?.try_into().unwrap()))],
            K::F64 => vec![Imm::F64(u64::from_le_bytes(self.take(8, "f64")?.try_into().unwrap()))],
            K::V128 => vec![Imm::Bytes16(self.take(16, "v128")?.try_into().unwrap())],
            K::Shuffle => vec![Imm::Bytes16(self.take(16, "shuffle")?.try_into().unwrap())],
            K::BrCast => {
                let start = self.pos;
                let f = self.byte("castop")?;
                if f > 3 {
                    return self.fault_at(start, "castop", Cause::BadByte(f));
                }
                let l = self.u32("label")?;
                let h1 = self.heap("heaptype")?;
                let h2 = self.heap("heaptype")?;
                vec![Imm::U(l), Imm::Ref(RefTy { null: f & 1 != 0, heap: h1 }), Imm::Ref(RefTy { null: f & 2 != 0, heap: h2 })]
            }
            K::Block | K::If => vec![Imm::Bt(self.blocktype()?)],
            K::TryTable => {
                let bt = self.blocktype()?;
                vec![Imm::Bt(bt), Imm::Catches(self.list("catches", |d| d.catch())?)]
            }
        })
    }
    fn expr(&mut self) -> R<Expr> {
        self.op = None;
        struct Frame {
            op: u32,
            imm: Vec<Imm>,
            body: Vec<Expr>,
            cur: Expr,
        }
        let mut stack = vec![Frame { op: 0, imm: vec![], body: vec![], cur: vec![] }];
        loop {
            let start = self.pos;
            let b = self.byte("opcode")?;
            self.info.instructions += 1;
            match b {
                0x0B => {
                    let mut f = stack.pop().unwrap();
                    f.body.push(f.cur);
                    match stack.last_mut() {
                        None => return Ok(f.body.pop().unwrap()),
                        Some(p) => p.cur.push(Ins { op: f.op, imm: f.imm, body: f.body }),
                    }
                }
                0x05 => {
                    let f = stack.last_mut().unwrap();
                    if f.op == 0x04 && f.body.is_empty() {
                        f.body.push(std::mem::take(&mut f.cur));
                    } else {
                        return self.fault_at(start, "opcode", Cause::Else);
                    }
                }
                0xFB..=0xFD => {
                    let at = self.pos;
                    let sub = self.u32("sub-opcode")?;
                    match spec::table().prefixed(b, sub) {
                        None => return self.fault_at(at, "sub-opcode", Cause::BadValue(sub)),
                        Some(o) => {
                            self.op = Some(o.op);
                            let imm = self.imms(o.k)?;
                            self.op = None;
                            stack.last_mut().unwrap().cur.push(Ins { op: o.op, imm, body: vec![] });
                        }
                    }
                }
                _ => match spec::table().plain(b) {
                    None => return self.fault_at(start, "opcode", Cause::BadByte(b)),
                    Some(o) => {
                        self.op = Some(o.op);
                        let imm = self.imms(o.k)?;
                        self.op = None;
                        if matches!(o.k, K::Block | K::If | K::TryTable) {
                            stack.push(Frame { op: o.op, imm, body: vec![], cur: vec![] });
                            self.info.depth = self.info.depth.max(stack.len() - 1);
                        } else {
                            stack.last_mut().unwrap().cur.push(Ins { op: o.op, imm, body: vec![] });
                        }
                    }
                },
            }
        }
    }

    fn expr_in(&mut self, place: &'static str) -> R<Expr> {
        self.place = place;
        let e = self.expr()?;
        self.place = "";
        Ok(e)
    }

    // ---- sections ----
    fn table(&mut self) -> R<Table> {
        if self.peek() == Some(0x40) {
            self.pos += 1;
            let start = self.pos;
            let z = self.byte("table.zero")?;
            if z != 0 {
                return self.fault_at(start, "table.zero", Cause::BadByte(z));
            }
            let ty = self.tabletype()?;
            return Ok(Table { ty, init: self.expr()? });
        }
        let ty = self.tabletype()?;
        Ok(Table { ty, init: vec![ref_null(ty.rt.heap)] })
    }
    fn import(&mut self) -> R<Import> {
        let module = self.name("import.module")?;
        let item = self.name("import.item")?;
        Ok(Import { module, item, ty: self.externtype()? })
    }
    fn export(&mut self) -> R<Export> {
        let name = self.name("export.name")?;
        let start = self.pos;
        let kind = self.byte("export.kind")?;
        let idx = self.u32("export.index");
        if kind > 4 {
            let mut f: R<Export> = self.fault_at(start, "export.kind", Cause::BadByte(kind));
            if let Err(f) = &mut f {
                f.ambiguous = idx.is_err();
            }
            return f;
        }
        Ok(Export { name, kind, idx: idx? })
    }
    fn elemkind(&mut self) -> R<RefTy> {
        let start = self.pos;
        match self.byte("elem.kind")? {
            0 => Ok(RefTy { null: true, heap: Heap::Abs(0x70) }),
            b => self.fault_at(start, "elem.kind", Cause::BadByte(b)),
        }
    }
    fn elem(&mut self) -> R<Elem> {
        let start = self.pos;
        let flag = self.u32("elem.flag")?;
        if flag > 7 {
            return self.fault_at(start, "elem.flag", Cause::BadValue(flag));
        }
        let mode = if flag & 1 != 0 {
            if flag & 2 != 0 { ElemMode::Declare } else { ElemMode::Passive }
        } else {
            let t = if flag & 2 != 0 { self.u32("elem.table")? } else { 0 };
            ElemMode::Active(t, self.expr_in("offset")?)
        };
        let exprs = flag & 4 != 0;
        let rt = if flag & 3 != 0 {
            if exprs { self.reftype("elem.reftype")? } else { self.elemkind()? }
        } else {
            RefTy { null: exprs, heap: Heap::Abs(0x70) }
        };
        let init = if exprs {
            self.list("elem.exprs", |d| d.expr_in("init"))?
        } else {
            self.list("elem.funcs", |d| d.u32("elem.func"))?.into_iter().map(|y| vec![ref_func(y)]).collect()
        };
        Ok(Elem { rt, init, mode })
    }
    fn data(&mut self) -> R<Data> {
        let start = self.pos;
        let mode = match self.u32("data.flag")? {
            0 => Some((0, self.expr_in("offset")?)),
            1 => None,
            2 => {
                let m = self.u32("data.mem")?;
                Some((m, self.expr_in("offset")?))
            }
            n => return self.fault_at(start, "data.flag", Cause::BadValue(n)),
        };
        Ok(Data { init: self.bytevec("data.bytes")?.to_vec(), mode })
    }
    fn code(&mut self) -> R<(Code, bool)> {
        let size = self.u32("body.size")?;
        let start = self.pos;
        let outer = self.end;
        self.end = outer.min(start as u64 + size as u64);
        let mut total: u64 = 0;
        let groups = self.list("locals", |d| {
            let at = d.pos;
            let n = d.u32("locals.count")?;
            total += n as u64;
            d.info.locals_total = d.info.locals_total.max(total);
            d.info.locals_all += n as u64;
            if total > u32::MAX as u64 {
                return d.fault_at(at, "locals.count", Cause::TooManyLocals(total));
            }
            Ok((n as u64, d.valtype("locals.type")?))
        })?;
        self.info.data_index = false;
        let body = self.expr_in("body")?;
        let used = self.info.data_index;
        let got = (self.pos - start) as u64;
        if got != size as u64 {
            // Bytes are left before the body's declared end.
            return self.fault_at(self.pos, "body.size", Cause::BodySize { declared: size, got });
        }
        self.end = outer;
        Ok((Code { locals: merge_locals(groups), body }, used))
    }

    fn module(&mut self) -> R<Module> {
        let pre = self.take(8.min(self.b.len()), "preamble")?;
        if pre.len() < 8 {
            let mut f = self.fault_at(pre.len(), "preamble", Cause::Eof);
            if let Err(f) = &mut f {
                f.ambiguous = !b"\0asm\x01\0\0\0".starts_with(pre);
            }
            return f;
        }
        if pre != b"\0asm\x01\0\0\0" {
            return self.fault_at(0, "preamble", Cause::Preamble(pre.try_into().unwrap()));
        }
        let mut m = Module::default();
        let mut last: Option<u8> = None;
        let mut code_at = None;
        let mut uses_data = false;
        while self.pos < self.b.len() {
            let at = self.pos;
            let id = self.byte("section.id")?;
            if id > 13 {
                let mut f = self.fault_at(at, "section.id", Cause::BadByte(id));
                if let Err(f) = &mut f {
                    f.bound = (at + 6).min(self.b.len());
                }
                return f;
            }
            let size = self.u32("section.size")?;
            let start = self.pos;
            self.end = start as u64 + size as u64;
            let vend = self.end.min(self.b.len() as u64) as usize;
            if id != CUSTOM
                && let Some(p) = last
            {
                let c = if rank(id) < rank(p) {
                    Some(Cause::OutOfOrder { current: id, previous: p })
                } else if id == p {
                    Some(Cause::Duplicate(id))
                } else {
                    None
                };
                if let Some(c) = c {
                    let mut f = self.fault_at(at, "section.order", c);
                    if let Err(f) = &mut f {
                        f.bound = vend;
                    }
                    return f;
                }
            }
            self.sec = Some(id);
            match id {
                CUSTOM => {
                    let name = self.name("custom.name")?;
                    let n = self.avail();
                    m.customs.push(Custom { name, contents: self.take(n, "custom.contents")?.to_vec() });
                }
                TYPE => m.types = self.list("types", |d| d.rectype())?,
                IMPORT => m.imports = self.list("imports", |d| d.import())?,
                FUNCTION => m.func_types = self.list("funcs", |d| d.u32("func.type"))?,
                TABLE => m.tables = self.list("tables", |d| d.table())?,
                MEMORY => m.mems = self.list("mems", |d| d.limits())?,
                TAG => m.tags = self.list("tags", |d| d.tagtype())?,
                GLOBAL => {
                    m.globals = self.list("globals", |d| {
                        let ty = d.globaltype()?;
                        Ok(Global { ty, init: d.expr_in("init")? })
                    })?
                }
                EXPORT => m.exports = self.list("exports", |d| d.export())?,
                START => m.start = Some(self.u32("start")?),
                ELEMENT => m.elems = self.list("elems", |d| d.elem())?,
                DATACOUNT => m.data_count = Some(self.u32("datacount")?),
                CODE => {
                    code_at = Some(at);
                    let l = self.list("codes", |d| d.code())?;
                    uses_data = l.iter().any(|c| c.1);
                    m.codes = l.into_iter().map(|c| c.0).collect();
                }
                DATA => m.datas = self.list("datas", |d| d.data())?,
                _ => unreachable!(),
            }
            let counts = self.counts(&m, id, code_at);
            if (self.pos - start) as u64 != size as u64 {
                self.sec = None;
                let mut f = self.fault_at(
                    self.pos,
                    "section.size",
                    Cause::SectionSize { kind: id, declared: size, got: (self.pos - start) as u64 },
                );
                if let Err(f) = &mut f {
                    f.bound = vend;
                    f.ambiguous = counts.is_err();
                }
                return f;
            }
            self.sec = None;
            self.end = u64::MAX;
            counts?;
            self.info.section_ends.push(self.pos);
            m.headers.push((id, size));
            if id != CUSTOM {
                last = Some(id);
            }
            self.pending = uses_data && m.data_count.is_none()
                || !m.func_types.is_empty() && code_at.is_none() && last.is_some_and(|k| rank(k) > rank(CODE));
        }
        if code_at.is_none() && !m.func_types.is_empty() {
            return self.fault_at(
                self.pos,
                "code.count",
                Cause::FuncCode { funcs: m.func_types.len() as u64, codes: 0 },
            );
        }
        let no_data = !m.headers.iter().any(|h| h.0 == DATA);
        if let Some(n) = m.data_count
            && no_data
            && n != 0
        {
            return self.fault_at(self.pos, "datacount", Cause::DataCount { declared: n, got: 0 });
        }
        if uses_data && m.data_count.is_none() {
            return self.fault_at(self.pos, "dataidx", Cause::DataIndexWithoutCount);
        }
        self.info.data_index = uses_data;
        Ok(m)
    }
    fn counts(&mut self, m: &Module, id: u8, code_at: Option<usize>) -> R<()> {
        let end = self.pos;
        if id == CODE && m.codes.len() != m.func_types.len() {
            let _ = code_at;
            let sec = self.sec.take();
            let f = self.fault_at(
                end,
                "code.count",
                Cause::FuncCode { funcs: m.func_types.len() as u64, codes: m.codes.len() as u64 },
            );
            self.sec = sec;
            return f;
        }
        if id == DATA
            && let Some(n) = m.data_count
            && n as usize != m.datas.len()
        {
            let sec = self.sec.take();
            let f = self.fault_at(end, "datacount", Cause::DataCount { declared: n, got: m.datas.len() as u64 });
            self.sec = sec;
            return f;
        }
        Ok(())
    }
}

pub fn ref_null(h: Heap) -> Ins {
    Ins { op: 0xD0, imm: vec![Imm::Heap(h)], body: vec![] }
}
pub fn ref_func(y: u32) -> Ins {
    Ins { op: 0xD2, imm: vec![Imm::U(y)], body: vec![] }
}

/// Well-formed UTF-8 by the table in the Unicode standard (no std code).
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let cont = |k: usize, lo: u8, hi: u8| b.get(i + k).is_some_and(|x| (lo..=hi).contains(x));
        let n = match b[i] {
            0x00..=0x7F => 1,
            0xC2..=0xDF if cont(1, 0x80, 0xBF) => 2,
            0xE0 if cont(1, 0xA0, 0xBF) && cont(2, 0x80, 0xBF) => 3,
            0xE1..=0xEC | 0xEE..=0xEF if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) => 3,
            0xED if cont(1, 0x80, 0x9F) && cont(2, 0x80, 0xBF) => 3,
            0xF0 if cont(1, 0x90, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            0xF1..=0xF3 if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            0xF4 if cont(1, 0x80, 0x8F) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
            _ => return false,
        };
        i += n;
    }
    true
}
