//! The monitor's own abstract syntax of a WebAssembly module, independent of
//! wadec's types. Floats are bit patterns, locals are run-length groups.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Heap {
    /// Abstract heap type, by its marker byte.
    Abs(u8),
    Idx(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RefTy {
    pub null: bool,
    pub heap: Heap,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ValTy {
    /// Number or vector type, by its marker byte.
    Num(u8),
    Ref(RefTy),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Storage {
    Pack(u8),
    Val(ValTy),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct FieldTy {
    pub var: bool,
    pub st: Storage,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Comp {
    Func(Vec<ValTy>, Vec<ValTy>),
    Struct(Vec<FieldTy>),
    Array(FieldTy),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SubTy {
    pub is_final: bool,
    pub supers: Vec<u32>,
    pub comp: Comp,
}
pub type RecTy = Vec<SubTy>;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Limits {
    pub a64: bool,
    pub min: u64,
    pub max: Option<u64>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct TableTy {
    pub rt: RefTy,
    pub lim: Limits,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct GlobalTy {
    pub var: bool,
    pub vt: ValTy,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ext {
    Func(u32),
    Table(TableTy),
    Mem(Limits),
    Global(GlobalTy),
    Tag(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BlockTy {
    Empty,
    Val(ValTy),
    Idx(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Catch {
    pub kind: u8,
    pub tag: Option<u32>,
    pub label: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Imm {
    U(u32),
    I32(i32),
    I64(i64),
    F32(u32),
    F64(u64),
    Bytes16([u8; 16]),
    Lane(u8),
    Memarg { align: u32, mem: u32, off: u64 },
    Heap(Heap),
    Ref(RefTy),
    Labels(Vec<u32>),
    Types(Vec<ValTy>),
    Bt(BlockTy),
    Catches(Vec<Catch>),
}
/// An instruction: opcode (byte, or prefix << 16 | sub), immediates in encoding
/// order, nested sequences (one; two for an if with an else branch).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ins {
    pub op: u32,
    pub imm: Vec<Imm>,
    pub body: Vec<Expr>,
}
pub type Expr = Vec<Ins>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Import {
    pub module: String,
    pub item: String,
    pub ty: Ext,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Export {
    pub name: String,
    pub kind: u8,
    pub idx: u32,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Table {
    pub ty: TableTy,
    pub init: Expr,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Global {
    pub ty: GlobalTy,
    pub init: Expr,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ElemMode {
    Passive,
    Declare,
    Active(u32, Expr),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Elem {
    pub rt: RefTy,
    pub init: Vec<Expr>,
    pub mode: ElemMode,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Data {
    pub init: Vec<u8>,
    pub mode: Option<(u32, Expr)>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Custom {
    pub name: String,
    pub contents: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Code {
    /// Run-length groups, adjacent groups of one type merged, no empty ones.
    pub locals: Vec<(u64, ValTy)>,
    pub body: Expr,
}

pub const CUSTOM: u8 = 0;
pub const TYPE: u8 = 1;
pub const IMPORT: u8 = 2;
pub const FUNCTION: u8 = 3;
pub const TABLE: u8 = 4;
pub const MEMORY: u8 = 5;
pub const GLOBAL: u8 = 6;
pub const EXPORT: u8 = 7;
pub const START: u8 = 8;
pub const ELEMENT: u8 = 9;
pub const CODE: u8 = 10;
pub const DATA: u8 = 11;
pub const DATACOUNT: u8 = 12;
pub const TAG: u8 = 13;
/// Non-custom sections in their prescribed order.
pub const ORDER: [u8; 13] =
    [TYPE, IMPORT, FUNCTION, TABLE, MEMORY, TAG, GLOBAL, EXPORT, START, ELEMENT, DATACOUNT, CODE, DATA];
pub fn rank(kind: u8) -> usize {
    ORDER.iter().position(|k| *k == kind).unwrap()
}
pub fn section_name(kind: u8) -> &'static str {
    ["Custom", "Type", "Import", "Function", "Table", "Memory", "Global", "Export", "Start", "Element", "Code", "Data", "DataCount", "Tag"]
        [kind as usize]
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Module {
    /// (section id, declared size), every section in input order.
    pub headers: Vec<(u8, u32)>,
    pub customs: Vec<Custom>,
    pub types: Vec<RecTy>,
    pub imports: Vec<Import>,
    pub func_types: Vec<u32>,
    pub codes: Vec<Code>,
    pub tables: Vec<Table>,
    pub mems: Vec<Limits>,
    pub tags: Vec<u32>,
    pub globals: Vec<Global>,
    pub exports: Vec<Export>,
    pub start: Option<u32>,
    pub elems: Vec<Elem>,
    pub data_count: Option<u32>,
    pub datas: Vec<Data>,
}

impl Module {
    pub fn names(&mut self) -> impl Iterator<Item = &mut String> {
        (self.imports.iter_mut().flat_map(|i| [&mut i.module, &mut i.item]))
            .chain(self.exports.iter_mut().map(|e| &mut e.name))
            .chain(self.customs.iter_mut().map(|c| &mut c.name))
    }
}

pub fn merge_locals(groups: impl IntoIterator<Item = (u64, ValTy)>) -> Vec<(u64, ValTy)> {
    let mut out: Vec<(u64, ValTy)> = vec![];
    for (n, t) in groups {
        if n == 0 {
            continue;
        }
        match out.last_mut() {
            Some((m, u)) if *u == t => *m += n,
            _ => out.push((n, t)),
        }
    }
    out
}

/// Names of module components, as used to say where two modules differ.
pub const COMPONENTS: [&str; 15] = [
    "headers", "customs", "types", "imports", "func_types", "locals", "bodies", "tables", "mems", "tags", "globals", "exports", "start",
    "elems", "datas",
];

fn first_diff<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> String {
    if let Some(i) = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]) {
        return format!(
            "item {i}: expected {} got {}",
            crate::util::clip(&format!("{:?}", a[i]), 300),
            crate::util::clip(&format!("{:?}", b[i]), 300)
        );
    }
    format!("expected {} items, got {}", a.len(), b.len())
}

/// Every component in which `got` differs from `want`, with a description.
pub fn diff(want: &Module, got: &Module) -> Vec<(&'static str, String)> {
    let mut d = vec![];
    macro_rules! list {
        ($name:literal, $f:ident) => {
            if want.$f != got.$f {
                d.push(($name, first_diff(&want.$f, &got.$f)));
            }
        };
    }
    list!("headers", headers);
    list!("customs", customs);
    list!("types", types);
    list!("imports", imports);
    list!("func_types", func_types);
    list!("tables", tables);
    list!("mems", mems);
    list!("tags", tags);
    list!("globals", globals);
    list!("exports", exports);
    list!("elems", elems);
    list!("datas", datas);
    if want.start != got.start {
        d.push(("start", format!("expected {:?} got {:?}", want.start, got.start)));
    }
    if want.data_count != got.data_count {
        d.push(("data_count", format!("expected {:?} got {:?}", want.data_count, got.data_count)));
    }
    if want.codes != got.codes {
        if want.codes.len() != got.codes.len() {
            d.push(("bodies", first_diff(&want.codes, &got.codes)));
        } else {
            for (i, (w, g)) in want.codes.iter().zip(&got.codes).enumerate() {
                if w.locals != g.locals {
                    d.push(("locals", format!("function {i}: {}", first_diff(&w.locals, &g.locals))));
                    break;
                }
            }
            for (i, (w, g)) in want.codes.iter().zip(&got.codes).enumerate() {
                if w.body != g.body {
                    d.push(("bodies", format!("function {i}: {}", first_diff(&w.body, &g.body))));
                    break;
                }
            }
        }
    }
    d
}
