//! wadec's decoded `Module` -> the monitor's model.
use crate::bridge_ins::simple;
use crate::model as m;
use wadec::core::Instruction as W;
use wadec::core::SectionKind as K;
use wadec::core::instruction as wi;
use wadec::core::types as wt;
use wadec::core::types::comptype as wc;
use wadec::core::types::heaptype::{AbsHeapType as A, HeapType as H};

pub fn heap(h: &H) -> m::Heap {
    match h {
        H::TypeIdx(x) => m::Heap::Idx(*x),
        H::Ht(a) => m::Heap::Abs(match a {
            A::Exn => 0x69,
            A::Array => 0x6A,
            A::Struct => 0x6B,
            A::I31 => 0x6C,
            A::Eq => 0x6D,
            A::Any => 0x6E,
            A::Extern => 0x6F,
            A::Func => 0x70,
            A::None => 0x71,
            A::NoExtern => 0x72,
            A::NoFunc => 0x73,
            A::NoExn => 0x74,
        }),
    }
}
pub fn reftype(r: &wt::RefType) -> m::RefTy {
    m::RefTy { null: r.nullable, heap: heap(&r.ht) }
}
pub fn valtype(v: &wt::ValType) -> m::ValTy {
    match v {
        wt::ValType::Num(n) => m::ValTy::Num(match n {
            wt::NumType::Int32 => 0x7F,
            wt::NumType::Int64 => 0x7E,
            wt::NumType::Float32 => 0x7D,
            wt::NumType::Float64 => 0x7C,
        }),
        wt::ValType::Vec(wt::VecType::V128) => m::ValTy::Num(0x7B),
        wt::ValType::Ref(r) => m::ValTy::Ref(reftype(r)),
    }
}
fn valtypes(v: &[wt::ValType]) -> Vec<m::ValTy> {
    v.iter().map(valtype).collect()
}
pub fn memarg(a: &wi::Memarg) -> m::Imm {
    m::Imm::Memarg { align: a.align, mem: a.mem_idx.0, off: a.offset }
}
fn blocktype(b: &wi::BlockType) -> m::Imm {
    m::Imm::Bt(match b {
        wi::BlockType::Empty => m::BlockTy::Empty,
        wi::BlockType::T(t) => m::BlockTy::Val(valtype(t)),
        wi::BlockType::I(x) => m::BlockTy::Idx(*x),
    })
}
fn catch(c: &wi::Catch) -> m::Catch {
    match c {
        wi::Catch::Catch(x, l) => m::Catch { kind: 0, tag: Some(x.0), label: l.0 },
        wi::Catch::CatchRef(x, l) => m::Catch { kind: 1, tag: Some(x.0), label: l.0 },
        wi::Catch::CatchAll(l) => m::Catch { kind: 2, tag: None, label: l.0 },
        wi::Catch::CatchAllRef(l) => m::Catch { kind: 3, tag: None, label: l.0 },
    }
}

pub fn ins(i: &W) -> m::Ins {
    use crate::spec::FB;
    let (op, imm, body) = match i {
        W::Select(None) => (0x1B, vec![], vec![]),
        W::Select(Some(t)) => (0x1C, vec![m::Imm::Types(valtypes(t))], vec![]),
        W::RefTest(r) => (FB | if r.nullable { 21 } else { 20 }, vec![m::Imm::Heap(heap(&r.ht))], vec![]),
        W::RefCast(r) => (FB | if r.nullable { 23 } else { 22 }, vec![m::Imm::Heap(heap(&r.ht))], vec![]),
        W::Block(b, x) => (0x02, vec![blocktype(b)], vec![expr(x)]),
        W::Loop(b, x) => (0x03, vec![blocktype(b)], vec![expr(x)]),
        W::If(b, x, None) => (0x04, vec![blocktype(b)], vec![expr(x)]),
        W::If(b, x, Some(y)) => (0x04, vec![blocktype(b)], vec![expr(x), expr(y)]),
        W::TryTable(b, c, x) => (0x1F, vec![blocktype(b), m::Imm::Catches(c.iter().map(catch).collect())], vec![expr(x)]),
        other => {
            let (op, imm) = simple(other);
            (op, imm, vec![])
        }
    };
    m::Ins { op, imm, body }
}
pub fn expr(e: &[W]) -> m::Expr {
    e.iter().map(ins).collect()
}

fn mutability(x: &wt::Mut) -> bool {
    match x {
        wt::Mut::Const => false,
        wt::Mut::Var => true,
    }
}
fn field(f: &wc::FieldType) -> m::FieldTy {
    m::FieldTy {
        var: mutability(&f.0),
        st: match &f.1 {
            wc::StorageType::PackType(wc::PackType::I8) => m::Storage::Pack(0x78),
            wc::StorageType::PackType(wc::PackType::I16) => m::Storage::Pack(0x77),
            wc::StorageType::ValType(v) => m::Storage::Val(valtype(v)),
        },
    }
}
fn subtype(s: &wt::SubType) -> m::SubTy {
    m::SubTy {
        is_final: s.is_final,
        supers: s.supertypes.iter().map(|x| x.0).collect(),
        comp: match &s.comptype {
            wc::CompType::Func { parameters, results } => m::Comp::Func(valtypes(parameters), valtypes(results)),
            wc::CompType::Struct(f) => m::Comp::Struct(f.iter().map(field).collect()),
            wc::CompType::Array(f) => m::Comp::Array(field(f)),
        },
    }
}
fn limits(l: &wt::Limits) -> m::Limits {
    m::Limits {
        a64: match l.address_type {
            wt::AddrType::I32 => false,
            wt::AddrType::I64 => true,
        },
        min: l.min,
        max: l.max,
    }
}
fn tabletype(t: &wt::TableType) -> m::TableTy {
    m::TableTy { rt: reftype(&t.reftype), lim: limits(&t.limits) }
}
fn globaltype(g: &wt::GlobalType) -> m::GlobalTy {
    m::GlobalTy { var: mutability(&g.0), vt: valtype(&g.1) }
}
pub fn kind(k: K) -> u8 {
    match k {
        K::Custom => m::CUSTOM,
        K::Type => m::TYPE,
        K::Import => m::IMPORT,
        K::Function => m::FUNCTION,
        K::Table => m::TABLE,
        K::Memory => m::MEMORY,
        K::Tag => m::TAG,
        K::Global => m::GLOBAL,
        K::Export => m::EXPORT,
        K::Start => m::START,
        K::Element => m::ELEMENT,
        K::DataCount => m::DATACOUNT,
        K::Code => m::CODE,
        K::Data => m::DATA,
    }
}

/// Converts a decoded module. The second result describes fields that are
/// inconsistent on their own (version, list of section kinds).
pub fn module(w: &wadec::Module) -> (m::Module, Option<String>) {
    let mut bad = None;
    if w.version != [1, 0, 0, 0] {
        bad = Some(format!("version is {:?}", w.version));
    }
    let kinds: Vec<u8> = w.parsed_section_kinds.iter().map(|k| kind(*k)).collect();
    let headers: Vec<(u8, u32)> = w.section_headers.iter().map(|h| (kind(h.kind), h.size)).collect();
    let from_headers: Vec<u8> = headers.iter().map(|h| h.0).filter(|k| *k != m::CUSTOM).collect();
    if kinds != from_headers {
        bad = Some(format!("parsed_section_kinds {kinds:?} but section headers {from_headers:?}"));
    }
    let out = m::Module {
        headers,
        customs: w.custom_sections.iter().map(|c| m::Custom { name: c.name.clone(), contents: c.contents.clone() }).collect(),
        types: w.types.iter().map(|r| r.0.iter().map(subtype).collect()).collect(),
        imports: w
            .imports
            .iter()
            .map(|i| m::Import {
                module: i.module_name.clone(),
                item: i.item_name.clone(),
                ty: match &i.extern_type {
                    wt::ExternType::Func(x) => m::Ext::Func(x.0),
                    wt::ExternType::Table(t) => m::Ext::Table(tabletype(t)),
                    wt::ExternType::Mem(l) => m::Ext::Mem(limits(&l.limits)),
                    wt::ExternType::Global(g) => m::Ext::Global(globaltype(g)),
                    wt::ExternType::Tag(t) => m::Ext::Tag(t.0.0),
                },
            })
            .collect(),
        func_types: w.funcs.iter().map(|f| f.r#type.0).collect(),
        codes: w
            .funcs
            .iter()
            .map(|f| m::Code { locals: m::merge_locals(f.locals.iter().map(|t| (1, valtype(t)))), body: expr(&f.body) })
            .collect(),
        tables: w.tables.iter().map(|t| m::Table { ty: tabletype(&t.0), init: expr(&t.1) }).collect(),
        mems: w.mems.iter().map(|x| limits(&x.limits)).collect(),
        tags: w.tags.iter().map(|t| t.0.0).collect(),
        globals: w.globals.iter().map(|g| m::Global { ty: globaltype(&g.r#type), init: expr(&g.init) }).collect(),
        exports: w
            .exports
            .iter()
            .map(|e| {
                use wadec::core::ExternIdx as X;
                let (kind, idx) = match &e.externidx {
                    X::Func(x) => (0, x.0),
                    X::Table(x) => (1, x.0),
                    X::Mem(x) => (2, x.0),
                    X::Global(x) => (3, x.0),
                    X::Tag(x) => (4, x.0),
                };
                m::Export { name: e.name.clone(), kind, idx }
            })
            .collect(),
        start: w.start.map(|s| s.0),
        elems: w
            .elems
            .iter()
            .map(|e| m::Elem {
                rt: reftype(&e.r#type),
                init: e.init.iter().map(|x| expr(x)).collect(),
                mode: match &e.mode {
                    wadec::core::ElemMode::Passive => m::ElemMode::Passive,
                    wadec::core::ElemMode::Declare => m::ElemMode::Declare,
                    wadec::core::ElemMode::Active { table, offset } => m::ElemMode::Active(table.0, expr(offset)),
                },
            })
            .collect(),
        data_count: w.data_count,
        datas: w
            .datas
            .iter()
            .map(|d| m::Data {
                init: d.init.clone(),
                mode: match &d.mode {
                    wadec::core::DataMode::Passive => None,
                    wadec::core::DataMode::Active { memory, offset } => Some((memory.0, expr(offset))),
                },
            })
            .collect(),
    };
    (out, bad)
}
