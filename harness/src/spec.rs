//! The opcode table of the WebAssembly 3.0 binary format, written from the
//! specification's mnemonics. `op` is the opcode byte, or prefix << 16 | sub.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    None,
    Block,
    If,
    TryTable,
    Label,
    BrTable,
    Func,
    Type,
    TypeTable,
    Tag,
    Heap,
    Local,
    Global,
    Table,
    Mem,
    Memarg,
    MemargLane,
    Lane,
    I32,
    I64,
    F32,
    F64,
    V128,
    Shuffle,
    SelectT,
    TypeField,
    TypeLen,
    TypeData,
    TypeElem,
    TypeType,
    BrCast,
    DataMem,
    Data,
    MemMem,
    ElemTable,
    Elem,
    TableTable,
}

pub struct Op {
    pub op: u32,
    pub name: &'static str,
    pub k: K,
}

pub const FB: u32 = 0xFB_0000;
pub const FC: u32 = 0xFC_0000;
pub const FD: u32 = 0xFD_0000;

macro_rules! ops { ($($op:expr, $name:literal, $k:ident;)*) => { &[ $( Op { op: $op, name: $name, k: K::$k } ),* ] } }

pub static OPS: &[Op] = ops! {
    0x00, "unreachable", None;
    0x01, "nop", None;
    0x02, "block", Block;
    0x03, "loop", Block;
    0x04, "if", If;
    0x08, "throw", Tag;
    0x0A, "throw_ref", None;
    0x0C, "br", Label;
    0x0D, "br_if", Label;
    0x0E, "br_table", BrTable;
    0x0F, "return", None;
    0x10, "call", Func;
    0x11, "call_indirect", TypeTable;
    0x12, "return_call", Func;
    0x13, "return_call_indirect", TypeTable;
    0x14, "call_ref", Type;
    0x15, "return_call_ref", Type;
    0x1A, "drop", None;
    0x1B, "select", None;
    0x1C, "select t", SelectT;
    0x1F, "try_table", TryTable;
    0x20, "local.get", Local;
    0x21, "local.set", Local;
    0x22, "local.tee", Local;
    0x23, "global.get", Global;
    0x24, "global.set", Global;
    0x25, "table.get", Table;
    0x26, "table.set", Table;
    0x28, "i32.load", Memarg;
    0x29, "i64.load", Memarg;
    0x2A, "f32.load", Memarg;
    0x2B, "f64.load", Memarg;
    0x2C, "i32.load8_s", Memarg;
    0x2D, "i32.load8_u", Memarg;
    0x2E, "i32.load16_s", Memarg;
    0x2F, "i32.load16_u", Memarg;
    0x30, "i64.load8_s", Memarg;
    0x31, "i64.load8_u", Memarg;
    0x32, "i64.load16_s", Memarg;
    0x33, "i64.load16_u", Memarg;
    0x34, "i64.load32_s", Memarg;
    0x35, "i64.load32_u", Memarg;
    0x36, "i32.store", Memarg;
    0x37, "i64.store", Memarg;
    0x38, "f32.store", Memarg;
    0x39, "f64.store", Memarg;
    0x3A, "i32.store8", Memarg;
    0x3B, "i32.store16", Memarg;
    0x3C, "i64.store8", Memarg;
    0x3D, "i64.store16", Memarg;
    0x3E, "i64.store32", Memarg;
    0x3F, "memory.size", Mem;
    0x40, "memory.grow", Mem;
    0x41, "i32.const", I32;
    0x42, "i64.const", I64;
    0x43, "f32.const", F32;
    0x44, "f64.const", F64;
    0x45, "i32.eqz", None;
    0x46, "i32.eq", None;
    0x47, "i32.ne", None;
    0x48, "i32.lt_s", None;
    0x49, "i32.lt_u", None;
    0x4A, "i32.gt_s", None;
    0x4B, "i32.gt_u", None;
    0x4C, "i32.le_s", None;
    0x4D, "i32.le_u", None;
    0x4E, "i32.ge_s", None;
    0x4F, "i32.ge_u", None;
    0x50, "i64.eqz", None;
    0x51, "i64.eq", None;
    0x52, "i64.ne", None;
    0x53, "i64.lt_s", None;
    0x54, "i64.lt_u", None;
    0x55, "i64.gt_s", None;
    0x56, "i64.gt_u", None;
    0x57, "i64.le_s", None;
    0x58, "i64.le_u", None;
    0x59, "i64.ge_s", None;
    0x5A, "i64.ge_u", None;
    0x5B, "f32.eq", None;
    0x5C, "f32.ne", None;
    0x5D, "f32.lt", None;
    0x5E, "f32.gt", None;
    0x5F, "f32.le", None;
    0x60, "f32.ge", None;
    0x61, "f64.eq", None;
    0x62, "f64.ne", None;
    0x63, "f64.lt", None;
    0x64, "f64.gt", None;
    0x65, "f64.le", None;
    0x66, "f64.ge", None;
    0x67, "i32.clz", None;
    0x68, "i32.ctz", None;
    0x69, "i32.popcnt", None;
    0x6A, "i32.add", None;
    0x6B, "i32.sub", None;
    0x6C, "i32.mul", None;
    0x6D, "i32.div_s", None;
    0x6E, "i32.div_u", None;
    0x6F, "i32.rem_s", None;
    0x70, "i32.rem_u", None;
    0x71, "i32.and", None;
    0x72, "i32.or", None;
    0x73, "i32.xor", None;
    0x74, "i32.shl", None;
    0x75, "i32.shr_s", None;
    0x76, "i32.shr_u", None;
    0x77, "i32.rotl", None;
    0x78, "i32.rotr", None;
    0x79, "i64.clz", None;
    0x7A, "i64.ctz", None;
    0x7B, "i64.popcnt", None;
    0x7C, "i64.add", None;
    0x7D, "i64.sub", None;
    0x7E, "i64.mul", None;
    0x7F, "i64.div_s", None;
    0x80, "i64.div_u", None;
    0x81, "i64.rem_s", None;
    0x82, "i64.rem_u", None;
    0x83, "i64.and", None;
    0x84, "i64.or", None;
    0x85, "i64.xor", None;
    0x86, "i64.shl", None;
    0x87, "i64.shr_s", None;
    0x88, "i64.shr_u", None;
    0x89, "i64.rotl", None;
    0x8A, "i64.rotr", None;
    0x8B, "f32.abs", None;
    0x8C, "f32.neg", None;
    0x8D, "f32.ceil", None;
    0x8E, "f32.floor", None;
    0x8F, "f32.trunc", None;
    0x90, "f32.nearest", None;
    0x91, "f32.sqrt", None;
    0x92, "f32.add", None;
    0x93, "f32.sub", None;
    0x94, "f32.mul", None;
    0x95, "f32.div", None;
    0x96, "f32.min", None;
    0x97, "f32.max", None;
    0x98, "f32.copysign", None;
    0x99, "f64.abs", None;
    0x9A, "f64.neg", None;
    0x9B, "f64.ceil", None;
    0x9C, "f64.floor", None;
    0x9D, "f64.trunc", None;
    0x9E, "f64.nearest", None;
    0x9F, "f64.sqrt", None;
    0xA0, "f64.add", None;
    0xA1, "f64.sub", None;
    0xA2, "f64.mul", None;
    0xA3, "f64.div", None;
    0xA4, "f64.min", None;
    0xA5, "f64.max", None;
    0xA6, "f64.copysign", None;
    0xA7, "i32.wrap_i64", None;
    0xA8, "i32.trunc_f32_s", None;
    0xA9, "i32.trunc_f32_u", None;
    0xAA, "i32.trunc_f64_s", None;
    0xAB, "i32.trunc_f64_u", None;
    0xAC, "i64.extend_i32_s", None;
    0xAD, "i64.extend_i32_u", None;
    0xAE, "i64.trunc_f32_s", None;
    0xAF, "i64.trunc_f32_u", None;
    0xB0, "i64.trunc_f64_s", None;
    0xB1, "i64.trunc_f64_u", None;
    0xB2, "f32.convert_i32_s", None;
    0xB3, "f32.convert_i32_u", None;
    0xB4, "f32.convert_i64_s", None;
    0xB5, "f32.convert_i64_u", None;
    0xB6, "f32.demote_f64", None;
    0xB7, "f64.convert_i32_s", None;
    0xB8, "f64.convert_i32_u", None;
    0xB9, "f64.convert_i64_s", None;
    0xBA, "f64.convert_i64_u", None;
    0xBB, "f64.promote_f32", None;
    0xBC, "i32.reinterpret_f32", None;
    0xBD, "i64.reinterpret_f64", None;
    0xBE, "f32.reinterpret_i32", None;
    0xBF, "f64.reinterpret_i64", None;
    0xC0, "i32.extend8_s", None;
    0xC1, "i32.extend16_s", None;
    0xC2, "i64.extend8_s", None;
    0xC3, "i64.extend16_s", None;
    0xC4, "i64.extend32_s", None;
    0xD0, "ref.null", Heap;
    0xD1, "ref.is_null", None;
    0xD2, "ref.func", Func;
    0xD3, "ref.eq", None;
    0xD4, "ref.as_non_null", None;
    0xD5, "br_on_null", Label;
    0xD6, "br_on_non_null", Label;
    FB | 0, "struct.new", Type;
    FB | 1, "struct.new_default", Type;
    FB | 2, "struct.get", TypeField;
    FB | 3, "struct.get_s", TypeField;
    FB | 4, "struct.get_u", TypeField;
    FB | 5, "struct.set", TypeField;
    FB | 6, "array.new", Type;
    FB | 7, "array.new_default", Type;
    FB | 8, "array.new_fixed", TypeLen;
    FB | 9, "array.new_data", TypeData;
    FB | 10, "array.new_elem", TypeElem;
    FB | 11, "array.get", Type;
    FB | 12, "array.get_s", Type;
    FB | 13, "array.get_u", Type;
    FB | 14, "array.set", Type;
    FB | 15, "array.len", None;
    FB | 16, "array.fill", Type;
    FB | 17, "array.copy", TypeType;
    FB | 18, "array.init_data", TypeData;
    FB | 19, "array.init_elem", TypeElem;
    FB | 20, "ref.test", Heap;
    FB | 21, "ref.test null", Heap;
    FB | 22, "ref.cast", Heap;
    FB | 23, "ref.cast null", Heap;
    FB | 24, "br_on_cast", BrCast;
    FB | 25, "br_on_cast_fail", BrCast;
    FB | 26, "any.convert_extern", None;
    FB | 27, "extern.convert_any", None;
    FB | 28, "ref.i31", None;
    FB | 29, "i31.get_s", None;
    FB | 30, "i31.get_u", None;
    FC | 0, "i32.trunc_sat_f32_s", None;
    FC | 1, "i32.trunc_sat_f32_u", None;
    FC | 2, "i32.trunc_sat_f64_s", None;
    FC | 3, "i32.trunc_sat_f64_u", None;
    FC | 4, "i64.trunc_sat_f32_s", None;
    FC | 5, "i64.trunc_sat_f32_u", None;
    FC | 6, "i64.trunc_sat_f64_s", None;
    FC | 7, "i64.trunc_sat_f64_u", None;
    FC | 8, "memory.init", DataMem;
    FC | 9, "data.drop", Data;
    FC | 10, "memory.copy", MemMem;
    FC | 11, "memory.fill", Mem;
    FC | 12, "table.init", ElemTable;
    FC | 13, "elem.drop", Elem;
    FC | 14, "table.copy", TableTable;
    FC | 15, "table.grow", Table;
    FC | 16, "table.size", Table;
    FC | 17, "table.fill", Table;
    FD | 0, "v128.load", Memarg;
    FD | 1, "v128.load8x8_s", Memarg;
    FD | 2, "v128.load8x8_u", Memarg;
    FD | 3, "v128.load16x4_s", Memarg;
    FD | 4, "v128.load16x4_u", Memarg;
    FD | 5, "v128.load32x2_s", Memarg;
    FD | 6, "v128.load32x2_u", Memarg;
    FD | 7, "v128.load8_splat", Memarg;
    FD | 8, "v128.load16_splat", Memarg;
    FD | 9, "v128.load32_splat", Memarg;
    FD | 10, "v128.load64_splat", Memarg;
    FD | 11, "v128.store", Memarg;
    FD | 12, "v128.const", V128;
    FD | 13, "i8x16.shuffle", Shuffle;
    FD | 14, "i8x16.swizzle", None;
    FD | 15, "i8x16.splat", None;
    FD | 16, "i16x8.splat", None;
    FD | 17, "i32x4.splat", None;
    FD | 18, "i64x2.splat", None;
    FD | 19, "f32x4.splat", None;
    FD | 20, "f64x2.splat", None;
    FD | 21, "i8x16.extract_lane_s", Lane;
    FD | 22, "i8x16.extract_lane_u", Lane;
    FD | 23, "i8x16.replace_lane", Lane;
    FD | 24, "i16x8.extract_lane_s", Lane;
    FD | 25, "i16x8.extract_lane_u", Lane;
    FD | 26, "i16x8.replace_lane", Lane;
    FD | 27, "i32x4.extract_lane", Lane;
    FD | 28, "i32x4.replace_lane", Lane;
    FD | 29, "i64x2.extract_lane", Lane;
    FD | 30, "i64x2.replace_lane", Lane;
    FD | 31, "f32x4.extract_lane", Lane;
    FD | 32, "f32x4.replace_lane", Lane;
    FD | 33, "f64x2.extract_lane", Lane;
    FD | 34, "f64x2.replace_lane", Lane;
    FD | 35, "i8x16.eq", None;
    FD | 36, "i8x16.ne", None;
    FD | 37, "i8x16.lt_s", None;
    FD | 38, "i8x16.lt_u", None;
    FD | 39, "i8x16.gt_s", None;
    FD | 40, "i8x16.gt_u", None;
    FD | 41, "i8x16.le_s", None;
    FD | 42, "i8x16.le_u", None;
    FD | 43, "i8x16.ge_s", None;
    FD | 44, "i8x16.ge_u", None;
    FD | 45, "i16x8.eq", None;
    FD | 46, "i16x8.ne", None;
    FD | 47, "i16x8.lt_s", None;
    FD | 48, "i16x8.lt_u", None;
    FD | 49, "i16x8.gt_s", None;
    FD | 50, "i16x8.gt_u", None;
    FD | 51, "i16x8.le_s", None;
    FD | 52, "i16x8.le_u", None;
    FD | 53, "i16x8.ge_s", None;
    FD | 54, "i16x8.ge_u", None;
    FD | 55, "i32x4.eq", None;
    FD | 56, "i32x4.ne", None;
    FD | 57, "i32x4.lt_s", None;
    FD | 58, "i32x4.lt_u", None;
    FD | 59, "i32x4.gt_s", None;
    FD | 60, "i32x4.gt_u", None;
    FD | 61, "i32x4.le_s", None;
    FD | 62, "i32x4.le_u", None;
    FD | 63, "i32x4.ge_s", None;
    FD | 64, "i32x4.ge_u", None;
    FD | 65, "f32x4.eq", None;
    FD | 66, "f32x4.ne", None;
    FD | 67, "f32x4.lt", None;
    FD | 68, "f32x4.gt", None;
    FD | 69, "f32x4.le", None;
    FD | 70, "f32x4.ge", None;
    FD | 71, "f64x2.eq", None;
    FD | 72, "f64x2.ne", None;
    FD | 73, "f64x2.lt", None;
    FD | 74, "f64x2.gt", None;
    FD | 75, "f64x2.le", None;
    FD | 76, "f64x2.ge", None;
    FD | 77, "v128.not", None;
    FD | 78, "v128.and", None;
    FD | 79, "v128.andnot", None;
    FD | 80, "v128.or", None;
    FD | 81, "v128.xor", None;
    FD | 82, "v128.bitselect", None;
    FD | 83, "v128.any_true", None;
    FD | 84, "v128.load8_lane", MemargLane;
    FD | 85, "v128.load16_lane", MemargLane;
    FD | 86, "v128.load32_lane", MemargLane;
    FD | 87, "v128.load64_lane", MemargLane;
    FD | 88, "v128.store8_lane", MemargLane;
    FD | 89, "v128.store16_lane", MemargLane;
    FD | 90, "v128.store32_lane", MemargLane;
    FD | 91, "v128.store64_lane", MemargLane;
    FD | 92, "v128.load32_zero", Memarg;
    FD | 93, "v128.load64_zero", Memarg;
    FD | 94, "f32x4.demote_f64x2_zero", None;
    FD | 95, "f64x2.promote_low_f32x4", None;
    FD | 96, "i8x16.abs", None;
    FD | 97, "i8x16.neg", None;
    FD | 98, "i8x16.popcnt", None;
    FD | 99, "i8x16.all_true", None;
    FD | 100, "i8x16.bitmask", None;
    FD | 101, "i8x16.narrow_i16x8_s", None;
    FD | 102, "i8x16.narrow_i16x8_u", None;
    FD | 103, "f32x4.ceil", None;
    FD | 104, "f32x4.floor", None;
    FD | 105, "f32x4.trunc", None;
    FD | 106, "f32x4.nearest", None;
    FD | 107, "i8x16.shl", None;
    FD | 108, "i8x16.shr_s", None;
    FD | 109, "i8x16.shr_u", None;
    FD | 110, "i8x16.add", None;
    FD | 111, "i8x16.add_sat_s", None;
    FD | 112, "i8x16.add_sat_u", None;
    FD | 113, "i8x16.sub", None;
    FD | 114, "i8x16.sub_sat_s", None;
    FD | 115, "i8x16.sub_sat_u", None;
    FD | 116, "f64x2.ceil", None;
    FD | 117, "f64x2.floor", None;
    FD | 118, "i8x16.min_s", None;
    FD | 119, "i8x16.min_u", None;
    FD | 120, "i8x16.max_s", None;
    FD | 121, "i8x16.max_u", None;
    FD | 122, "f64x2.trunc", None;
    FD | 123, "i8x16.avgr_u", None;
    FD | 124, "i16x8.extadd_pairwise_i8x16_s", None;
    FD | 125, "i16x8.extadd_pairwise_i8x16_u", None;
    FD | 126, "i32x4.extadd_pairwise_i16x8_s", None;
    FD | 127, "i32x4.extadd_pairwise_i16x8_u", None;
    FD | 128, "i16x8.abs", None;
    FD | 129, "i16x8.neg", None;
    FD | 130, "i16x8.q15mulr_sat_s", None;
    FD | 131, "i16x8.all_true", None;
    FD | 132, "i16x8.bitmask", None;
    FD | 133, "i16x8.narrow_i32x4_s", None;
    FD | 134, "i16x8.narrow_i32x4_u", None;
    FD | 135, "i16x8.extend_low_i8x16_s", None;
    FD | 136, "i16x8.extend_high_i8x16_s", None;
    FD | 137, "i16x8.extend_low_i8x16_u", None;
    FD | 138, "i16x8.extend_high_i8x16_u", None;
    FD | 139, "i16x8.shl", None;
    FD | 140, "i16x8.shr_s", None;
    FD | 141, "i16x8.shr_u", None;
    FD | 142, "i16x8.add", None;
    FD | 143, "i16x8.add_sat_s", None;
    FD | 144, "i16x8.add_sat_u", None;
    FD | 145, "i16x8.sub", None;
    FD | 146, "i16x8.sub_sat_s", None;
    FD | 147, "i16x8.sub_sat_u", None;
    FD | 148, "f64x2.nearest", None;
    FD | 149, "i16x8.mul", None;
    FD | 150, "i16x8.min_s", None;
    FD | 151, "i16x8.min_u", None;
    FD | 152, "i16x8.max_s", None;
    FD | 153, "i16x8.max_u", None;
    FD | 155, "i16x8.avgr_u", None;
    FD | 156, "i16x8.extmul_low_i8x16_s", None;
    FD | 157, "i16x8.extmul_high_i8x16_s", None;
    FD | 158, "i16x8.extmul_low_i8x16_u", None;
    FD | 159, "i16x8.extmul_high_i8x16_u", None;
    FD | 160, "i32x4.abs", None;
    FD | 161, "i32x4.neg", None;
    FD | 163, "i32x4.all_true", None;
    FD | 164, "i32x4.bitmask", None;
    FD | 167, "i32x4.extend_low_i16x8_s", None;
    FD | 168, "i32x4.extend_high_i16x8_s", None;
    FD | 169, "i32x4.extend_low_i16x8_u", None;
    FD | 170, "i32x4.extend_high_i16x8_u", None;
    FD | 171, "i32x4.shl", None;
    FD | 172, "i32x4.shr_s", None;
    FD | 173, "i32x4.shr_u", None;
    FD | 174, "i32x4.add", None;
    FD | 177, "i32x4.sub", None;
    FD | 181, "i32x4.mul", None;
    FD | 182, "i32x4.min_s", None;
    FD | 183, "i32x4.min_u", None;
    FD | 184, "i32x4.max_s", None;
    FD | 185, "i32x4.max_u", None;
    FD | 186, "i32x4.dot_i16x8_s", None;
    FD | 188, "i32x4.extmul_low_i16x8_s", None;
    FD | 189, "i32x4.extmul_high_i16x8_s", None;
    FD | 190, "i32x4.extmul_low_i16x8_u", None;
    FD | 191, "i32x4.extmul_high_i16x8_u", None;
    FD | 192, "i64x2.abs", None;
    FD | 193, "i64x2.neg", None;
    FD | 195, "i64x2.all_true", None;
    FD | 196, "i64x2.bitmask", None;
    FD | 199, "i64x2.extend_low_i32x4_s", None;
    FD | 200, "i64x2.extend_high_i32x4_s", None;
    FD | 201, "i64x2.extend_low_i32x4_u", None;
    FD | 202, "i64x2.extend_high_i32x4_u", None;
    FD | 203, "i64x2.shl", None;
    FD | 204, "i64x2.shr_s", None;
    FD | 205, "i64x2.shr_u", None;
    FD | 206, "i64x2.add", None;
    FD | 209, "i64x2.sub", None;
    FD | 213, "i64x2.mul", None;
    FD | 214, "i64x2.eq", None;
    FD | 215, "i64x2.ne", None;
    FD | 216, "i64x2.lt_s", None;
    FD | 217, "i64x2.gt_s", None;
    FD | 218, "i64x2.le_s", None;
    FD | 219, "i64x2.ge_s", None;
    FD | 220, "i64x2.extmul_low_i32x4_s", None;
    FD | 221, "i64x2.extmul_high_i32x4_s", None;
    FD | 222, "i64x2.extmul_low_i32x4_u", None;
    FD | 223, "i64x2.extmul_high_i32x4_u", None;
    FD | 224, "f32x4.abs", None;
    FD | 225, "f32x4.neg", None;
    FD | 227, "f32x4.sqrt", None;
    FD | 228, "f32x4.add", None;
    FD | 229, "f32x4.sub", None;
    FD | 230, "f32x4.mul", None;
    FD | 231, "f32x4.div", None;
    FD | 232, "f32x4.min", None;
    FD | 233, "f32x4.max", None;
    FD | 234, "f32x4.pmin", None;
    FD | 235, "f32x4.pmax", None;
    FD | 236, "f64x2.abs", None;
    FD | 237, "f64x2.neg", None;
    FD | 239, "f64x2.sqrt", None;
    FD | 240, "f64x2.add", None;
    FD | 241, "f64x2.sub", None;
    FD | 242, "f64x2.mul", None;
    FD | 243, "f64x2.div", None;
    FD | 244, "f64x2.min", None;
    FD | 245, "f64x2.max", None;
    FD | 246, "f64x2.pmin", None;
    FD | 247, "f64x2.pmax", None;
    FD | 248, "i32x4.trunc_sat_f32x4_s", None;
    FD | 249, "i32x4.trunc_sat_f32x4_u", None;
    FD | 250, "f32x4.convert_i32x4_s", None;
    FD | 251, "f32x4.convert_i32x4_u", None;
    FD | 252, "i32x4.trunc_sat_f64x2_s_zero", None;
    FD | 253, "i32x4.trunc_sat_f64x2_u_zero", None;
    FD | 254, "f64x2.convert_low_i32x4_s", None;
    FD | 255, "f64x2.convert_low_i32x4_u", None;
    FD | 256, "i8x16.relaxed_swizzle", None;
    FD | 257, "i32x4.relaxed_trunc_f32x4_s", None;
    FD | 258, "i32x4.relaxed_trunc_f32x4_u", None;
    FD | 259, "i32x4.relaxed_trunc_f64x2_s_zero", None;
    FD | 260, "i32x4.relaxed_trunc_f64x2_u_zero", None;
    FD | 261, "f32x4.relaxed_madd", None;
    FD | 262, "f32x4.relaxed_nmadd", None;
    FD | 263, "f64x2.relaxed_madd", None;
    FD | 264, "f64x2.relaxed_nmadd", None;
    FD | 265, "i8x16.relaxed_laneselect", None;
    FD | 266, "i16x8.relaxed_laneselect", None;
    FD | 267, "i32x4.relaxed_laneselect", None;
    FD | 268, "i64x2.relaxed_laneselect", None;
    FD | 269, "f32x4.relaxed_min", None;
    FD | 270, "f32x4.relaxed_max", None;
    FD | 271, "f64x2.relaxed_min", None;
    FD | 272, "f64x2.relaxed_max", None;
    FD | 273, "i16x8.relaxed_q15mulr_s", None;
    FD | 274, "i16x8.relaxed_dot_i8x16_i7x16_s", None;
    FD | 275, "i32x4.relaxed_dot_i8x16_i7x16_add_s", None;
};

pub struct Table {
    plain: [Option<u16>; 256],
    fb: Vec<Option<u16>>,
    fc: Vec<Option<u16>>,
    fd: Vec<Option<u16>>,
}

pub fn table() -> &'static Table {
    static T: std::sync::OnceLock<Table> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = Table { plain: [None; 256], fb: vec![None; 512], fc: vec![None; 512], fd: vec![None; 512] };
        for (i, o) in OPS.iter().enumerate() {
            let slot = match o.op >> 16 {
                0 => &mut t.plain[o.op as usize],
                0xFB => &mut t.fb[(o.op & 0xFFFF) as usize],
                0xFC => &mut t.fc[(o.op & 0xFFFF) as usize],
                0xFD => &mut t.fd[(o.op & 0xFFFF) as usize],
                _ => unreachable!(),
            };
            assert!(slot.is_none(), "duplicate opcode {:#x}", o.op);
            *slot = Some(i as u16);
        }
        t
    })
}

impl Table {
    pub fn plain(&self, b: u8) -> Option<&'static Op> {
        self.plain[b as usize].map(|i| &OPS[i as usize])
    }
    pub fn prefixed(&self, prefix: u8, sub: u32) -> Option<&'static Op> {
        let v = match prefix {
            0xFB => &self.fb,
            0xFC => &self.fc,
            0xFD => &self.fd,
            _ => return None,
        };
        v.get(sub as usize).copied().flatten().map(|i| &OPS[i as usize])
    }
}

pub fn find(op: u32) -> &'static Op {
    let t = table();
    (if op >> 16 == 0 { t.plain(op as u8) } else { t.prefixed((op >> 16) as u8, op & 0xFFFF) }).expect("known op")
}
