//! wadec instruction -> (opcode, immediates in encoding order). Structured
//! instructions, select, ref.test and ref.cast are handled in bridge.rs.
use crate::bridge::{heap, memarg, reftype};
use crate::model::Imm::{self, *};
use crate::spec::{FB, FC, FD};
use wadec::core::Instruction as W;

pub fn simple(i: &W) -> (u32, Vec<Imm>) {
    match i {
        W::Unreachable => (0x00, vec![]),
        W::Nop => (0x01, vec![]),
        W::Br(a) => (0x0C, vec![U(a.0)]),
        W::BrIf(a) => (0x0D, vec![U(a.0)]),
        W::BrTable(a, b) => (0x0E, vec![Labels(a.iter().map(|x| x.0).collect()), U(b.0)]),
        W::BrOnNull(a) => (0xD5, vec![U(a.0)]),
        W::BrOnNonNull(a) => (0xD6, vec![U(a.0)]),
        W::BrOnCast(l, a, b) => (FB | 24, vec![U(l.0), Ref(reftype(a)), Ref(reftype(b))]),
        W::BrOnCastFail(l, a, b) => (FB | 25, vec![U(l.0), Ref(reftype(a)), Ref(reftype(b))]),
        W::Call(a) => (0x10, vec![U(a.0)]),
        W::CallRef(a) => (0x14, vec![U(a.0)]),
        W::CallIndirect(t, y) => (0x11, vec![U(y.0), U(t.0)]),
        W::Return => (0x0F, vec![]),
        W::ReturnCall(a) => (0x12, vec![U(a.0)]),
        W::ReturnCallRef(a) => (0x15, vec![U(a.0)]),
        W::ReturnCallIndirect(t, y) => (0x13, vec![U(y.0), U(t.0)]),
        W::Throw(a) => (0x08, vec![U(a.0)]),
        W::ThrowRef => (0x0A, vec![]),
        W::RefFunc(a) => (0xD2, vec![U(a.0)]),
        W::RefNull(a) => (0xD0, vec![Heap(heap(a))]),
        W::RefIsNull => (0xD1, vec![]),
        W::RefAsNonNull => (0xD4, vec![]),
        W::RefEq => (0xD3, vec![]),
        W::StructNew(a) => (FB | 0, vec![U(a.0)]),
        W::StructNewDefault(a) => (FB | 1, vec![U(a.0)]),
        W::StructGet(a, b) => (FB | 2, vec![U(a.0), U(*b)]),
        W::StructGetS(a, b) => (FB | 3, vec![U(a.0), U(*b)]),
        W::StructGetU(a, b) => (FB | 4, vec![U(a.0), U(*b)]),
        W::StructSet(a, b) => (FB | 5, vec![U(a.0), U(*b)]),
        W::ArrayNew(a) => (FB | 6, vec![U(a.0)]),
        W::ArrayNewDefault(a) => (FB | 7, vec![U(a.0)]),
        W::ArrayNewFixed(a, b) => (FB | 8, vec![U(a.0), U(*b)]),
        W::ArrayNewData(a, b) => (FB | 9, vec![U(a.0), U(b.0)]),
        W::ArrayNewElem(a, b) => (FB | 10, vec![U(a.0), U(b.0)]),
        W::ArrayGet(a) => (FB | 11, vec![U(a.0)]),
        W::ArrayGetS(a) => (FB | 12, vec![U(a.0)]),
        W::ArrayGetU(a) => (FB | 13, vec![U(a.0)]),
        W::ArraySet(a) => (FB | 14, vec![U(a.0)]),
        W::ArrayLen => (FB | 15, vec![]),
        W::ArrayFill(a) => (FB | 16, vec![U(a.0)]),
        W::ArrayCopy(a, b) => (FB | 17, vec![U(a.0), U(b.0)]),
        W::ArrayInitData(a, b) => (FB | 18, vec![U(a.0), U(b.0)]),
        W::ArrayInitElem(a, b) => (FB | 19, vec![U(a.0), U(b.0)]),
        W::AnyConvertExtern => (FB | 26, vec![]),
        W::ExternConvertAny => (FB | 27, vec![]),
        W::RefI31 => (FB | 28, vec![]),
        W::I31GetS => (FB | 29, vec![]),
        W::I31GetU => (FB | 30, vec![]),
        W::Drop => (0x1A, vec![]),
        W::LocalGet(a) => (0x20, vec![U(a.0)]),
        W::LocalSet(a) => (0x21, vec![U(a.0)]),
        W::LocalTee(a) => (0x22, vec![U(a.0)]),
        W::GlobalGet(a) => (0x23, vec![U(a.0)]),
        W::GlobalSet(a) => (0x24, vec![U(a.0)]),
        W::TableGet(a) => (0x25, vec![U(a.0)]),
        W::TableSet(a) => (0x26, vec![U(a.0)]),
        W::TableInit(t, e) => (FC | 12, vec![U(e.0), U(t.0)]),
        W::ElemDrop(a) => (FC | 13, vec![U(a.0)]),
        W::TableCopy(a, b) => (FC | 14, vec![U(a.0), U(b.0)]),
        W::TableGrow(a) => (FC | 15, vec![U(a.0)]),
        W::TableSize(a) => (FC | 16, vec![U(a.0)]),
        W::TableFill(a) => (FC | 17, vec![U(a.0)]),
        W::I32Load(m) => (0x28, vec![memarg(m)]),
        W::I64Load(m) => (0x29, vec![memarg(m)]),
        W::F32Load(m) => (0x2A, vec![memarg(m)]),
        W::F64Load(m) => (0x2B, vec![memarg(m)]),
        W::I32Load8s(m) => (0x2C, vec![memarg(m)]),
        W::I32Load8u(m) => (0x2D, vec![memarg(m)]),
        W::I32Load16s(m) => (0x2E, vec![memarg(m)]),
        W::I32Load16u(m) => (0x2F, vec![memarg(m)]),
        W::I64Load8s(m) => (0x30, vec![memarg(m)]),
        W::I64Load8u(m) => (0x31, vec![memarg(m)]),
        W::I64Load16s(m) => (0x32, vec![memarg(m)]),
        W::I64Load16u(m) => (0x33, vec![memarg(m)]),
        W::I64Load32s(m) => (0x34, vec![memarg(m)]),
        W::I64Load32u(m) => (0x35, vec![memarg(m)]),
        W::I32Store(m) => (0x36, vec![memarg(m)]),
        W::I64Store(m) => (0x37, vec![memarg(m)]),
        W::F32Store(m) => (0x38, vec![memarg(m)]),
        W::F64Store(m) => (0x39, vec![memarg(m)]),
        W::I32Store8(m) => (0x3A, vec![memarg(m)]),
        W::I32Store16(m) => (0x3B, vec![memarg(m)]),
        W::I64Store8(m) => (0x3C, vec![memarg(m)]),
        W::I64Store16(m) => (0x3D, vec![memarg(m)]),
        W::I64Store32(m) => (0x3E, vec![memarg(m)]),
        W::MemorySize(a) => (0x3F, vec![U(a.0)]),
        W::MemoryGrow(a) => (0x40, vec![U(a.0)]),
        W::MemoryInit(m, d) => (FC | 8, vec![U(d.0), U(m.0)]),
        W::DataDrop(a) => (FC | 9, vec![U(a.0)]),
        W::MemoryCopy(a, b) => (FC | 10, vec![U(a.0), U(b.0)]),
        W::MemoryFill(a) => (FC | 11, vec![U(a.0)]),
        W::I32Const(a) => (0x41, vec![I32(*a)]),
        W::I64Const(a) => (0x42, vec![I64(*a)]),
        W::F32Const(a) => (0x43, vec![F32(a.to_bits())]),
        W::F64Const(a) => (0x44, vec![F64(a.to_bits())]),
        W::I32Eqz => (0x45, vec![]),
        W::I32Eq => (0x46, vec![]),
        W::I32Ne => (0x47, vec![]),
        W::I32LtS => (0x48, vec![]),
        W::I32LtU => (0x49, vec![]),
        W::I32GtS => (0x4A, vec![]),
        W::I32GtU => (0x4B, vec![]),
        W::I32LeS => (0x4C, vec![]),
        W::I32LeU => (0x4D, vec![]),
        W::I32GeS => (0x4E, vec![]),
        W::I32GeU => (0x4F, vec![]),
        W::I64Eqz => (0x50, vec![]),
        W::I64Eq => (0x51, vec![]),
        W::I64Ne => (0x52, vec![]),
        W::I64LtS => (0x53, vec![]),
        W::I64LtU => (0x54, vec![]),
        W::I64GtS => (0x55, vec![]),
        W::I64GtU => (0x56, vec![]),
        W::I64LeS => (0x57, vec![]),
        W::I64LeU => (0x58, vec![]),
        W::I64GeS => (0x59, vec![]),
        W::I64GeU => (0x5A, vec![]),
        W::F32Eq => (0x5B, vec![]),
        W::F32Ne => (0x5C, vec![]),
        W::F32Lt => (0x5D, vec![]),
        W::F32Gt => (0x5E, vec![]),
        W::F32Le => (0x5F, vec![]),
        W::F32Ge => (0x60, vec![]),
        W::F64Eq => (0x61, vec![]),
        W::F64Ne => (0x62, vec![]),
        W::F64Lt => (0x63, vec![]),
        W::F64Gt => (0x64, vec![]),
        W::F64Le => (0x65, vec![]),
        W::F64Ge => (0x66, vec![]),
        W::I32Clz => (0x67, vec![]),
        W::I32Ctz => (0x68, vec![]),
        W::I32Popcnt => (0x69, vec![]),
        W::I32Add => (0x6A, vec![]),
        W::I32Sub => (0x6B, vec![]),
        W::I32Mul => (0x6C, vec![]),
        W::I32DivS => (0x6D, vec![]),
        W::I32DivU => (0x6E, vec![]),
        W::I32RemS => (0x6F, vec![]),
        W::I32RemU => (0x70, vec![]),
        W::I32And => (0x71, vec![]),
        W::I32Or => (0x72, vec![]),
        W::I32Xor => (0x73, vec![]),
        W::I32Shl => (0x74, vec![]),
        W::I32ShrS => (0x75, vec![]),
        W::I32ShrU => (0x76, vec![]),
        W::I32Rotl => (0x77, vec![]),
        W::I32Rotr => (0x78, vec![]),
        W::I64Clz => (0x79, vec![]),
        W::I64Ctz => (0x7A, vec![]),
        W::I64Popcnt => (0x7B, vec![]),
        W::I64Add => (0x7C, vec![]),
        W::I64Sub => (0x7D, vec![]),
        W::I64Mul => (0x7E, vec![]),
        W::I64DivS => (0x7F, vec![]),
        W::I64DivU => (0x80, vec![]),
        W::I64RemS => (0x81, vec![]),
        W::I64RemU => (0x82, vec![]),
        W::I64And => (0x83, vec![]),
        W::I64Or => (0x84, vec![]),
        W::I64Xor => (0x85, vec![]),
        W::I64Shl => (0x86, vec![]),
        W::I64ShrS => (0x87, vec![]),
        W::I64ShrU => (0x88, vec![]),
        W::I64Rotl => (0x89, vec![]),
        W::I64Rotr => (0x8A, vec![]),
        W::F32Abs => (0x8B, vec![]),
        W::F32Neg => (0x8C, vec![]),
        W::F32Ceil => (0x8D, vec![]),
        W::F32Floor => (0x8E, vec![]),
        W::F32Trunc => (0x8F, vec![]),
        W::F32Nearest => (0x90, vec![]),
        W::F32Sqrt => (0x91, vec![]),
        W::F32Add => (0x92, vec![]),
        W::F32Sub => (0x93, vec![]),
        W::F32Mul => (0x94, vec![]),
        W::F32Div => (0x95, vec![]),
        W::F32Min => (0x96, vec![]),
        W::F32Max => (0x97, vec![]),
        W::F32Copysign => (0x98, vec![]),
        W::F64Abs => (0x99, vec![]),
        W::F64Neg => (0x9A, vec![]),
        W::F64Ceil => (0x9B, vec![]),
        W::F64Floor => (0x9C, vec![]),
        W::F64Trunc => (0x9D, vec![]),
        W::F64Nearest => (0x9E, vec![]),
        W::F64Sqrt => (0x9F, vec![]),
        W::F64Add => (0xA0, vec![]),
        W::F64Sub => (0xA1, vec![]),
        W::F64Mul => (0xA2, vec![]),
        W::F64Div => (0xA3, vec![]),
        W::F64Min => (0xA4, vec![]),
        W::F64Max => (0xA5, vec![]),
        W::F64Copysign => (0xA6, vec![]),
        W::I32WrapI64 => (0xA7, vec![]),
        W::I32TruncF32S => (0xA8, vec![]),
        W::I32TruncF32U => (0xA9, vec![]),
        W::I32TruncF64S => (0xAA, vec![]),
        W::I32TruncF64U => (0xAB, vec![]),
        W::I64ExtendI32S => (0xAC, vec![]),
        W::I64ExtendI32U => (0xAD, vec![]),
        W::I64TruncF32S => (0xAE, vec![]),
        W::I64TruncF32U => (0xAF, vec![]),
        W::I64TruncF64S => (0xB0, vec![]),
        W::I64TruncF64U => (0xB1, vec![]),
        W::F32ConvertI32S => (0xB2, vec![]),
        W::F32ConvertI32U => (0xB3, vec![]),
        W::F32ConvertI64S => (0xB4, vec![]),
        W::F32ConvertI64U => (0xB5, vec![]),
        W::F32DemoteF64 => (0xB6, vec![]),
        W::F64ConvertI32S => (0xB7, vec![]),
        W::F64ConvertI32U => (0xB8, vec![]),
        W::F64ConvertI64S => (0xB9, vec![]),
        W::F64ConvertI64U => (0xBA, vec![]),
        W::F64PromoteF32 => (0xBB, vec![]),
        W::I32ReinterpretF32 => (0xBC, vec![]),
        W::I64ReinterpretF64 => (0xBD, vec![]),
        W::F32ReinterpretI32 => (0xBE, vec![]),
        W::F64ReinterpretI64 => (0xBF, vec![]),
        W::I32Extend8S => (0xC0, vec![]),
        W::I32Extend16S => (0xC1, vec![]),
        W::I64Extend8S => (0xC2, vec![]),
        W::I64Extend16S => (0xC3, vec![]),
        W::I64Extend32S => (0xC4, vec![]),
        W::I32TruncSatF32S => (FC | 0, vec![]),
        W::I32TruncSatF32U => (FC | 1, vec![]),
        W::I32TruncSatF64S => (FC | 2, vec![]),
        W::I32TruncSatF64U => (FC | 3, vec![]),
        W::I64TruncSatF32S => (FC | 4, vec![]),
        W::I64TruncSatF32U => (FC | 5, vec![]),
        W::I64TruncSatF64S => (FC | 6, vec![]),
        W::I64TruncSatF64U => (FC | 7, vec![]),
        W::V128Load(m) => (FD | 0, vec![memarg(m)]),
        W::V128Load8x8S(m) => (FD | 1, vec![memarg(m)]),
        W::V128Load8x8U(m) => (FD | 2, vec![memarg(m)]),
        W::V128Load16x4S(m) => (FD | 3, vec![memarg(m)]),
        W::V128Load16x4U(m) => (FD | 4, vec![memarg(m)]),
        W::V128Load32x2S(m) => (FD | 5, vec![memarg(m)]),
        W::V128Load32x2U(m) => (FD | 6, vec![memarg(m)]),
        W::V128Load8Splat(m) => (FD | 7, vec![memarg(m)]),
        W::V128Load16Splat(m) => (FD | 8, vec![memarg(m)]),
        W::V128Load32Splat(m) => (FD | 9, vec![memarg(m)]),
        W::V128Load64Splat(m) => (FD | 10, vec![memarg(m)]),
        W::V128Load32Zero(m) => (FD | 92, vec![memarg(m)]),
        W::V128Load64Zero(m) => (FD | 93, vec![memarg(m)]),
        W::V128Store(m) => (FD | 11, vec![memarg(m)]),
        W::V128Load8Lane(m, l) => (FD | 84, vec![memarg(m), Lane(l.0)]),
        W::V128Load16Lane(m, l) => (FD | 85, vec![memarg(m), Lane(l.0)]),
        W::V128Load32Lane(m, l) => (FD | 86, vec![memarg(m), Lane(l.0)]),
        W::V128Load64Lane(m, l) => (FD | 87, vec![memarg(m), Lane(l.0)]),
        W::V128Store8Lane(m, l) => (FD | 88, vec![memarg(m), Lane(l.0)]),
        W::V128Store16Lane(m, l) => (FD | 89, vec![memarg(m), Lane(l.0)]),
        W::V128Store32Lane(m, l) => (FD | 90, vec![memarg(m), Lane(l.0)]),
        W::V128Store64Lane(m, l) => (FD | 91, vec![memarg(m), Lane(l.0)]),
        W::V128Const(a) => (FD | 12, vec![Bytes16(*a)]),
        W::I8x16Shuffle(a) => (FD | 13, vec![Bytes16(a.map(|l| l.0))]),
        W::I8x16ExtractLaneS(l) => (FD | 21, vec![Lane(l.0)]),
        W::I8x16ExtractLaneU(l) => (FD | 22, vec![Lane(l.0)]),
        W::I8x16ReplaceLane(l) => (FD | 23, vec![Lane(l.0)]),
        W::I16x8ExtractLaneS(l) => (FD | 24, vec![Lane(l.0)]),
        W::I16x8ExtractLaneU(l) => (FD | 25, vec![Lane(l.0)]),
        W::I16x8ReplaceLane(l) => (FD | 26, vec![Lane(l.0)]),
        W::I32x4ExtractLane(l) => (FD | 27, vec![Lane(l.0)]),
        W::I32x4ReplaceLane(l) => (FD | 28, vec![Lane(l.0)]),
        W::I64x2ExtractLane(l) => (FD | 29, vec![Lane(l.0)]),
        W::I64x2ReplaceLane(l) => (FD | 30, vec![Lane(l.0)]),
        W::F32x4ExtractLane(l) => (FD | 31, vec![Lane(l.0)]),
        W::F32x4ReplaceLane(l) => (FD | 32, vec![Lane(l.0)]),
        W::F64x2ExtractLane(l) => (FD | 33, vec![Lane(l.0)]),
        W::F64x2ReplaceLane(l) => (FD | 34, vec![Lane(l.0)]),
        W::I8x16Swizzle => (FD | 14, vec![]),
        W::I8x16RelaxedSwizzle => (FD | 256, vec![]),
        W::I8x16Splat => (FD | 15, vec![]),
        W::I16x8Splat => (FD | 16, vec![]),
        W::I32x4Splat => (FD | 17, vec![]),
        W::I64x2Splat => (FD | 18, vec![]),
        W::F32x4Splat => (FD | 19, vec![]),
        W::F64x2Splat => (FD | 20, vec![]),
        W::I8x16Eq => (FD | 35, vec![]),
        W::I8x16Ne => (FD | 36, vec![]),
        W::I8x16LtS => (FD | 37, vec![]),
        W::I8x16LtU => (FD | 38, vec![]),
        W::I8x16GtS => (FD | 39, vec![]),
        W::I8x16GtU => (FD | 40, vec![]),
        W::I8x16LeS => (FD | 41, vec![]),
        W::I8x16LeU => (FD | 42, vec![]),
        W::I8x16GeS => (FD | 43, vec![]),
        W::I8x16GeU => (FD | 44, vec![]),
        W::I16x8Eq => (FD | 45, vec![]),
        W::I16x8Ne => (FD | 46, vec![]),
        W::I16x8LtS => (FD | 47, vec![]),
        W::I16x8LtU => (FD | 48, vec![]),
        W::I16x8GtS => (FD | 49, vec![]),
        W::I16x8GtU => (FD | 50, vec![]),
        W::I16x8LeS => (FD | 51, vec![]),
        W::I16x8LeU => (FD | 52, vec![]),
        W::I16x8GeS => (FD | 53, vec![]),
        W::I16x8GeU => (FD | 54, vec![]),
        W::I32x4Eq => (FD | 55, vec![]),
        W::I32x4Ne => (FD | 56, vec![]),
        W::I32x4LtS => (FD | 57, vec![]),
        W::I32x4LtU => (FD | 58, vec![]),
        W::I32x4GtS => (FD | 59, vec![]),
        W::I32x4GtU => (FD | 60, vec![]),
        W::I32x4LeS => (FD | 61, vec![]),
        W::I32x4LeU => (FD | 62, vec![]),
        W::I32x4GeS => (FD | 63, vec![]),
        W::I32x4GeU => (FD | 64, vec![]),
        W::I64x2Eq => (FD | 214, vec![]),
        W::I64x2Ne => (FD | 215, vec![]),
        W::I64x2LtS => (FD | 216, vec![]),
        W::I64x2GtS => (FD | 217, vec![]),
        W::I64x2LeS => (FD | 218, vec![]),
        W::I64x2GeS => (FD | 219, vec![]),
        W::F32x4Eq => (FD | 65, vec![]),
        W::F32x4Ne => (FD | 66, vec![]),
        W::F32x4Lt => (FD | 67, vec![]),
        W::F32x4Gt => (FD | 68, vec![]),
        W::F32x4Le => (FD | 69, vec![]),
        W::F32x4Ge => (FD | 70, vec![]),
        W::F64x2Eq => (FD | 71, vec![]),
        W::F64x2Ne => (FD | 72, vec![]),
        W::F64x2Lt => (FD | 73, vec![]),
        W::F64x2Gt => (FD | 74, vec![]),
        W::F64x2Le => (FD | 75, vec![]),
        W::F64x2Ge => (FD | 76, vec![]),
        W::V128Not => (FD | 77, vec![]),
        W::V128And => (FD | 78, vec![]),
        W::V128AndNot => (FD | 79, vec![]),
        W::V128Or => (FD | 80, vec![]),
        W::V128Xor => (FD | 81, vec![]),
        W::V128Bitselect => (FD | 82, vec![]),
        W::I8x16RelaxedLaneSelect => (FD | 265, vec![]),
        W::I16x8RelaxedLaneSelect => (FD | 266, vec![]),
        W::I32x4RelaxedLaneSelect => (FD | 267, vec![]),
        W::I64x2RelaxedLaneSelect => (FD | 268, vec![]),
        W::V128AnyTrue => (FD | 83, vec![]),
        W::I8x16Abs => (FD | 96, vec![]),
        W::I8x16Neg => (FD | 97, vec![]),
        W::I8x16Popcnt => (FD | 98, vec![]),
        W::I8x16AllTrue => (FD | 99, vec![]),
        W::I8x16Bitmask => (FD | 100, vec![]),
        W::I8x16NarrowI16x8S => (FD | 101, vec![]),
        W::I8x16NarrowI16x8U => (FD | 102, vec![]),
        W::I8x16Shl => (FD | 107, vec![]),
        W::I8x16ShrS => (FD | 108, vec![]),
        W::I8x16ShrU => (FD | 109, vec![]),
        W::I8x16Add => (FD | 110, vec![]),
        W::I8x16AddSatS => (FD | 111, vec![]),
        W::I8x16AddSatU => (FD | 112, vec![]),
        W::I8x16Sub => (FD | 113, vec![]),
        W::I8x16SubSatS => (FD | 114, vec![]),
        W::I8x16SubSatU => (FD | 115, vec![]),
        W::I8x16MinS => (FD | 118, vec![]),
        W::I8x16MinU => (FD | 119, vec![]),
        W::I8x16MaxS => (FD | 120, vec![]),
        W::I8x16MaxU => (FD | 121, vec![]),
        W::I8x16AvgrU => (FD | 123, vec![]),
        W::I16x8ExtaddPairwiseI8x16S => (FD | 124, vec![]),
        W::I16x8ExtaddPairwiseI8x16U => (FD | 125, vec![]),
        W::I16x8Abs => (FD | 128, vec![]),
        W::I16x8Neg => (FD | 129, vec![]),
        W::I16x8Q15MulrSatS => (FD | 130, vec![]),
        W::I16x8AllTrue => (FD | 131, vec![]),
        W::I16x8Bitmask => (FD | 132, vec![]),
        W::I16x8NarrowI32x4S => (FD | 133, vec![]),
        W::I16x8NarrowI32x4U => (FD | 134, vec![]),
        W::I16x8ExtendLowI8x16S => (FD | 135, vec![]),
        W::I16x8ExtendHighI8x16S => (FD | 136, vec![]),
        W::I16x8ExtendLowI8x16U => (FD | 137, vec![]),
        W::I16x8ExtendHighI8x16U => (FD | 138, vec![]),
        W::I16x8Shl => (FD | 139, vec![]),
        W::I16x8ShrS => (FD | 140, vec![]),
        W::I16x8ShrU => (FD | 141, vec![]),
        W::I16x8Add => (FD | 142, vec![]),
        W::I16x8AddSatS => (FD | 143, vec![]),
        W::I16x8AddSatU => (FD | 144, vec![]),
        W::I16x8Sub => (FD | 145, vec![]),
        W::I16x8SubSatS => (FD | 146, vec![]),
        W::I16x8SubSatU => (FD | 147, vec![]),
        W::I16x8Mul => (FD | 149, vec![]),
        W::I16x8MinS => (FD | 150, vec![]),
        W::I16x8MinU => (FD | 151, vec![]),
        W::I16x8MaxS => (FD | 152, vec![]),
        W::I16x8MaxU => (FD | 153, vec![]),
        W::I16x8AvgrU => (FD | 155, vec![]),
        W::I16x8ExtmulLowI8x16S => (FD | 156, vec![]),
        W::I16x8ExtmulHighI8x16S => (FD | 157, vec![]),
        W::I16x8ExtmulLowI8x16U => (FD | 158, vec![]),
        W::I16x8ExtmulHighI8x16U => (FD | 159, vec![]),
        W::I16x8RelaxedQ15MulrS => (FD | 273, vec![]),
        W::I16x8RelaxedDotSI8x16 => (FD | 274, vec![]),
        W::I32x4RelaxedDotAddSI16x8 => (FD | 275, vec![]),
        W::I32x4ExtaddPairwiseI16x8S => (FD | 126, vec![]),
        W::I32x4ExtaddPairwiseI16x8U => (FD | 127, vec![]),
        W::I32x4Abs => (FD | 160, vec![]),
        W::I32x4Neg => (FD | 161, vec![]),
        W::I32x4AllTrue => (FD | 163, vec![]),
        W::I32x4Bitmask => (FD | 164, vec![]),
        W::I32x4ExtendLowI16x8S => (FD | 167, vec![]),
        W::I32x4ExtendHighI16x8S => (FD | 168, vec![]),
        W::I32x4ExtendLowI16x8U => (FD | 169, vec![]),
        W::I32x4ExtendHighI16x8U => (FD | 170, vec![]),
        W::I32x4Shl => (FD | 171, vec![]),
        W::I32x4ShrS => (FD | 172, vec![]),
        W::I32x4ShrU => (FD | 173, vec![]),
        W::I32x4Add => (FD | 174, vec![]),
        W::I32x4Sub => (FD | 177, vec![]),
        W::I32x4Mul => (FD | 181, vec![]),
        W::I32x4MinS => (FD | 182, vec![]),
        W::I32x4MinU => (FD | 183, vec![]),
        W::I32x4MaxS => (FD | 184, vec![]),
        W::I32x4MaxU => (FD | 185, vec![]),
        W::I32x4DotI16x8S => (FD | 186, vec![]),
        W::I32x4ExtmulLowI16x8S => (FD | 188, vec![]),
        W::I32x4ExtmulHighI16x8S => (FD | 189, vec![]),
        W::I32x4ExtmulLowI16x8U => (FD | 190, vec![]),
        W::I32x4ExtmulHighI16x8U => (FD | 191, vec![]),
        W::I64x2Abs => (FD | 192, vec![]),
        W::I64x2Neg => (FD | 193, vec![]),
        W::I64x2AllTrue => (FD | 195, vec![]),
        W::I64x2Bitmask => (FD | 196, vec![]),
        W::I64x2ExtendLowI32x4S => (FD | 199, vec![]),
        W::I64x2ExtendHighI32x4S => (FD | 200, vec![]),
        W::I64x2ExtendLowI32x4U => (FD | 201, vec![]),
        W::I64x2ExtendHighI32x4U => (FD | 202, vec![]),
        W::I64x2Shl => (FD | 203, vec![]),
        W::I64x2ShrS => (FD | 204, vec![]),
        W::I64x2ShrU => (FD | 205, vec![]),
        W::I64x2Add => (FD | 206, vec![]),
        W::I64x2Sub => (FD | 209, vec![]),
        W::I64x2Mul => (FD | 213, vec![]),
        W::I64x2ExtmulLowI32x4S => (FD | 220, vec![]),
        W::I64x2ExtmulHighI32x4S => (FD | 221, vec![]),
        W::I64x2ExtmulLowI32x4U => (FD | 222, vec![]),
        W::I64x2ExtmulHighI32x4U => (FD | 223, vec![]),
        W::F32x4Ceil => (FD | 103, vec![]),
        W::F32x4Floor => (FD | 104, vec![]),
        W::F32x4Trunc => (FD | 105, vec![]),
        W::F32x4Nearest => (FD | 106, vec![]),
        W::F32x4Abs => (FD | 224, vec![]),
        W::F32x4Neg => (FD | 225, vec![]),
        W::F32x4Sqrt => (FD | 227, vec![]),
        W::F32x4Add => (FD | 228, vec![]),
        W::F32x4Sub => (FD | 229, vec![]),
        W::F32x4Mul => (FD | 230, vec![]),
        W::F32x4Div => (FD | 231, vec![]),
        W::F32x4Min => (FD | 232, vec![]),
        W::F32x4Max => (FD | 233, vec![]),
        W::F32x4PMin => (FD | 234, vec![]),
        W::F32x4PMax => (FD | 235, vec![]),
        W::F32x4RelaxedMin => (FD | 269, vec![]),
        W::F32x4RelaxedMax => (FD | 270, vec![]),
        W::F32x4RelaxedMAdd => (FD | 261, vec![]),
        W::F32x4RelaxedNMAdd => (FD | 262, vec![]),
        W::F64x2Ceil => (FD | 116, vec![]),
        W::F64x2Floor => (FD | 117, vec![]),
        W::F64x2Trunc => (FD | 122, vec![]),
        W::F64x2Nearest => (FD | 148, vec![]),
        W::F64x2Abs => (FD | 236, vec![]),
        W::F64x2Neg => (FD | 237, vec![]),
        W::F64x2Sqrt => (FD | 239, vec![]),
        W::F64x2Add => (FD | 240, vec![]),
        W::F64x2Sub => (FD | 241, vec![]),
        W::F64x2Mul => (FD | 242, vec![]),
        W::F64x2Div => (FD | 243, vec![]),
        W::F64x2Min => (FD | 244, vec![]),
        W::F64x2Max => (FD | 245, vec![]),
        W::F64x2PMin => (FD | 246, vec![]),
        W::F64x2PMax => (FD | 247, vec![]),
        W::F64x2RelaxedMin => (FD | 271, vec![]),
        W::F64x2RelaxedMax => (FD | 272, vec![]),
        W::F64x2RelaxedMAdd => (FD | 263, vec![]),
        W::F64x2RelaxedNMAdd => (FD | 264, vec![]),
        W::I32x4TruncSatF32x4S => (FD | 248, vec![]),
        W::I32x4TruncSatF32x4U => (FD | 249, vec![]),
        W::F32x4ConvertI32x4S => (FD | 250, vec![]),
        W::F32x4ConvertI32x4U => (FD | 251, vec![]),
        W::I32x4TruncSatF64x2SZero => (FD | 252, vec![]),
        W::I32x4TruncSatF64x2UZero => (FD | 253, vec![]),
        W::I32x4RelaxedTruncF32x4S => (FD | 257, vec![]),
        W::I32x4RelaxedTruncF32x4U => (FD | 258, vec![]),
        W::I32x4RelaxedTruncF64x2SZero => (FD | 259, vec![]),
        W::I32x4RelaxedTruncF64x2UZero => (FD | 260, vec![]),
        W::F64x2ConvertLowI32x4S => (FD | 254, vec![]),
        W::F64x2ConvertLowI32x4U => (FD | 255, vec![]),
        W::F32x4DemoteF64x2Zero => (FD | 94, vec![]),
        W::F64x2PromoteLowF32x4 => (FD | 95, vec![]),
        other => panic!("monitor: instruction without model: {other:?}"),
    }
}
