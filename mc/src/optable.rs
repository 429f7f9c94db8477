//! The instruction set of WebAssembly 3.0 (spec, section 5.4 and the index of
//! instructions), written down independently of the decoder under test: in
//! opcode order, as runs of consecutive opcodes.
use wadec::core::Instruction as I;
use wadec::core::instruction::{LaneIdx, Memarg};

/// 0x28..=0x3E, in opcode order: instructions with a memarg.
pub static MEM: [fn(Memarg) -> I; 23] = [
    I::I32Load, I::I64Load, I::F32Load, I::F64Load,
    I::I32Load8s, I::I32Load8u, I::I32Load16s, I::I32Load16u,
    I::I64Load8s, I::I64Load8u, I::I64Load16s, I::I64Load16u, I::I64Load32s, I::I64Load32u,
    I::I32Store, I::I64Store, I::F32Store, I::F64Store,
    I::I32Store8, I::I32Store16, I::I64Store8, I::I64Store16, I::I64Store32,
];

/// 0x45..=0xC4, in opcode order: numeric instructions without immediates.
pub static NUM: [I; 0xC4 - 0x45 + 1] = [
    // i32 tests and comparisons 45-4F
    I::I32Eqz, I::I32Eq, I::I32Ne, I::I32LtS, I::I32LtU, I::I32GtS, I::I32GtU, I::I32LeS, I::I32LeU, I::I32GeS, I::I32GeU,
    // i64 50-5A
    I::I64Eqz, I::I64Eq, I::I64Ne, I::I64LtS, I::I64LtU, I::I64GtS, I::I64GtU, I::I64LeS, I::I64LeU, I::I64GeS, I::I64GeU,
    // f32 5B-60, f64 61-66
    I::F32Eq, I::F32Ne, I::F32Lt, I::F32Gt, I::F32Le, I::F32Ge,
    I::F64Eq, I::F64Ne, I::F64Lt, I::F64Gt, I::F64Le, I::F64Ge,
    // i32 arithmetic 67-78
    I::I32Clz, I::I32Ctz, I::I32Popcnt, I::I32Add, I::I32Sub, I::I32Mul, I::I32DivS, I::I32DivU, I::I32RemS, I::I32RemU,
    I::I32And, I::I32Or, I::I32Xor, I::I32Shl, I::I32ShrS, I::I32ShrU, I::I32Rotl, I::I32Rotr,
    // i64 arithmetic 79-8A
    I::I64Clz, I::I64Ctz, I::I64Popcnt, I::I64Add, I::I64Sub, I::I64Mul, I::I64DivS, I::I64DivU, I::I64RemS, I::I64RemU,
    I::I64And, I::I64Or, I::I64Xor, I::I64Shl, I::I64ShrS, I::I64ShrU, I::I64Rotl, I::I64Rotr,
    // f32 arithmetic 8B-98
    I::F32Abs, I::F32Neg, I::F32Ceil, I::F32Floor, I::F32Trunc, I::F32Nearest, I::F32Sqrt,
    I::F32Add, I::F32Sub, I::F32Mul, I::F32Div, I::F32Min, I::F32Max, I::F32Copysign,
    // f64 arithmetic 99-A6
    I::F64Abs, I::F64Neg, I::F64Ceil, I::F64Floor, I::F64Trunc, I::F64Nearest, I::F64Sqrt,
    I::F64Add, I::F64Sub, I::F64Mul, I::F64Div, I::F64Min, I::F64Max, I::F64Copysign,
    // conversions A7-BF
    I::I32WrapI64, I::I32TruncF32S, I::I32TruncF32U, I::I32TruncF64S, I::I32TruncF64U,
    I::I64ExtendI32S, I::I64ExtendI32U, I::I64TruncF32S, I::I64TruncF32U, I::I64TruncF64S, I::I64TruncF64U,
    I::F32ConvertI32S, I::F32ConvertI32U, I::F32ConvertI64S, I::F32ConvertI64U, I::F32DemoteF64,
    I::F64ConvertI32S, I::F64ConvertI32U, I::F64ConvertI64S, I::F64ConvertI64U, I::F64PromoteF32,
    I::I32ReinterpretF32, I::I64ReinterpretF64, I::F32ReinterpretI32, I::F64ReinterpretI64,
    // sign extension C0-C4
    I::I32Extend8S, I::I32Extend16S, I::I64Extend8S, I::I64Extend16S, I::I64Extend32S,
];

/// 0xFC 0..=7
pub static SAT: [I; 8] = [
    I::I32TruncSatF32S, I::I32TruncSatF32U, I::I32TruncSatF64S, I::I32TruncSatF64U,
    I::I64TruncSatF32S, I::I64TruncSatF32U, I::I64TruncSatF64S, I::I64TruncSatF64U,
];

/// 0xFD 0..=11, then 92, 93: memarg
pub static VMEM: [fn(Memarg) -> I; 12] = [
    I::V128Load, I::V128Load8x8S, I::V128Load8x8U, I::V128Load16x4S, I::V128Load16x4U, I::V128Load32x2S, I::V128Load32x2U,
    I::V128Load8Splat, I::V128Load16Splat, I::V128Load32Splat, I::V128Load64Splat, I::V128Store,
];
/// 0xFD 84..=91: memarg and lane
pub static VMEMLANE: [fn(Memarg, LaneIdx) -> I; 8] = [
    I::V128Load8Lane, I::V128Load16Lane, I::V128Load32Lane, I::V128Load64Lane,
    I::V128Store8Lane, I::V128Store16Lane, I::V128Store32Lane, I::V128Store64Lane,
];
/// 0xFD 21..=34: lane
pub static VLANE: [fn(LaneIdx) -> I; 14] = [
    I::I8x16ExtractLaneS, I::I8x16ExtractLaneU, I::I8x16ReplaceLane,
    I::I16x8ExtractLaneS, I::I16x8ExtractLaneU, I::I16x8ReplaceLane,
    I::I32x4ExtractLane, I::I32x4ReplaceLane, I::I64x2ExtractLane, I::I64x2ReplaceLane,
    I::F32x4ExtractLane, I::F32x4ReplaceLane, I::F64x2ExtractLane, I::F64x2ReplaceLane,
];

/// 0xFD, no immediates. `None`: undefined, or defined above.
pub static VEC: [Option<I>; 276] = {
    macro_rules! s { ($($x:ident)*) => { [$( s!(@ $x) ),*] }; (@ NIL) => { None }; (@ $x:ident) => { Some(I::$x) }; }
    s![
    /* 0x00 */ NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL I8x16Swizzle I8x16Splat
    /* 0x10 */ I16x8Splat I32x4Splat I64x2Splat F32x4Splat F64x2Splat NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL
    /* 0x20 */ NIL NIL NIL I8x16Eq I8x16Ne I8x16LtS I8x16LtU I8x16GtS I8x16GtU I8x16LeS I8x16LeU I8x16GeS I8x16GeU I16x8Eq I16x8Ne I16x8LtS
    /* 0x30 */ I16x8LtU I16x8GtS I16x8GtU I16x8LeS I16x8LeU I16x8GeS I16x8GeU I32x4Eq I32x4Ne I32x4LtS I32x4LtU I32x4GtS I32x4GtU I32x4LeS I32x4LeU I32x4GeS
    /* 0x40 */ I32x4GeU F32x4Eq F32x4Ne F32x4Lt F32x4Gt F32x4Le F32x4Ge F64x2Eq F64x2Ne F64x2Lt F64x2Gt F64x2Le F64x2Ge V128Not V128And V128AndNot
    /* 0x50 */ V128Or V128Xor V128Bitselect V128AnyTrue NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL F32x4DemoteF64x2Zero F64x2PromoteLowF32x4
    /* 0x60 */ I8x16Abs I8x16Neg I8x16Popcnt I8x16AllTrue I8x16Bitmask I8x16NarrowI16x8S I8x16NarrowI16x8U F32x4Ceil F32x4Floor F32x4Trunc F32x4Nearest I8x16Shl I8x16ShrS I8x16ShrU I8x16Add I8x16AddSatS
    /* 0x70 */ I8x16AddSatU I8x16Sub I8x16SubSatS I8x16SubSatU F64x2Ceil F64x2Floor I8x16MinS I8x16MinU I8x16MaxS I8x16MaxU F64x2Trunc I8x16AvgrU I16x8ExtaddPairwiseI8x16S I16x8ExtaddPairwiseI8x16U I32x4ExtaddPairwiseI16x8S I32x4ExtaddPairwiseI16x8U
    /* 0x80 */ I16x8Abs I16x8Neg I16x8Q15MulrSatS I16x8AllTrue I16x8Bitmask I16x8NarrowI32x4S I16x8NarrowI32x4U I16x8ExtendLowI8x16S I16x8ExtendHighI8x16S I16x8ExtendLowI8x16U I16x8ExtendHighI8x16U I16x8Shl I16x8ShrS I16x8ShrU I16x8Add I16x8AddSatS
    /* 0x90 */ I16x8AddSatU I16x8Sub I16x8SubSatS I16x8SubSatU F64x2Nearest I16x8Mul I16x8MinS I16x8MinU I16x8MaxS I16x8MaxU NIL I16x8AvgrU I16x8ExtmulLowI8x16S I16x8ExtmulHighI8x16S I16x8ExtmulLowI8x16U I16x8ExtmulHighI8x16U
    /* 0xA0 */ I32x4Abs I32x4Neg NIL I32x4AllTrue I32x4Bitmask NIL NIL I32x4ExtendLowI16x8S I32x4ExtendHighI16x8S I32x4ExtendLowI16x8U I32x4ExtendHighI16x8U I32x4Shl I32x4ShrS I32x4ShrU I32x4Add NIL
    /* 0xB0 */ NIL I32x4Sub NIL NIL NIL I32x4Mul I32x4MinS I32x4MinU I32x4MaxS I32x4MaxU I32x4DotI16x8S NIL I32x4ExtmulLowI16x8S I32x4ExtmulHighI16x8S I32x4ExtmulLowI16x8U I32x4ExtmulHighI16x8U
    /* 0xC0 */ I64x2Abs I64x2Neg NIL I64x2AllTrue I64x2Bitmask NIL NIL I64x2ExtendLowI32x4S I64x2ExtendHighI32x4S I64x2ExtendLowI32x4U I64x2ExtendHighI32x4U I64x2Shl I64x2ShrS I64x2ShrU I64x2Add NIL
    /* 0xD0 */ NIL I64x2Sub NIL NIL NIL I64x2Mul I64x2Eq I64x2Ne I64x2LtS I64x2GtS I64x2LeS I64x2GeS I64x2ExtmulLowI32x4S I64x2ExtmulHighI32x4S I64x2ExtmulLowI32x4U I64x2ExtmulHighI32x4U
    /* 0xE0 */ F32x4Abs F32x4Neg NIL F32x4Sqrt F32x4Add F32x4Sub F32x4Mul F32x4Div F32x4Min F32x4Max F32x4PMin F32x4PMax F64x2Abs F64x2Neg NIL F64x2Sqrt
    /* 0xF0 */ F64x2Add F64x2Sub F64x2Mul F64x2Div F64x2Min F64x2Max F64x2PMin F64x2PMax I32x4TruncSatF32x4S I32x4TruncSatF32x4U F32x4ConvertI32x4S F32x4ConvertI32x4U I32x4TruncSatF64x2SZero I32x4TruncSatF64x2UZero F64x2ConvertLowI32x4S F64x2ConvertLowI32x4U
    /* 0x100*/ I8x16RelaxedSwizzle I32x4RelaxedTruncF32x4S I32x4RelaxedTruncF32x4U I32x4RelaxedTruncF64x2SZero I32x4RelaxedTruncF64x2UZero F32x4RelaxedMAdd F32x4RelaxedNMAdd F64x2RelaxedMAdd F64x2RelaxedNMAdd I8x16RelaxedLaneSelect I16x8RelaxedLaneSelect I32x4RelaxedLaneSelect I64x2RelaxedLaneSelect F32x4RelaxedMin F32x4RelaxedMax F64x2RelaxedMin
    /* 0x110*/ F64x2RelaxedMax I16x8RelaxedQ15MulrS I16x8RelaxedDotSI8x16 I32x4RelaxedDotAddSI16x8
    ]
};
