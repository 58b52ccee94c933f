//! The engine's own, pre-decoded form of the LLVM IR.  Aggregates and vectors
//! are flattened to one register per scalar leaf while loading.
use std::collections::HashMap;

#[derive(Debug, Clone, Copy)]
pub enum Op {
    Reg(u32),
    C(u64),
    /// Wide constant (index into `Module::wide`).
    W(u32),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FBinOp { Add, Sub, Mul, Div, Rem }
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CastOp { Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RmwOp { Xchg, Add, Sub, And, Nand, Or, Xor, Max, Min, UMax, UMin }

#[derive(Debug, Clone)]
pub enum Callee { Fn(u32), Ind(Op), Asm(String) }

#[derive(Debug, Clone)]
pub enum Inst {
    Bin { op: BinOp, w: u32, a: Op, b: Op, dst: u32 },
    FBin { op: FBinOp, w: u32, a: Op, b: Op, dst: u32 },
    FNeg { w: u32, a: Op, dst: u32 },
    ICmp { pred: Pred, w: u32, a: Op, b: Op, dst: u32 },
    FCmp { pred: u32, w: u32, a: Op, b: Op, dst: u32 },
    Cast { op: CastOp, fw: u32, tw: u32, a: Op, dst: u32 },
    /// Bit cast between lists of scalars (little endian, first is lowest).
    Bits { src: Vec<(Op, u32)>, dst: Vec<(u32, u32)> },
    Select { c: Op, a: Op, b: Op, w: u32, dst: u32 },
    Gep { base: Op, off: i64, terms: Vec<(Op, u32, i64)>, dst: u32 },
    Load { p: Op, off: i64, w: u32, dst: u32 },
    Store { v: Op, p: Op, off: i64, w: u32 },
    Alloca { size: u64, n: Op, dst: u32 },
    DynExtract { v: Vec<Op>, i: Op, w: u32, dst: u32 },
    DynInsert { v: Vec<Op>, x: Op, i: Op, w: u32, dst: u32 },
    Copy { a: Op, dst: u32 },
    Rmw { op: RmwOp, p: Op, v: Op, w: u32, dst: u32 },
    CmpXchg { p: Op, cmp: Op, new: Op, w: u32, dst: u32 },
    Call { f: Callee, args: Vec<Op>, aw: Vec<u32>, dst: u32, nret: u32, rw: u32, normal: u32 },
    Br { e: u32 },
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, w: u32, cases: Vec<(u128, u32)>, map: HashMap<u64, u32>, default: u32 },
    Ret { v: Vec<Op> },
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Debug, Clone, Default)]
pub struct Edge { pub target: u32, pub moves: Vec<(u32, Op)> }

#[derive(Debug, Clone, Default)]
pub struct Func {
    pub name: String,
    pub nargs: u32,
    pub nregs: u32,
    /// Start of each block in `insts`.
    pub blocks: Vec<u32>,
    pub insts: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub is_decl: bool,
    pub weak: bool,
}

#[derive(Debug, Clone)]
pub struct Global {
    pub name: String,
    pub data: Vec<u8>,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub fnames: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gnames: HashMap<String, u32>,
    pub wide: Vec<(u128, u32)>,
}

/// Each memory object has its own 4 GiB slot of the address space: the upper
/// 32 bits of an address name the object, the lower 32 are the offset in it.
/// Slot 0 is never mapped.
pub const FN_BASE: u64 = 0x4000_0000;
pub fn global_addr(i: u32) -> u64 { ((i as u64) + 1) << 32 }
pub fn fn_addr(i: u32) -> u64 { (FN_BASE + i as u64) << 32 }

pub fn mask(w: u32) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }
pub fn mask128(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}
