//! Loads LLVM bitcode (through the LLVM that ships with the Rust toolchain) and
//! decodes it to the engine's IR.
use crate::ir::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_longlong, c_void, CStr, CString};

type V = *mut c_void; // value
type T = *mut c_void; // type
type BB = *mut c_void;
type P = *mut c_void;

#[allow(dead_code)]
extern "C" {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithContentsOfFile(path: *const c_char, out: *mut P, msg: *mut *mut c_char) -> c_int;
    fn LLVMParseBitcodeInContext2(ctx: P, buf: P, out: *mut P) -> c_int;
    fn LLVMGetFirstFunction(m: P) -> V;
    fn LLVMGetNextFunction(f: V) -> V;
    fn LLVMGetFirstGlobal(m: P) -> V;
    fn LLVMGetNextGlobal(f: V) -> V;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMGetValueName2(v: V, len: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: V) -> c_int;
    fn LLVMGetLinkage(v: V) -> c_int;
    fn LLVMGetInitializer(v: V) -> V;
    fn LLVMIsGlobalConstant(v: V) -> c_int;
    fn LLVMGlobalGetValueType(v: V) -> T;
    fn LLVMCountParams(f: V) -> c_uint;
    fn LLVMGetParam(f: V, i: c_uint) -> V;
    fn LLVMGetFirstBasicBlock(f: V) -> BB;
    fn LLVMGetNextBasicBlock(b: BB) -> BB;
    fn LLVMGetFirstInstruction(b: BB) -> V;
    fn LLVMGetNextInstruction(i: V) -> V;
    fn LLVMGetInstructionOpcode(i: V) -> c_int;
    fn LLVMTypeOf(v: V) -> T;
    fn LLVMGetTypeKind(t: T) -> c_int;
    fn LLVMGetIntTypeWidth(t: T) -> c_uint;
    fn LLVMCountStructElementTypes(t: T) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: T, i: c_uint) -> T;
    fn LLVMGetElementType(t: T) -> T;
    fn LLVMGetArrayLength2(t: T) -> u64;
    fn LLVMGetVectorSize(t: T) -> c_uint;
    fn LLVMABISizeOfType(td: P, t: T) -> c_ulonglong;
    fn LLVMStoreSizeOfType(td: P, t: T) -> c_ulonglong;
    fn LLVMOffsetOfElement(td: P, t: T, i: c_uint) -> c_ulonglong;
    fn LLVMGetNumOperands(v: V) -> c_int;
    fn LLVMGetOperand(v: V, i: c_uint) -> V;
    fn LLVMIsAConstantInt(v: V) -> V;
    fn LLVMIsAConstantFP(v: V) -> V;
    fn LLVMIsAConstantPointerNull(v: V) -> V;
    fn LLVMIsAConstantAggregateZero(v: V) -> V;
    fn LLVMIsAConstantExpr(v: V) -> V;
    fn LLVMIsAConstantArray(v: V) -> V;
    fn LLVMIsAConstantStruct(v: V) -> V;
    fn LLVMIsAConstantVector(v: V) -> V;
    fn LLVMIsAConstantDataArray(v: V) -> V;
    fn LLVMIsAConstantDataVector(v: V) -> V;
    fn LLVMIsAConstant(v: V) -> V;
    fn LLVMIsAFunction(v: V) -> V;
    fn LLVMIsAGlobalVariable(v: V) -> V;
    fn LLVMIsAGlobalAlias(v: V) -> V;
    fn LLVMIsAInlineAsm(v: V) -> V;
    fn LLVMIsUndef(v: V) -> c_int;
    fn LLVMAliasGetAliasee(v: V) -> V;
    fn LLVMConstIntGetZExtValue(v: V) -> c_ulonglong;
    fn LLVMConstIntGetSExtValue(v: V) -> c_longlong;
    fn LLVMConstRealGetDouble(v: V, loses: *mut c_int) -> f64;
    fn LLVMGetConstOpcode(v: V) -> c_int;
    fn LLVMGetRawDataValues(v: V, len: *mut usize) -> *const c_char;
    fn LLVMPrintValueToString(v: V) -> *mut c_char;
    fn LLVMDisposeMessage(s: *mut c_char);
    fn LLVMGetAggregateElement(v: V, i: c_uint) -> V;
    fn LLVMGetGEPSourceElementType(v: V) -> T;
    fn LLVMGetAllocatedType(v: V) -> T;
    fn LLVMGetICmpPredicate(v: V) -> c_int;
    fn LLVMGetFCmpPredicate(v: V) -> c_int;
    fn LLVMGetNumIndices(v: V) -> c_uint;
    fn LLVMGetIndices(v: V) -> *const c_uint;
    fn LLVMGetNumMaskElements(v: V) -> c_uint;
    fn LLVMGetMaskValue(v: V, i: c_uint) -> c_int;
    fn LLVMCountIncoming(v: V) -> c_uint;
    fn LLVMGetIncomingValue(v: V, i: c_uint) -> V;
    fn LLVMGetIncomingBlock(v: V, i: c_uint) -> BB;
    fn LLVMGetNumArgOperands(v: V) -> c_uint;
    fn LLVMGetCalledValue(v: V) -> V;
    fn LLVMGetInlineAsmAsmString(v: V, len: *mut usize) -> *const c_char;
    fn LLVMGetNormalDest(v: V) -> BB;
    fn LLVMGetNumSuccessors(v: V) -> c_uint;
    fn LLVMGetSuccessor(v: V, i: c_uint) -> BB;
    fn LLVMGetSwitchCaseValue(v: V, i: c_uint) -> V;
    fn LLVMGetAtomicRMWBinOp(v: V) -> c_int;
    fn LLVMGetFirstUse(v: V) -> P;
}

const EXTERNAL_WEAK: c_int = 12;

/// A flattened type: scalar leaves with their byte offset and bit width.
#[derive(Clone)]
struct Flat { leaves: Vec<(u64, u32)>, ok: bool }

struct Loader {
    td: P,
    fidx: HashMap<usize, u32>,
    gidx: HashMap<usize, u32>,
    flat: HashMap<usize, std::rc::Rc<Flat>>,
    wide: Vec<(u128, u32)>,
    weakf: Vec<bool>,
}

unsafe fn vname(v: V) -> String {
    let mut n = 0usize;
    let p = LLVMGetValueName2(v, &mut n);
    String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned()
}
unsafe fn printed(v: V) -> String {
    let p = LLVMPrintValueToString(v);
    let s = CStr::from_ptr(p).to_string_lossy().into_owned();
    LLVMDisposeMessage(p);
    s
}

impl Loader {
    unsafe fn scalar_bits(&self, t: T) -> Option<u32> {
        match LLVMGetTypeKind(t) {
            8 => Some(LLVMGetIntTypeWidth(t)),
            12 => Some(64),
            2 => Some(32),
            3 => Some(64),
            _ => None,
        }
    }
    unsafe fn flat(&mut self, t: T) -> std::rc::Rc<Flat> {
        if let Some(f) = self.flat.get(&(t as usize)) { return f.clone(); }
        let mut out = Flat { leaves: vec![], ok: true };
        self.flatten(t, 0, &mut out);
        let r = std::rc::Rc::new(out);
        self.flat.insert(t as usize, r.clone());
        r
    }
    unsafe fn flatten(&mut self, t: T, off: u64, out: &mut Flat) {
        if let Some(w) = self.scalar_bits(t) { out.leaves.push((off, w)); return; }
        match LLVMGetTypeKind(t) {
            0 => {}
            10 => for i in 0..LLVMCountStructElementTypes(t) {
                let o = LLVMOffsetOfElement(self.td, t, i);
                self.flatten(LLVMStructGetTypeAtIndex(t, i), off + o, out);
            },
            11 => {
                let e = LLVMGetElementType(t);
                let s = LLVMABISizeOfType(self.td, e);
                let n = LLVMGetArrayLength2(t);
                if n > 4096 { out.ok = false; return; }
                for i in 0..n { self.flatten(e, off + i * s, out); }
            }
            13 => {
                let e = LLVMGetElementType(t);
                let w = match self.scalar_bits(e) { Some(w) => w, None => { out.ok = false; return } };
                for i in 0..LLVMGetVectorSize(t) as u64 {
                    // sub-byte lanes have no byte offset (only used in registers).
                    out.leaves.push((off + i * (w as u64 / 8), w));
                }
            }
            _ => out.ok = false,
        }
    }
    /// First leaf and leaf count of the element at `path`.
    unsafe fn path(&mut self, mut t: T, path: &[u32]) -> (u32, u32) {
        let mut first = 0u32;
        for &i in path {
            match LLVMGetTypeKind(t) {
                10 => {
                    for j in 0..i { first += self.flat(LLVMStructGetTypeAtIndex(t, j)).leaves.len() as u32; }
                    t = LLVMStructGetTypeAtIndex(t, i);
                }
                _ => {
                    let e = LLVMGetElementType(t);
                    first += i * self.flat(e).leaves.len() as u32;
                    t = e;
                }
            }
        }
        (first, self.flat(t).leaves.len() as u32)
    }

    unsafe fn int128(&self, v: V, w: u32) -> u128 {
        if w <= 64 { return LLVMConstIntGetZExtValue(v) as u128; }
        let s = printed(v);
        let n = s.rsplit(' ').next().unwrap().to_string();
        if let Some(h) = n.strip_prefix("u0x") { return u128::from_str_radix(h, 16).unwrap(); }
        let x: i128 = n.parse().unwrap_or_else(|_| panic!("bad wide constant {}", s));
        (x as u128) & mask128(w)
    }

    /// Scalar constant to its bits.
    unsafe fn cscalar(&mut self, v: V) -> Result<u128, String> {
        let t = LLVMTypeOf(v);
        let w = self.scalar_bits(t).ok_or("not a scalar")?;
        if !LLVMIsAConstantInt(v).is_null() { return Ok(self.int128(v, w)); }
        if LLVMIsUndef(v) != 0 || !LLVMIsAConstantPointerNull(v).is_null() { return Ok(0); }
        if !LLVMIsAConstantFP(v).is_null() {
            let mut l = 0;
            let d = LLVMConstRealGetDouble(v, &mut l);
            return Ok(if w == 32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 });
        }
        if !LLVMIsAFunction(v).is_null() {
            let i = self.fidx[&(v as usize)];
            if self.weakf[i as usize] { return Ok(0); }
            return Ok(fn_addr(i) as u128);
        }
        if !LLVMIsAGlobalVariable(v).is_null() { return Ok(global_addr(self.gidx[&(v as usize)]) as u128); }
        if !LLVMIsAGlobalAlias(v).is_null() { return self.cscalar(LLVMAliasGetAliasee(v)); }
        if !LLVMIsAConstantExpr(v).is_null() {
            let op = LLVMGetConstOpcode(v);
            return match op {
                29 => {
                    let (off, terms) = self.gep(v, &mut |l, x| l.cscalar(x).map(|c| Op::C(c as u64)))?;
                    let base = self.cscalar(LLVMGetOperand(v, 0))? as u64;
                    let mut a = base.wrapping_add(off as u64);
                    for (o, w, s) in terms {
                        if let Op::C(c) = o { a = a.wrapping_add((sext64(c, w)).wrapping_mul(s) as u64) }
                    }
                    Ok(a as u128)
                }
                39 | 40 | 41 | 60 | 30 => Ok(self.cscalar(LLVMGetOperand(v, 0))? & mask128(w)),
                8 | 10 | 25 => {
                    let a = self.cscalar(LLVMGetOperand(v, 0))?;
                    let b = self.cscalar(LLVMGetOperand(v, 1))?;
                    Ok(match op { 8 => a.wrapping_add(b), 10 => a.wrapping_sub(b), _ => a ^ b } & mask128(w))
                }
                _ => Err(format!("constant expression {}", printed(v))),
            };
        }
        Err(format!("constant {}", printed(v)))
    }

    /// (constant offset, variable terms) of a GEP instruction or expression.
    #[allow(clippy::type_complexity)]
    unsafe fn gep(&mut self, v: V, f: &mut dyn FnMut(&mut Loader, V) -> Result<Op, String>)
        -> Result<(i64, Vec<(Op, u32, i64)>), String> {
        let n = LLVMGetNumOperands(v) as u32;
        let mut t = LLVMGetGEPSourceElementType(v);
        let mut off = 0i64;
        let mut terms = vec![];
        for i in 1..n {
            let o = LLVMGetOperand(v, i);
            let scale;
            if i == 1 {
                scale = LLVMABISizeOfType(self.td, t) as i64;
            } else {
                match LLVMGetTypeKind(t) {
                    10 => {
                        let k = LLVMConstIntGetZExtValue(o) as u32;
                        off += LLVMOffsetOfElement(self.td, t, k) as i64;
                        t = LLVMStructGetTypeAtIndex(t, k);
                        continue;
                    }
                    _ => {
                        t = LLVMGetElementType(t);
                        scale = LLVMABISizeOfType(self.td, t) as i64;
                    }
                }
            }
            if !LLVMIsAConstantInt(o).is_null() {
                off = off.wrapping_add(LLVMConstIntGetSExtValue(o).wrapping_mul(scale));
            } else {
                let w = self.scalar_bits(LLVMTypeOf(o)).ok_or("vector gep")?;
                terms.push((f(self, o)?, w, scale));
            }
        }
        Ok((off, terms))
    }

    unsafe fn cflat(&mut self, v: V) -> Result<Vec<(u128, u32)>, String> {
        let t = LLVMTypeOf(v);
        if let Some(w) = self.scalar_bits(t) { return Ok(vec![(self.cscalar(v)?, w)]); }
        let fl = self.flat(t);
        if !fl.ok { return Err("constant of unsupported type".into()); }
        if LLVMIsUndef(v) != 0 || !LLVMIsAConstantAggregateZero(v).is_null() {
            return Ok(fl.leaves.iter().map(|l| (0, l.1)).collect());
        }
        let n = match LLVMGetTypeKind(t) {
            10 => LLVMCountStructElementTypes(t) as u64,
            11 => LLVMGetArrayLength2(t),
            _ => LLVMGetVectorSize(t) as u64,
        };
        let mut out = vec![];
        for i in 0..n {
            let e = LLVMGetAggregateElement(v, i as u32);
            if e.is_null() { return Err(format!("constant {}", printed(v))); }
            out.extend(self.cflat(e)?);
        }
        Ok(out)
    }

    unsafe fn init(&mut self, v: V, off: usize, out: &mut [u8]) -> Result<(), String> {
        let t = LLVMTypeOf(v);
        if LLVMIsUndef(v) != 0 || !LLVMIsAConstantAggregateZero(v).is_null() { return Ok(()); }
        if let Some(w) = self.scalar_bits(t) {
            let c = self.cscalar(v)?;
            let n = ((w + 7) / 8) as usize;
            out[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
            return Ok(());
        }
        if !LLVMIsAConstantDataArray(v).is_null() || !LLVMIsAConstantDataVector(v).is_null() {
            let mut n = 0usize;
            let p = LLVMGetRawDataValues(v, &mut n);
            out[off..off + n].copy_from_slice(std::slice::from_raw_parts(p as *const u8, n));
            return Ok(());
        }
        match LLVMGetTypeKind(t) {
            10 => for i in 0..LLVMCountStructElementTypes(t) {
                let o = LLVMOffsetOfElement(self.td, t, i) as usize;
                self.init(LLVMGetOperand(v, i), off + o, out)?;
            },
            11 | 13 => {
                let e = LLVMGetElementType(t);
                let s = LLVMABISizeOfType(self.td, e) as usize;
                let n = if LLVMGetTypeKind(t) == 11 { LLVMGetArrayLength2(t) } else { LLVMGetVectorSize(t) as u64 };
                for i in 0..n as usize { self.init(LLVMGetOperand(v, i as u32), off + i * s, out)?; }
            }
            _ => return Err("initialiser type".into()),
        }
        Ok(())
    }
}

struct FnCtx { regs: HashMap<usize, (u32, u32)>, blocks: HashMap<usize, u32>, next: u32 }

impl Loader {
    unsafe fn ops(&mut self, fx: &FnCtx, v: V) -> Result<Vec<Op>, String> {
        if let Some(&(b, n)) = fx.regs.get(&(v as usize)) {
            return Ok((b..b + n).map(Op::Reg).collect());
        }
        if LLVMIsAConstant(v).is_null() { return Err(format!("operand {}", printed(v))); }
        let c = self.cflat(v)?;
        Ok(c.into_iter().map(|(c, w)| if w <= 64 { Op::C(c as u64) } else {
            self.wide.push((c, w));
            Op::W(self.wide.len() as u32 - 1)
        }).collect())
    }
    unsafe fn op(&mut self, fx: &FnCtx, v: V) -> Result<Op, String> {
        let o = self.ops(fx, v)?;
        if o.len() == 1 { Ok(o[0]) } else { Err(format!("scalar operand expected: {}", printed(v))) }
    }

    unsafe fn edge(&mut self, fx: &FnCtx, f: &mut Func, from: BB, to: BB) -> Result<u32, String> {
        let mut moves = vec![];
        let mut i = LLVMGetFirstInstruction(to);
        while !i.is_null() && LLVMGetInstructionOpcode(i) == 44 {
            let (dst, n) = fx.regs[&(i as usize)];
            for k in 0..LLVMCountIncoming(i) {
                if LLVMGetIncomingBlock(i, k) == from {
                    let ops = self.ops(fx, LLVMGetIncomingValue(i, k))?;
                    for j in 0..n { moves.push((dst + j, ops[j as usize])); }
                    break;
                }
            }
            i = LLVMGetNextInstruction(i);
        }
        f.edges.push(Edge { target: fx.blocks[&(to as usize)], moves });
        Ok(f.edges.len() as u32 - 1)
    }

    unsafe fn func(&mut self, v: V, f: &mut Func) {
        let mut fx = FnCtx { regs: HashMap::new(), blocks: HashMap::new(), next: 0 };
        for i in 0..LLVMCountParams(v) {
            let p = LLVMGetParam(v, i);
            let n = self.flat(LLVMTypeOf(p)).leaves.len() as u32;
            fx.regs.insert(p as usize, (fx.next, n));
            fx.next += n;
        }
        f.nargs = fx.next;
        let mut b = LLVMGetFirstBasicBlock(v);
        let mut bi = 0;
        while !b.is_null() {
            fx.blocks.insert(b as usize, bi);
            bi += 1;
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                let n = self.flat(LLVMTypeOf(i)).leaves.len() as u32;
                if n > 0 { fx.regs.insert(i as usize, (fx.next, n)); fx.next += n; }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        let mut b = LLVMGetFirstBasicBlock(v);
        while !b.is_null() {
            f.blocks.push(f.insts.len() as u32);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if let Err(e) = self.inst(&mut fx, f, b, i) { f.insts.push(Inst::Unsupported(e)); }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
        f.nregs = fx.next;
    }

    unsafe fn inst(&mut self, fx: &mut FnCtx, f: &mut Func, b: BB, i: V) -> Result<(), String> {
        let opc = LLVMGetInstructionOpcode(i);
        let t = LLVMTypeOf(i);
        let dst = fx.regs.get(&(i as usize)).map(|r| r.0).unwrap_or(u32::MAX);
        let o = |k: u32| LLVMGetOperand(i, k);
        let bin = |opc: c_int| Some(match opc {
            8 => BinOp::Add, 10 => BinOp::Sub, 12 => BinOp::Mul, 14 => BinOp::UDiv, 15 => BinOp::SDiv,
            17 => BinOp::URem, 18 => BinOp::SRem, 20 => BinOp::Shl, 21 => BinOp::LShr, 22 => BinOp::AShr,
            23 => BinOp::And, 24 => BinOp::Or, 25 => BinOp::Xor, _ => return None });
        match opc {
            44 => {}
            1 => {
                let v = if LLVMGetNumOperands(i) > 0 { self.ops(fx, o(0))? } else { vec![] };
                f.insts.push(Inst::Ret { v });
            }
            3 => {
                let n = LLVMGetNumSuccessors(i);
                let v = self.op(fx, o(0))?;
                let w = self.scalar_bits(LLVMTypeOf(o(0))).unwrap();
                let default = self.edge(fx, f, b, LLVMGetSuccessor(i, 0))?;
                let mut by: HashMap<usize, u32> = HashMap::new();
                let mut cases = vec![];
                for k in 1..n {
                    let s = LLVMGetSuccessor(i, k);
                    let e = match by.get(&(s as usize)) { Some(&e) => e, None => {
                        let e = self.edge(fx, f, b, s)?; by.insert(s as usize, e); e } };
                    let c = self.int128(LLVMGetSwitchCaseValue(i, k), w);
                    cases.push((c, e));
                }
                let map = cases.iter().map(|c| (c.0 as u64, c.1)).collect();
                f.insts.push(Inst::Switch { v, w, cases, map, default });
            }
            7 => f.insts.push(Inst::Unreachable),
            5 | 45 => {
                let n = LLVMGetNumArgOperands(i);
                let cv = LLVMGetCalledValue(i);
                let normal = if opc == 5 { self.edge(fx, f, b, LLVMGetNormalDest(i))? } else { u32::MAX };
                let callee = if !LLVMIsAFunction(cv).is_null() {
                    let k = self.fidx[&(cv as usize)];
                    let nm = vname(cv);
                    if nm.starts_with("llvm.dbg") || nm.starts_with("llvm.lifetime")
                        || nm.starts_with("llvm.experimental.noalias") || nm == "llvm.assume" {
                        return Ok(());
                    }
                    Callee::Fn(k)
                } else if !LLVMIsAInlineAsm(cv).is_null() {
                    let mut n = 0;
                    let p = LLVMGetInlineAsmAsmString(cv, &mut n);
                    Callee::Asm(String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned())
                } else { Callee::Ind(self.op(fx, cv)?) };
                let mut args = vec![];
                let mut aw = vec![];
                for k in 0..n {
                    let a = o(k);
                    if LLVMGetTypeKind(LLVMTypeOf(a)) == 14 { args.push(Op::C(0)); aw.push(64); continue; }
                    let fl = self.flat(LLVMTypeOf(a));
                    args.extend(self.ops(fx, a)?);
                    aw.extend(fl.leaves.iter().map(|l| l.1));
                }
                let fl = self.flat(t);
                let rw = fl.leaves.first().map(|l| l.1).unwrap_or(0);
                f.insts.push(Inst::Call { f: callee, args, aw, dst, nret: fl.leaves.len() as u32, rw, normal });
            }
            26 => {
                let size = LLVMABISizeOfType(self.td, LLVMGetAllocatedType(i));
                let n = self.op(fx, o(0))?;
                f.insts.push(Inst::Alloca { size, n, dst });
            }
            27 => {
                let p = self.op(fx, o(0))?;
                let fl = self.flat(t);
                if !fl.ok { return Err("load type".into()); }
                self.check_mem(t)?;
                for (k, l) in fl.leaves.iter().enumerate() {
                    f.insts.push(Inst::Load { p, off: l.0 as i64, w: l.1, dst: dst + k as u32 });
                }
            }
            28 => {
                let vs = self.ops(fx, o(0))?;
                let p = self.op(fx, o(1))?;
                let vt = LLVMTypeOf(o(0));
                self.check_mem(vt)?;
                let fl = self.flat(vt);
                if !fl.ok { return Err("store type".into()); }
                for (k, l) in fl.leaves.iter().enumerate() {
                    f.insts.push(Inst::Store { v: vs[k], p, off: l.0 as i64, w: l.1 });
                }
            }
            29 => {
                if self.scalar_bits(t).is_none() { return Err("vector gep".into()); }
                let base = self.op(fx, o(0))?;
                let fx2: &FnCtx = fx;
                let (off, terms) = self.gep(i, &mut |l, v| l.op(fx2, v))?;
                f.insts.push(Inst::Gep { base, off, terms, dst });
            }
            30..=38 => {
                let op = match opc { 30 => CastOp::Trunc, 31 => CastOp::ZExt, 32 => CastOp::SExt, 33 => CastOp::FPToUI,
                    34 => CastOp::FPToSI, 35 => CastOp::UIToFP, 36 => CastOp::SIToFP, 37 => CastOp::FPTrunc, _ => CastOp::FPExt };
                let a = self.ops(fx, o(0))?;
                let fa = self.flat(LLVMTypeOf(o(0)));
                let ft = self.flat(t);
                for k in 0..a.len() {
                    f.insts.push(Inst::Cast { op, fw: fa.leaves[k].1, tw: ft.leaves[k].1, a: a[k], dst: dst + k as u32 });
                }
            }
            39 | 40 | 41 | 60 | 69 => {
                let a = self.ops(fx, o(0))?;
                let fa = self.flat(LLVMTypeOf(o(0)));
                let ft = self.flat(t);
                if a.len() == 1 && ft.leaves.len() == 1 {
                    if fa.leaves[0].1 == ft.leaves[0].1 { f.insts.push(Inst::Copy { a: a[0], dst }); }
                    else {
                        let op = if fa.leaves[0].1 > ft.leaves[0].1 { CastOp::Trunc } else { CastOp::ZExt };
                        f.insts.push(Inst::Cast { op, fw: fa.leaves[0].1, tw: ft.leaves[0].1, a: a[0], dst });
                    }
                } else {
                    let src = a.iter().zip(fa.leaves.iter()).map(|(a, l)| (*a, l.1)).collect();
                    let d = ft.leaves.iter().enumerate().map(|(k, l)| (dst + k as u32, l.1)).collect();
                    f.insts.push(Inst::Bits { src, dst: d });
                }
            }
            42 => {
                let pred = match LLVMGetICmpPredicate(i) { 32 => Pred::Eq, 33 => Pred::Ne, 34 => Pred::Ugt, 35 => Pred::Uge,
                    36 => Pred::Ult, 37 => Pred::Ule, 38 => Pred::Sgt, 39 => Pred::Sge, 40 => Pred::Slt, _ => Pred::Sle };
                let a = self.ops(fx, o(0))?;
                let c = self.ops(fx, o(1))?;
                let fl = self.flat(LLVMTypeOf(o(0)));
                for k in 0..a.len() {
                    f.insts.push(Inst::ICmp { pred, w: fl.leaves[k].1, a: a[k], b: c[k], dst: dst + k as u32 });
                }
            }
            43 => {
                let a = self.op(fx, o(0))?;
                let c = self.op(fx, o(1))?;
                let w = self.scalar_bits(LLVMTypeOf(o(0))).ok_or("vector fcmp")?;
                f.insts.push(Inst::FCmp { pred: LLVMGetFCmpPredicate(i) as u32, w, a, b: c, dst });
            }
            46 => {
                let c = self.ops(fx, o(0))?;
                let x = self.ops(fx, o(1))?;
                let y = self.ops(fx, o(2))?;
                let fl = self.flat(t);
                for k in 0..x.len() {
                    let c = if c.len() == 1 { c[0] } else { c[k] };
                    f.insts.push(Inst::Select { c, a: x[k], b: y[k], w: fl.leaves[k].1, dst: dst + k as u32 });
                }
            }
            50 | 51 => {
                let v = self.ops(fx, o(0))?;
                let fl = self.flat(LLVMTypeOf(o(0)));
                let w = fl.leaves[0].1;
                if opc == 50 {
                    let ix = self.op(fx, o(1))?;
                    match ix {
                        Op::C(k) => f.insts.push(Inst::Copy { a: v[k as usize], dst }),
                        i => f.insts.push(Inst::DynExtract { v, i, w, dst }),
                    }
                } else {
                    let x = self.op(fx, o(1))?;
                    let ix = self.op(fx, o(2))?;
                    match ix {
                        Op::C(n) => for k in 0..v.len() {
                            f.insts.push(Inst::Copy { a: if k as u64 == n { x } else { v[k] }, dst: dst + k as u32 });
                        },
                        i => f.insts.push(Inst::DynInsert { v, x, i, w, dst }),
                    }
                }
            }
            52 => {
                let mut v = self.ops(fx, o(0))?;
                v.extend(self.ops(fx, o(1))?);
                for k in 0..LLVMGetNumMaskElements(i) {
                    let m = LLVMGetMaskValue(i, k);
                    let a = if m < 0 { Op::C(0) } else { v[m as usize] };
                    f.insts.push(Inst::Copy { a, dst: dst + k });
                }
            }
            53 => {
                let v = self.ops(fx, o(0))?;
                let path = std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec();
                let (first, n) = self.path(LLVMTypeOf(o(0)), &path);
                for k in 0..n { f.insts.push(Inst::Copy { a: v[(first + k) as usize], dst: dst + k }); }
            }
            54 => {
                let v = self.ops(fx, o(0))?;
                let x = self.ops(fx, o(1))?;
                let path = std::slice::from_raw_parts(LLVMGetIndices(i), LLVMGetNumIndices(i) as usize).to_vec();
                let (first, n) = self.path(LLVMTypeOf(o(0)), &path);
                for k in 0..v.len() as u32 {
                    let a = if k >= first && k < first + n { x[(k - first) as usize] } else { v[k as usize] };
                    f.insts.push(Inst::Copy { a, dst: dst + k });
                }
            }
            68 => {
                let v = self.ops(fx, o(0))?;
                for (k, a) in v.into_iter().enumerate() { f.insts.push(Inst::Copy { a, dst: dst + k as u32 }); }
            }
            55 => {}
            56 => {
                let (p, cmp, new) = (self.op(fx, o(0))?, self.op(fx, o(1))?, self.op(fx, o(2))?);
                let w = self.scalar_bits(LLVMTypeOf(o(1))).unwrap();
                f.insts.push(Inst::CmpXchg { p, cmp, new, w, dst });
            }
            57 => {
                let op = match LLVMGetAtomicRMWBinOp(i) { 0 => RmwOp::Xchg, 1 => RmwOp::Add, 2 => RmwOp::Sub, 3 => RmwOp::And,
                    4 => RmwOp::Nand, 5 => RmwOp::Or, 6 => RmwOp::Xor, 7 => RmwOp::Max, 8 => RmwOp::Min, 9 => RmwOp::UMax,
                    10 => RmwOp::UMin, _ => return Err("atomicrmw".into()) };
                let (p, v) = (self.op(fx, o(0))?, self.op(fx, o(1))?);
                let w = self.scalar_bits(LLVMTypeOf(o(1))).unwrap();
                f.insts.push(Inst::Rmw { op, p, v, w, dst });
            }
            9 | 11 | 13 | 16 | 19 => {
                let op = match opc { 9 => FBinOp::Add, 11 => FBinOp::Sub, 13 => FBinOp::Mul, 16 => FBinOp::Div, _ => FBinOp::Rem };
                let w = self.scalar_bits(t).ok_or("vector fp")?;
                f.insts.push(Inst::FBin { op, w, a: self.op(fx, o(0))?, b: self.op(fx, o(1))?, dst });
            }
            66 => f.insts.push(Inst::FNeg { w: self.scalar_bits(t).ok_or("vector fp")?, a: self.op(fx, o(0))?, dst }),
            58 | 59 => return Err("landing pad".into()),
            opc if bin(opc).is_some() => {
                let a = self.ops(fx, o(0))?;
                let c = self.ops(fx, o(1))?;
                let fl = self.flat(t);
                for k in 0..a.len() {
                    f.insts.push(Inst::Bin { op: bin(opc).unwrap(), w: fl.leaves[k].1, a: a[k], b: c[k], dst: dst + k as u32 });
                }
            }
            _ if LLVMGetNumSuccessors_safe(i) == 1 => {
                let e = self.edge(fx, f, b, LLVMGetSuccessor(i, 0))?;
                f.insts.push(Inst::Br { e });
            }
            _ if LLVMGetNumSuccessors_safe(i) == 2 => {
                let c = self.op(fx, o(0))?;
                let t = self.edge(fx, f, b, LLVMGetSuccessor(i, 0))?;
                let e = self.edge(fx, f, b, LLVMGetSuccessor(i, 1))?;
                f.insts.push(Inst::CondBr { c, t, f: e });
            }
            _ => return Err(format!("opcode {} {}", opc, printed(i))),
        }
        Ok(())
    }

    unsafe fn check_mem(&mut self, t: T) -> Result<(), String> {
        if LLVMGetTypeKind(t) == 13 {
            let w = self.scalar_bits(LLVMGetElementType(t)).unwrap_or(1);
            if w % 8 != 0 { return Err("bit vector in memory".into()); }
        }
        Ok(())
    }
}

#[allow(non_snake_case)]
unsafe fn LLVMGetNumSuccessors_safe(i: V) -> u32 {
    extern "C" { fn LLVMIsATerminatorInst(v: V) -> V; }
    if LLVMIsATerminatorInst(i).is_null() { 0 } else { LLVMGetNumSuccessors(i) }
}

pub fn load(path: &str) -> Result<Module, String> {
    unsafe {
        let ctx = LLVMContextCreate();
        let cpath = CString::new(path).unwrap();
        let mut buf = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        if LLVMCreateMemoryBufferWithContentsOfFile(cpath.as_ptr(), &mut buf, &mut msg) != 0 {
            return Err(format!("cannot read {}", path));
        }
        let mut m = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 { return Err(format!("cannot parse {}", path)); }
        let mut l = Loader { td: LLVMGetModuleDataLayout(m), fidx: HashMap::new(), gidx: HashMap::new(),
            flat: HashMap::new(), wide: vec![], weakf: vec![] };
        let mut fs = vec![];
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            l.fidx.insert(f as usize, fs.len() as u32);
            l.weakf.push(LLVMIsDeclaration(f) != 0 && LLVMGetLinkage(f) == EXTERNAL_WEAK);
            fs.push(f);
            f = LLVMGetNextFunction(f);
        }
        let mut gs = vec![];
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() {
            l.gidx.insert(g as usize, gs.len() as u32);
            gs.push(g);
            g = LLVMGetNextGlobal(g);
        }
        let mut globals = vec![];
        let mut gnames = HashMap::new();
        for &g in &gs {
            let t = LLVMGlobalGetValueType(g);
            let size = if LLVMIsDeclaration(g) != 0 { 8 } else { LLVMABISizeOfType(l.td, t) as usize };
            let mut data = vec![0u8; size];
            let name = vname(g);
            let ini = if LLVMIsDeclaration(g) != 0 { std::ptr::null_mut() } else { LLVMGetInitializer(g) };
            if !ini.is_null() {
                if let Err(e) = l.init(ini, 0, &mut data) { return Err(format!("global {}: {}", name, e)); }
            }
            gnames.insert(name.clone(), globals.len() as u32);
            globals.push(Global { name, data, constant: LLVMIsGlobalConstant(g) != 0 });
        }
        let mut funcs = vec![];
        let mut fnames = HashMap::new();
        for (i, &f) in fs.iter().enumerate() {
            let name = vname(f);
            fnames.insert(name.clone(), i as u32);
            let decl = LLVMIsDeclaration(f) != 0;
            let mut func = Func { name, is_decl: decl, weak: l.weakf[i], ..Default::default() };
            if decl { func.nargs = LLVMCountParams(f) } else { l.func(f, &mut func) }
            funcs.push(func);
        }
        Ok(Module { funcs, fnames, globals, gnames, wide: l.wide })
    }
}
