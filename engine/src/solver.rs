//! SMT back end (z3) for path conditions.
use crate::expr::*;
use crate::ir::{BinOp, Pred};
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Sol = *mut c_void;

#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_set_param_value(c: *mut c_void, k: *const c_char, v: *const c_char);
    fn Z3_del_config(c: *mut c_void);
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_del_context(c: Ctx);
    fn Z3_mk_simple_solver(c: Ctx) -> Sol;
    fn Z3_mk_solver_for_logic(c: Ctx, s: *mut c_void) -> Sol;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> *mut c_void;
    fn Z3_solver_inc_ref(c: Ctx, s: Sol);
    fn Z3_solver_dec_ref(c: Ctx, s: Sol);
    fn Z3_solver_push(c: Ctx, s: Sol);
    fn Z3_solver_pop(c: Ctx, s: Sol, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Sol, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Sol) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Sol) -> *mut c_void;
    fn Z3_solver_set_params(c: Ctx, s: Sol, p: *mut c_void);
    fn Z3_mk_params(c: Ctx) -> *mut c_void;
    fn Z3_params_inc_ref(c: Ctx, p: *mut c_void);
    fn Z3_params_set_uint(c: Ctx, p: *mut c_void, k: *mut c_void, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_dec_ref(c: Ctx, m: *mut c_void);
    fn Z3_model_eval(c: Ctx, m: *mut c_void, a: Ast, complete: bool, out: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> *mut c_void;
    fn Z3_mk_const(c: Ctx, s: *mut c_void, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_solver_to_string(c: Ctx, s: Sol) -> *const c_char;
}

extern "C" fn on_error(_: Ctx, code: c_int) { panic!("z3 error {}", code); }

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

/// SVX_SLOW=ms: queries that take longer are printed.
fn slow() -> Option<u64> {
    static S: std::sync::OnceLock<Option<u64>> = std::sync::OnceLock::new();
    *S.get_or_init(|| std::env::var("SVX_SLOW").ok().and_then(|s| s.parse().ok()))
}
pub enum Sat { Sat(Vec<u8>), Unsat, Unknown }

pub struct Solver {
    ctx: Ctx,
    sol: Sol,
    bv: Vec<Ast>,
    bools: Vec<Ast>,
    vars: Vec<Ast>,
    sorts: Vec<Sort>,
    made: usize,
    cache: FxMap<Vec<u64>, Option<Vec<(u8, u8)>>>,
    pub queries: u64,
    pub cache_hits: u64,
    pub nanos: u64,
    pub sat: u64,
    pub unsat: u64,
}

impl Solver {
    pub fn new() -> Self {
        let mut s = Solver { ctx: std::ptr::null_mut(), sol: std::ptr::null_mut(), bv: vec![], bools: vec![], vars: vec![],
            sorts: vec![], made: 0, cache: Default::default(), queries: 0, cache_hits: 0, nanos: 0, sat: 0, unsat: 0 };
        s.reset();
        s
    }
    fn reset(&mut self) {
        unsafe {
            if !self.ctx.is_null() {
                Z3_solver_dec_ref(self.ctx, self.sol);
                Z3_del_context(self.ctx);
            }
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(self.ctx, Some(on_error));
            self.sol = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.sol);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), 20000);
            Z3_solver_set_params(self.ctx, self.sol, p);
            self.bv.clear();
            self.bools.clear();
            self.vars.clear();
            self.sorts.clear();
            self.made = 0;
        }
    }
    fn sort(&mut self, w: u32) -> Sort {
        while self.sorts.len() <= w as usize {
            let k = self.sorts.len() as u32;
            self.sorts.push(if k == 0 { std::ptr::null_mut() } else { unsafe { Z3_mk_bv_sort(self.ctx, k) } });
        }
        self.sorts[w as usize]
    }
    fn var(&mut self, i: u8) -> Ast {
        while self.vars.len() <= i as usize {
            let k = self.vars.len() as c_int;
            let s = self.sort(8);
            self.vars.push(unsafe { Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, k), s) });
        }
        self.vars[i as usize]
    }
    fn num(&mut self, c: u128, w: u32) -> Ast {
        let s = self.sort(w);
        unsafe {
            if c >> 64 == 0 { return Z3_mk_unsigned_int64(self.ctx, c as u64, s); }
            let t = CString::new(c.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, t.as_ptr(), s)
        }
    }
    /// Membership of byte `var` in a set, as ranges.
    fn inset(&mut self, var: u8, s: &Set) -> Ast {
        let v = self.var(var);
        let mut parts = vec![];
        let mut i = 0u32;
        while i < 256 {
            if !set_has(s, i as u8) { i += 1; continue; }
            let a = i;
            while i < 256 && set_has(s, i as u8) { i += 1; }
            let b = i - 1;
            unsafe {
                let p = if a == b { let n = self.num(a as u128, 8); Z3_mk_eq(self.ctx, v, n) }
                else if a == 0 && b == 255 { Z3_mk_true(self.ctx) }
                else if a == 0 { let n = self.num(b as u128, 8); Z3_mk_bvule(self.ctx, v, n) }
                else if b == 255 { let n = self.num(a as u128, 8); Z3_mk_bvule(self.ctx, n, v) }
                else {
                    let (lo, hi) = (self.num(a as u128, 8), self.num(b as u128, 8));
                    let q = [Z3_mk_bvule(self.ctx, lo, v), Z3_mk_bvule(self.ctx, v, hi)];
                    Z3_mk_and(self.ctx, 2, q.as_ptr())
                };
                parts.push(p);
            }
        }
        unsafe {
            match parts.len() {
                0 => Z3_mk_false(self.ctx),
                1 => parts[0],
                n => Z3_mk_or(self.ctx, n as u32, parts.as_ptr()),
            }
        }
    }
    fn table(&mut self, var: u8, t: &[u64; 256], w: u32) -> Ast {
        // Runs of x + c.
        let v = self.var(var);
        let mut runs: Vec<(u32, u32, u64, bool)> = vec![]; // lo, hi, c, affine
        let m = crate::ir::mask(w);
        let mut i = 0u32;
        while i < 256 {
            let mut j = i;
            let k = t[i as usize];
            while j + 1 < 256 && t[j as usize + 1] == k { j += 1; }
            let d = k.wrapping_sub(i as u64) & m;
            let mut l = i;
            while l + 1 < 256 && t[l as usize + 1].wrapping_sub(l as u64 + 1) & m == d { l += 1; }
            if l > j { runs.push((i, l, d, true)); i = l + 1; } else { runs.push((i, j, k, false)); i = j + 1; }
        }
        unsafe {
            let wide = if w > 8 { Z3_mk_zero_ext(self.ctx, w - 8, v) } else if w < 8 { Z3_mk_extract(self.ctx, w - 1, 0, v) } else { v };
            let mut acc: Ast = std::ptr::null_mut();
            for (_, hi, c, aff) in runs.into_iter().rev() {
                let n = self.num(c as u128, w);
                let val = if aff { if c == 0 { wide } else { Z3_mk_bvadd(self.ctx, wide, n) } } else { n };
                if acc.is_null() { acc = val; } else {
                    let h = self.num(hi as u128, 8);
                    acc = Z3_mk_ite(self.ctx, Z3_mk_bvule(self.ctx, v, h), val, acc);
                }
            }
            acc
        }
    }
    fn put(v: &mut Vec<Ast>, e: E, a: Ast) -> Ast {
        if v.len() <= e as usize { v.resize(e as usize + 1, std::ptr::null_mut()); }
        v[e as usize] = a;
        a
    }
    /// Boolean translation of a one-bit expression.
    fn b(&mut self, ar: &mut Arena, e: E) -> Ast {
        if let Some(&a) = self.bools.get(e as usize) { if !a.is_null() { return a; } }
        self.made += 1;
        let c = self.ctx;
        let i = ar.info[e as usize];
        debug_assert_eq!(i.w, 1);
        let r = unsafe {
            match i.node {
                Node::Const(k) => if k & 1 == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Node::Tab(v, t) => { let s = ar.set_of(t); self.inset(v, &s) }
                Node::Bin(BinOp::And, x, y) => { let q = [self.b(ar, x), self.b(ar, y)]; Z3_mk_and(c, 2, q.as_ptr()) }
                Node::Bin(BinOp::Or, x, y) => { let q = [self.b(ar, x), self.b(ar, y)]; Z3_mk_or(c, 2, q.as_ptr()) }
                Node::Bin(BinOp::Xor, x, y) => {
                    if ar.as_const(y) == Some(1) { let p = self.b(ar, x); Z3_mk_not(c, p) }
                    else { let (p, q) = (self.b(ar, x), self.b(ar, y)); Z3_mk_xor(c, p, q) }
                }
                Node::Cmp(p, x, y) => {
                    let (a, b) = (self.v(ar, x), self.v(ar, y));
                    match p {
                        Pred::Eq => Z3_mk_eq(c, a, b),
                        Pred::Ne => Z3_mk_not(c, Z3_mk_eq(c, a, b)),
                        Pred::Ult => Z3_mk_bvult(c, a, b),
                        Pred::Ule => Z3_mk_bvule(c, a, b),
                        Pred::Ugt => Z3_mk_bvult(c, b, a),
                        Pred::Uge => Z3_mk_bvule(c, b, a),
                        Pred::Slt => Z3_mk_bvslt(c, a, b),
                        Pred::Sle => Z3_mk_bvsle(c, a, b),
                        Pred::Sgt => Z3_mk_bvslt(c, b, a),
                        Pred::Sge => Z3_mk_bvsle(c, b, a),
                    }
                }
                Node::Ite(k, x, y) => { let (k, p, q) = (self.b(ar, k), self.b(ar, x), self.b(ar, y)); Z3_mk_ite(c, k, p, q) }
                _ => {
                    let a = self.v(ar, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        Self::put(&mut self.bools, e, r)
    }
    /// Bit-vector translation.
    fn v(&mut self, ar: &mut Arena, e: E) -> Ast {
        if let Some(&a) = self.bv.get(e as usize) { if !a.is_null() { return a; } }
        self.made += 1;
        let c = self.ctx;
        let i = ar.info[e as usize];
        let r = unsafe {
            match i.node {
                Node::Const(k) => self.num(k, i.w),
                Node::Tab(v, t) => { let t = ar.tabs[t as usize].clone(); self.table(v, &t, i.w) }
                Node::Bin(op, x, y) => {
                    let (a, b) = (self.v(ar, x), self.v(ar, y));
                    match op {
                        BinOp::Add => Z3_mk_bvadd(c, a, b), BinOp::Sub => Z3_mk_bvsub(c, a, b), BinOp::Mul => Z3_mk_bvmul(c, a, b),
                        BinOp::UDiv => Z3_mk_bvudiv(c, a, b), BinOp::SDiv => Z3_mk_bvsdiv(c, a, b), BinOp::URem => Z3_mk_bvurem(c, a, b),
                        BinOp::SRem => Z3_mk_bvsrem(c, a, b), BinOp::Shl => Z3_mk_bvshl(c, a, b), BinOp::LShr => Z3_mk_bvlshr(c, a, b),
                        BinOp::AShr => Z3_mk_bvashr(c, a, b), BinOp::And => Z3_mk_bvand(c, a, b), BinOp::Or => Z3_mk_bvor(c, a, b),
                        BinOp::Xor => Z3_mk_bvxor(c, a, b),
                    }
                }
                Node::Cmp(..) => {
                    let k = self.b(ar, e);
                    let (o, z) = (self.num(1, 1), self.num(0, 1));
                    Z3_mk_ite(c, k, o, z)
                }
                Node::ZExt(x) => { let a = self.v(ar, x); Z3_mk_zero_ext(c, i.w - ar.w(x), a) }
                Node::SExt(x) => { let a = self.v(ar, x); Z3_mk_sign_ext(c, i.w - ar.w(x), a) }
                Node::Ext(x, lo) => { let a = self.v(ar, x); Z3_mk_extract(c, lo as u32 + i.w - 1, lo as u32, a) }
                Node::Cat(h, l) => { let (a, b) = (self.v(ar, h), self.v(ar, l)); Z3_mk_concat(c, a, b) }
                Node::Ite(k, x, y) => { let (k, p, q) = (self.b(ar, k), self.v(ar, x), self.v(ar, y)); Z3_mk_ite(c, k, p, q) }
            }
        };
        Self::put(&mut self.bv, e, r)
    }

    /// Satisfiability of the conjunction of `cons` with each byte in its domain;
    /// the model covers the variables in `vars`.
    pub fn check(&mut self, ar: &mut Arena, doms: &[Set], vars: u128, cons: &[E], model: &[u8]) -> Sat {
        let mut key: Vec<u64> = cons.iter().map(|x| *x as u64).collect();
        key.sort_unstable();
        key.push(u64::MAX);
        for i in 0..doms.len() {
            if vars >> i & 1 == 1 { key.push(i as u64); key.extend_from_slice(&doms[i]); }
        }
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                None => Sat::Unsat,
                Some(m) => {
                    let mut o = model.to_vec();
                    for (i, x) in m { o[*i as usize] = *x; }
                    Sat::Sat(o)
                }
            };
        }
        if self.made > 400_000 || self.cache.len() > 400_000 {
            self.reset();
            self.cache.clear();
        }
        let t0 = Instant::now();
        self.queries += 1;
        let r = unsafe {
            Z3_solver_push(self.ctx, self.sol);
            for i in 0..doms.len() {
                if vars >> i & 1 == 1 && doms[i] != FULL { let a = self.inset(i as u8, &doms[i]); Z3_solver_assert(self.ctx, self.sol, a); }
            }
            for &e in cons { let a = self.b(ar, e); Z3_solver_assert(self.ctx, self.sol, a); }
            let mut sol = self.sol;
            let mut r = Z3_solver_check(self.ctx, self.sol);
            let mut second = false;
            if r == 0 {
                // undecided by the incremental core: bit-blast.
                let l = CString::new("QF_BV").unwrap();
                sol = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
                Z3_solver_inc_ref(self.ctx, sol);
                let p = Z3_mk_params(self.ctx);
                Z3_params_inc_ref(self.ctx, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), 60000);
                Z3_solver_set_params(self.ctx, sol, p);
                second = true;
                for i in 0..doms.len() {
                    if vars >> i & 1 == 1 { let a = self.inset(i as u8, &doms[i]); Z3_solver_assert(self.ctx, sol, a); }
                }
                for &e in cons { let a = self.b(ar, e); Z3_solver_assert(self.ctx, sol, a); }
                r = Z3_solver_check(self.ctx, sol);
            }
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, sol);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut o = model.to_vec();
                    let mut rec = vec![];
                    for i in 0..doms.len() {
                        if vars >> i & 1 == 0 { continue; }
                        let v = self.var(i as u8);
                        let mut a = std::ptr::null_mut();
                        let mut x = 0u64;
                        if Z3_model_eval(self.ctx, m, v, true, &mut a) { Z3_get_numeral_uint64(self.ctx, a, &mut x); }
                        o[i] = x as u8;
                        rec.push((i as u8, x as u8));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    self.cache.insert(key, Some(rec));
                    Sat::Sat(o)
                }
                -1 => { self.unsat += 1; self.cache.insert(key, None); Sat::Unsat }
                _ => Sat::Unknown,
            };
            if let Some(d) = slow() {
                if t0.elapsed().as_millis() as u64 > d {
                    eprintln!("SLOW {} ms r={} second={}\n{}", t0.elapsed().as_millis(), r, second, std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.sol)).to_string_lossy());
                }
            }
            if second { Z3_solver_dec_ref(self.ctx, sol); }
            Z3_solver_pop(self.ctx, self.sol, 1);
            out
        };
        self.nanos += t0.elapsed().as_nanos() as u64;
        r
    }
}
impl Drop for Solver {
    fn drop(&mut self) { unsafe { Z3_solver_dec_ref(self.ctx, self.sol); Z3_del_context(self.ctx); } }
}
