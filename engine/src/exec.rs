//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Sat, Solver};
use crate::state::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Alt { pub cons: Option<E>, pub model: Option<Rc<Vec<u8>>>, pub choice: Option<u32> }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Done,
    Infeasible,
    Panic(String),
    Memory(String),
    Exit(i64),
    Limit(String),
    Unsupported(String),
}
pub enum Stop { Fork(Vec<Alt>), End(Outcome) }
pub type R<T> = Result<T, Stop>;

#[derive(Clone, Copy)]
/// `Real`: the model does not apply, the function itself is executed.
pub enum RV { None, One(Val), Two(Val, Val), Real }

pub struct CI<'a> { pub aw: &'a [u32], pub rw: u32, pub name: &'a str }
pub type BI = fn(&mut Worker, &mut State, &[Val], &CI) -> R<RV>;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: String,
    pub bytes: Vec<u8>,
    pub choices: Vec<String>,
    pub note: String,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub done: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub checks: BTreeMap<String, (u64, u64, u64)>, // reached, decided by simplification, decided by solver
    pub reach: BTreeMap<String, u64>,
    pub ends: BTreeMap<String, u64>,
    pub panics_ok: u64,
    pub max_vars: usize,
    /// Forks whose alternatives z3 confirmed to be exhaustive; paths whose condition z3 confirmed to be satisfiable.
    pub audited_forks: u64,
    pub audited_paths: u64,
    pub samples: Vec<String>,
    pub seen: u64,
}

pub struct Worker {
    tabulated: FxMap<(E, Vec<Set>), E>,
    pub m: &'static Module,
    pub bi: &'static [Option<BI>],
    pub ar: Arena,
    pub z: Solver,
    pub st: Stats,
    pub used: Vec<bool>,
    pub params: Vec<(String, i64)>,
    pub viol: Vec<Violation>,
    pub max_steps: u64,
    pub max_depth: usize,
    pub one: E,
    pub zero: E,
    pub trace_calls: bool,
}

macro_rules! merr { ($e:expr) => { match $e { Ok(x) => x, Err(m) => return Err(Stop::End(Outcome::Memory(m))) } } }

pub fn unsup<T>(s: impl Into<String>) -> R<T> { Err(Stop::End(Outcome::Unsupported(s.into()))) }

impl Worker {
    pub fn new(m: &'static Module, bi: &'static [Option<BI>]) -> Self {
        let mut ar = Arena::new();
        let one = ar.konst(1, 1);
        let zero = ar.konst(0, 1);
        Worker { tabulated: FxMap::default(), m, bi, ar, z: Solver::new(), st: Stats::default(), used: vec![false; m.funcs.len()], params: vec![], viol: vec![],
            max_steps: 50_000_000, max_depth: 2000, one, zero, trace_calls: false }
    }

    // ---- values -----------------------------------------------------------
    #[inline]
    pub fn e(&mut self, v: Val, w: u32) -> E {
        match v { Val::C(c) => self.ar.konst(c as u128, w), Val::S(e) => e }
    }
    #[inline]
    pub fn v(&self, e: E) -> Val {
        if self.ar.w(e) <= 64 { if let Some(c) = self.ar.as_const(e) { return Val::C(c as u64); } }
        Val::S(e)
    }
    pub fn sb_val(&mut self, s: SB) -> Val { match sb_get(s) { Ok(c) => Val::C(c as u64), Err(e) => Val::S(e) } }
    pub fn sb_exp(&mut self, s: SB) -> E { match sb_get(s) { Ok(c) => self.ar.konst(c as u128, 8), Err(e) => e } }

    // ---- path condition ---------------------------------------------------
    pub fn reduce(&mut self, st: &State, e: E) -> E {
        let vars = self.ar.vars(e);
        if vars & st.path.fixed == 0 { return e; }
        let m = st.model.clone();
        self.ar.specialise(e, st.path.fixed, &m)
    }
    /// Constraints connected with the variables in `vars` (closed).
    fn closure(&self, st: &State, mut vars: u128) -> (u128, Vec<E>) {
        let mut cons: Vec<E> = vec![];
        if vars & st.path.convars == 0 { return (vars, cons); }
        let mut used = vec![false; st.path.cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.path.cons.iter().enumerate() {
                if !used[i] && self.ar.vars(c) & vars != 0 {
                    used[i] = true;
                    cons.push(c);
                    vars |= self.ar.vars(c);
                    ch = true;
                }
            }
            if !ch { break; }
        }
        (vars, cons)
    }
    /// Whether `e` can hold on this path; a model if so.
    pub fn feasible(&mut self, st: &State, e: E) -> R<Option<Rc<Vec<u8>>>> {
        if let Some(c) = self.ar.as_const(e) { return Ok(if c & 1 == 1 { Some(st.model.clone()) } else { None }); }
        if self.ar.eval(e, &st.model) & 1 == 1 { return Ok(Some(st.model.clone())); }
        if let Node::Tab(v, t) = self.ar.node(e) {
            let s = self.ar.set_of(t);
            let i = set_and(&s, &st.path.doms[v as usize]);
            if set_empty(&i) { return Ok(None); }
            if st.path.convars >> v & 1 == 0 {
                let mut m = (*st.model).clone();
                m[v as usize] = set_first(&i);
                return Ok(Some(Rc::new(m)));
            }
        }
        self.ask(st, e)
    }
    /// An equal expression without wide arithmetic, for variables in `doms`, if there are few values.
    fn tabulate(&mut self, e: E, doms: &[Set]) -> E {
        let vars = self.ar.vars(e);
        if vars.count_ones() > 4 || vars.count_ones() < 2 || !self.ar.arith(e) { return e; }
        let mut vs: Vec<u8> = (0..128u8).filter(|v| vars >> v & 1 == 1).collect();
        vs.sort_by_key(|v| set_count(&doms[*v as usize]));
        let n: u64 = vs[..vs.len() - 1].iter().map(|v| set_count(&doms[*v as usize]) as u64).product();
        if n > 200 { return e; }
        let d: Vec<Set> = vs.iter().map(|v| doms[*v as usize]).collect();
        let key = (e, (0..128usize).filter(|v| vars >> v & 1 == 1).map(|v| doms[v]).collect());
        if let Some(r) = self.tabulated.get(&key) { return *r; }
        let mut m = vec![0u8; 128];
        let r = self.tab_rec(e, &vs, &d, &mut m);
        self.tabulated.insert(key, r);
        r
    }
    fn tab_rec(&mut self, e: E, vs: &[u8], d: &[Set], m: &mut Vec<u8>) -> E {
        let i = match vs.iter().position(|v| self.ar.vars(e) >> v & 1 == 1) { Some(i) => i, None => return e };
        let v = vs[i];
        if i + 1 == vs.len() {
            // What it is outside the domain does not matter.
            if let Node::Tab(_, t) = self.ar.node(e) { let s = self.ar.set_of(t); return self.ar.in_set(v, &set_and(&s, &d[i])); }
            return e;
        }
        let mut by: Vec<(E, Set)> = vec![];
        for x in set_iter(d[i]) {
            m[v as usize] = x;
            let s = self.ar.specialise(e, 1 << v, m);
            let s = self.tab_rec(s, &vs[i + 1..], &d[i + 1..], m);
            match by.iter_mut().find(|p| p.0 == s) {
                Some(p) => set_add(&mut p.1, x),
                None => { let mut n = [0; 4]; set_add(&mut n, x); by.push((s, n)); }
            }
        }
        if by.len() == 1 { return by[0].0; }
        let mut r = self.ar.konst(0, 1);
        for (s, set) in by {
            let c = self.ar.in_set(v, &set);
            let c = self.ar.and(c, s);
            r = self.ar.or(r, c);
        }
        r
    }
    /// The same, always decided by the SMT solver.
    pub fn ask(&mut self, st: &State, e: E) -> R<Option<Rc<Vec<u8>>>> {
        let (vars, mut cons) = self.closure(st, self.ar.vars(e));
        cons.push(e);
        let before = cons.clone();
        for c in &mut cons { *c = self.tabulate(*c, &st.path.doms); }
        match self.z.check(&mut self.ar, &st.path.doms, vars, &cons, &st.model) {
            Sat::Sat(m) => {
                for c in &before { assert!(self.ar.eval(*c, &m) & 1 == 1, "the solver's model is not one"); }
                Ok(Some(Rc::new(m)))
            }
            Sat::Unsat => Ok(None),
            Sat::Unknown => Err(Stop::End(Outcome::Limit("solver: unknown".into()))),
        }
    }
    pub fn add(&mut self, st: &mut State, e: E) {
        match self.ar.node(e) {
            Node::Const(_) => {}
            Node::Tab(v, t) => {
                let s = self.ar.set_of(t);
                let d = &mut st.path.doms[v as usize];
                *d = set_and(d, &s);
                if set_count(d) == 1 { st.path.fixed |= 1 << v; }
            }
            Node::Bin(BinOp::And, a, b) => { self.add(st, a); self.add(st, b); }
            n => {
                if let Node::Bin(BinOp::Xor, x, k) = n {
                    if self.ar.as_const(k) == Some(1) {
                        if let Node::Bin(BinOp::Or, a, b) = self.ar.node(x) {
                            let (na, nb) = (self.ar.not(a), self.ar.not(b));
                            self.add(st, na);
                            self.add(st, nb);
                            return;
                        }
                    }
                }
                if !st.path.cons.contains(&e) {
                    st.path.cons.push(e);
                    st.path.convars |= self.ar.vars(e);
                }
            }
        }
    }
    pub fn decide(&mut self, st: &mut State, v: Val) -> R<bool> {
        let e = match v { Val::C(c) => return Ok(c & 1 == 1), Val::S(e) => e };
        let e = self.reduce(st, e);
        if let Some(c) = self.ar.as_const(e) { return Ok(c & 1 == 1); }
        if let Node::Tab(v, t) = self.ar.node(e) {
            let s = self.ar.set_of(t);
            let d = st.path.doms[v as usize];
            if set_empty(&set_and(&s, &d)) { return Ok(false); }
            if set_empty(&set_and(&set_not(&s), &d)) { return Ok(true); }
        } else if st.path.cons.contains(&e) { return Ok(true); }
        let n = self.ar.not(e);
        if st.path.cons.contains(&n) { return Ok(false); }
        let t = self.feasible(st, e)?;
        let t = match t { None => return Ok(false), Some(m) => m };
        let f = match self.feasible(st, n)? { None => return Ok(true), Some(m) => m };
        Err(Stop::Fork(vec![
            Alt { cons: Some(e), model: Some(t), choice: None },
            Alt { cons: Some(n), model: Some(f), choice: None },
        ]))
    }
    pub fn concretise(&mut self, st: &mut State, v: Val) -> R<u64> {
        match v { Val::C(c) => Ok(c), Val::S(e) => self.concretise128(st, e).map(|x| x as u64) }
    }
    pub fn concretise128(&mut self, st: &mut State, e: E) -> R<u128> {
        let e = self.reduce(st, e);
        if let Some(c) = self.ar.as_const(e) { return Ok(c); }
        let w = self.ar.w(e);
        if let Node::Tab(v, t) = self.ar.node(e) {
            let mut by: BTreeMap<u64, Set> = BTreeMap::new();
            for x in set_iter(st.path.doms[v as usize]) {
                set_add(by.entry(self.ar.tabs[t as usize][x as usize]).or_insert([0; 4]), x);
            }
            if by.len() == 1 { return Ok(*by.keys().next().unwrap() as u128); }
            let mut alts = vec![];
            let mut last = 0;
            for (val, s) in &by {
                let c = self.ar.in_set(v, s);
                if let Some(m) = self.feasible(st, c)? { last = *val; alts.push(Alt { cons: Some(c), model: Some(m), choice: None }); }
            }
            if alts.len() == 1 { return Ok(last as u128); }
            return Err(Stop::Fork(alts));
        }
        let mut vals: BTreeMap<u128, Rc<Vec<u8>>> = BTreeMap::new();
        let mut more = self.one;
        let mut model = Some(st.model.clone());
        while let Some(m) = model {
            let val = self.ar.eval(e, &m);
            vals.insert(val, m);
            if vals.len() > 600 { return unsup("too many values to concretise"); }
            let k = self.ar.konst(val, w);
            let eq = self.ar.cmp(Pred::Eq, e, k);
            let ne = self.ar.not(eq);
            more = self.ar.and(more, ne);
            model = self.feasible(st, more)?;
        }
        if vals.len() == 1 { return Ok(*vals.keys().next().unwrap()); }
        let mut alts = vec![];
        for (val, m) in vals {
            let k = self.ar.konst(val, w);
            let eq = self.ar.cmp(Pred::Eq, e, k);
            alts.push(Alt { cons: Some(eq), model: Some(m), choice: None });
        }
        Err(Stop::Fork(alts))
    }

    // ---- memory -----------------------------------------------------------
    pub fn load(&mut self, st: &mut State, p: Val, w: u32) -> R<Val> {
        let n = ((w + 7) / 8) as u64;
        let addr = match p {
            Val::C(a) => a,
            Val::S(e) => {
                let e = self.reduce(st, e);
                match self.ar.node(e) {
                    Node::Const(c) => c as u64,
                    Node::Tab(v, t) if w <= 64 => {
                        let dom = st.path.doms[v as usize];
                        let mut vals = [0u64; 256];
                        let mut ok = true;
                        for x in set_iter(dom) {
                            let a = self.ar.tabs[t as usize][x as usize];
                            match st.mem.slice(a, n, "read") {
                                Ok(o) => {
                                    let off = a as u32 as usize;
                                    if !o.sym.is_empty() && o.sym[off..off + n as usize].iter().any(|s| *s != 0) { ok = false; break; }
                                    let mut b = [0u8; 8];
                                    b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
                                    vals[x as usize] = u64::from_le_bytes(b);
                                }
                                Err(_) => { ok = false; break; }
                            }
                        }
                        if ok { let r = self.ar.tab_from(v, w, |x| vals[x as usize]); return Ok(self.v(r)); }
                        self.concretise(st, Val::S(e))?
                    }
                    _ => self.concretise(st, Val::S(e))?,
                }
            }
        };
        let o = match st.mem.slice(addr, n, "read") { Ok(o) => o, Err(m) => return Err(Stop::End(Outcome::Memory(m))) };
        let off = addr as u32 as usize;
        let symbolic = !o.sym.is_empty() && o.sym[off..off + n as usize].iter().any(|x| *x != 0);
        if !symbolic {
            if w <= 64 {
                let d = &o.data[off..];
                let x = match n {
                    1 => d[0] as u64,
                    2 => u16::from_le_bytes([d[0], d[1]]) as u64,
                    4 => u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u64,
                    8 => u64::from_le_bytes(d[..8].try_into().unwrap()),
                    _ => { let mut b = [0u8; 8]; b[..n as usize].copy_from_slice(&d[..n as usize]); u64::from_le_bytes(b) }
                };
                return Ok(Val::C(x & mask(w)));
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(&o.data[off..off + n as usize]);
            return Ok(Val::S(self.ar.konst(u128::from_le_bytes(b), w)));
        }
        let o = o.clone();
        let mut acc: Option<E> = None;
        for i in 0..n as usize {
            let b = if o.sym[off + i] != 0 { o.sym[off + i] } else { self.ar.konst(o.data[off + i] as u128, 8) };
            acc = Some(match acc { None => b, Some(a) => self.ar.cat(b, a) });
        }
        let mut r = acc.unwrap();
        if self.ar.w(r) != w { r = self.ar.ext(r, 0, w); }
        Ok(self.v(r))
    }
    pub fn store(&mut self, st: &mut State, p: Val, v: Val, w: u32) -> R<()> {
        let addr = self.concretise(st, p)?;
        let n = ((w + 7) / 8) as u64;
        let c = match v { Val::C(c) => Some(c as u128), Val::S(e) => self.ar.as_const(e) };
        if let Some(c) = c {
            let o = merr!(st.mem.slice_mut(addr, n));
            let off = addr as u32 as usize;
            o.data[off..off + n as usize].copy_from_slice(&c.to_le_bytes()[..n as usize]);
            if !o.sym.is_empty() { o.sym[off..off + n as usize].fill(0); }
            return Ok(());
        }
        let e = match v { Val::S(e) => e, _ => unreachable!() };
        let e = if w % 8 != 0 { self.ar.zext(e, (n * 8) as u32) } else { e };
        let mut b = vec![];
        for i in 0..n as u32 {
            let x = self.ar.ext(e, i * 8, 8);
            b.push(match self.ar.as_const(x) { Some(c) => sb_c(c as u8), None => sb_e(x) });
        }
        merr!(st.mem.write_bytes(addr, &b));
        Ok(())
    }

    // ---- operations -------------------------------------------------------
    pub fn binop(&mut self, op: BinOp, w: u32, a: Val, b: Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) { if w <= 64 { return Val::C(fold_bin64(op, w, x, y)); } }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(op, w, x, y);
        self.v(r)
    }
    pub fn icmp(&mut self, p: Pred, w: u32, a: Val, b: Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) { if w <= 64 { return Val::C(fold_cmp64(p, w, x, y) as u64); } }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.cmp(p, x, y);
        self.v(r)
    }
    pub fn select(&mut self, c: Val, a: Val, b: Val, w: u32) -> Val {
        match c {
            Val::C(k) => if k & 1 == 1 { a } else { b },
            Val::S(c) => {
                if a == b { return a; }
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ar.ite(c, x, y);
                self.v(r)
            }
        }
    }
    pub fn zext(&mut self, a: Val, fw: u32, tw: u32) -> Val {
        if let Val::C(c) = a { if tw <= 64 { return Val::C(c); } }
        let e = self.e(a, fw);
        let r = self.ar.zext(e, tw);
        self.v(r)
    }
    pub fn sext(&mut self, a: Val, fw: u32, tw: u32) -> Val {
        if let Val::C(c) = a { if tw <= 64 { return Val::C(sext64(c, fw) as u64 & mask(tw)); } }
        let e = self.e(a, fw);
        let r = self.ar.sext(e, tw);
        self.v(r)
    }
    pub fn trunc(&mut self, a: Val, tw: u32) -> Val {
        match a {
            Val::C(c) => Val::C(c & mask(tw)),
            Val::S(e) => { let r = self.ar.ext(e, 0, tw); self.v(r) }
        }
    }
    fn cast(&mut self, st: &mut State, op: CastOp, fw: u32, tw: u32, a: Val) -> R<Val> {
        Ok(match op {
            CastOp::Trunc => self.trunc(a, tw),
            CastOp::ZExt => self.zext(a, fw, tw),
            CastOp::SExt => self.sext(a, fw, tw),
            _ => {
                let c: u128 = match a { Val::C(c) => c as u128, Val::S(e) => self.concretise128(st, e)? };
                let f = |c: u128, w: u32| if w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c as u64) };
                let r = match op {
                    CastOp::UIToFP => if tw == 32 { (c as f32).to_bits() as u64 } else { (c as f64).to_bits() },
                    CastOp::SIToFP => { let s = sext128(c, fw); if tw == 32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() } }
                    CastOp::FPToUI => { let x = f(c, fw) as u128 & mask128(tw); if tw > 64 { return Ok(Val::S(self.ar.konst(x, tw))); } x as u64 }
                    CastOp::FPToSI => { let x = f(c, fw) as i128 as u128 & mask128(tw); if tw > 64 { return Ok(Val::S(self.ar.konst(x, tw))); } x as u64 }
                    CastOp::FPTrunc => (f64::from_bits(c as u64) as f32).to_bits() as u64,
                    CastOp::FPExt => (f32::from_bits(c as u32) as f64).to_bits(),
                    _ => unreachable!(),
                };
                Val::C(r)
            }
        })
    }

    pub fn call(&mut self, st: &mut State, f: u32, args: &[Val], dst: u32, normal: u32) -> R<()> {
        let fun = &self.m.funcs[f as usize];
        if st.frames.len() > self.max_depth { return Err(Stop::End(Outcome::Limit("stack depth".into()))); }
        self.used[f as usize] = true;
        let mut regs = Vec::with_capacity(fun.nregs as usize);
        regs.extend_from_slice(&args[..(fun.nargs as usize).min(args.len())]);
        regs.resize(fun.nregs as usize, Val::C(0));
        st.frames.push(Rc::new(Frame { f, pc: 0, regs, allocas: vec![], dst, normal }));
        Ok(())
    }

    /// Runs until the path ends or has to fork (then the current instruction has had no effect).
    pub fn exec(&mut self, st: &mut State) -> Stop {
        match self.exec0(st) {
            Ok(()) => Stop::End(Outcome::Done),
            // The harness's exit handler runs in place of the end of the process.
            Err(Stop::End(Outcome::Exit(c))) if st.io.on_exit != 0 => {
                let f = st.io.on_exit;
                Rc::make_mut(&mut st.io).on_exit = 0;
                st.frames.clear();
                match self.call(st, f, &[Val::C(c as u32 as u64)], u32::MAX, u32::MAX) { Ok(()) => self.exec(st), Err(s) => s }
            }
            Err(s) => s,
        }
    }

    fn exec0(&mut self, st: &mut State) -> R<()> {
        let m: &'static Module = self.m;
        'frame: loop {
            let fr: *mut Frame = match st.frames.last_mut() { Some(f) => Rc::make_mut(f), None => return Ok(()) };
            // The frame is uniquely owned and st.frames is not touched while `fr` is used,
            // except by call/return, after which it is fetched again.
            let fr = unsafe { &mut *fr };
            let fun = &m.funcs[fr.f as usize];
            macro_rules! get { ($o:expr) => { match $o {
                Op::Reg(r) => fr.regs[*r as usize],
                Op::C(c) => Val::C(*c),
                Op::W(i) => { let (c, w) = m.wide[*i as usize]; Val::S(self.ar.konst(c, w)) }
            } } }
            macro_rules! edge { ($e:expr) => {{
                let ed = &fun.edges[$e as usize];
                match ed.moves.len() {
                    0 => {}
                    1 => { let v = get!(&ed.moves[0].1); fr.regs[ed.moves[0].0 as usize] = v; }
                    _ => {
                        let mut tmp: [Val; 16] = [Val::C(0); 16];
                        let n = ed.moves.len();
                        if n <= 16 {
                            for i in 0..n { tmp[i] = get!(&ed.moves[i].1); }
                            for i in 0..n { fr.regs[ed.moves[i].0 as usize] = tmp[i]; }
                        } else {
                            let mut t = Vec::with_capacity(n);
                            for i in 0..n { t.push(get!(&ed.moves[i].1)); }
                            for i in 0..n { fr.regs[ed.moves[i].0 as usize] = t[i]; }
                        }
                    }
                }
                fr.pc = fun.blocks[ed.target as usize];
            }} }
            loop {
                st.steps += 1;
                if st.steps > self.max_steps { return Err(Stop::End(Outcome::Limit("instruction budget".into()))); }
                match &fun.insts[fr.pc as usize] {
                    Inst::Bin { op, w, a, b, dst } => {
                        let (x, y) = (get!(a), get!(b));
                        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && *w > 64 {
                            // wide division: concrete operands only.
                            let y2 = match y { Val::S(e) => Val::S({ let c = self.concretise128(st, e)?; self.ar.konst(c, *w) }), y => y };
                            fr.regs[*dst as usize] = self.binop(*op, *w, x, y2);
                        } else { fr.regs[*dst as usize] = self.binop(*op, *w, x, y); }
                    }
                    Inst::ICmp { pred, w, a, b, dst } => { let (x, y) = (get!(a), get!(b)); fr.regs[*dst as usize] = self.icmp(*pred, *w, x, y); }
                    Inst::Select { c, a, b, w, dst } => {
                        let (mut c, x, y) = (get!(c), get!(a), get!(b));
                        // Word-sized selections (lengths, indices, addresses) are split, smaller values are merged.
                        if *w == 64 && x != y { if let Val::S(_) = c { c = Val::C(self.decide(st, c)? as u64); } }
                        fr.regs[*dst as usize] = self.select(c, x, y, *w); }
                    Inst::Cast { op, fw, tw, a, dst } => { let x = get!(a); fr.regs[*dst as usize] = self.cast(st, *op, *fw, *tw, x)?; }
                    Inst::Copy { a, dst } => { fr.regs[*dst as usize] = get!(a); }
                    Inst::Gep { base, off, terms, dst } => {
                        let mut acc = match get!(base) { Val::C(c) => Val::C(c.wrapping_add(*off as u64)),
                            v => if *off == 0 { v } else { self.binop(BinOp::Add, 64, v, Val::C(*off as u64)) } };
                        for (o, w, s) in terms {
                            let t = get!(o);
                            let t = if *w < 64 { self.sext(t, *w, 64) } else { t };
                            acc = match (acc, t) {
                                (Val::C(a), Val::C(b)) => Val::C(a.wrapping_add((b as i64).wrapping_mul(*s) as u64)),
                                (a, b) => { let p = self.binop(BinOp::Mul, 64, b, Val::C(*s as u64)); self.binop(BinOp::Add, 64, a, p) }
                            };
                        }
                        fr.regs[*dst as usize] = acc;
                    }
                    Inst::Load { p, off, w, dst } => {
                        let p = get!(p);
                        let p = match p { Val::C(c) => Val::C(c.wrapping_add(*off as u64)), v => if *off == 0 { v } else { self.binop(BinOp::Add, 64, v, Val::C(*off as u64)) } };
                        fr.regs[*dst as usize] = self.load(st, p, *w)?;
                    }
                    Inst::Store { v, p, off, w } => {
                        let p = get!(p);
                        let p = match p { Val::C(c) => Val::C(c.wrapping_add(*off as u64)), v => if *off == 0 { v } else { self.binop(BinOp::Add, 64, v, Val::C(*off as u64)) } };
                        let v = get!(v);
                        self.store(st, p, v, *w)?;
                    }
                    Inst::Alloca { size, n, dst } => {
                        let k = match get!(n) { Val::C(c) => c, v => self.concretise(st, v)? };
                        let a = st.mem.alloc(size * k, Kind::Stack, 0xCD);
                        fr.allocas.push((a >> 32) as u32);
                        fr.regs[*dst as usize] = Val::C(a);
                    }
                    Inst::Call { f, args, aw, dst, nret, rw, normal } => {
                        let mut buf = [Val::C(0); 24];
                        if args.len() > 24 { return unsup("more than 24 arguments"); }
                        for (i, a) in args.iter().enumerate() { buf[i] = get!(a); }
                        let av = &buf[..args.len()];
                        let fi = match f {
                            Callee::Fn(i) => *i,
                            Callee::Ind(o) => {
                                let p = get!(o);
                                let p = self.concretise(st, p)?;
                                let i = (p >> 32).wrapping_sub(FN_BASE);
                                if p as u32 != 0 || i >= m.funcs.len() as u64 {
                                    return Err(Stop::End(Outcome::Memory(format!("call of a non-function {:#x}", p))));
                                }
                                i as u32
                            }
                            Callee::Asm(s) => {
                                if s.trim().is_empty() {
                                    // optimisation barrier: returns its argument.
                                    if *nret == 1 && !args.is_empty() { fr.regs[*dst as usize] = av[0]; }
                                } else if s.contains("cpuid") {
                                    for i in 0..*nret { fr.regs[(*dst + i) as usize] = Val::C(0); }
                                } else { return unsup(format!("inline assembly {}", s)); }
                                fr.pc += 1;
                                continue;
                            }
                        };
                        if let Some(b) = self.bi[fi as usize] {
                            self.used[fi as usize] = true;
                            let ci = CI { aw, rw: *rw, name: &m.funcs[fi as usize].name };
                            let r = b(self, st, av, &ci)?;
                            let real = matches!(r, RV::Real);
                            match r {
                                RV::None | RV::Real => {}
                                RV::One(v) => if *dst != u32::MAX { fr.regs[*dst as usize] = v },
                                RV::Two(v, x) => if *dst != u32::MAX { fr.regs[*dst as usize] = v; fr.regs[*dst as usize + 1] = x; },
                            }
                            if !real {
                                if *normal != u32::MAX { edge!(*normal); } else { fr.pc += 1; }
                                continue;
                            }
                        }
                        if m.funcs[fi as usize].is_decl { return unsup(format!("external function {}", m.funcs[fi as usize].name)); }
                        if self.trace_calls { eprintln!("{}{}", " ".repeat(st.frames.len().min(60)), m.funcs[fi as usize].name); }
                        self.call(st, fi, av, *dst, *normal)?;
                        continue 'frame;
                    }
                    Inst::Br { e } => { edge!(*e); continue; }
                    Inst::CondBr { c, t, f } => {
                        let c = get!(c);
                        let k = match c { Val::C(c) => c & 1 == 1, c => self.decide(st, c)? };
                        if k { edge!(*t); } else { edge!(*f); }
                        continue;
                    }
                    Inst::Switch { v, w, cases, map, default } => {
                        let x = get!(v);
                        let e = match x {
                            Val::C(c) => *map.get(&c).unwrap_or(default),
                            Val::S(e) => self.switch(st, e, *w, cases, *default)?,
                        };
                        edge!(e);
                        continue;
                    }
                    Inst::Ret { v } => {
                        let mut out = [Val::C(0); 16];
                        let n = v.len();
                        if n > 16 { return unsup("large return"); }
                        for (i, o) in v.iter().enumerate() { out[i] = get!(o); }
                        let (dst, normal) = (fr.dst, fr.normal);
                        for id in &fr.allocas { st.mem.free(*id); }
                        st.frames.pop();
                        let up = match st.frames.last_mut() { Some(f) => Rc::make_mut(f), None => return Ok(()) };
                        if dst != u32::MAX { for i in 0..n { up.regs[dst as usize + i] = out[i]; } }
                        up.pc += 1;
                        if normal != u32::MAX {
                            let fun = &m.funcs[up.f as usize];
                            let ed = &fun.edges[normal as usize];
                            let t: Vec<Val> = ed.moves.iter().map(|mv| match mv.1 {
                                Op::Reg(r) => up.regs[r as usize], Op::C(c) => Val::C(c),
                                Op::W(i) => { let (c, w) = m.wide[i as usize]; Val::S(self.ar.konst(c, w)) } }).collect();
                            for (i, mv) in ed.moves.iter().enumerate() { up.regs[mv.0 as usize] = t[i]; }
                            up.pc = fun.blocks[ed.target as usize];
                        }
                        continue 'frame;
                    }
                    Inst::Unreachable => return Err(Stop::End(Outcome::Memory(format!("unreachable code reached in {}", fun.name)))),
                    Inst::Nop => {}
                    Inst::Bits { src, dst } => {
                        let mut acc: Option<E> = None;
                        let mut total = 0;
                        for (o, w) in src {
                            let v = get!(o);
                            let e = self.e(v, *w);
                            total += w;
                            if total > 128 { return unsup("bit cast of more than 128 bits"); }
                            acc = Some(match acc { None => e, Some(a) => self.ar.cat(e, a) });
                        }
                        let a = acc.unwrap();
                        let mut lo = 0;
                        for (d, w) in dst {
                            let x = self.ar.ext(a, lo, *w);
                            fr.regs[*d as usize] = self.v(x);
                            lo += w;
                        }
                    }
                    Inst::DynExtract { v, i, dst, .. } => {
                        let i = get!(i);
                        let k = self.concretise(st, i)? as usize;
                        if k >= v.len() { return unsup("vector index"); }
                        fr.regs[*dst as usize] = get!(&v[k]);
                    }
                    Inst::DynInsert { v, x, i, dst, .. } => {
                        let i = get!(i);
                        let k = self.concretise(st, i)? as usize;
                        for j in 0..v.len() { let q = if j == k { get!(x) } else { get!(&v[j]) }; fr.regs[*dst as usize + j] = q; }
                    }
                    Inst::Rmw { op, p, v, w, dst } => {
                        let p = Val::C({ let p = get!(p); self.concretise(st, p)? });
                        let old = self.load(st, p, *w)?;
                        let x = get!(v);
                        let new = match op {
                            RmwOp::Xchg => x,
                            RmwOp::Add => self.binop(BinOp::Add, *w, old, x),
                            RmwOp::Sub => self.binop(BinOp::Sub, *w, old, x),
                            RmwOp::And => self.binop(BinOp::And, *w, old, x),
                            RmwOp::Or => self.binop(BinOp::Or, *w, old, x),
                            RmwOp::Xor => self.binop(BinOp::Xor, *w, old, x),
                            RmwOp::Nand => { let t = self.binop(BinOp::And, *w, old, x); self.binop(BinOp::Xor, *w, t, Val::C(mask(*w))) }
                            o => {
                                let pr = match o { RmwOp::Max => Pred::Sgt, RmwOp::Min => Pred::Slt, RmwOp::UMax => Pred::Ugt, _ => Pred::Ult };
                                let c = self.icmp(pr, *w, old, x);
                                self.select(c, old, x, *w)
                            }
                        };
                        self.store(st, p, new, *w)?;
                        fr.regs[*dst as usize] = old;
                    }
                    Inst::CmpXchg { p, cmp, new, w, dst } => {
                        let p = Val::C({ let p = get!(p); self.concretise(st, p)? });
                        let old = self.load(st, p, *w)?;
                        let (c, n) = (get!(cmp), get!(new));
                        let eq = self.icmp(Pred::Eq, *w, old, c);
                        let k = self.decide(st, eq)?;
                        if k { self.store(st, p, n, *w)?; }
                        fr.regs[*dst as usize] = old;
                        fr.regs[*dst as usize + 1] = Val::C(k as u64);
                    }
                    Inst::FBin { op, w, a, b, dst } => {
                        let (x, y) = (get!(a), get!(b));
                        let x = self.concretise(st, x)?;
                        let y = self.concretise(st, y)?;
                        let r = if *w == 32 {
                            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            (match op { FBinOp::Add => x + y, FBinOp::Sub => x - y, FBinOp::Mul => x * y, FBinOp::Div => x / y, FBinOp::Rem => x % y }).to_bits() as u64
                        } else {
                            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                            (match op { FBinOp::Add => x + y, FBinOp::Sub => x - y, FBinOp::Mul => x * y, FBinOp::Div => x / y, FBinOp::Rem => x % y }).to_bits()
                        };
                        fr.regs[*dst as usize] = Val::C(r);
                    }
                    Inst::FNeg { w, a, dst } => {
                        let x = get!(a);
                        fr.regs[*dst as usize] = self.binop(BinOp::Xor, *w, x, Val::C(1 << (w - 1)));
                    }
                    Inst::FCmp { pred, w, a, b, dst } => {
                        let (x, y) = (get!(a), get!(b));
                        let x = self.concretise(st, x)?;
                        let y = self.concretise(st, y)?;
                        let f = |c: u64| if *w == 32 { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
                        let (x, y) = (f(x), f(y));
                        let un = x.is_nan() || y.is_nan();
                        let r = match pred {
                            0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un,
                            8 => un, 9 => un || x == y, 10 => un || x > y, 11 => un || x >= y, 12 => un || x < y, 13 => un || x <= y,
                            14 => un || x != y, _ => true };
                        fr.regs[*dst as usize] = Val::C(r as u64);
                    }
                    Inst::Unsupported(s) => return unsup(format!("{} in {}", s, fun.name)),
                }
                fr.pc += 1;
            }
        }
    }

    fn switch(&mut self, st: &mut State, e: E, w: u32, cases: &[(u128, u32)], default: u32) -> R<u32> {
        let e = self.reduce(st, e);
        if let Some(c) = self.ar.as_const(e) { return Ok(cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(default)); }
        if let Node::Tab(v, t) = self.ar.node(e) {
            let mut by: BTreeMap<u32, Set> = BTreeMap::new();
            for x in set_iter(st.path.doms[v as usize]) {
                let val = self.ar.tabs[t as usize][x as usize] as u128;
                let tgt = cases.iter().find(|c| c.0 == val).map(|c| c.1).unwrap_or(default);
                set_add(by.entry(tgt).or_insert([0; 4]), x);
            }
            if by.len() == 1 { return Ok(*by.keys().next().unwrap()); }
            let mut alts = vec![];
            let mut last = 0;
            for (tgt, s) in &by {
                let c = self.ar.in_set(v, s);
                if let Some(m) = self.feasible(st, c)? { last = *tgt; alts.push(Alt { cons: Some(c), model: Some(m), choice: None }); }
            }
            if alts.len() == 1 { return Ok(last); }
            return Err(Stop::Fork(alts));
        }
        let mut by: BTreeMap<u32, E> = BTreeMap::new();
        let mut none = self.one;
        for (c, tgt) in cases {
            let k = self.ar.konst(*c, w);
            let eq = self.ar.cmp(Pred::Eq, e, k);
            let ne = self.ar.not(eq);
            none = self.ar.and(none, ne);
            let old = by.get(tgt).copied().unwrap_or(self.zero);
            let n = self.ar.or(old, eq);
            by.insert(*tgt, n);
        }
        let old = by.get(&default).copied().unwrap_or(self.zero);
        let n = self.ar.or(old, none);
        by.insert(default, n);
        for (tgt, c) in &by { if st.path.cons.contains(c) { return Ok(*tgt); } }
        let mut alts = vec![];
        let mut last = 0;
        for (tgt, c) in &by {
            if let Some(m) = self.feasible(st, *c)? { last = *tgt; alts.push(Alt { cons: Some(*c), model: Some(m), choice: None }); }
        }
        if alts.len() == 1 { return Ok(last); }
        Err(Stop::Fork(alts))
    }

    // ---- inputs -----------------------------------------------------------
    pub fn new_var(&mut self, st: &mut State) -> E {
        let i = st.path.doms.len();
        assert!(i < 128, "more than 128 symbolic bytes");
        st.path.doms.push(FULL);
        let mut m = (*st.model).clone();
        m.push(b'a');
        st.model = Rc::new(m);
        st.inputs.push(Input::Var(i as u8));
        self.st.max_vars = self.st.max_vars.max(i + 1);
        self.ar.var(i as u8)
    }
    pub fn input_tokens(&self, st: &State, model: &[u8]) -> Vec<u32> {
        st.inputs.iter().map(|i| match i { Input::Var(v) => model[*v as usize] as u32, Input::Choice(c) => 1000 + c }).collect()
    }
    /// The alternatives of a fork cover the path condition (asked to the solver).
    pub fn audit_fork(&mut self, st: &State, alts: &[Alt]) -> bool {
        let mut none = self.one;
        for a in alts { match a.cons { Some(c) => { let n = self.ar.not(c); none = self.ar.and(none, n); } None => return true } }
        self.st.audited_forks += 1;
        match self.ask_all(st, Some(none)) { Sat::Unsat => true, _ => false }
    }
    /// The path condition has a model, and the state's own model is one.
    pub fn audit_path(&mut self, st: &State) -> bool {
        self.st.audited_paths += 1;
        for &c in &st.path.cons { if self.ar.eval(c, &st.model) & 1 == 0 { return false; } }
        for (i, d) in st.path.doms.iter().enumerate() { if d[st.model[i] as usize >> 6] >> (st.model[i] & 63) & 1 == 0 { return false; } }
        matches!(self.ask_all(st, None), Sat::Sat(_))
    }
    fn ask_all(&mut self, st: &State, e: Option<E>) -> Sat {
        let mut cons = st.path.cons.clone();
        cons.extend(e);
        let n = st.path.doms.len();
        let vars = if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
        self.z.check(&mut self.ar, &st.path.doms, vars, &cons, &st.model)
    }
    pub fn render_notes(&mut self, st: &State, model: &[u8]) -> Vec<(String, Vec<u8>)> {
        st.io.notes.iter().map(|(n, b)| (String::from_utf8_lossy(n).into_owned(),
            b.iter().map(|x| match sb_get(*x) { Ok(c) => c, Err(e) => self.ar.eval(e, model) as u8 }).collect())).collect()
    }
    pub fn violation(&mut self, st: &State, kind: &str, id: &str, model: &[u8]) {
        let toks = self.input_tokens(st, model);
        let mut note = String::new();
        for (n, b) in &st.io.notes {
            let s: Vec<u8> = b.iter().map(|x| match sb_get(*x) { Ok(c) => c, Err(e) => self.ar.eval(e, model) as u8 }).collect();
            note += &format!("{}={:?} ", String::from_utf8_lossy(n), String::from_utf8_lossy(&s));
        }
        self.viol.push(Violation { kind: kind.into(), id: id.into(), bytes: vec![], choices: toks.iter().map(|t| t.to_string()).collect(), note });
    }
}
