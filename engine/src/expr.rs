//! Hash-consed bit-vector expressions over symbolic input bytes.
//!
//! Every expression of at most 64 bits that depends on one input byte only is
//! kept in a canonical form: the table of its 256 values.
use crate::ir::{mask, mask128, sext128, sext64, BinOp, Pred};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        for x in &mut c { self.write_u64(u64::from_le_bytes(x.try_into().unwrap())); }
        for &x in c.remainder() { self.write_u64(x as u64); }
    }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

/// Expression handle; 0 is never an expression.
pub type E = u32;
/// Set of byte values.
pub type Set = [u64; 4];
pub const FULL: Set = [u64::MAX; 4];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Tab(u8, u32),
    Bin(BinOp, E, E),
    Cmp(Pred, E, E),
    ZExt(E),
    SExt(E),
    Ext(E, u8),
    Cat(E, E),
    Ite(E, E, E),
}

#[derive(Clone, Copy)]
pub struct Info { pub node: Node, pub w: u32, pub vars: u128 }

pub struct Arena {
    pub info: Vec<Info>,
    cons: FxMap<(Node, u32), E>,
    memo: FxMap<(Node, u32), E>,
    pub tabs: Vec<Box<[u64; 256]>>,
    tabmap: FxMap<Box<[u64; 256]>, u32>,
    sets: FxMap<u32, Set>,
}

pub fn fold_bin(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask128(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => if b == 0 { m } else { a / b },
        BinOp::URem => if b == 0 { a } else { a % b },
        BinOp::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 }
        }
        BinOp::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        BinOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BinOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BinOp::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sext128(a, w) >> s) as u128
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
    };
    r & m
}
pub fn fold_bin64(op: BinOp, w: u32, a: u64, b: u64) -> u64 {
    let m = mask(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => if b >= w as u64 { 0 } else { a << b },
        BinOp::LShr => if b >= w as u64 { 0 } else { a >> b },
        _ => return fold_bin(op, w, a as u128, b as u128) as u64,
    };
    r & m
}
pub fn fold_cmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sext128(a, w) > sext128(b, w),
        Pred::Sge => sext128(a, w) >= sext128(b, w),
        Pred::Slt => sext128(a, w) < sext128(b, w),
        Pred::Sle => sext128(a, w) <= sext128(b, w),
    }
}
#[inline]
pub fn fold_cmp64(p: Pred, w: u32, a: u64, b: u64) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => sext64(a, w) > sext64(b, w),
        Pred::Sge => sext64(a, w) >= sext64(b, w),
        Pred::Slt => sext64(a, w) < sext64(b, w),
        Pred::Sle => sext64(a, w) <= sext64(b, w),
    }
}

pub fn set_and(a: &Set, b: &Set) -> Set { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn set_not(a: &Set) -> Set { [!a[0], !a[1], !a[2], !a[3]] }
pub fn set_empty(a: &Set) -> bool { a.iter().all(|x| *x == 0) }
pub fn set_count(a: &Set) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn set_has(a: &Set, b: u8) -> bool { a[(b >> 6) as usize] >> (b & 63) & 1 == 1 }
pub fn set_add(a: &mut Set, b: u8) { a[(b >> 6) as usize] |= 1 << (b & 63) }
pub fn set_first(a: &Set) -> u8 {
    for i in 0..4 { if a[i] != 0 { return (i as u32 * 64 + a[i].trailing_zeros()) as u8; } }
    0
}
pub fn set_iter(a: Set) -> impl Iterator<Item = u8> {
    (0..4usize).flat_map(move |i| {
        let mut x = a[i];
        std::iter::from_fn(move || if x == 0 { None } else {
            let t = x.trailing_zeros();
            x &= x - 1;
            Some((i as u32 * 64 + t) as u8)
        })
    })
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { info: vec![], cons: Default::default(), memo: Default::default(), tabs: vec![],
            tabmap: Default::default(), sets: Default::default() };
        a.info.push(Info { node: Node::Const(0), w: 0, vars: 0 });
        a
    }
    pub fn w(&self, e: E) -> u32 { self.info[e as usize].w }
    pub fn vars(&self, e: E) -> u128 { self.info[e as usize].vars }
    pub fn node(&self, e: E) -> Node { self.info[e as usize].node }
    pub fn as_const(&self, e: E) -> Option<u128> {
        if let Node::Const(c) = self.info[e as usize].node { Some(c) } else { None }
    }
    fn raw(&mut self, node: Node, w: u32) -> E {
        if let Some(&e) = self.cons.get(&(node, w)) { return e; }
        let v = |s: &Self, e: E| s.info[e as usize].vars;
        let vars = match node {
            Node::Const(_) => 0,
            Node::Tab(v, _) => 1u128 << v,
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Cat(a, b) => v(self, a) | v(self, b),
            Node::ZExt(a) | Node::SExt(a) | Node::Ext(a, _) => v(self, a),
            Node::Ite(a, b, c) => v(self, a) | v(self, b) | v(self, c),
        };
        let e = self.info.len() as E;
        self.info.push(Info { node, w, vars });
        self.cons.insert((node, w), e);
        e
    }
    pub fn konst(&mut self, c: u128, w: u32) -> E { self.raw(Node::Const(c & mask128(w)), w) }
    fn table(&mut self, var: u8, t: Box<[u64; 256]>, w: u32) -> E {
        if t.iter().all(|x| *x == t[0]) { return self.konst(t[0] as u128, w); }
        let id = match self.tabmap.get(&t) {
            Some(&i) => i,
            None => {
                let i = self.tabs.len() as u32;
                self.tabs.push(t.clone());
                self.tabmap.insert(t, i);
                i
            }
        };
        self.raw(Node::Tab(var, id), w)
    }
    pub fn tab_from(&mut self, var: u8, w: u32, mut f: impl FnMut(u8) -> u64) -> E {
        let mut t = Box::new([0u64; 256]);
        for i in 0..256 { t[i] = f(i as u8) & mask(w); }
        self.table(var, t, w)
    }
    pub fn var(&mut self, i: u8) -> E { self.tab_from(i, 8, |x| x as u64) }
    /// Set of byte values for which a boolean table holds.
    pub fn set_of(&mut self, t: u32) -> Set {
        if let Some(s) = self.sets.get(&t) { return *s; }
        let mut s = [0u64; 4];
        for i in 0..256 { if self.tabs[t as usize][i] & 1 == 1 { set_add(&mut s, i as u8); } }
        self.sets.insert(t, s);
        s
    }
    pub fn in_set(&mut self, var: u8, s: &Set) -> E { let s = *s; self.tab_from(var, 1, |x| set_has(&s, x) as u64) }
    fn tab(&self, e: E) -> Option<(u8, u32)> { if let Node::Tab(v, t) = self.node(e) { Some((v, t)) } else { None } }

    /// Puts a fresh node in canonical form if it depends on one byte only.
    fn fin(&mut self, node: Node, w: u32) -> E {
        let e = self.raw(node, w);
        let vars = self.info[e as usize].vars;
        if w <= 64 && vars.count_ones() == 1 && !matches!(node, Node::Tab(..)) {
            let v = vars.trailing_zeros() as u8;
            let mut t = Box::new([0u64; 256]);
            for i in 0..256 { t[i] = self.eval_small(e, i as u8) as u64; }
            return self.table(v, t, w);
        }
        e
    }
    /// Evaluates an expression over one variable.
    fn eval_small(&self, e: E, x: u8) -> u128 {
        let i = self.info[e as usize];
        match i.node {
            Node::Const(c) => c,
            Node::Tab(_, t) => self.tabs[t as usize][x as usize] as u128,
            Node::Bin(op, a, b) => fold_bin(op, i.w, self.eval_small(a, x), self.eval_small(b, x)),
            Node::Cmp(p, a, b) => fold_cmp(p, self.w(a), self.eval_small(a, x), self.eval_small(b, x)) as u128,
            Node::ZExt(a) => self.eval_small(a, x),
            Node::SExt(a) => sext128(self.eval_small(a, x), self.w(a)) as u128 & mask128(i.w),
            Node::Ext(a, lo) => (self.eval_small(a, x) >> lo) & mask128(i.w),
            Node::Cat(h, l) => self.eval_small(h, x) << self.w(l) | self.eval_small(l, x),
            Node::Ite(c, a, b) => if self.eval_small(c, x) & 1 == 1 { self.eval_small(a, x) } else { self.eval_small(b, x) },
        }
    }
    /// Value under an assignment of all bytes.
    pub fn eval(&self, e: E, m: &[u8]) -> u128 {
        let mut memo = FxMap::default();
        self.eval_memo(e, m, &mut memo)
    }
    pub fn eval_memo(&self, e: E, m: &[u8], memo: &mut FxMap<E, u128>) -> u128 {
        let i = self.info[e as usize];
        match i.node {
            Node::Const(c) => return c,
            Node::Tab(v, t) => return self.tabs[t as usize][m[v as usize] as usize] as u128,
            _ => {}
        }
        if let Some(x) = memo.get(&e) { return *x; }
        let r = match i.node {
            Node::Bin(op, a, b) => fold_bin(op, i.w, self.eval_memo(a, m, memo), self.eval_memo(b, m, memo)),
            Node::Cmp(p, a, b) => fold_cmp(p, self.w(a), self.eval_memo(a, m, memo), self.eval_memo(b, m, memo)) as u128,
            Node::ZExt(a) => self.eval_memo(a, m, memo),
            Node::SExt(a) => sext128(self.eval_memo(a, m, memo), self.w(a)) as u128 & mask128(i.w),
            Node::Ext(a, lo) => (self.eval_memo(a, m, memo) >> lo) & mask128(i.w),
            Node::Cat(h, l) => self.eval_memo(h, m, memo) << self.w(l) | self.eval_memo(l, m, memo),
            Node::Ite(c, a, b) => if self.eval_memo(c, m, memo) & 1 == 1 { self.eval_memo(a, m, memo) } else { self.eval_memo(b, m, memo) },
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
    /// Whether there is wide arithmetic in it.
    pub fn arith(&self, e: E) -> bool {
        let mut seen = FxSet::default();
        let mut todo = vec![e];
        while let Some(e) = todo.pop() {
            if !seen.insert(e) { continue; }
            let i = self.info[e as usize];
            match i.node {
                Node::Const(_) | Node::Tab(..) => {}
                Node::Bin(op, a, b) => {
                    if i.w >= 16 && !matches!(op, BinOp::And | BinOp::Or | BinOp::Xor) { return true; }
                    todo.push(a); todo.push(b);
                }
                Node::Cmp(_, a, b) | Node::Cat(a, b) => { todo.push(a); todo.push(b); }
                Node::ZExt(a) | Node::SExt(a) | Node::Ext(a, _) => todo.push(a),
                Node::Ite(c, a, b) => { todo.push(c); todo.push(a); todo.push(b); }
            }
        }
        false
    }
    /// Replaces the variables in `fixed` by their value in `m`.
    pub fn specialise(&mut self, e: E, fixed: u128, m: &[u8]) -> E {
        let mut memo = FxMap::default();
        self.spec(e, fixed, m, &mut memo)
    }
    fn spec(&mut self, e: E, fixed: u128, m: &[u8], memo: &mut FxMap<E, E>) -> E {
        let i = self.info[e as usize];
        if i.vars & fixed == 0 { return e; }
        if i.vars & !fixed == 0 { let c = self.eval(e, m); return self.konst(c, i.w); }
        if let Some(x) = memo.get(&e) { return *x; }
        let r = match i.node {
            Node::Bin(op, a, b) => { let (a, b) = (self.spec(a, fixed, m, memo), self.spec(b, fixed, m, memo)); self.bin(op, i.w, a, b) }
            Node::Cmp(p, a, b) => { let (a, b) = (self.spec(a, fixed, m, memo), self.spec(b, fixed, m, memo)); self.cmp(p, a, b) }
            Node::ZExt(a) => { let a = self.spec(a, fixed, m, memo); self.zext(a, i.w) }
            Node::SExt(a) => { let a = self.spec(a, fixed, m, memo); self.sext(a, i.w) }
            Node::Ext(a, lo) => { let a = self.spec(a, fixed, m, memo); self.ext(a, lo as u32, i.w) }
            Node::Cat(h, l) => { let (a, b) = (self.spec(h, fixed, m, memo), self.spec(l, fixed, m, memo)); self.cat(a, b) }
            Node::Ite(c, a, b) => {
                let (c, a, b) = (self.spec(c, fixed, m, memo), self.spec(a, fixed, m, memo), self.spec(b, fixed, m, memo));
                self.ite(c, a, b)
            }
            _ => e,
        };
        memo.insert(e, r);
        r
    }

    pub fn bin(&mut self, op: BinOp, w: u32, mut a: E, mut b: E) -> E {
        use BinOp::*;
        if matches!(op, Add | Mul | And | Or | Xor) {
            if self.as_const(a).is_some() || (self.as_const(b).is_none() && b < a) { std::mem::swap(&mut a, &mut b); }
        }
        let key = (Node::Bin(op, a, b), w);
        if let Some(&e) = self.memo.get(&key) { return e; }
        let r = self.bin0(op, w, a, b);
        self.memo.insert(key, r);
        r
    }
    fn bin0(&mut self, op: BinOp, w: u32, a: E, b: E) -> E {
        use BinOp::*;
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { let c = fold_bin(op, w, x, y); return self.konst(c, w); }
        if w <= 64 {
            match (self.tab(a), ca, self.tab(b), cb) {
                (Some((v, t)), _, _, Some(c)) => {
                    let mut o = Box::new([0u64; 256]);
                    let t = &self.tabs[t as usize];
                    for i in 0..256 { o[i] = fold_bin64(op, w, t[i], c as u64); }
                    return self.table(v, o, w);
                }
                (_, Some(c), Some((v, t)), _) => {
                    let mut o = Box::new([0u64; 256]);
                    let t = &self.tabs[t as usize];
                    for i in 0..256 { o[i] = fold_bin64(op, w, c as u64, t[i]); }
                    return self.table(v, o, w);
                }
                (Some((v, t)), _, Some((v2, t2)), _) if v == v2 => {
                    let mut o = Box::new([0u64; 256]);
                    let (t, t2) = (&self.tabs[t as usize], &self.tabs[t2 as usize]);
                    for i in 0..256 { o[i] = fold_bin64(op, w, t[i], t2[i]); }
                    return self.table(v, o, w);
                }
                _ => {}
            }
        }
        let m = mask128(w);
        match op {
            And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) || a == b { return a; }
                if let Some(c) = cb {
                    // a low mask is an extraction.
                    if c & (c.wrapping_add(1)) == 0 {
                        let k = c.count_ones();
                        let x = self.ext(a, 0, k);
                        return self.zext(x, w);
                    }
                    if let Node::Bin(And, x, y) = self.node(a) {
                        if let Some(d) = self.as_const(y) { let k = self.konst(c & d, w); return self.bin(And, w, x, k); }
                    }
                }
                if w == 1 && (self.not(a) == b) { return self.konst(0, 1); }
            }
            Or => {
                if cb == Some(0) || a == b { return a; }
                if cb == Some(m) { return b; }
                // disjoint halves make a concatenation.
                if let Some(e) = self.or_cat(a, b, w) { return e; }
                if let Some(e) = self.or_cat(b, a, w) { return e; }
            }
            Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(0, w); }
                if let (Some(c), Node::Bin(Xor, x, y)) = (cb, self.node(a)) {
                    if let Some(d) = self.as_const(y) { let k = self.konst(c ^ d, w); return self.bin(Xor, w, x, k); }
                }
                if w == 1 && cb == Some(1) {
                    if let Node::Cmp(p, x, y) = self.node(a) {
                        let np = match p { Pred::Eq => None, Pred::Ne => Some(Pred::Eq), Pred::Ugt => Some(Pred::Ule), Pred::Uge => Some(Pred::Ult),
                            Pred::Ult => Some(Pred::Uge), Pred::Ule => Some(Pred::Ugt), Pred::Sgt => Some(Pred::Sle), Pred::Sge => Some(Pred::Slt),
                            Pred::Slt => Some(Pred::Sge), Pred::Sle => Some(Pred::Sgt) };
                        if let Some(np) = np { return self.cmp(np, x, y); }
                    }
                }
            }
            Add => {
                if cb == Some(0) { return a; }
                if let (Some(c), Node::Bin(Add, x, y)) = (cb, self.node(a)) {
                    if let Some(d) = self.as_const(y) { let k = self.konst(c.wrapping_add(d), w); return self.bin(Add, w, x, k); }
                }
            }
            Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(0, w); }
                if let Some(c) = cb { let k = self.konst(c.wrapping_neg(), w); return self.bin(Add, w, a, k); }
            }
            Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.konst(c.trailing_zeros() as u128, w); return self.bin(Shl, w, a, k); } }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(c) = cb { if c.is_power_of_two() { let k = self.konst(c.trailing_zeros() as u128, w); return self.bin(LShr, w, a, k); } }
            }
            URem => if let Some(c) = cb { if c.is_power_of_two() { let k = self.konst(c - 1, w); return self.bin(And, w, a, k); } },
            Shl => if let Some(c) = cb {
                if c == 0 { return a; }
                if c >= w as u128 { return self.konst(0, w); }
                let k = c as u32;
                let x = self.ext(a, 0, w - k);
                let z = self.konst(0, k);
                return self.cat(x, z);
            },
            LShr => if let Some(c) = cb {
                if c == 0 { return a; }
                if c >= w as u128 { return self.konst(0, w); }
                let k = c as u32;
                let x = self.ext(a, k, w - k);
                return self.zext(x, w);
            },
            AShr => if let Some(c) = cb {
                if c == 0 { return a; }
                let k = if c >= w as u128 { w - 1 } else { c as u32 };
                let x = self.ext(a, k, w - k);
                return self.sext(x, w);
            },
            _ => {}
        }
        self.fin(Node::Bin(op, a, b), w)
    }
    /// a = Cat(x, 0_k) (or ZExt of it), b = ZExt(y) with width(y) <= k.
    fn or_cat(&mut self, a: E, b: E, w: u32) -> Option<E> {
        let (hi, inner) = match self.node(a) {
            Node::Cat(x, z) => (x, z),
            Node::ZExt(c) => match self.node(c) { Node::Cat(x, z) => (x, z), _ => return None },
            _ => return None,
        };
        if self.as_const(inner) != Some(0) { return None; }
        let k = self.w(inner);
        let low = match self.node(b) {
            Node::ZExt(y) if self.w(y) <= k => self.zext(y, k),
            Node::Tab(v, t) => {
                if self.tabs[t as usize].iter().any(|x| k < 64 && *x >> k != 0) { return None; }
                let tb = self.tabs[t as usize].clone();
                self.table(v, tb, k)
            }
            Node::Const(c) if k >= 128 || c >> k == 0 => self.konst(c, k),
            _ => return None,
        };
        let c = self.cat(hi, low);
        Some(self.zext(c, w))
    }
    pub fn not(&mut self, a: E) -> E { let k = self.konst(1, 1); self.bin(BinOp::Xor, 1, a, k) }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(BinOp::And, 1, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(BinOp::Or, 1, a, b) }

    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        let key = (Node::Cmp(p, a, b), 1);
        if let Some(&e) = self.memo.get(&key) { return e; }
        let r = self.cmp0(p, a, b);
        self.memo.insert(key, r);
        r
    }
    fn cmp0(&mut self, p: Pred, a: E, b: E) -> E {
        let w = self.w(a);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.konst(fold_cmp(p, w, x, y) as u128, 1); }
        if a == b { return self.konst(matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle) as u128, 1); }
        if w <= 64 {
            let t = match (self.tab(a), ca, self.tab(b), cb) {
                (Some((v, t)), _, _, Some(c)) => Some((v, Some(t), None, c as u64, false)),
                (_, Some(c), Some((v, t)), _) => Some((v, Some(t), None, c as u64, true)),
                (Some((v, t)), _, Some((v2, t2)), _) if v == v2 => Some((v, Some(t), Some(t2), 0, false)),
                _ => None,
            };
            if let Some((v, Some(t), t2, c, rev)) = t {
                let mut o = Box::new([0u64; 256]);
                let t = &self.tabs[t as usize];
                for i in 0..256 {
                    let x = t[i];
                    let y = match t2 { Some(k) => self.tabs[k as usize][i], None => c };
                    o[i] = if rev { fold_cmp64(p, w, y, x) } else { fold_cmp64(p, w, x, y) } as u64;
                }
                return self.table(v, o, 1);
            }
        }
        if p == Pred::Ne { let e = self.cmp(Pred::Eq, a, b); return self.not(e); }
        if ca.is_some() {
            let np = match p { Pred::Eq => Pred::Eq, Pred::Ne => Pred::Ne, Pred::Ugt => Pred::Ult, Pred::Uge => Pred::Ule, Pred::Ult => Pred::Ugt,
                Pred::Ule => Pred::Uge, Pred::Sgt => Pred::Slt, Pred::Sge => Pred::Sle, Pred::Slt => Pred::Sgt, Pred::Sle => Pred::Sge };
            return self.cmp(np, b, a);
        }
        if w == 1 && p == Pred::Eq {
            let x = self.bin(BinOp::Xor, 1, a, b);
            return self.not(x);
        }
        if p == Pred::Eq {
            if b < a && cb.is_none() { return self.cmp(p, b, a); }
            match (self.node(a), self.node(b)) {
                (Node::Cat(h, l), Node::Const(c)) => {
                    let lw = self.w(l);
                    let hw = self.w(h);
                    let kh = self.konst(c >> lw, hw);
                    let kl = self.konst(c, lw);
                    let x = self.cmp(Pred::Eq, h, kh);
                    let y = self.cmp(Pred::Eq, l, kl);
                    return self.and(x, y);
                }
                (Node::Cat(h, l), Node::Cat(h2, l2)) if self.w(l) == self.w(l2) => {
                    let x = self.cmp(Pred::Eq, h, h2);
                    let y = self.cmp(Pred::Eq, l, l2);
                    return self.and(x, y);
                }
                (Node::ZExt(x), Node::Const(c)) => {
                    let xw = self.w(x);
                    if c >> xw != 0 { return self.konst(0, 1); }
                    let k = self.konst(c, xw);
                    return self.cmp(Pred::Eq, x, k);
                }
                (Node::ZExt(x), Node::ZExt(y)) if self.w(x) == self.w(y) => return self.cmp(Pred::Eq, x, y),
                (Node::Bin(BinOp::Add, x, y), Node::Const(c)) => if let Some(d) = self.as_const(y) {
                    let k = self.konst(c.wrapping_sub(d), w);
                    return self.cmp(Pred::Eq, x, k);
                },
                (Node::Bin(BinOp::Xor, x, y), Node::Const(c)) => if let Some(d) = self.as_const(y) {
                    let k = self.konst(c ^ d, w);
                    return self.cmp(Pred::Eq, x, k);
                },
                (Node::Ite(c, x, y), Node::Const(_)) if self.as_const(x).is_some() || self.as_const(y).is_some() => {
                    let (p, q) = (self.cmp(Pred::Eq, x, b), self.cmp(Pred::Eq, y, b));
                    return self.ite(c, p, q);
                }
                _ => {}
            }
        } else {
            // comparisons of zero-extended values with constants.
            if let (Node::ZExt(x), Some(c)) = (self.node(a), cb) {
                let xw = self.w(x);
                let signed = matches!(p, Pred::Sgt | Pred::Sge | Pred::Slt | Pred::Sle);
                let up = match p { Pred::Sgt => Pred::Ugt, Pred::Sge => Pred::Uge, Pred::Slt => Pred::Ult, Pred::Sle => Pred::Ule, p => p };
                if signed && sext128(c, w) < 0 { return self.konst(matches!(p, Pred::Sgt | Pred::Sge) as u128, 1); }
                if c >> xw != 0 { return self.konst(matches!(up, Pred::Ult | Pred::Ule) as u128, 1); }
                let k = self.konst(c, xw);
                return self.cmp(up, x, k);
            }
            if let (Node::ZExt(x), Node::ZExt(y)) = (self.node(a), self.node(b)) {
                if self.w(x) == self.w(y) {
                    let up = match p { Pred::Sgt => Pred::Ugt, Pred::Sge => Pred::Uge, Pred::Slt => Pred::Ult, Pred::Sle => Pred::Ule, p => p };
                    return self.cmp(up, x, y);
                }
            }
            if let (Node::Ite(c, x, y), Some(_)) = (self.node(a), cb) {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let (q, r) = (self.cmp(p, x, b), self.cmp(p, y, b));
                    return self.ite(c, q, r);
                }
            }
            if cb == Some(0) && p == Pred::Ult { return self.konst(0, 1); }
            if cb == Some(0) && p == Pred::Uge { return self.konst(1, 1); }
        }
        self.fin(Node::Cmp(p, a, b), 1)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(c) = self.as_const(a) { return self.konst(c, w); }
        if let (Some((v, t)), true) = (self.tab(a), w <= 64) { return self.raw(Node::Tab(v, t), w); }
        if let Node::ZExt(x) = self.node(a) { return self.zext(x, w); }
        self.fin(Node::ZExt(a), w)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(c) = self.as_const(a) { return self.konst(sext128(c, aw) as u128, w); }
        let key = (Node::SExt(a), w);
        if let Some(&e) = self.memo.get(&key) { return e; }
        let r = if let (Some((v, t)), true) = (self.tab(a), w <= 64) {
            let t = self.tabs[t as usize].clone();
            self.tab_from(v, w, |i| sext64(t[i as usize], aw) as u64)
        } else if let Node::ZExt(x) = self.node(a) { self.zext(x, w) } else { self.fin(Node::SExt(a), w) };
        self.memo.insert(key, r);
        r
    }
    /// Bits lo .. lo+w of `a`.
    pub fn ext(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(c) = self.as_const(a) { return self.konst(c >> lo, w); }
        let key = (Node::Ext(a, lo as u8), w);
        if let Some(&e) = self.memo.get(&key) { return e; }
        let r = self.ext0(a, lo, w);
        self.memo.insert(key, r);
        r
    }
    fn ext0(&mut self, a: E, lo: u32, w: u32) -> E {
        match self.node(a) {
            Node::Tab(v, t) => {
                let t = self.tabs[t as usize].clone();
                return self.tab_from(v, w, |i| t[i as usize] >> lo);
            }
            Node::Cat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { return self.ext(h, lo - lw, w); }
                if lo + w <= lw { return self.ext(l, lo, w); }
                let x = self.ext(l, lo, lw - lo);
                let y = self.ext(h, 0, w - (lw - lo));
                return self.cat(y, x);
            }
            Node::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.konst(0, w); }
                if lo + w <= xw { return self.ext(x, lo, w); }
                let y = self.ext(x, lo, xw - lo);
                return self.zext(y, w);
            }
            Node::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw { return self.ext(x, lo, w); }
            }
            Node::Ext(x, l2) => return self.ext(x, lo + l2 as u32, w),
            Node::Bin(op @ (BinOp::And | BinOp::Or | BinOp::Xor), x, y) => {
                let (p, q) = (self.ext(x, lo, w), self.ext(y, lo, w));
                return self.bin(op, w, p, q);
            }
            Node::Bin(op @ (BinOp::Add | BinOp::Sub | BinOp::Mul), x, y) if lo == 0 => {
                let (p, q) = (self.ext(x, 0, w), self.ext(y, 0, w));
                return self.bin(op, w, p, q);
            }
            Node::Ite(c, x, y) => {
                let (p, q) = (self.ext(x, lo, w), self.ext(y, lo, w));
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.fin(Node::Ext(a, lo as u8), w)
    }
    pub fn cat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        let (ch, cl) = (self.as_const(h), self.as_const(l));
        if let (Some(x), Some(y)) = (ch, cl) { return self.konst(x << lw | y, w); }
        if ch == Some(0) { return self.zext(l, w); }
        let key = (Node::Cat(h, l), w);
        if let Some(&e) = self.memo.get(&key) { return e; }
        let mut r = None;
        if let (Node::Ext(x, a), Node::Ext(y, b)) = (self.node(h), self.node(l)) {
            if x == y && a as u32 == b as u32 + lw { r = Some(self.ext(x, b as u32, w)); }
        }
        if let Node::ZExt(x) = self.node(h) { if r.is_none() { let y = self.cat(x, l); r = Some(self.zext(y, w)); } }
        let r = match r { Some(r) => r, None => self.fin(Node::Cat(h, l), w) };
        self.memo.insert(key, r);
        r
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) { return if k & 1 == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let key = (Node::Ite(c, a, b), w);
        if let Some(&e) = self.memo.get(&key) { return e; }
        let r = self.ite0(c, a, b, w);
        self.memo.insert(key, r);
        r
    }
    fn ite0(&mut self, c: E, a: E, b: E, w: u32) -> E {
        if w == 1 {
            if self.as_const(a) == Some(1) { return self.or(c, b); }
            if self.as_const(a) == Some(0) { let n = self.not(c); return self.and(n, b); }
            if self.as_const(b) == Some(0) { return self.and(c, a); }
            if self.as_const(b) == Some(1) { let n = self.not(c); return self.or(n, a); }
        }
        if let Node::Bin(BinOp::Xor, x, k) = self.node(c) { if self.as_const(k) == Some(1) { return self.ite(x, b, a); } }
        if let Node::Ite(c2, x, _) = self.node(a) { if c2 == c { return self.ite(c, x, b); } }
        if let Node::Ite(c2, _, y) = self.node(b) { if c2 == c { return self.ite(c, a, y); } }
        self.fin(Node::Ite(c, a, b), w)
    }
}
