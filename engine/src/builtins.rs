//! Models of intrinsics, of the C library and of the harness interface.
use crate::exec::*;
use crate::expr::*;
use crate::ir::*;
use crate::state::*;
use std::rc::Rc;

macro_rules! merr { ($e:expr) => { match $e { Ok(x) => x, Err(m) => return Err(Stop::End(Outcome::Memory(m))) } } }
fn one(v: u64) -> R<RV> { Ok(RV::One(Val::C(v))) }
fn errno(st: &mut State, e: i32) {
    let a = io(st).errno;
    let a = if a == 0 { let a = st.mem.alloc(4, Kind::Global, 0); io(st).errno = a; a } else { a };
    let _ = st.mem.write_bytes(a, &e.to_le_bytes().map(|b| b as u32));
}
fn io(st: &mut State) -> &mut Io { Rc::make_mut(&mut st.io) }

impl Worker {
    fn c(&mut self, st: &mut State, v: Val) -> R<u64> { match v { Val::C(c) => Ok(c), v => self.concretise(st, v) } }
    /// NUL-terminated string (symbolic bytes are made concrete).
    fn cstr(&mut self, st: &mut State, p: u64) -> R<Vec<u8>> {
        let mut out = vec![];
        loop {
            let b = merr!(st.mem.read_bytes(p + out.len() as u64, 1))[0];
            let v = self.sb_val(b);
            let x = self.c(st, v)? as u8;
            if x == 0 { return Ok(out); }
            out.push(x);
        }
    }
    fn bytes(&mut self, st: &mut State, p: Val, n: Val) -> R<Vec<SB>> {
        let p = self.c(st, p)?;
        let n = self.c(st, n)?;
        Ok(merr!(st.mem.read_bytes(p, n)))
    }
    fn conc(&mut self, st: &mut State, b: Vec<SB>) -> R<Vec<u8>> {
        let mut o = vec![];
        for x in b { let v = self.sb_val(x); o.push(self.c(st, v)? as u8); }
        Ok(o)
    }
    fn text(&mut self, st: &mut State, p: Val, n: Val) -> R<String> {
        let b = self.bytes(st, p, n)?;
        Ok(String::from_utf8_lossy(&self.conc(st, b)?).into_owned())
    }
}

// ---- intrinsics -----------------------------------------------------------
fn i_nop(_: &mut Worker, _: &mut State, _: &[Val], _: &CI) -> R<RV> { Ok(RV::None) }
/// Keys are told apart by nothing: there is one thread and no value is ever read back.
fn i_key_create(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> { w.store(st, a[0], Val::C(1), 32)?; one(0) }
fn i_zero(_: &mut Worker, _: &mut State, _: &[Val], _: &CI) -> R<RV> { one(0) }
fn i_first(_: &mut Worker, _: &mut State, a: &[Val], _: &CI) -> R<RV> { Ok(RV::One(a[0])) }
fn i_trap(_: &mut Worker, _: &mut State, _: &[Val], _: &CI) -> R<RV> { Err(Stop::End(Outcome::Panic("abort".into()))) }

fn i_memcpy(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let (d, s, n) = (w.c(st, a[0])?, w.c(st, a[1])?, w.c(st, a[2])?);
    merr!(st.mem.copy(d, s, n));
    Ok(RV::One(a[0]))
}
fn i_memset(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let (d, n) = (w.c(st, a[0])?, w.c(st, a[2])?);
    if n == 0 { return Ok(RV::One(a[0])); }
    match w.trunc(a[1], 8) {
        Val::C(b) => {
            let o = merr!(st.mem.slice_mut(d, n));
            let off = d as u32 as usize;
            o.data[off..off + n as usize].fill(b as u8);
            if !o.sym.is_empty() { o.sym[off..off + n as usize].fill(0); }
        }
        Val::S(e) => merr!(st.mem.write_bytes(d, &vec![sb_e(e); n as usize])),
    }
    Ok(RV::One(a[0]))
}
fn overflow(w: &mut Worker, name: &str, wd: u32, x: Val, y: Val) -> R<RV> {
    let signed = name.contains(".s");
    let op = if name.contains("add.") { BinOp::Add } else if name.contains("sub.") { BinOp::Sub } else { BinOp::Mul };
    if let (Val::C(a), Val::C(b)) = (x, y) {
        if wd <= 64 {
            let full: i128 = if signed {
                let (a, b) = (sext64(a, wd) as i128, sext64(b, wd) as i128);
                match op { BinOp::Add => a + b, BinOp::Sub => a - b, _ => a * b }
            } else {
                let (a, b) = (a as i128, b as i128);
                match op { BinOp::Add => a + b, BinOp::Sub => a - b, _ => {
                    let p = (a as u128) * (b as u128);
                    return Ok(RV::Two(Val::C(p as u64 & mask(wd)), Val::C((p >> wd != 0) as u64)));
                } }
            };
            let r = full as u128 & mask128(wd);
            let back: i128 = if signed { sext128(r, wd) } else { r as i128 };
            return Ok(RV::Two(Val::C(r as u64), Val::C((back != full) as u64)));
        }
    }
    let (a, b) = (w.e(x, wd), w.e(y, wd));
    if wd > 64 {
        if let (Some(p), Some(q)) = (w.ar.as_const(a), w.ar.as_const(b)) {
            if wd == 128 && !signed {
                let (r, o) = match op { BinOp::Add => p.overflowing_add(q), BinOp::Sub => p.overflowing_sub(q), _ => p.overflowing_mul(q) };
                let r = w.ar.konst(r, wd);
                return Ok(RV::Two(Val::S(r), Val::C(o as u64)));
            }
            if wd == 128 {
                let (p, q) = (p as i128, q as i128);
                let (r, o) = match op { BinOp::Add => p.overflowing_add(q), BinOp::Sub => p.overflowing_sub(q), _ => p.overflowing_mul(q) };
                let r = w.ar.konst(r as u128, wd);
                return Ok(RV::Two(Val::S(r), Val::C(o as u64)));
            }
        }
    }
    let r = w.ar.bin(op, wd, a, b);
    if wd > 64 && !(op == BinOp::Add || op == BinOp::Sub) { return unsup("wide symbolic overflow"); }
    let o = if !signed && op == BinOp::Add { w.ar.cmp(Pred::Ult, r, a) }
    else if !signed && op == BinOp::Sub { w.ar.cmp(Pred::Ult, a, b) }
    else {
        let ww = if op == BinOp::Mul { wd * 2 } else { wd + 1 };
        let (p, q) = if signed { (w.ar.sext(a, ww), w.ar.sext(b, ww)) } else { (w.ar.zext(a, ww), w.ar.zext(b, ww)) };
        let f = w.ar.bin(op, ww, p, q);
        let back = if signed { w.ar.sext(r, ww) } else { w.ar.zext(r, ww) };
        let eq = w.ar.cmp(Pred::Eq, f, back);
        w.ar.not(eq)
    };
    Ok(RV::Two(w.v(r), w.v(o)))
}
fn i_overflow(w: &mut Worker, _: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let n = c.name.to_string();
    overflow(w, &n.replace("llvm.s", "llvm..s").replace("llvm.u", "llvm..u"), c.aw[0], a[0], a[1])
}
fn i_minmax(w: &mut Worker, _: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let p = if c.name.contains("umin") { Pred::Ult } else if c.name.contains("umax") { Pred::Ugt }
        else if c.name.contains("smin") { Pred::Slt } else { Pred::Sgt };
    let k = w.icmp(p, c.aw[0], a[0], a[1]);
    Ok(RV::One(w.select(k, a[0], a[1], c.aw[0])))
}
fn i_sat(w: &mut Worker, _: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let n = c.name.to_string();
    let wd = c.aw[0];
    let kind = if n.contains("add.") { "llvm..XXadd." } else { "llvm..XXsub." };
    let signed = n.starts_with("llvm.s");
    let nm = kind.replace("XX", if signed { "s" } else { "u" });
    let (r, o) = match overflow(w, &nm, wd, a[0], a[1])? { RV::Two(r, o) => (r, o), _ => unreachable!() };
    let lim = if signed {
        let neg = w.icmp(Pred::Slt, wd, a[0], Val::C(0));
        w.select(neg, Val::C(1u64 << (wd - 1)), Val::C(mask(wd - 1)), wd)
    } else if n.contains("add.") { Val::C(mask(wd)) } else { Val::C(0) };
    Ok(RV::One(w.select(o, lim, r, wd)))
}
fn i_bits(w: &mut Worker, st: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let wd = c.aw[0];
    let n = c.name;
    let f = |x: u128| -> u128 {
        if n.contains("ctlz") { (x.leading_zeros() - (128 - wd)) as u128 }
        else if n.contains("cttz") { if x == 0 { wd as u128 } else { x.trailing_zeros() as u128 } }
        else if n.contains("ctpop") { x.count_ones() as u128 }
        else if n.contains("bswap") { x.swap_bytes() >> (128 - wd) }
        else { x.reverse_bits() >> (128 - wd) }
    };
    match a[0] {
        Val::C(x) if wd <= 64 => one(f(x as u128) as u64),
        v => {
            let e = w.e(v, wd);
            let e = w.reduce(st, e);
            if let Node::Tab(var, t) = w.ar.node(e) {
                let tb = w.ar.tabs[t as usize].clone();
                let r = w.ar.tab_from(var, wd, |i| f(tb[i as usize] as u128) as u64);
                return Ok(RV::One(w.v(r)));
            }
            if n.contains("bswap") {
                let mut acc = None;
                for i in 0..wd / 8 {
                    let b = w.ar.ext(e, i * 8, 8);
                    acc = Some(match acc { None => b, Some(x) => w.ar.cat(x, b) });
                }
                return Ok(RV::One(w.v(acc.unwrap())));
            }
            let x = w.concretise128(st, e)?;
            let k = w.ar.konst(f(x), wd);
            Ok(RV::One(w.v(k)))
        }
    }
}
fn i_fsh(w: &mut Worker, st: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let wd = c.aw[0];
    let s = w.c(st, a[2])? % wd as u64;
    let left = c.name.contains("fshl");
    let s = if left { s } else { wd as u64 - s };
    if s == 0 { return Ok(RV::One(a[0])); }
    if s == wd as u64 { return Ok(RV::One(a[1])); }
    let hi = w.binop(BinOp::Shl, wd, a[0], Val::C(s));
    let lo = w.binop(BinOp::LShr, wd, a[1], Val::C(wd as u64 - s));
    Ok(RV::One(w.binop(BinOp::Or, wd, hi, lo)))
}
fn i_cmp3(w: &mut Worker, _: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let (l, g) = if c.name.contains("ucmp") { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
    let lt = w.icmp(l, c.aw[0], a[0], a[1]);
    let gt = w.icmp(g, c.aw[0], a[0], a[1]);
    let x = w.select(gt, Val::C(1), Val::C(0), c.rw);
    Ok(RV::One(w.select(lt, Val::C(mask(c.rw)), x, c.rw)))
}
fn i_abs(w: &mut Worker, _: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let wd = c.aw[0];
    let k = w.icmp(Pred::Slt, wd, a[0], Val::C(0));
    let n = w.binop(BinOp::Sub, wd, Val::C(0), a[0]);
    Ok(RV::One(w.select(k, n, a[0], wd)))
}
fn i_reduce(w: &mut Worker, _: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let op = if c.name.contains("reduce.and") { BinOp::And } else if c.name.contains("reduce.or") { BinOp::Or } else { BinOp::Add };
    let mut r = a[0];
    for x in &a[1..] { r = w.binop(op, c.aw[0], r, *x); }
    Ok(RV::One(r))
}
fn i_float(w: &mut Worker, st: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let n = c.name.to_string();
    let x = w.c(st, a[0])?;
    let f32w = c.aw[0] == 32;
    let g = |c: u64| if f32w { f32::from_bits(c as u32) as f64 } else { f64::from_bits(c) };
    let back = |d: f64| if f32w { (d as f32).to_bits() as u64 } else { d.to_bits() };
    let xf = g(x);
    if n.contains("copysign") { let y = g(w.c(st, a[1])?); return one(back(xf.copysign(y))); }
    if n.contains("fma") || n.contains("fmuladd") {
        let (y, z) = (g(w.c(st, a[1])?), g(w.c(st, a[2])?));
        return one(back(if n.contains("fmuladd") { xf * y + z } else { xf.mul_add(y, z) }));
    }
    if n.contains("maxnum") || n.contains("minnum") || n.contains("pow") {
        if n.contains("powi") { let k = w.c(st, a[1])? as i32; return one(back(xf.powi(k))); }
        let y = g(w.c(st, a[1])?);
        return one(back(if n.contains("maxnum") { xf.max(y) } else if n.contains("minnum") { xf.min(y) } else { xf.powf(y) }));
    }
    one(back(if n.contains("fabs") { xf.abs() } else if n.contains("floor") { xf.floor() } else if n.contains("ceil") { xf.ceil() }
        else if n.contains("trunc") { xf.trunc() } else if n.contains("round") { xf.round() } else if n.contains("rint") { xf.round() }
        else { xf.sqrt() }))
}
fn i_fptoint(w: &mut Worker, st: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let x = w.c(st, a[0])?;
    let d = if c.aw[0] == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
    let r = c.rw;
    let v: u128 = if c.name.contains("fptosi") {
        let (lo, hi) = (-(1i128 << (r - 1)), (1i128 << (r - 1)) - 1);
        (d as i128).clamp(lo, hi) as u128 & mask128(r)
    } else { (d as u128).min(mask128(r)) };
    let k = w.ar.konst(v, r);
    Ok(RV::One(w.v(k)))
}

// ---- C library ------------------------------------------------------------
fn l_bcmp(w: &mut Worker, st: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let (p, q, n) = (w.c(st, a[0])?, w.c(st, a[1])?, w.c(st, a[2])?);
    if n == 0 { return one(0); }
    let x = merr!(st.mem.read_bytes(p, n));
    let y = merr!(st.mem.read_bytes(q, n));
    if x.iter().chain(y.iter()).all(|b| *b < 256) {
        return one(match x.cmp(&y) { std::cmp::Ordering::Less => mask(c.rw), std::cmp::Ordering::Equal => 0, _ => 1 });
    }
    if c.name == "bcmp" {
        let mut eq = w.one;
        for i in 0..n as usize {
            if x[i] < 256 && y[i] < 256 && x[i] != y[i] { return one(1); }
        }
        for i in 0..n as usize {
            let (p, q) = (w.sb_exp(x[i]), w.sb_exp(y[i]));
            let k = w.ar.cmp(Pred::Eq, p, q);
            eq = w.ar.and(eq, k);
        }
        let ne = w.ar.not(eq);
        let r = w.ar.zext(ne, c.rw);
        return Ok(RV::One(w.v(r)));
    }
    let wd = c.rw;
    let (m, p1, z) = (w.ar.konst(mask(wd) as u128, wd), w.ar.konst(1, wd), w.ar.konst(0, wd));
    let mut r = z;
    for i in (0..n as usize).rev() {
        if x[i] == y[i] { continue; }
        let (p, q) = (w.sb_exp(x[i]), w.sb_exp(y[i]));
        let lt = w.ar.cmp(Pred::Ult, p, q);
        let gt = w.ar.cmp(Pred::Ugt, p, q);
        let t = w.ar.ite(gt, p1, r);
        r = w.ar.ite(lt, m, t);
    }
    Ok(RV::One(w.v(r)))
}
fn l_strlen(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.c(st, a[0])?;
    let mut n = 0;
    loop {
        let b = merr!(st.mem.read_bytes(p + n, 1))[0];
        let v = w.sb_val(b);
        let z = w.icmp(Pred::Eq, 8, v, Val::C(0));
        if w.decide(st, z)? { return one(n); }
        n += 1;
    }
}
const MAX_ALLOC: u64 = 1 << 28;
fn l_malloc(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let n = w.c(st, a[0])?;
    if n > MAX_ALLOC { return Err(Stop::End(Outcome::Limit("allocation too large".into()))); }
    one(st.mem.alloc(n, Kind::Heap, 0xCD))
}
fn l_calloc(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let n = w.c(st, a[0])?.saturating_mul(w.c(st, a[1])?);
    if n > MAX_ALLOC { return Err(Stop::End(Outcome::Limit("allocation too large".into()))); }
    one(st.mem.alloc(n, Kind::Heap, 0))
}
fn l_memalign(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let n = w.c(st, a[2])?;
    let out = w.c(st, a[0])?;
    if n > MAX_ALLOC { return Err(Stop::End(Outcome::Limit("allocation too large".into()))); }
    let p = st.mem.alloc(n, Kind::Heap, 0xCD);
    w.store(st, Val::C(out), Val::C(p), 64)?;
    one(0)
}
fn dofree(st: &mut State, p: u64) -> R<()> {
    let id = (p >> 32) as u32;
    match st.mem.get(id) {
        Some(o) if o.kind == Kind::Heap && p as u32 == 0 => { st.mem.free(id); Ok(()) }
        Some(_) => Err(Stop::End(Outcome::Memory("free of a pointer that is not the start of a heap block".into()))),
        None => Err(Stop::End(Outcome::Memory("double free".into()))),
    }
}
fn l_free(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.c(st, a[0])?;
    if p != 0 { dofree(st, p)?; }
    Ok(RV::None)
}
fn l_realloc(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let (p, n) = (w.c(st, a[0])?, w.c(st, a[1])?);
    if n > MAX_ALLOC { return Err(Stop::End(Outcome::Limit("allocation too large".into()))); }
    if p == 0 { return one(st.mem.alloc(n, Kind::Heap, 0xCD)); }
    let old = match st.mem.get((p >> 32) as u32) { Some(o) => o.data.len() as u64, None =>
        return Err(Stop::End(Outcome::Memory("realloc of freed memory".into()))) };
    let q = st.mem.alloc(n, Kind::Heap, 0xCD);
    merr!(st.mem.copy(q, p, old.min(n)));
    dofree(st, p)?;
    one(q)
}
fn l_errno(_: &mut Worker, st: &mut State, _: &[Val], _: &CI) -> R<RV> {
    if st.io.errno == 0 { errno(st, 0); }
    one(st.io.errno)
}
fn norm(p: &[u8]) -> Vec<u8> {
    let mut full: Vec<u8> = if p.first() == Some(&b'/') { vec![] } else { b"/w/".to_vec() };
    full.extend_from_slice(p);
    let mut parts: Vec<&[u8]> = vec![];
    for c in full.split(|b| *b == b'/') {
        if c.is_empty() || c == b"." { continue; }
        if c == b".." { parts.pop(); continue; }
        parts.push(c);
    }
    let mut o = vec![];
    for c in parts { o.push(b'/'); o.extend_from_slice(c); }
    if o.is_empty() { o.push(b'/'); }
    o
}
fn find(st: &State, p: &[u8]) -> Option<usize> {
    if p.is_empty() { return None; }
    let n = norm(p);
    let i = st.io.files.iter().position(|f| f.path == n)?;
    // "file/" names a directory only.
    if p.ends_with(b"/") && !matches!(st.io.files[i].kind, FKind::Dir) { return None; }
    Some(i)
}
fn add_node(st: &mut State, path: &[u8], kind: FKind) {
    let n = norm(path);
    // parents
    let mut i = 1;
    while let Some(k) = n[i..].iter().position(|b| *b == b'/') {
        let d = n[..i + k].to_vec();
        if !st.io.files.iter().any(|f| f.path == d) {
            let t = st.io.files.len() as u64;
            io(st).files.push(FileNode { path: d, kind: FKind::Dir, mtime: Val::C(1000 + t), ctime: Val::C(1000 + t) });
        }
        i += k + 1;
    }
    let t = st.io.files.len() as u64;
    let f = &mut io(st).files;
    f.retain(|x| x.path != n);
    f.push(FileNode { path: n, kind, mtime: Val::C(1000 + t), ctime: Val::C(1000 + t) });
}
fn l_open(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.c(st, a[0])?;
    let flags = w.c(st, a[1])?;
    let path = w.cstr(st, p)?;
    let i = match find(st, &path) { Some(i) => i, None => { errno(st, if path.ends_with(b"/") && find(st, &path[..path.len() - 1]).is_some() { 20 } else { 2 }); return one(mask(32)); } };
    match st.io.files[i].kind {
        FKind::Broken => { errno(st, 2); return one(mask(32)); }
        FKind::Denied => { errno(st, 13); return one(mask(32)); }
        _ => {}
    }
    if flags & 3 != 0 { errno(st, 30); return one(mask(32)); }
    let f = &mut io(st).fds;
    f.push(Some(Fd::File(i, 0)));
    one(f.len() as u64 - 1)
}
fn l_read(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let (fd, p, n) = (w.c(st, a[0])?, w.c(st, a[1])?, w.c(st, a[2])?);
    if fd == 0 {
        let s = st.io.stdin.clone();
        let pos = st.io.stdin_pos;
        let k = (s.len() - pos).min(n as usize);
        merr!(st.mem.write_bytes(p, &s[pos..pos + k]));
        io(st).stdin_pos += k;
        return one(k as u64);
    }
    match st.io.fds.get(fd as usize).cloned().flatten() {
        Some(Fd::File(i, pos)) => match &st.io.files[i].kind {
            FKind::File(d) => {
                let d = d.clone();
                let k = (d.len() - (pos as usize).min(d.len())).min(n as usize);
                merr!(st.mem.write_bytes(p, &d[pos as usize..pos as usize + k]));
                io(st).fds[fd as usize] = Some(Fd::File(i, pos + k as u64));
                one(k as u64)
            }
            _ => { errno(st, 21); one(u64::MAX) }
        },
        _ => { errno(st, 9); one(u64::MAX) }
    }
}
fn l_lseek(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let (fd, off, wh) = (w.c(st, a[0])?, w.c(st, a[1])?, w.c(st, a[2])?);
    match st.io.fds.get(fd as usize).cloned().flatten() {
        Some(Fd::File(i, pos)) => {
            let len = if let FKind::File(d) = &st.io.files[i].kind { d.len() as u64 } else { 0 };
            let n = match wh { 0 => off, 1 => pos.wrapping_add(off), _ => len.wrapping_add(off) };
            io(st).fds[fd as usize] = Some(Fd::File(i, n));
            one(n)
        }
        _ => { errno(st, 29); one(u64::MAX) }
    }
}
fn l_close(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let fd = w.c(st, a[0])? as usize;
    if fd < st.io.fds.len() { io(st).fds[fd] = None; }
    one(0)
}
fn put_stat(w: &mut Worker, st: &mut State, p: u64, i: usize) -> R<()> {
    let f = st.io.files[i].clone();
    let (mode, size) = match &f.kind { FKind::File(d) => (0o100644u64, d.len() as u64), FKind::Dir => (0o040755, 4096), FKind::Denied => (0o100000, 1), FKind::Broken => (0o120777, 1) };
    for o in (0..144).step_by(8) { w.store(st, Val::C(p + o), Val::C(0), 64)?; }
    w.store(st, Val::C(p + 8), Val::C(i as u64 + 10), 64)?;
    w.store(st, Val::C(p + 16), Val::C(1), 64)?;
    w.store(st, Val::C(p + 24), Val::C(mode), 32)?;
    w.store(st, Val::C(p + 48), Val::C(size), 64)?;
    w.store(st, Val::C(p + 72), f.mtime, 64)?;
    w.store(st, Val::C(p + 88), f.mtime, 64)?;
    w.store(st, Val::C(p + 104), f.ctime, 64)?;
    Ok(())
}
fn l_stat(w: &mut Worker, st: &mut State, a: &[Val], c: &CI) -> R<RV> {
    let p = w.c(st, a[0])?;
    let path = w.cstr(st, p)?;
    let i = match find(st, &path) { Some(i) => i, None => { errno(st, 2); return one(mask(32)); } };
    if matches!(st.io.files[i].kind, FKind::Broken) && !c.name.starts_with('l') { errno(st, 2); return one(mask(32)); }
    let q = w.c(st, a[1])?;
    put_stat(w, st, q, i)?;
    one(0)
}
fn l_fstat(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let fd = w.c(st, a[0])? as usize;
    let q = w.c(st, a[1])?;
    match st.io.fds.get(fd).cloned().flatten() {
        Some(Fd::File(i, _)) => { put_stat(w, st, q, i)?; one(0) }
        _ => { errno(st, 9); one(mask(32)) }
    }
}
fn l_opendir(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.c(st, a[0])?;
    let path = w.cstr(st, p)?;
    let n = norm(&path);
    match find(st, &path) {
        Some(i) if matches!(st.io.files[i].kind, FKind::Dir) => {}
        Some(_) => { errno(st, 20); return one(0); }
        None => { errno(st, 2); return one(0); }
    }
    let mut names: Vec<Vec<u8>> = vec![b".".to_vec(), b"..".to_vec()];
    for f in &st.io.files {
        if let Some(rest) = f.path.strip_prefix(&n[..]) {
            let rest = if n == b"/" { rest } else { match rest.strip_prefix(b"/") { Some(r) => r, None => continue } };
            if !rest.is_empty() && !rest.contains(&b'/') { names.push(rest.to_vec()); }
        }
    }
    let buf = st.mem.alloc(280, Kind::Heap, 0);
    io(st).fds.push(Some(Fd::DirIter(names, 0, buf, n)));
    // the handle is the address of a block that holds the descriptor.
    let h = st.mem.alloc(8, Kind::Heap, 0);
    let k = st.io.fds.len() as u64 - 1;
    w.store(st, Val::C(h), Val::C(k), 64)?;
    one(h)
}
/// There are no links that lead anywhere.
fn l_readlink(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.c(st, a[0])?;
    let path = w.cstr(st, p)?;
    let e = if find(st, &path).is_some() { 22 } else { 2 };
    errno(st, e);
    one(u64::MAX)
}
fn l_readdir(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let h = w.c(st, a[0])?;
    let k = w.load(st, Val::C(h), 64)?;
    let k = w.c(st, k)? as usize;
    if let Some(Fd::DirIter(names, i, buf, base)) = st.io.fds[k].clone() {
        if i >= names.len() { return one(0); }
        let mut rec = vec![0u32; 19];
        rec[0] = (i as u32 + 1) & 255;
        let len = ((19 + names[i].len() + 1) + 7) / 8 * 8;
        rec[16] = len as u32;
        rec[18] = 0; // DT_UNKNOWN
        rec.extend(names[i].iter().map(|b| *b as u32));
        rec.push(0);
        merr!(st.mem.write_bytes(buf, &rec));
        io(st).fds[k] = Some(Fd::DirIter(names, i + 1, buf, base));
        return one(buf);
    }
    one(0)
}
fn l_dirfd(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let h = w.c(st, a[0])?;
    let k = w.load(st, Val::C(h), 64)?;
    one(w.c(st, k)?)
}
fn l_closedir(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let h = w.c(st, a[0])?;
    let k = w.load(st, Val::C(h), 64)?;
    let k = w.c(st, k)? as usize;
    io(st).fds[k] = None;
    one(0)
}
fn l_getcwd(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.c(st, a[0])?;
    merr!(st.mem.write_bytes(p, &[b'/' as u32, b'w' as u32, 0]));
    one(p)
}
fn l_realpath(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.c(st, a[0])?;
    let path = w.cstr(st, p)?;
    match find(st, &path) {
        Some(i) if !matches!(st.io.files[i].kind, FKind::Broken) => {}
        _ => { errno(st, 2); return one(0); }
    }
    let mut n: Vec<u32> = norm(&path).iter().map(|b| *b as u32).collect();
    n.push(0);
    let r = st.mem.alloc(n.len() as u64, Kind::Heap, 0);
    merr!(st.mem.write_bytes(r, &n));
    one(r)
}
fn l_getenv(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.c(st, a[0])?;
    let n = w.cstr(st, p)?;
    one(st.io.env.iter().find(|e| e.0 == n).map(|e| e.1).unwrap_or(0))
}
fn l_write(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let fd = w.c(st, a[0])?;
    let b = w.bytes(st, a[1], a[2])?;
    let n = b.len() as u64;
    if fd == 1 { io(st).out.extend(b) } else { io(st).err.extend(b) }
    one(n)
}
fn l_writev(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let (fd, p, n) = (w.c(st, a[0])?, w.c(st, a[1])?, w.c(st, a[2])?);
    let mut tot = 0;
    let mut all = vec![];
    for i in 0..n {
        let q = w.load(st, Val::C(p + i * 16), 64)?;
        let l = w.load(st, Val::C(p + i * 16 + 8), 64)?;
        let b = w.bytes(st, q, l)?;
        tot += b.len() as u64;
        all.extend(b);
    }
    if fd == 1 { io(st).out.extend(all) } else { io(st).err.extend(all) }
    one(tot)
}
fn l_clock(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.c(st, a[1])?;
    let c = st.io.clock as u64;
    w.store(st, Val::C(p), Val::C(c), 64)?;
    w.store(st, Val::C(p + 8), Val::C(0), 64)?;
    one(0)
}
fn statx(w: &mut Worker, st: &mut State, a: &[Val]) -> R<RV> {
    let (fd, p, flags, buf) = (w.c(st, a[0])?, w.c(st, a[1])?, w.c(st, a[2])?, w.c(st, a[4])?);
    if p == 0 || buf == 0 { errno(st, 14); return one(u64::MAX); }
    let path = w.cstr(st, p)?;
    let i = if path.is_empty() && flags & 0x1000 != 0 {
        match st.io.fds.get(fd as usize).cloned().flatten() { Some(Fd::File(i, _)) => i, _ => { errno(st, 9); return one(u64::MAX); } }
    } else {
        let path = match st.io.fds.get(fd as usize) {
            Some(Some(Fd::DirIter(.., base))) if !path.starts_with(b"/") => [&base[..], b"/", &path[..]].concat(),
            _ => path,
        };
        match find(st, &path) {
            Some(i) if flags & 0x100 != 0 || !matches!(st.io.files[i].kind, FKind::Broken) => i,
            _ => { errno(st, 2); return one(u64::MAX); }
        }
    };
    let f = st.io.files[i].clone();
    let (mode, size) = match &f.kind { FKind::File(d) => (0o100644u64, d.len() as u64), FKind::Dir => (0o040755, 4096), FKind::Denied => (0o100000, 1), FKind::Broken => (0o120777, 1) };
    for o in (0..256).step_by(8) { w.store(st, Val::C(buf + o), Val::C(0), 64)?; }
    for (o, v, n) in [(0, 0xfff, 32), (16, 1, 32), (28, mode, 16), (32, i as u64 + 10, 64), (40, size, 64), ] {
        w.store(st, Val::C(buf + o), Val::C(v), n)?;
    }
    for (o, v) in [(64, f.mtime), (80, f.ctime), (96, f.mtime), (112, f.mtime)] { w.store(st, Val::C(buf + o), v, 64)?; }
    one(0)
}
fn l_syscall(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    match w.c(st, a[0])? {
        318 => { let n = w.c(st, a[2])?; let p = w.c(st, a[1])?; merr!(st.mem.write_bytes(p, &vec![KEY as SB; n as usize])); one(n) }
        186 => one(1),
        202 => one(0),
        332 => statx(w, st, &a[1..]),
        n => unsup(format!("syscall {}", n)),
    }
}
fn l_getrandom(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let (p, n) = (w.c(st, a[0])?, w.c(st, a[1])?);
    merr!(st.mem.write_bytes(p, &vec![KEY as SB; n as usize]));
    one(n)
}
fn l_exit(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let c = w.c(st, a[0])?;
    Err(Stop::End(Outcome::Exit(c as i32 as i64)))
}
fn l_strerror(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let (k, p, n) = (w.c(st, a[0])?, w.c(st, a[1])?, w.c(st, a[2])?);
    let s: &[u8] = match k { 2 => b"No such file or directory\0", 13 => b"Permission denied\0", 20 => b"Not a directory\0", 21 => b"Is a directory\0", _ => b"error\0" };
    let b: Vec<u32> = s.iter().take(n as usize).map(|b| *b as u32).collect();
    merr!(st.mem.write_bytes(p, &b));
    one(0)
}

// ---- Rust runtime ---------------------------------------------------------
fn panic_loc(w: &mut Worker, st: &mut State, a: &[Val]) -> String {
    let p = match a.last() { Some(Val::C(c)) => *c, _ => return "panic".into() };
    let rd = |w: &mut Worker, st: &mut State, o: u64, n: u32| -> u64 { match w.load(st, Val::C(p + o), n) { Ok(Val::C(c)) => c, _ => 0 } };
    let (f, l) = (rd(w, st, 0, 64), rd(w, st, 8, 64));
    let (line, col) = (rd(w, st, 16, 32), rd(w, st, 20, 32));
    if l > 4096 { return "panic".into(); }
    match st.mem.read_bytes(f, l) {
        Ok(b) => {
            let mut s: String = b.iter().map(|x| (*x as u8) as char).collect();
            while s.ends_with('\0') { s.pop(); }
            format!("{}:{}:{}", s, line, col)
        }
        Err(_) => "panic".into(),
    }
}
fn r_panic(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let l = panic_loc(w, st, a);
    Err(Stop::End(Outcome::Panic(l)))
}
fn r_oom(_: &mut Worker, _: &mut State, _: &[Val], _: &CI) -> R<RV> { Err(Stop::End(Outcome::Limit("allocation failure".into()))) }
/// Hashers of hash maps carry the random keys; others (of fixed keys) are executed as they are.
const KEY: u8 = 0xA7;
fn of_map(w: &mut Worker, st: &mut State, p: Val) -> R<bool> {
    let p = w.c(st, p)?;
    let b = merr!(st.mem.read_bytes(p, 72));
    Ok(b.chunks(8).any(|c| c.iter().all(|x| *x == KEY as SB)))
}
fn r_hash_write(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    if !of_map(w, st, a[0])? { return Ok(RV::Real); }
    if st.io.hash_mode == 0 { return Ok(RV::None); }
    let b = w.bytes(st, a[1], a[2])?;
    let b = w.conc(st, b)?;
    let i = io(st);
    match i.hashes.last_mut() { Some(l) if l.1 == u64::MAX => l.0.extend(b), _ => i.hashes.push((b, u64::MAX)) }
    Ok(RV::None)
}
fn r_hash_finish(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    if !of_map(w, st, a[0])? { return Ok(RV::Real); }
    let n = st.io.hash_mode;
    if n == 0 { return one(0); }
    let key = match st.io.hashes.last() { Some(l) if l.1 == u64::MAX => l.0.clone(), _ => vec![] };
    if let Some(h) = st.io.hashes.iter().find(|h| h.0 == key && h.1 != u64::MAX).map(|h| h.1) {
        let i = io(st);
        if i.hashes.last().map(|l| l.1) == Some(u64::MAX) { i.hashes.pop(); }
        return one(h);
    }
    let k = match st.pending.take() {
        Some(k) => k,
        None => return Err(Stop::Fork((0..n).map(|i| Alt { cons: None, model: None, choice: Some(i) }).collect())),
    };
    let i = io(st);
    if i.hashes.last().map(|l| l.1) == Some(u64::MAX) { i.hashes.last_mut().unwrap().1 = k as u64; } else { i.hashes.push((key, k as u64)); }
    one(k as u64)
}
fn r_memchr(w: &mut Worker, st: &mut State, a: &[Val], c: &CI) -> R<RV> {
    // core::slice::memchr::{memchr,memrchr}(x: u8, text: &[u8]) -> Option<usize>
    let b = w.bytes(st, a[1], a[2])?;
    let rev = c.name.contains("7memrchr");
    let x = a[0];
    let n = b.len();
    for k in 0..n {
        let i = if rev { n - 1 - k } else { k };
        let v = w.sb_val(b[i]);
        let eq = w.icmp(Pred::Eq, 8, v, x);
        if w.decide(st, eq)? { return Ok(RV::Two(Val::C(1), Val::C(i as u64))); }
    }
    Ok(RV::Two(Val::C(0), Val::C(0)))
}
fn r_memchr_raw(w: &mut Worker, st: &mut State, a: &[Val], c: &CI) -> R<RV> {
    // memchr::arch::..::memchr{,2,3}_raw(n1, .., start, end) -> Option<ptr> (null: none)
    let k = a.len() - 2;
    let (s, e) = (w.c(st, a[k])?, w.c(st, a[k + 1])?);
    let b = merr!(st.mem.read_bytes(s, e.wrapping_sub(s)));
    let rev = c.name.contains("memrchr");
    let n = b.len();
    for j in 0..n {
        let i = if rev { n - 1 - j } else { j };
        let v = w.sb_val(b[i]);
        let mut any = Val::C(0);
        for x in &a[..k] { let q = w.icmp(Pred::Eq, 8, v, *x); any = w.binop(BinOp::Or, 1, any, q); }
        if w.decide(st, any)? {
            return Ok(if c.rw == 64 { RV::Two(Val::C(1), Val::C(s + i as u64)) } else { RV::One(Val::C(s + i as u64)) });
        }
    }
    Ok(if c.rw == 64 { RV::Two(Val::C(0), Val::C(0)) } else { RV::One(Val::C(0)) })
}

// ---- harness interface ----------------------------------------------------
fn s_byte(w: &mut Worker, st: &mut State, _: &[Val], _: &CI) -> R<RV> { let e = w.new_var(st); Ok(RV::One(Val::S(e))) }
fn s_bytes(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let (p, n) = (w.c(st, a[0])?, w.c(st, a[1])?);
    let b: Vec<SB> = (0..n).map(|_| sb_e(w.new_var(st))).collect();
    merr!(st.mem.write_bytes(p, &b));
    Ok(RV::None)
}
fn s_choice(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let n = w.c(st, a[0])? as u32;
    if n <= 1 { st.inputs.push(Input::Choice(0)); return one(0); }
    match st.pending.take() {
        Some(k) => { st.inputs.push(Input::Choice(k)); one(k as u64) }
        None => Err(Stop::Fork((0..n).map(|i| Alt { cons: None, model: None, choice: Some(i) }).collect())),
    }
}
fn s_assume(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    match w.trunc(a[0], 1) {
        Val::C(1) => Ok(RV::None),
        Val::C(_) => Err(Stop::End(Outcome::Infeasible)),
        Val::S(e) => {
            let e = w.reduce(st, e);
            match w.feasible(st, e)? {
                None => Err(Stop::End(Outcome::Infeasible)),
                Some(m) => { st.model = m; w.add(st, e); Ok(RV::None) }
            }
        }
    }
}
fn s_check(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    // Runs that look for crashes only.
    if w.params.iter().any(|p| p.0 == "crash" && p.1 == 1) { return Ok(RV::None); }
    let id = w.text(st, a[1], a[2])?;
    let c = w.st.checks.entry(id.clone()).or_default();
    c.0 += 1;
    let v = w.trunc(a[0], 1);
    let v = match v { Val::S(e) => { let e = w.reduce(st, e); w.v(e) } v => v };
    match v {
        Val::C(k) => {
            w.st.checks.get_mut(&id).unwrap().1 += 1;
            if k == 0 {
                let m = st.model.clone();
                w.violation(st, "check", &id, &m);
                return Err(Stop::End(Outcome::Done));
            }
        }
        Val::S(e) => {
            w.st.checks.get_mut(&id).unwrap().2 += 1;
            let n = w.ar.not(e);
            if let Some(m) = w.ask(st, n)? {
                w.violation(st, "check", &id, &m);
                match w.feasible(st, e)? {
                    None => return Err(Stop::End(Outcome::Done)),
                    Some(m) => { st.model = m; w.add(st, e); }
                }
            }
        }
    }
    Ok(RV::None)
}
fn s_reach(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let id = w.text(st, a[0], a[1])?;
    *w.st.reach.entry(id).or_default() += 1;
    Ok(RV::None)
}
fn s_param(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let n = w.text(st, a[0], a[1])?;
    match w.params.iter().find(|p| p.0 == n) { Some(p) => one(p.1 as u64), None => Ok(RV::One(a[2])) }
}
fn s_file(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.bytes(st, a[0], a[1])?;
    let p = w.conc(st, p)?;
    let d = w.bytes(st, a[2], a[3])?;
    add_node(st, &p, FKind::File(Rc::new(d)));
    Ok(RV::None)
}
fn s_node(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.bytes(st, a[0], a[1])?;
    let p = w.conc(st, p)?;
    let k = w.c(st, a[2])?;
    add_node(st, &p, match k { 0 => FKind::Dir, 1 => FKind::Broken, _ => FKind::Denied });
    Ok(RV::None)
}
fn s_env(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let n = w.bytes(st, a[0], a[1])?;
    let n = w.conc(st, n)?;
    let mut v = w.bytes(st, a[2], a[3])?;
    v.push(0);
    let p = st.mem.alloc(v.len() as u64, Kind::Global, 0);
    merr!(st.mem.write_bytes(p, &v));
    io(st).env.retain(|e| e.0 != n);
    io(st).env.push((n, p));
    Ok(RV::None)
}
fn s_stdin(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let v = w.bytes(st, a[0], a[1])?;
    let i = io(st);
    i.stdin = Rc::new(v);
    i.stdin_pos = 0;
    Ok(RV::None)
}
/// Command line: arguments separated by NUL, the program's name first.
fn s_args(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let v = w.bytes(st, a[0], a[1])?;
    let mut ptrs = vec![];
    for arg in v.split(|b| *b == 0) {
        let mut b = arg.to_vec();
        b.push(0);
        let p = st.mem.alloc(b.len() as u64, Kind::Global, 0);
        merr!(st.mem.write_bytes(p, &b));
        ptrs.push(p);
    }
    let n = ptrs.len() as u64;
    let t = st.mem.alloc((n + 1) * 8, Kind::Global, 0);
    for (i, p) in ptrs.iter().enumerate() { w.store(st, Val::C(t + 8 * i as u64), Val::C(*p), 64)?; }
    let g = |s: &str| w.m.globals.iter().position(|g| g.name.contains(s)).map(|i| (i as u64 + 1) << 32);
    match (g("4args4unix3imp4ARGC"), g("4args4unix3imp4ARGV")) {
        (Some(c), Some(v)) => { w.store(st, Val::C(c), Val::C(n), 64)?; w.store(st, Val::C(v), Val::C(t), 64)?; Ok(RV::None) }
        _ => unsup("std's argument vector"),
    }
}
fn s_on_exit(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let f = w.c(st, a[0])?;
    io(st).on_exit = ((f >> 32) - FN_BASE) as u32;
    Ok(RV::None)
}
fn s_times(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let p = w.bytes(st, a[0], a[1])?;
    let p = w.conc(st, p)?;
    let (m, c) = (a[2], a[3]);
    match find(st, &p) { Some(i) => { let f = &mut io(st).files[i]; f.mtime = m; f.ctime = c; Ok(RV::None) } None => unsup("times of a missing file") }
}
fn s_clock(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> { let c = w.c(st, a[0])?; io(st).clock = c as i64; Ok(RV::None) }
fn s_hash(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let c = w.c(st, a[0])?;
    let i = io(st);
    i.hash_mode = c as u32;
    i.hashes.clear();
    Ok(RV::None)
}
fn s_note(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let n = w.bytes(st, a[0], a[1])?;
    let n = w.conc(st, n)?;
    let d = w.bytes(st, a[2], a[3])?;
    let i = io(st);
    match i.notes.iter_mut().find(|x| x.0 == n) { Some(x) => x.1 = d, None => i.notes.push((n, d)) }
    Ok(RV::None)
}
fn s_out(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    // sv_captured(fd, buf, cap) -> len
    let fd = w.c(st, a[0])?;
    let p = w.c(st, a[1])?;
    let cap = w.c(st, a[2])? as usize;
    let b = if fd == 1 { st.io.out.clone() } else { st.io.err.clone() };
    let n = b.len().min(cap);
    merr!(st.mem.write_bytes(p, &b[..n]));
    one(b.len() as u64)
}
fn s_print(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    let b = w.bytes(st, a[0], a[1])?;
    let m = st.model.clone();
    let s: Vec<u8> = b.iter().map(|x| match sb_get(*x) { Ok(c) => c, Err(e) => w.ar.eval(e, &m) as u8 }).collect();
    eprintln!("PRINT {}", String::from_utf8_lossy(&s));
    Ok(RV::None)
}
/// Number of values the byte can still take (self-test aid).
fn s_is_sym(w: &mut Worker, st: &mut State, a: &[Val], _: &CI) -> R<RV> {
    one(match a[0] { Val::C(_) => 0, Val::S(e) => { let e = w.reduce(st, e); w.ar.as_const(e).is_none() as u64 } })
}

pub fn resolve(n: &str) -> Option<BI> {
    if let Some(i) = n.strip_prefix("llvm.") {
        let p = |s: &str| i.starts_with(s);
        return Some(if p("memcpy") || p("memmove") { i_memcpy }
            else if p("memset") { i_memset }
            else if i.contains("with.overflow") { i_overflow }
            else if p("umin") || p("umax") || p("smin") || p("smax") { i_minmax }
            else if i.contains("add.sat") || i.contains("sub.sat") { i_sat }
            else if p("ctlz") || p("cttz") || p("ctpop") || p("bswap") || p("bitreverse") { i_bits }
            else if p("fshl") || p("fshr") { i_fsh }
            else if p("ucmp") || p("scmp") { i_cmp3 }
            else if p("abs.") { i_abs }
            else if p("vector.reduce") { i_reduce }
            else if p("threadlocal.address") || p("expect") || p("launder") || p("strip.inv") { i_first }
            else if p("is.constant") { i_zero }
            else if p("fptosi.sat") || p("fptoui.sat") { i_fptoint }
            else if p("fabs") || p("copysign") || p("floor") || p("ceil") || p("trunc.") || p("round") || p("rint") || p("sqrt") || p("fma") || p("maxnum") || p("minnum") || p("pow") { i_float }
            else if p("trap") || p("ubsantrap") { i_trap }
            else if p("x86.sse2.pause") || p("assume") || p("lifetime") || p("donothing") || p("prefetch") || p("va_") { i_nop }
            else { return None });
    }
    let f: BI = match n {
        "sv_byte" => s_byte,
        "sv_bytes" => s_bytes,
        "sv_choice" => s_choice,
        "sv_assume" => s_assume,
        "sv_check" => s_check,
        "sv_reach" => s_reach,
        "sv_param" => s_param,
        "sv_file" => s_file,
        "sv_node" => s_node,
        "sv_env" => s_env,
        "sv_clock" => s_clock,
        "sv_stdin" => s_stdin,
        "sv_args" => s_args,
        "sv_on_exit" => s_on_exit,
        "sv_times" => s_times,
        "sv_hash_mode" => s_hash,
        "sv_note" => s_note,
        "sv_captured" => s_out,
        "sv_print" => s_print,
        "sv_is_symbolic" => s_is_sym,
        "bcmp" | "memcmp" => l_bcmp,
        "memcpy" | "memmove" => i_memcpy,
        "memset" => i_memset,
        "strlen" => l_strlen,
        "malloc" => l_malloc,
        "calloc" => l_calloc,
        "posix_memalign" => l_memalign,
        "realloc" => l_realloc,
        "free" => l_free,
        "__errno_location" => l_errno,
        "open64" | "open" => l_open,
        "read" => l_read,
        "lseek64" => l_lseek,
        "close" => l_close,
        "stat64" | "lstat64" => l_stat,
        "fstat64" => l_fstat,
        "opendir" => l_opendir,
        "readdir64" => l_readdir,
        "dirfd" => l_dirfd,
        "closedir" => l_closedir,
        "getcwd" => l_getcwd,
        "readlink" => l_readlink,
        "realpath" => l_realpath,
        "getenv" => l_getenv,
        "write" => l_write,
        "writev" => l_writev,
        "clock_gettime" => l_clock,
        "syscall" => l_syscall,
        "getrandom" => l_getrandom,
        "exit" | "_exit" => l_exit,
        "abort" => i_trap,
        "__xpg_strerror_r" => l_strerror,
        "pthread_key_create" => i_key_create,
        "isatty" | "pthread_key_delete" | "pthread_setspecific" | "poll" | "munmap" | "__cxa_thread_atexit_impl" => i_zero,
        "gettid" => |_, _, _, _| one(1),
        _ => {
            if !n.starts_with("_R") { return None; }
            if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") || n.contains("9panicking11begin_panic")
                || n.contains("9panicking14panic_nounwind") || n.contains("9panicking19panic_cannot_unwind") || n.contains("9panicking15panic_with_hook") { r_panic }
            else if n.contains("18handle_alloc_error") { r_oom }
            else if n.ends_with("5slice6memchr6memchr") || n.contains("5slice6memchr14memchr_aligned") || n.ends_with("5slice6memchr7memrchr") { r_memchr }
            else if n.contains("6memchr") && n.contains("x86_64") && (n.ends_with("10memchr_raw") || n.ends_with("11memchr2_raw") || n.ends_with("11memchr3_raw") || n.ends_with("11memrchr_raw")) { r_memchr_raw }
            else if n.contains("13DefaultHasherNt") && (n.contains("6Hasher5writeCs") || n.contains("6Hasher9write_strCs")) { r_hash_write }
            else if n.contains("13DefaultHasherNt") && n.contains("6Hasher6finishCs") { r_hash_finish }
            else { return None }
        }
    };
    Some(f)
}
