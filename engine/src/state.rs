//! Symbolic program state: memory, stack, path condition, environment.
use crate::expr::*;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Val {
    C(u64),
    /// Symbolic, or wider than 64 bits.
    S(E),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Const, Global, Heap, Stack }

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// Per byte expression (0: concrete); empty if there is none.
    pub sym: Vec<E>,
    pub kind: Kind,
}

#[derive(Clone)]
pub struct Chunk { pub objs: [Option<Rc<Obj>>; 64] }

#[derive(Clone)]
pub struct Mem {
    pub chunks: Vec<Rc<Chunk>>,
    pub next: u32,
    pub live: i64,
}

/// A byte, concrete (< 256) or symbolic (expression + 256).
pub type SB = u32;
pub fn sb_c(b: u8) -> SB { b as u32 }
pub fn sb_e(e: E) -> SB { e + 256 }
pub fn sb_get(s: SB) -> Result<u8, E> { if s < 256 { Ok(s as u8) } else { Err(s - 256) } }

impl Mem {
    pub fn new(m: &Module) -> Mem {
        let mut s = Mem { chunks: vec![], next: 0, live: 0 };
        s.push(None); // slot 0
        for g in &m.globals {
            let o = Obj { data: g.data.clone(), sym: vec![], kind: if g.constant { Kind::Const } else { Kind::Global } };
            s.push(Some(Rc::new(o)));
        }
        s
    }
    fn push(&mut self, o: Option<Rc<Obj>>) -> u32 {
        let id = self.next;
        self.next += 1;
        let c = (id >> 6) as usize;
        if c == self.chunks.len() { self.chunks.push(Rc::new(Chunk { objs: std::array::from_fn(|_| None) })); }
        Rc::make_mut(&mut self.chunks[c]).objs[(id & 63) as usize] = o;
        id
    }
    pub fn alloc(&mut self, size: u64, kind: Kind, fill: u8) -> u64 {
        self.live += size as i64;
        let id = self.push(Some(Rc::new(Obj { data: vec![fill; size as usize], sym: vec![], kind })));
        (id as u64) << 32
    }
    #[inline]
    pub fn get(&self, id: u32) -> Option<&Rc<Obj>> {
        self.chunks.get((id >> 6) as usize)?.objs[(id & 63) as usize].as_ref()
    }
    #[inline]
    pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut((id >> 6) as usize)?;
        if c.objs[(id & 63) as usize].is_none() { return None; }
        Rc::make_mut(c).objs[(id & 63) as usize].as_mut().map(Rc::make_mut)
    }
    pub fn free(&mut self, id: u32) {
        if let Some(c) = self.chunks.get_mut((id >> 6) as usize) {
            let c = Rc::make_mut(c);
            if let Some(o) = c.objs[(id & 63) as usize].take() { self.live -= o.data.len() as i64; }
        }
    }
    pub fn err(&self, addr: u64, n: u64, what: &str) -> String {
        let id = (addr >> 32) as u32;
        let off = addr as u32 as u64;
        if addr >> 32 >= FN_BASE { return format!("{} through a function pointer", what); }
        if id == 0 { return format!("{} of {} bytes at near-null address {:#x}", what, n, addr); }
        if id >= self.next { return format!("{} of {} bytes at wild address {:#x}", what, n, addr); }
        match self.get(id) {
            None => format!("{} of {} bytes in freed memory (use after free)", what, n),
            Some(o) => format!("{} of {} bytes at offset {} of a {:?} object of {} bytes (out of bounds)", what, n, off, o.kind, o.data.len()),
        }
    }
    #[inline]
    pub fn slice(&self, addr: u64, n: u64, what: &str) -> Result<&Rc<Obj>, String> {
        if let Some(o) = self.get((addr >> 32) as u32) {
            if (addr as u32 as u64) + n <= o.data.len() as u64 { return Ok(o); }
        }
        Err(self.err(addr, n, what))
    }
    pub fn slice_mut(&mut self, addr: u64, n: u64) -> Result<&mut Obj, String> {
        let ok = match self.get((addr >> 32) as u32) {
            Some(o) => (addr as u32 as u64) + n <= o.data.len() as u64 && o.kind != Kind::Const,
            None => false,
        };
        if !ok { return Err(self.err(addr, n, "write")); }
        Ok(self.get_mut((addr >> 32) as u32).unwrap())
    }
    pub fn read_bytes(&self, addr: u64, n: u64) -> Result<Vec<SB>, String> {
        if n == 0 { return Ok(vec![]); }
        let o = self.slice(addr, n, "read")?;
        let off = addr as u32 as usize;
        Ok((off..off + n as usize).map(|i| if !o.sym.is_empty() && o.sym[i] != 0 { sb_e(o.sym[i]) } else { sb_c(o.data[i]) }).collect())
    }
    pub fn write_bytes(&mut self, addr: u64, b: &[SB]) -> Result<(), String> {
        if b.is_empty() { return Ok(()); }
        let o = self.slice_mut(addr, b.len() as u64)?;
        let off = addr as u32 as usize;
        let any = b.iter().any(|x| *x >= 256);
        if any && o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
        for (i, x) in b.iter().enumerate() {
            match sb_get(*x) {
                Ok(c) => { o.data[off + i] = c; if !o.sym.is_empty() { o.sym[off + i] = 0; } }
                Err(e) => { o.data[off + i] = 0; o.sym[off + i] = e; }
            }
        }
        Ok(())
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let so = self.slice(src, n, "read")?.clone();
        let (s, d, n) = (src as u32 as usize, dst as u32 as usize, n as usize);
        let o = self.slice_mut(dst, n as u64)?;
        o.data[d..d + n].copy_from_slice(&so.data[s..s + n]);
        let symbolic = !so.sym.is_empty() && so.sym[s..s + n].iter().any(|x| *x != 0);
        if symbolic {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[d..d + n].copy_from_slice(&so.sym[s..s + n]);
        } else if !o.sym.is_empty() { o.sym[d..d + n].fill(0); }
        Ok(())
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dst: u32,
    pub normal: u32,
}

#[derive(Clone, Default)]
pub struct Path {
    pub doms: Vec<Set>,
    pub convars: u128,
    pub fixed: u128,
    pub cons: Vec<E>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Input { Var(u8), Choice(u32) }

#[derive(Clone, Debug)]
pub enum FKind { File(Rc<Vec<SB>>), Dir, Broken, Denied }
#[derive(Clone, Debug)]
pub struct FileNode { pub path: Vec<u8>, pub kind: FKind, pub mtime: Val, pub ctime: Val }
#[derive(Clone, Debug)]
pub enum Fd { File(usize, u64), DirIter(Vec<Vec<u8>>, usize, u64, Vec<u8>), Std }

#[derive(Clone, Default)]
pub struct Io {
    pub files: Vec<FileNode>,
    pub fds: Vec<Option<Fd>>,
    pub out: Vec<SB>,
    pub err: Vec<SB>,
    pub stdin: Rc<Vec<SB>>,
    pub stdin_pos: usize,
    pub env: Vec<(Vec<u8>, u64)>,
    pub clock: i64,
    pub errno: u64,
    pub notes: Vec<(Vec<u8>, Vec<SB>)>,
    /// Hash model: 0 constant, otherwise arbitrary function (decided per key).
    pub hash_mode: u32,
    pub hashes: Vec<(Vec<u8>, u64)>,
    pub on_exit: u32,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub path: Path,
    pub model: Rc<Vec<u8>>,
    pub inputs: Vec<Input>,
    pub trace: Vec<u32>,
    /// Prefix of decisions to follow (work sharing).
    pub prefix: Rc<Vec<u32>>,
    pub steps: u64,
    pub io: Rc<Io>,
    pub pending: Option<u32>,
}
