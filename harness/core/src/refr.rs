//! An independent reader for the language, used as the oracle for the parser:
//! written from the documentation, on bytes, in one pass.
use crate::sv;

#[derive(Clone, Copy, PartialEq)]
pub enum K { L, R, Sym, Str, Num, Key }
pub struct Tok {
    pub k: K,
    /// The token's text (with quotes, with the colon of a keyword).
    pub start: usize,
    pub end: usize,
    /// Its value, not unescaped (without quotes, without colon).
    pub vs: usize,
    pub ve: usize,
    /// Leading whitespace.
    pub ws: usize,
    pub line: usize,
    pub line_start: usize,
}
fn white(b: u8) -> bool { (b == b' ') | (b == b'\n') | (b == b'\t') | (b == b'\r') }
fn delim(b: u8) -> bool { white(b) | (b == b'(') | (b == b')') | (b == b'"') }

/// `Err`: where an unclosed string starts.
pub fn tokens(s: &[u8]) -> Result<Vec<Tok>, usize> {
    let mut r = vec![];
    let mut i = 0;
    let (mut line, mut line_start) = (1, 0);
    let mut counted = 0; // newlines before this are counted
    loop {
        let mut ws = i;
        loop {
            if i < s.len() && white(s[i]) { i += 1; continue; }
            if i < s.len() && s[i] == b';' {
                while i < s.len() && s[i] != b'\n' { i += 1; }
                ws = i;
                continue;
            }
            break;
        }
        if i >= s.len() { return Ok(r); }
        while counted < i {
            if s[counted] == b'\n' { line += 1; line_start = counted + 1; }
            counted += 1;
        }
        let start = i;
        let b = s[i];
        let k;
        let (mut vs, ve);
        if b == b'(' { k = K::L; i += 1; vs = start; ve = i; }
        else if b == b')' { k = K::R; i += 1; vs = start; ve = i; }
        else if b == b'"' {
            k = K::Str;
            let q = if i + 2 < s.len() && s[i + 1] == b'"' && s[i + 2] == b'"' { 3 } else { 1 };
            i += q;
            vs = i;
            loop {
                if i >= s.len() { return Err(start); }
                if s[i] == b'\\' {
                    i += 2;
                    if i > s.len() { return Err(start); }
                    continue;
                }
                if s[i] == b'"' && (q == 1 || (i + 2 < s.len() && s[i + 1] == b'"' && s[i + 2] == b'"')) { break; }
                i += 1;
            }
            ve = i;
            i += q;
        } else {
            vs = start;
            if sv::in_range(b, b'0', b'9') | (b == b'+') | (b == b'-') { k = K::Num; }
            else if b == b':' { k = K::Key; i += 1; vs = i; }
            else { k = K::Sym; }
            while i < s.len() && !delim(s[i]) {
                i += if s[i] == b'\\' { 2 } else { 1 };
            }
            if i > s.len() { i = s.len(); }
            ve = i;
        }
        if k == K::Sym { vs = start; }
        r.push(Tok { k, start, end: i, vs, ve, ws, line, line_start });
    }
}

#[derive(Clone)]
pub enum N {
    Sym(String, String),
    Num(String, String),
    Str(String, String),
    /// `(%raw …)`: only in trees built by harnesses.
    Raw(String, String),
    List(String, Vec<N>, String),
    Attr(String, String, Box<N>),
}
fn st(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
/// A backslash makes the next character literal.
pub fn literal(b: &[u8]) -> String {
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() { i += 1; }
        r.push(b[i]);
        i += 1;
    }
    st(&r)
}
fn hex(b: u8) -> Option<u32> {
    if sv::in_range(b, b'0', b'9') { Some((b - b'0') as u32) }
    else if sv::in_range(b, b'a', b'f') { Some((b - b'a') as u32 + 10) }
    else if sv::in_range(b, b'A', b'F') { Some((b - b'A') as u32 + 10) }
    else { None }
}
fn put(v: &mut Vec<u8>, c: u32) -> Option<()> {
    let c = char::from_u32(c)?;
    let mut t = [0; 4];
    v.extend(c.encode_utf8(&mut t).as_bytes());
    Some(())
}
/// The value of a string literal; `None`: not a known escape.
pub fn unescape(b: &[u8]) -> Option<String> { unescape_to(b, &mut 0) }
/// `at`: the last escape looked at.
pub fn unescape_to(b: &[u8], at: &mut usize) -> Option<String> {
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' { r.push(b[i]); i += 1; continue; }
        *at = i;
        if i + 1 >= b.len() { return None; }
        let c = b[i + 1];
        i += 2;
        if c == b'x' {
            if i + 2 > b.len() { return None; }
            let (h, l) = (hex(b[i])?, hex(b[i + 1])?);
            put(&mut r, h * 16 + l)?;
            i += 2;
        } else if c == b'u' {
            let mut v = 0u32;
            if i < b.len() && b[i] == b'{' {
                i += 1;
                let from = i;
                loop {
                    if i >= b.len() || i - from > 6 { return None; }
                    if b[i] == b'}' { break; }
                    v = v * 16 + hex(b[i])?;
                    i += 1;
                }
                if i == from { return None; }
                i += 1;
            } else {
                if i + 4 > b.len() { return None; }
                for _ in 0..4 { v = v * 16 + hex(b[i])?; i += 1; }
            }
            put(&mut r, v)?;
        } else if sv::in_range(c, b'0', b'7') {
            let mut v = (c - b'0') as u32;
            let mut n = 1;
            while n < 3 && i < b.len() && sv::in_range(b[i], b'0', b'7') {
                v = v * 8 + (b[i] - b'0') as u32;
                i += 1;
                n += 1;
            }
            put(&mut r, v)?;
        } else {
            r.push(match c {
                b'a' => 7, b'b' => 8, b't' => 9, b'n' => 10, b'v' => 11, b'f' => 12, b'r' => 13, b'e' => 27,
                b'\'' | b'"' | b'`' | b'\\' => c,
                _ => return None,
            });
        }
    }
    Some(st(&r))
}

struct Reader<'a> { s: &'a [u8], t: Vec<Tok>, i: usize }
impl<'a> Reader<'a> {
    fn ws(&self, i: usize) -> String { st(&self.s[self.t[i].ws..self.t[i].start]) }
    fn expr(&mut self) -> Option<N> {
        let i = self.i;
        if i >= self.t.len() { return None; }
        self.i += 1;
        let v = &self.s[self.t[i].vs..self.t[i].ve];
        Some(match self.t[i].k {
            K::Sym => N::Sym(self.ws(i), literal(v)),
            K::Num => N::Num(self.ws(i), literal(v)),
            K::Str => N::Str(self.ws(i), unescape(v)?),
            K::R => return None,
            K::Key => { let x = self.expr()?; N::Attr(self.ws(i), st(v), Box::new(x)) }
            K::L => {
                let mut l = vec![];
                loop {
                    if self.i >= self.t.len() { return None; }
                    if self.t[self.i].k == K::R { break; }
                    l.push(self.expr()?);
                }
                self.i += 1;
                N::List(self.ws(i), l, self.ws(self.i - 1))
            }
        })
    }
}
/// `None`: not a program.
pub fn read(s: &[u8]) -> Option<Vec<N>> {
    let t = match tokens(s) { Ok(t) => t, Err(_) => return None };
    let mut r = Reader { s, t, i: 0 };
    let mut out = vec![];
    while r.i < r.t.len() { out.push(r.expr()?); }
    Some(out)
}

use seam::parse::parser::ParseNode;
/// The program's own tree against the reference tree.
pub fn same_tree(a: &[N], b: &[ParseNode], whitespace: bool) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) { ok &= same_node(x, y, whitespace); }
    ok
}
fn same_node(a: &N, b: &ParseNode, whitespace: bool) -> bool {
    let w = |x: &str, y: &str| !whitespace || sv::same(x, y);
    match (a, b) {
        // What a macro without a name is called is up to the implementation.
        (N::Sym(s, v), ParseNode::Symbol(n)) if v.starts_with("__lambda") => w(s, &n.leading_whitespace) & n.value.starts_with("__lambda"),
        (N::Sym(s, v), ParseNode::Symbol(n)) | (N::Num(s, v), ParseNode::Number(n)) | (N::Str(s, v), ParseNode::String(n)) | (N::Raw(s, v), ParseNode::Raw(n)) =>
            w(s, &n.leading_whitespace) & sv::same(v, &n.value),
        (N::List(s, l, e), ParseNode::List { nodes, end_token, leading_whitespace, .. }) =>
            w(s, leading_whitespace) & w(e, end_token.leading_whitespace) & same_tree(l, nodes, whitespace),
        (N::Attr(s, k, v), ParseNode::Attribute { keyword, node, leading_whitespace, .. }) =>
            w(s, leading_whitespace) & sv::same(k, keyword) & same_node(v, node, whitespace),
        _ => false,
    }
}
/// Two of the program's own trees.
pub fn equal_trees(a: &[ParseNode], b: &[ParseNode]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for (x, y) in a.iter().zip(b) {
        ok &= match (x, y) {
            (ParseNode::Symbol(n), ParseNode::Symbol(m)) | (ParseNode::Number(n), ParseNode::Number(m))
            | (ParseNode::String(n), ParseNode::String(m)) | (ParseNode::Raw(n), ParseNode::Raw(m)) => sv::same(&n.value, &m.value),
            (ParseNode::List { nodes: n, .. }, ParseNode::List { nodes: m, .. }) => equal_trees(n, m),
            (ParseNode::Attribute { keyword: k, node: n, .. }, ParseNode::Attribute { keyword: l, node: m, .. }) =>
                sv::same(k, l) & equal_trees(std::slice::from_ref(n), std::slice::from_ref(m)),
            _ => false,
        }
    }
    ok
}
