//! Tokens, positions, parse trees, escapes, s-expression and text output.
use crate::{refr, refr::{K, N}, sv, util::*};
use seam::parse::{lexer::Lexer, parser::{Node, ParseNode, Parser}, tokens::{Kind, Site}};
use seam::assemble::{sexp::SExpFormatter, text::PlainTextFormatter, MarkupFormatter};

/// n bytes of ASCII, the characters special to the lexer being among them.
pub fn source(n: usize) -> String {
    let mut s = if sv::param("long", 0) == 1 { sv::pick(&[LONG, DEEP]).to_string() } else { String::new() };
    s.push_str(&some(n));
    if sv::param("long", 0) == 1 { s.push_str(sv::pick(&["", "\n(\"end\" ; of it\n x)\n"])); }
    sv::note("source", &s);
    s
}
/// More lines, columns and levels than fit in small numbers.
const LONG: &str = "; a long text\n\n\n\n\n\n\n\n\n(a :k \"v\" \"\"\"é\n\n漢\"\"\"\n  b\\ c)\n\n\n0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 \"q\\\"\" ";
const DEEP: &str = "(((((((((((((((((((((((((((((((((((((((a :b (c\n)))))))))))))))))))))))))))))))))))))))))) (d (e (f :g :h (i))))\r\n\r\n ";
fn some(n: usize) -> String {
    let s = if sv::param("frags", 0) > 0 { (0..n).map(|_| fragment()).collect() }
        else if sv::param("special", 0) == 1 { sv::string_of(n, b" \n\t\r();:\"\\a1+") } else { sv::ascii_string(n) };
    s
}
/// A piece of a program, as people write them.
fn fragment() -> String {
    let l = || sv::letter() as char;
    let u = || { let mut v = vec![]; utf8_char(2 + sv::choice(3) as usize, &mut v); utf8(v) };
    let u2 = || { let mut v = vec![sv::pick(&[0xC2u8, 0xC3])]; v.push(sv::between(0x80, 0xBF)); utf8(v) };
    match sv::choice(sv::param("frags", 26) as u32) {
        0 => "(".into(),
        1 => ")".into(),
        2 => " ".into(),
        3 => "\n".into(),
        4 => format!("{}", l()),
        5 => format!("{}", sv::digits(1)),
        6 => format!(":{}", l()),
        7 => format!("\"{}\n{}\"", l(), l()),
        8 => format!("\"\"\"{}\n\n{}\n\"\"\"", l(), l()),
        9 => format!("; {}\n", u2()),
        10 => format!("\"{}\"", l()),
        11 => format!("\"{}\\\n  {}\"", l(), l()),
        12 => format!("{}%", l()),
        13 => format!("\"{}\"", u2()),
        14 => format!("({} :{} {} {})", l(), l(), l(), l()),
        15 => format!("(\n\t{} ())", l()),
        16 => ";\n".into(),
        17 => "\r\n\t".into(),
        18 => format!("-{}.5", sv::digits(1)),
        19 => u(),
        20 => format!(";(\"{}", u()),
        21 => format!("\"{}\\n\\\"\\\\{}\"", u(), l()),
        22 => format!("\"\"\"{}\"{}\\t\"\"\"", l(), u()),
        23 => format!("{}\"\"{}", l(), l()),
        24 => "::".into(),
        _ => format!(":{}\n(\"\")", u()),
    }
}
/// Token stream: kinds, text, values, whitespace and positions.
#[no_mangle]
pub extern "C" fn h_tokens() {
    let s = source(sv::param("n", 3) as usize);
    let lx = Lexer::new("f".to_string(), s.clone());
    let want = refr::tokens(s.as_bytes());
    let mut i = 0;
    let mut failed = None;
    while !lx.eof() {
        match lx.consume() {
            Ok(t) => {
                let Ok(want) = &want else { i += 1; continue };
                sv::check(i < want.len(), "no token the text does not have");
                let w = &want[i];
                let k = match t.kind { Kind::LParen => K::L, Kind::RParen => K::R, Kind::Symbol => K::Sym, Kind::String => K::Str, Kind::Number => K::Num, Kind::Keyword => K::Key };
                sv::check(k == w.k, "token kind");
                sv::check(sv::same(t.value, &s[w.vs..w.ve]), "token value");
                sv::check(sv::same(t.leading_whitespace, &s[w.ws..w.start]), "whitespace before a token");
                sv::check((t.site.bytes_from_start == w.start) & (t.site.bytes_span == w.end - w.start), "token extent");
                sv::check(t.site.line == w.line, "token line");
                sv::check(t.site.bytes_from_start_of_line == w.start - w.line_start, "offset in the line");
                sv::check(sv::same(t.site.view(), &s[w.start..w.end]), "view of a token");
                let mut e = w.start;
                while e < s.len() && s.as_bytes()[e] != b'\n' { e += 1; }
                sv::check(sv::same(t.site.line_slice(), &s[w.line_start..e]), "line of a token");
                i += 1;
            }
            Err(e) => { failed = Some((e.1.bytes_from_start, e.1.line)); break; }
        }
    }
    match (want, failed) {
        (Ok(w), None) => { sv::check(i == w.len(), "every token is delivered"); sv::reach("tokens") }
        (Err(p), Some((q, line))) => {
            sv::check(p == q, "an unclosed string is reported where it starts");
            let mut l = 1;
            for b in &s.as_bytes()[..p] { if *b == b'\n' { l += 1; } }
            sv::check(line == l, "line of an unclosed string");
            sv::reach("unclosed")
        }
        (Ok(_), Some(_)) => sv::fail("only an unclosed string is a lexical error"),
        (Err(_), None) => sv::fail("an unclosed string is an error"),
    }
}
/// The tree of any text.
#[no_mangle]
pub extern "C" fn h_tree() {
    let s = source(sv::param("n", 3) as usize);
    let p = Parser::new(Lexer::new("f".to_string(), s.clone()));
    let want = refr::read(s.as_bytes());
    let r = p.parse();
    match r {
        Ok(t) => {
            sv::check(want.is_some(), "what is not well formed is refused");
            let ok = refr::same_tree(&want.unwrap(), &t, true);
            sv::check(ok, "the tree of the text");
            sv::reach("tree");
        }
        Err(e) => {
            sv::check(want.is_none(), "what is well formed is accepted");
            let m = format!("{}", e);
            sv::check(!m.is_empty(), "an error has a message");
            sv::reach("error");
        }
    };
}
/// The value of a string literal with any n bytes between its quotes.
#[no_mangle]
pub extern "C" fn h_string_literal() {
    let n = sv::param("n", 3) as usize;
    let triple = sv::choice(2) == 1;
    let mut b: Vec<u8> = vec![];
    let wide = sv::param("wide", 0) == 1;
    if wide && sv::choice(2) == 1 { utf8_char(2 + sv::choice(3) as usize, &mut b) }
    if sv::param("esc", 1) == 1 { b.push(b'\\'); }
    if wide && sv::choice(2) == 1 { utf8_char(2 + sv::choice(3) as usize, &mut b) }
    for _ in 0..n { let c = sv::ascii(); sv::assume((c != b'"') & (c != b'+')); b.push(c); }
    let body = utf8(b);
    let mut k = 0;
    while k < body.len() { k += if body.as_bytes()[k] == b'\\' { 2 } else { 1 }; }
    sv::assume(k == body.len());
    let q = if triple { "\"\"\"" } else { "\"" };
    let s = format!("{}{}{}", q, body, q);
    sv::note("source", &s);
    let p = Parser::new(Lexer::new("f".to_string(), s.clone()));
    let mut at = 0;
    let want = refr::unescape_to(body.as_bytes(), &mut at);
    let r = p.parse();
    match (r, want) {
        (Ok(t), Some(w)) => {
            sv::check(t.len() == 1, "one string");
            match &t[0] { ParseNode::String(n) => sv::check(sv::same(&n.value, &w), "value of a string literal"), _ => sv::fail("one string") }
            sv::reach("value");
        }
        (Err(e), None) => {
            let m = format!("{}", e);
            let c = body.as_bytes()[at + 1];
            if sv::in_range(c, 33, 126) {
                let m = m.as_bytes();
                let mut from = 0;
                for i in 0..m.len() { if m[i] == b'\n' { from = i + 1; } }
                let mut named = false;
                for i in from + 1..m.len() { named |= (m[i - 1] == b'\\') & (m[i] == c); }
                sv::check(named, "an unknown escape is named");
            }
            sv::reach("unknown escape")
        }
        (Ok(_), None) => sv::fail("an unknown escape is refused"),
        (Err(_), Some(_)) => sv::fail("a known escape is accepted"),
    };
}
/// Quotes and backslashes in any order inside either form.
#[no_mangle]
pub extern "C" fn h_string_quotes() {
    let n = sv::param("n", 4) as usize;
    let q = sv::pick(&["\"", "\"\"\""]);
    let s = format!("({}{}{} z)", q, sv::string_of(n, b"\"\\n "), q);
    sv::note("source", &s);
    let p = Parser::new(Lexer::new("f".to_string(), s.clone()));
    match (p.parse(), refr::read(s.as_bytes())) {
        (Ok(t), Some(w)) => { sv::check(refr::same_tree(&w, &t, true), "quotes inside strings"); sv::reach("accepted") }
        (Err(_), None) => sv::reach("refused"),
        _ => sv::fail("quotes inside strings"),
    };
}

fn reread(src: &str, first: &[ParseNode], raw: bool) {
    let e = seam::tree_builder(Some("g"), src.to_string());
    if raw {
        let r = e.expand();
        match r { Ok(t) => sv::check(refr::equal_trees(first, &t), "s-expression output reads back as the same tree"),
            Err(_) => sv::fail("s-expression output reads back") };
    } else {
        let p = Parser::new(Lexer::new("g".to_string(), src.to_string()));
        let r = p.parse();
        match r {
            Ok(t) => {
                sv::check(refr::equal_trees(first, &t), "s-expression output reads back as the same tree");
                let again = SExpFormatter::new(t.clone()).display().ok();
                match again { Some(a) => sv::check(sv::same(&a, src), "writing it again changes nothing"), None => sv::fail("writing it again changes nothing") }
            }
            Err(_) => sv::fail("s-expression output reads back"),
        };
    }
}
/// Any text that reads: its s-expression output reads back as the same tree.
#[no_mangle]
pub extern "C" fn h_sexp_source() {
    let s = source(sv::param("n", 3) as usize);
    let p = Parser::new(Lexer::new("f".to_string(), s.clone()));
    let r = p.parse();
    if let Ok(t) = r {
        let f = SExpFormatter::new(t.clone());
        let o = f.display().ok();
        match o {
            Some(o) => { sv::note("output", &o); reread(&o, &t, false); sv::reach("read back"); }
            None => sv::fail("every tree can be written"),
        }
    };
}
/// A node of any kind with any value, as macros build them.
fn atom(kind: u32, value: String, ws: &str) -> ParseNode<'static> {
    let n = Node::new(&value, &Site::unknown(), ws);
    match kind { 0 => ParseNode::Symbol(n), 1 => ParseNode::String(n), 2 => ParseNode::Raw(n), _ => ParseNode::Number(n) }
}
/// Values and adjacency that only macros can produce.
#[no_mangle]
pub extern "C" fn h_sexp_nodes() {
    let n = sv::param("n", 2) as usize;
    let k = sv::choice(3);
    let v = sv::ascii_string(n);
    if k == 0 { sv::assume(v.as_bytes()[0] != b'%'); }
    sv::note("value", &v);
    let a = atom(k, v, "");
    let w = if sv::choice(2) == 0 { "" } else { " " };
    let b = match sv::choice(6) {
        0 => atom(0, "b".into(), w),
        1 => atom(1, "c".into(), w),
        2 => atom(3, "7".into(), w),
        3 => atom(1, "".into(), w),
        4 => ParseNode::Attribute { keyword: "k".into(), node: Box::new(atom(sv::choice(2), "v".into(), w)), site: Site::unknown(), leading_whitespace: w.into() },
        _ => atom(2, "r".into(), w),
    };
    let first: Box<[ParseNode]> = if sv::choice(2) == 0 { Box::new([a, b]) } else { Box::new([b, a]) };
    let o = SExpFormatter::new(first.clone()).display().ok();
    match o {
        Some(o) => { sv::note("output", &o); reread(&o, &first, true); sv::reach("read back"); }
        None => sv::fail("every tree can be written"),
    }
}
/// Non-ASCII and control characters survive.
#[no_mangle]
pub extern "C" fn h_sexp_utf8() {
    let mut v = vec![];
    let k = 1 + sv::choice(4) as usize;
    utf8_char(k, &mut v);
    if sv::choice(2) == 0 { v.push(b'1'); }
    let v = utf8(v);
    sv::note("value", &v);
    let kind = sv::choice(3);
    if kind == 0 { sv::assume(v.as_bytes()[0] != b'%'); }
    let first: Box<[ParseNode]> = Box::new([atom(kind, v, "")]);
    let o = SExpFormatter::new(first.clone()).display().ok();
    match o {
        Some(o) => { sv::note("output", &o); reread(&o, &first, true); sv::reach("read back"); }
        None => sv::fail("every tree can be written"),
    }
}
/// Text output is the source with strings unquoted and comments dropped.
#[no_mangle]
pub extern "C" fn h_text_source() {
    let s = source(sv::param("n", 3) as usize);
    let p = Parser::new(Lexer::new("f".to_string(), s.clone()));
    let r = p.parse();
    if let Ok(t) = r {
        let want = refr::read(s.as_bytes());
        let Some(want) = want else { return };
        let mut w = String::new();
        crate::refm::plain(&want, &mut w);
        let f = PlainTextFormatter::new(t.clone());
        match (f.display().ok(), f.document().ok()) {
            (Some(o), Some(d)) => { sv::check(sv::same(&o, &w), "text output"); sv::check(sv::same(&d, &w), "text document"); sv::reach("text"); }
            _ => sv::fail("every tree can be written as text"),
        }
    };
}
/// A program without macros expands to itself.
#[no_mangle]
pub extern "C" fn h_identity() {
    let s = source(sv::param("n", 3) as usize);
    let p = Parser::new(Lexer::new("f".to_string(), s.clone()));
    let r = p.parse();
    if let Ok(t) = r {
        if let Ok(w) = refr::tokens(s.as_bytes()) {
            for t in w { if t.k == K::Sym { sv::assume(s.as_bytes()[t.vs + (s.as_bytes()[t.vs] == b'\\' && t.ve > t.vs + 1) as usize] != b'%') } }
        }
        let e = seam::tree_builder(Some("f"), s.clone());
        let x = e.expand();
        match x {
            Ok(x) => {
                sv::check(refr::equal_trees(&t, &x), "a program without macros expands to itself");
                let (a, b) = (SExpFormatter::new(t.clone()).display().ok(), SExpFormatter::new(x).display().ok());
                match (a, b) { (Some(a), Some(b)) => sv::check(sv::same(&a, &b), "whitespace of a program without macros"), _ => {} }
                sv::reach("expanded");
            }
            Err(_) => sv::fail("a program without macros expands"),
        };
    };
}
