//! HTML, XML and CSS output against the reference writers.
use crate::{refm, refr::N, sv, util::*};

fn want(l: &[N], fmt: u32) -> Option<String> {
    let mut o = String::new();
    let r = match fmt { HTML => refm::html(l, &mut o), XML => refm::xml(l, &mut o), CSS => refm::css(l, &mut o), _ => { refm::plain(l, &mut o); Some(()) } };
    r.map(|_| o)
}
/// Source of the tree → output, against the reference.
pub fn compare(l: &[N], fmt: u32, id: &str) {
    let s = refm::src(l);
    sv::note("source", &s);
    let got = render(&s, fmt);
    let want = want(l, fmt);
    match (got, want) {
        (Some(g), Some(w)) => { sv::note("output", &g); sv::check(sv::same(&g, &w), id); sv::reach("output"); }
        (None, None) => sv::reach("refused"),
        (Some(_), None) => sv::fail("what is not markup is refused"),
        (None, Some(_)) => sv::fail("markup is not refused"),
    }
}
fn fmt() -> u32 { sv::param("fmt", HTML as i64) as u32 }
pub fn sym(w: &str, v: &str) -> N { N::Sym(w.into(), v.into()) }
pub fn str(w: &str, v: String) -> N { N::Str(w.into(), v) }
pub fn el(w: &str, tag: &str, mut kids: Vec<N>, e: &str) -> N { kids.insert(0, sym("", tag)); N::List(w.into(), kids, e.into()) }
/// A symbol may hold any character that does not end it or have a meaning.
fn sym_byte() -> u8 {
    let b = sv::ascii();
    sv::assume(!sv::is_one_of(b, b" \n\t\r()\"\\;:%+-") & !sv::in_range(b, b'0', b'9'));
    b
}
/// Text of any characters, as string, symbol, number or raw, at top level or in an element.
#[no_mangle]
pub extern "C" fn h_markup_text() {
    let n = sv::param("n", 2) as usize;
    let w = sv::pick(&["", " ", "\n"]);
    let entity = sv::param("entity", 0) == 1;
    let node = match if entity { 9 } else { sv::choice(4) } {
        // What may look escaped already.
        _ if entity => if sv::choice(2) == 0 { str(w, sv::string_of(n, b"&;ampltqu#39")) } else { N::Sym(if w.is_empty() { " ".into() } else { w.into() }, format!("&{}", sv::string_of(n - 1, b"amp&lt"))) },
        0 => str(w, sv::ascii_string(n)),
        1 => N::Sym(w.into(), utf8((0..n).map(|_| sym_byte()).collect())),
        2 => N::Raw(w.into(), sv::ascii_string(n)),
        _ => { let mut v = vec![sv::digit()]; for _ in 1..n { v.push(sym_byte()); } N::Num(w.into(), utf8(v)) }
    };
    let w = match (&node, w) { (N::Sym(..) | N::Num(..), "") => " ", (_, w) => w };
    let node = match node { N::Sym(_, v) => N::Sym(w.into(), v), N::Num(_, v) => N::Num(w.into(), v), x => x };
    let l = match sv::choice(4) {
        0 => vec![node],
        1 => vec![el("", "p", vec![node], "")],
        2 => vec![el("", "p", vec![sym(" ", "a"), node, sym(" ", "b")], " ")],
        _ => vec![el("", "p", vec![el(" ", "b", vec![node], "\n")], "")],
    };
    compare(&l, fmt(), "text of an element");
}
/// Attributes: any value of any kind, any spacing, keyword of any letters.
#[no_mangle]
pub extern "C" fn h_markup_attr() {
    let n = sv::param("n", 2) as usize;
    let k = sv::word(2);
    let w = sv::pick(&[" ", "  ", "\n "]);
    let v = match if sv::param("entity", 0) == 1 { 9 } else { sv::choice(6) } {
        9 => str(" ", sv::string_of(n, b"&;ampltqu#39")),
        0 => str(sv::pick(&["", " ", "\n"]), sv::ascii_string(n)),
        1 => N::Sym(sv::pick(&[" ", "\n"]).into(), utf8((0..n).map(|_| sym_byte()).collect())),
        2 => N::Raw(sv::pick(&["", " "]).into(), sv::ascii_string(n)),
        3 => N::Num(" ".into(), sv::digits(n)),
        4 => N::List(" ".into(), vec![sym("", "x")], "".into()),
        _ => N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "x"))),
    };
    let delimited = matches!(v, N::Str(..) | N::Raw(..) | N::List(..));
    let a = N::Attr(w.into(), k, Box::new(v));
    let b = N::Attr(if delimited { sv::pick(&["", " "]) } else { " " }.into(), sv::word(1), Box::new(str(" ", "q".into())));
    let t = sv::pick(&["p", "br", "svg", "!d", "?d"]);
    let l = match sv::choice(6) {
        0 => vec![el("", t, vec![a], "")],
        1 => vec![el("", t, vec![a, b], " ")],
        2 => vec![el("", t, vec![a, b, sym(" ", "c")], "")],
        3 => vec![el("", t, vec![sym(" ", "c"), a], "")],
        4 => vec![el("", t, vec![a, el(" ", "i", vec![], ""), b], "")],
        _ => vec![a],
    };
    compare(&l, fmt(), "attributes of an element");
}
/// Tag names: any word of n letters of either case, with content of any kind.
#[no_mangle]
pub extern "C" fn h_markup_tag() {
    let n = sv::param("n", 3) as usize;
    let first = sv::choice(3);
    let mut t = vec![];
    for i in 0..n {
        let b = sv::ascii();
        if i == 0 && first == 1 { sv::assume((b == b'!') | (b == b'?')); }
        else if i > 0 && first == 2 { sv::assume(sv::in_range(b, b'0', b'9') | sv::in_range(b, b'a', b'z')); }
        else { sv::assume(sv::in_range(b, b'a', b'z') | sv::in_range(b, b'A', b'Z')); }
        t.push(b);
    }
    let t = utf8(t);
    let w = sv::pick(&["", " ", "\n "]);
    let k = |w: &str| N::Attr(w.into(), sv::word(1), Box::new(sym(" ", "v")));
    let kids = match sv::choice(12) {
        0 => vec![],
        1 => vec![sym(" ", "a")],
        8 => vec![k(" ")],
        9 => vec![k(" "), k("\n"), str(w, "x".into())],
        10 => vec![k(" "), N::Num(" ".into(), sv::digits(1)), k(" ")],
        11 => vec![k(" "), k(" "), el(w, "b", vec![str("", "t".into())], "")],
        2 => vec![str(w, "x<y".into())],
        3 => vec![el(w, "i", vec![], "")],
        4 => vec![N::Raw(w.into(), "<".into())],
        5 => vec![el(w, "p", vec![N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "v")))], "")],
        6 => vec![sym(" ", "a"), el(w, "B", vec![sym(" ", "&")], " ")],
        _ => vec![N::List("".into(), vec![str("", "s".into())], "".into())],
    };
    // What `pre` starts with must be source text.
    if matches!(kids.first(), Some(N::Raw(..))) { sv::assume(!sv::same(&refm::lower(&t), "pre")); }
    let e = sv::pick(&["", " ", "\n"]);
    let top = el(sv::pick(&["", "\n"]), &t, kids, e);
    let l = if sv::choice(2) == 0 { vec![top] } else { vec![el("", "div", vec![top], "")] };
    compare(&l, fmt(), "element by its tag");
}
/// Tags with a character outside of ASCII.
#[no_mangle]
pub extern "C" fn h_markup_tag_wide() {
    let mut t = sv::pick(&["", "x-", "LIN"]).as_bytes().to_vec();
    utf8_char(sv::param("wide", 2) as usize, &mut t);
    t.extend(sv::pick(&["", "R", "é"]).as_bytes());
    let top = el("", &utf8(t), match sv::choice(3) { 0 => vec![], 1 => vec![sym(" ", "a")], _ => vec![N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "v")))] }, "");
    compare(&if sv::choice(2) == 0 { vec![top] } else { vec![el("", "div", vec![top], "")] }, fmt(), "element by its tag");
}
/// What cannot be markup: empty lists, heads of other kinds.
fn gen(b: &mut u32, prev_open: bool, tags: &[&str], top: bool) -> Vec<N> {
    let mut l = vec![];
    let mut open = prev_open; // a symbol needs a space before it
    while *b > 0 {
        let k = sv::choice(if top { 5 } else { 7 });
        if k == 0 { break; }
        *b -= 1;
        let w0 = |open: bool| if open { sv::pick(&[" ", "\n "]) } else { sv::pick(&["", " ", "\n "]) };
        let w1 = |open: bool| if open { sv::pick(&["", " ", "\n "]) } else { sv::pick(&["", "\n "]) };
        match k {
            1 => { let w = w0(open); l.push(N::Sym(w.into(), sv::word(1))); open = true; }
            2 => { let w = w1(open); l.push(str(w, sv::word(1))); open = false; }
            3 | 4 => {
                let w = w1(open);
                let t = sv::pick(tags);
                let mut kids = vec![];
                if k == 4 { kids.push(N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "v")))); }
                kids.extend(gen(b, true, tags, false));
                l.push(el(w, t, kids, sv::pick(&["", "\n"])));
                open = false;
            }
            5 => { l.push(N::List("".into(), vec![], "".into())); open = false; }
            _ => { l.push(N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "v")))); open = true; }
        }
    }
    l
}
/// Nested elements, text between them, whitespace everywhere.
#[no_mangle]
pub extern "C" fn h_markup_tree() {
    let mut b = sv::param("n", 3) as u32;
    let tags: &[&str] = match sv::param("tags", 0) { 0 => &["p", "BR", "pre"], 1 => &["svg", "title", "script"], _ => &["Div"] };
    let l = gen(&mut b, false, tags, true);
    compare(&l, fmt(), "tree of elements");
}

/// A word in any mix of cases.
fn cased(w: &str) -> String {
    utf8(w.bytes().map(|b| if sv::in_range(b, b'a', b'z') { sv::byte_of(&[b, b - 32]) } else { b }).collect())
}
/// What a whole HTML document is wrapped in.
#[no_mangle]
pub extern "C" fn h_html_document() {
    let n = sv::param("n", 2);
    let (mut doctype, mut html, mut head, mut body) = (false, false, false, false);
    let mut l = vec![];
    let pad = sv::param("pad", 0);
    for k in 0..pad { l.push(if k % 2 == 0 { el("\n", "p", vec![sym(" ", "w")], "") } else { sym(" ", "x") }); }
    for i in 0..n {
        let w = if i == 0 && pad == 0 { sv::pick(&["", "\n"]) } else { sv::pick(&[" ", "\n"]) };
        match sv::choice(7) {
            0 => break,
            1 => { l.push(el(w, &cased("!doctype"), vec![sym(" ", "html")], "")); doctype = true; }
            2 => {
                let mut k = vec![];
                if sv::choice(2) == 1 { k.push(el("\n", &cased("head"), vec![], "")); head = true; }
                if sv::choice(2) == 1 { k.push(el("\n", &cased("body"), vec![el(" ", "head", vec![], "")], "\n")); body = true; }
                l.push(el(w, &cased("html"), k, ""));
                html = true;
            }
            3 => { l.push(el(w, &cased("head"), vec![], "")); head = true; }
            4 => { l.push(el(w, &cased("body"), vec![], "")); body = true; }
            5 => l.push(el(w, "p", vec![el(" ", "b", vec![el("", "body", vec![], "")], "")], "")),
            _ => l.push(N::Sym(w.into(), sv::word(4))),
        }
    }
    // Content and a head without a body: the head would have to be moved.
    sv::assume(!head | body | html | doctype);
    let s = refm::src(&l);
    sv::note("source", &s);
    let mut d = String::new();
    refm::html(&l, &mut d);
    let want = if l.is_empty() {
        "<!DOCTYPE html>\n<html>\n<head></head>\n<body>\n<!-- Generated by SEAM (empty file) -->\n</body>\n</html>\n".to_string()
    } else if doctype { d }
    else if html { format!("<!DOCTYPE html>\n{}", d) }
    else {
        format!("<!DOCTYPE html>\n<html>\n{}{}{}\n{}</html>", if head { "" } else { "<head></head>\n" }, if body { "" } else { "<body>\n" }, d,
            if body { "" } else { "</body>\n" })
    };
    match render_doc(&s, HTML) {
        Some(o) => { sv::note("output", &o); sv::check(sv::same(&o, &want), "whole HTML document") }
        None => sv::fail("whole HTML document"),
    }
}
/// The header of a whole XML document.
#[no_mangle]
pub extern "C" fn h_xml_document() {
    let w = sv::pick(&["", " ", "\n"]);
    let decl = |w: &str, t: &str| el(w, t, vec![N::Attr(" ".into(), "version".into(), Box::new(str(" ", "1.0".into())))], "");
    let mut has = false;
    let l = match sv::choice(10) {
        0 => vec![],
        7 => { let t = format!("?xml{}", utf8((0..1 + sv::choice(3)).map(|_| sym_byte()).collect())); vec![decl(w, &t), el("\n", "a", vec![], "")] }
        8 => { let t = format!("{}xml", utf8(vec![sym_byte()])); has = sv::same(&t, "?xml"); sv::assume(!sv::same(&t, "!xml")); vec![decl(w, &t)] }
        9 => vec![str(w, "?xml".into()), decl("", "?xml")],
        1 => { has = true; vec![decl(w, &cased("?xml"))] }
        2 => { has = true; vec![decl(w, &cased("?xml")), el("\n", "a", vec![], "")] }
        3 => { let t = utf8(vec![b'?', sv::letter(), sv::letter(), sv::letter()]); has = sv::same(&t, "?xml"); vec![decl(w, &t), el("", "a", vec![], "")] }
        4 => vec![el(w, "a", vec![decl(" ", "?xml")], "")],
        5 => vec![N::Sym(w.into(), sv::word(3)), decl(" ", "?xml")],
        _ => vec![el(w, &sv::word(3), vec![sym(" ", "?xml")], "")],
    };
    let s = refm::src(&l);
    sv::note("source", &s);
    let mut d = String::new();
    refm::xml(&l, &mut d);
    let want = if has { d } else { format!("<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n{}", d) };
    match render_doc(&s, XML) {
        Some(o) => { sv::note("output", &o); sv::check(sv::same(&o, &want), "whole XML document") }
        None => sv::fail("whole XML document"),
    }
}
/// `style`, `script`, `pre`, `textarea`, `title`, `math`, `svg`: their content.
#[no_mangle]
pub extern "C" fn h_html_special() {
    let n = sv::param("n", 1) as usize;
    let t = sv::pick(&["style", "script", "pre", "textarea", "title", "math", "svg"]);
    let w = sv::pick(&["", " ", "\n  "]);
    let a = match sv::choice(3) {
        0 => str(w, sv::ascii_string(n)),
        1 => { let v = utf8((0..n).map(|_| sym_byte()).collect()); N::Sym(if w.is_empty() { " " } else { w }.into(), v) }
        _ => N::List(w.into(), vec![N::Sym("".into(), sv::word(1)), N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "1")))], "".into()),
    };
    if let (N::Str(_, v), "script") = (&a, t) { let b = v.as_bytes(); for b in b { sv::assume(sv::in_range(*b, 32, 126)); } }
    let b = match sv::choice(5) {
        0 => None,
        1 => Some(sym(" ", "<")),
        2 => Some(N::List(" ".into(), vec![sym("", "b"), sym(" ", "c>")], " ".into())),
        3 => Some(str(" ", "<\"".into())),
        _ => Some(N::List("\n".into(), vec![sym("", "br"), N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "v")))], "".into())),
    };
    let mut kids = vec![a];
    kids.extend(b);
    if sv::choice(2) == 1 { kids.insert(0, N::Attr(" ".into(), "id".into(), Box::new(sym(" ", "z")))); }
    let l = vec![el(sv::pick(&["", "\n "]), &t, kids, sv::pick(&["", " ", "\n"]))];
    compare(&l, HTML, "content of a special element");
}
// ---- CSS ------------------------------------------------------------------
/// Any characters as a property value.
#[no_mangle]
pub extern "C" fn h_css_value() {
    let n = sv::param("n", 2) as usize;
    let v = match sv::choice(5) {
        0 => str(" ", sv::ascii_string(n)),
        1 => N::Sym(" ".into(), utf8((0..n).map(|_| sym_byte()).collect())),
        2 => N::Raw(" ".into(), sv::ascii_string(n)),
        3 => N::Num(" ".into(), format!("{}{}{}", sv::pick(&["", "-", "+"]), sv::digits(n), sv::pick(&["", "px", "%", "em"]))),
        _ => N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "v"))),
    };
    // As the value itself, or inside a function.
    let v = match sv::choice(3) {
        0 => v,
        1 => N::List(" ".into(), vec![sym("", "var"), v], "".into()),
        _ => N::List(" ".into(), vec![v, sym(" ", "b")], " ".into()),
    };
    let l = vec![el("", "p", vec![N::Attr(" ".into(), sv::word(1), Box::new(v))], "")];
    compare(&l, CSS, "CSS value");
}
/// Functions, operators and plain lists: any name of n characters.
#[no_mangle]
pub extern "C" fn h_css_function() {
    let n = sv::param("n", 3) as usize;
    let name = utf8((0..n).map(|_| { let b = sv::ascii(); sv::assume(sv::in_range(b, b'a', b'z') | (b == b'-') | sv::in_range(b, b'X', b'Z') | (b == b'3')); b }).collect());
    sv::assume((name.as_bytes()[0] != b'-') & (name.as_bytes()[0] != b'3'));
    let arg = || sv::pick(&["1", "2px", "b"]);
    let mut k = vec![N::Sym("".into(), name)];
    for _ in 0..sv::choice(4) { k.push(N::Sym(" ".into(), arg().into())); }
    let l = vec![el("", "p", vec![N::Attr(" ".into(), "k".into(), Box::new(N::List(" ".into(), k, "".into())))], "")];
    compare(&l, CSS, "CSS function");
}
fn css_term(d: u32) -> N {
    let w: String = " ".into();
    match sv::choice(if d == 0 { 2 } else { 5 }) {
        0 => N::Num(w, sv::digits(1)),
        1 => N::Sym(w, sv::word(1)),
        2 => {
            let op = utf8(vec![sv::byte_of(b"+-*/")]);
            N::List(w, vec![N::Sym("".into(), op), css_term(d - 1), css_term(d - 1)], "".into())
        }
        3 => N::List(w, vec![sym("", sv::pick(&["calc", "rgba", "url"])), css_term(d - 1), css_term(0)], "".into()),
        _ => N::List(w, vec![N::Sym("".into(), sv::word(2)), css_term(d - 1)], " ".into()),
    }
}
/// Nested arithmetic and functions.
#[no_mangle]
pub extern "C" fn h_css_terms() {
    let v = css_term(sv::param("depth", 2) as u32);
    let l = vec![el("", "p", vec![N::Attr(" ".into(), "k".into(), Box::new(v))], "")];
    compare(&l, CSS, "CSS arithmetic");
}
fn css_rule(w: &str, heads: &[&str], d: u32, b: &mut u32) -> N {
    let mut k = vec![match sv::choice(2) { 0 => N::Sym("".into(), sv::word(1)), _ => sym("", sv::pick(heads)) }];
    while *b > 0 {
        let c = sv::choice(if d > 0 { 5 } else { 4 });
        if c == 0 { break; }
        *b -= 1;
        k.push(match c {
            1 => N::Sym(" ".into(), sv::word(1)),
            2 => N::Attr(sv::pick(&[" ", "\n"]).into(), sv::word(1), Box::new(N::Sym(" ".into(), sv::word(1)))),
            3 => str(" ", "s t".into()),
            _ => css_rule(sv::pick(&["", "\n  "]), heads, d - 1, b),
        });
    }
    N::List(w.into(), k, sv::pick(&["", "\n"]).into())
}
/// Rules, @-rules and their nesting.
#[no_mangle]
pub extern "C" fn h_css_rules() {
    let mut b = sv::param("n", 3) as u32;
    let heads: &[&str] = if sv::param("at", 0) == 0 { &["@media", "@import"] } else { &["@font-face", "@supports"] };
    let mut l = vec![css_rule(sv::pick(&["", "\n"]), heads, 2, &mut b)];
    match if sv::param("extra", 1) == 1 { sv::choice(5) } else { 9 } {
        0 => l.push(css_rule(sv::pick(&["", "\n"]), heads, 0, &mut b)),
        1 => l.push(sym(" ", "x")),
        2 => l.push(N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "v")))),
        3 => l.push(N::List(" ".into(), vec![], "".into())),
        _ => {}
    }
    compare(&l, CSS, "CSS rules");
}
/// Which @-rules there are: any name of n letters.
#[no_mangle]
pub extern "C" fn h_css_at() {
    let n = sv::param("n", 5) as usize;
    let mut t = vec![b'@'];
    for _ in 0..n { let b = sv::ascii(); sv::assume(sv::in_range(b, b'a', b'z') | (b == b'-')); t.push(b); }
    let t = utf8(t);
    let mut k = vec![N::Sym("".into(), t)];
    match sv::choice(6) {
        0 => {}
        4 => k.extend([N::Num(" ".into(), "1.5".into()), str(" ", "q".into()), N::Num("".into(), "2".into()), N::Raw("\n".into(), "r".into())]),
        1 => k.push(sym(" ", "a")),
        2 => k.push(N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "v")))),
        3 => k.push(N::List(" ".into(), vec![sym("", "from"), N::Attr(" ".into(), "k".into(), Box::new(sym(" ", "v")))], "".into())),
        _ => { k.push(sym(" ", "a")); k.push(N::List(" ".into(), vec![sym("", "b")], "".into())); k.push(N::List("".into(), vec![sym("", "c")], "".into())) }
    }
    compare(&[N::List("".into(), k, "".into())], CSS, "CSS @-rule");
}
