//! What a reported error says: the line, the place in it and the position.
use crate::{sv, util::*};

/// Columns a text takes in a terminal (the characters used here).
fn columns(s: &str) -> usize { s.chars().map(|c| if c == '漢' { 2 } else { 1 }).sum() }

/// The display of an error about `src[at..at+len]`.
fn display(name: &str, src: &str, at: usize, len: usize, kind: &str) -> String {
    let b = src.as_bytes();
    let mut line = 1;
    let mut start = 0;
    for i in 0..at { if b[i] == b'\n' { line += 1; start = i + 1; } }
    let mut end = start;
    while end < b.len() && b[end] != b'\n' { end += 1; }
    let column = columns(&src[start..at]);
    let head = format!("  {} |", line);
    let mut s = format!("{} {}\n", head, &src[start..end]);
    for _ in 1..head.len() { s.push(' '); }
    s.push_str("| ");
    for _ in 0..column { s.push('~'); }
    for _ in 0..columns(&src[at..at + len]) { s.push('^'); }
    s.push_str(&format!("\n[**] {} ({}:{}:{}): ", kind, name, line, column + 1));
    s
}

const ANY: u32 = 0; // can stand anywhere
const TOP: u32 = 1; // changes how what follows is read

/// (what, definitions before it, text with the place marked)
const MACROS: &[(u32, &str, &str)] = &[
    (ANY, "", "«%@»"), (ANY, "", "«(»%@ 1)"), (ANY, "", "(«(»%@) 1)"),
    (ANY, "", "«(»%define)"), (ANY, "", "(%define «1» 2)"), (ANY, "", "(%lambda «1» 2)"), (ANY, "", "«(»%lambda)"),
    (ANY, "(%define (f a) %a)", "«(»%f)"), (ANY, "(%define (f a) %a)", "(%f 1 «@»)"), (ANY, "(%define (f a) %a)", "(%f 1 «:@» 2)"),
    (ANY, "(%define (f a) %a)", "(%f 1 «\"@\"»)"), (ANY, "(%define (f (a b)) %a)", "(%f «@»)"),
    (ANY, "", "(%sort «12»)"), (ANY, "", "(%sort (1) :order «@»)"), (ANY, "", "(%join «(»a) b)"), (ANY, "", "(%get a «(»1))"),
    (ANY, "", "(%include «@»)"), (ANY, "", "(%embed «@»)"), (ANY, "", "(%os/env «@»)"), (ANY, "", "(%include «\"@\"»)"),
    (ANY, "", "«(»%match)"), (ANY, "", "(%format «\"{}\"»)"), (ANY, "", "(%format «\"{\"»)"), (ANY, "", "(%map «1» (2))"), (ANY, "", "(%number «(»a))"),
    (ANY, "", "(%date «\"%J\"» 1)"), (ANY, "", "(%date \"%Y\" «@»)"), (ANY, "", "(%date \"%Y\" 1 :timezone «25»)"),
    (ANY, "", "«(»%yaml \"[\")"), (ANY, "", "«(»%toml \"[\")"), (ANY, "", "(%apply «12»)"), (ANY, "", "(%for i «1» 2)"), (ANY, "", "«(»%ifdef)"),
    (ANY, "", "(%reverse «12»)"), (ANY, "", "(%glob «(»a))"), (ANY, "", "(%glob «\"***\"»)"), (ANY, "", "(%markdown «(»a))"),
    (ANY, "", "(%string «(»a))"), (ANY, "", "(%concat a «(»a))"), (ANY, "", "(%raw «(»a))"), (ANY, "", "«(»%filter a 1)"), (ANY, "", "«(»%log (a))"),
    (ANY, "", "(%namespace a :separator «(»b) c)"),
];
const PARSING: &[(u32, &str, &str)] = &[
    (TOP, "", "«(»p q"), (TOP, "", "p«)»"), (TOP, "", "«(»p (q r)"), (TOP, "", "(p) «)» @"),
    (ANY, "", "(p «:@»)"), (ANY, "", "(«:@»)"),
];
const LEXING: &[(u32, &str, &str)] = &[
    (TOP, "", "«\"»@"), (TOP, "", "@ «\"\"\"»a\" b"), (TOP, "", "(p «\"»q)"), (ANY, "", "(p «\"\\q\"»)"), (ANY, "", "@ «\"a\\q\"»"),
];
const HTML_ERRORS: &[(u32, &str, &str)] = &[
    (ANY, "", "(a :b «(»c d))"), (ANY, "", "(«(»a) b)"), (ANY, "", "(«12» b)"), (ANY, "", "(«\"p\"» b)"), (ANY, "", "«(»)"), (ANY, "", "(p «(») @)"),
];
const CSS_ERRORS: &[(u32, &str, &str)] = &[
    (TOP, "", "«\"x\"»"), (TOP, "", "«@»"), (TOP, "", "(p «(»q r s))"),
];

/// The error of a faulty text names it, in any surroundings.
#[no_mangle]
pub extern "C" fn h_error() {
    let n = sv::param("n", 1) as usize;
    let kind = sv::param("kind", 0);
    let (table, title, fmt): (&[(u32, &str, &str)], &str, u32) = match kind {
        0 => (MACROS, "Error Expanding Macro", TEXT),
        1 => (PARSING, "Parse Error", TEXT),
        2 => (LEXING, "Lexical Error", TEXT),
        3 => (HTML_ERRORS, "Error Generating HTML", HTML),
        4 => (HTML_ERRORS, "Error Generating XML", XML),
        _ => (CSS_ERRORS, "Error Generating CSS", CSS),
    };
    let (place, defs, marked) = table[sv::choice(table.len() as u32) as usize];
    let word = if marked.contains('@') { format!("q{}", sv::word(1)) } else { String::new() };
    let marked = marked.replace('@', &word);
    let from = marked.find('«').unwrap();
    let snippet = marked.replace('«', "");
    let len = snippet.find('»').unwrap() - from;
    let snippet = snippet.replace('»', "");
    // Before it: any words and lines.
    let css = kind == 5;
    let mut before = if css { String::new() } else { sv::string_of(n, b"ab \n") };
    before.push_str(if css { sv::pick(&["", "\n", "(a :b c)\n ", "; é\n\n"]) } else { sv::pick(&["", " ", "\n", "é ", "(漢 b) ", "\"é\n漢\" ", "; c\n", "\n\n\n\n\n\n\n\n\n\n\n\n", "(a :k v \"b c\" 漢漢漢 0123456789 0123456789 é) 0123456789 "]) });
    if !before.is_empty() && !before.ends_with(|c| c == ' ' || c == '\n') { before.push(' '); }
    let after = sv::pick(&["", " y", "\nz", " é"]);
    let context = if place == TOP { sv::pick(&[0u32, 6]) } else { sv::choice(7) };
    let w = sv::pick(&["", " "]);
    let (open, close) = match context {
        1 => ("(x ", ")"),
        2 => ("(%define (g) ", ") (%g)"),
        3 => ("(%define (g x) %x)(%g (z ", "))"),
        4 => ("(%do ", ")"),
        5 => ("(%match 1 (1 (y\n", ")))"),
        _ => ("", ""),
    };
    let src = format!("{}{}{}{}{}{}{}", defs, before, open, w, snippet, after, close);
    let at = defs.len() + before.len() + open.len() + w.len() + from;
    let (name, main) = if context == 6 { sv::file("inc.sex", &src); ("./inc.sex", "\n (%include inc.sex)".to_string()) } else { ("<src>", src.clone()) };
    sv::note("source", &src);
    let mut want = display(name, &src, at, len, title);
    // What cannot be read is at fault, and so is what included it.
    if context == 6 && (kind == 1 || kind == 2) { want = display("<src>", &main, 2, 1, "Error Expanding Macro") + &want; }
    sv::note("want", &want);
    let b = seam::tree_builder(Some("<src>"), main);
    let got = match b.expand() {
        Err(e) => Some(format!("{}", e)),
        Ok(t) => crate::h_error::written(t, fmt),
    };
    match got {
        None => sv::fail("what is faulty is reported"),
        Some(m) => {
            sv::note("got", &m);
            sv::check(m.len() > want.len() && m.as_bytes()[..want.len()] == *want.as_bytes(), "an error shows the line and the place at fault");
            sv::reach("shown");
        }
    };
}
/// The message of the error that writing gives.
fn written(t: seam::parse::parser::ParseTree, fmt: u32) -> Option<String> {
    use seam::assemble::{css::CSSFormatter, html::HTMLFormatter, text::PlainTextFormatter, xml::XMLFormatter, MarkupFormatter};
    let go = |f: &dyn MarkupFormatter| match f.display() { Ok(_) => None, Err(e) => Some(format!("{}", e)) };
    match fmt {
        HTML => go(&HTMLFormatter::new(t)),
        XML => go(&XMLFormatter::new(t)),
        CSS => go(&CSSFormatter::new(t)),
        _ => go(&PlainTextFormatter::new(t)),
    }
}
