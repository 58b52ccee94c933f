//! C02: nothing freed, moved or out of bounds is read or written. The executor checks
//! every access; what the harness adds is the programs that keep things longest.
use crate::{sv, util::*};

/// Everything the reader hands out is text.
#[no_mangle]
pub extern "C" fn h_memory_text() {
    use seam::parse::lexer::Lexer;
    let text = |s: &str| std::str::from_utf8(s.as_bytes()).is_ok();
    let s = crate::h_read::source(sv::param("n", 1) as usize);
    let lx = Lexer::new("f".to_string(), s.clone());
    let mut i = 0;
    while !lx.eof() {
        match lx.consume() {
            Ok(t) => {
                sv::check(text(t.value) & text(t.leading_whitespace), "what is read is text");
                sv::check(text(t.site.view()) & text(t.site.line_slice()), "what a position shows is text");
            }
            Err(e) => { let m = format!("{}", e); sv::check(text(&m), "an error is text"); break }
        }
        i += 1;
    }
    if i > 0 { sv::reach("tokens") }
    for f in 0..5 { if let Some(o) = render(&s, f) { sv::check(text(&o), "output is text"); } }
}

fn wrap(x: &str, k: &mut u32) -> String {
    *k += 1;
    let k = *k;
    match sv::choice(18) {
        0 => format!("(%define (m{k} x) (p %x)) (%m{k} {x})"),
        1 => format!("(%define (m{k} &r &&s) %r %s) (%m{k} {x} :k {x})"),
        2 => format!("(%define v{k} {x}) %v{k} (q %v{k})"),
        3 => format!("(%for i (in) ({x}) %i)").replace("(in)", "in"),
        4 => format!("(%match {x} (q 1) ((a &b) %a %b) (c %c (%define d{k} %c)) )"),
        5 => format!("(%map (%lambda (x) {x} %x) 1 (2))"),
        6 => format!("(%namespace n{k} (%define w {x}) {x}) %n{k}/w"),
        7 => format!("(%do {x} {x} {x})"),
        8 => format!("(%apply (%lambda (y) (%apply (%lambda (z) %z %y) %y)) (p {x}))"),
        9 => format!("(%sort ({x} 1 b) :key (%lambda (y) 1))"),
        10 => format!("(style {x})"),
        11 => format!("(svg :k v {x})(svg {x})"),
        12 => format!("(pre {x})"),
        13 => format!("(p :k {x})"),
        14 => format!("(%splat (%list {x} (%list (%strip {x}))))"),
        15 => format!("(%get 0 ({x}))"),
        16 => format!("(%reverse (%filter (%lambda y {x}) {x}))"),
        _ => format!("(%define (r{k} (a :b &c)) %a %c {x}) (%r{k} (1 :b 2 {x}))"),
    }
}
#[no_mangle]
pub extern "C" fn h_memory() {
    sv::file("b.sex", "(%define (f x) (q \"in b\" %x)) \"text of b\" (p :k \"v\" 1)");
    sv::file("c.sex", "(%include b)(%f (%include b))");
    sv::file("e.sex", "x (%nothing \"in e\")");
    sv::file("y", "a: [p, {b: 1}]");
    let l = sv::letter() as char;
    let mut x = match sv::choice(9) {
        0 => format!("(%include b)"),
        1 => format!("(%include c) (%f {l})"),
        2 => format!("(%include e)"),
        3 => format!("(%embed b.sex)"),
        4 => format!("\"{l}\\n\" :k {l} {l}"),
        5 => format!("(%yaml (%embed y)) %a/0"),
        6 => format!("(.{l} :k \"{l}\" :j (%concat {l} {l}))"),
        7 => format!("(%string \"{l}\") (%raw <{l}) (%lambda (x) %x)"),
        _ => format!("(%markdown \"# {l}\")"),
    };
    let mut k = 0;
    for _ in 0..sv::param("n", 2) { x = wrap(&x, &mut k); }
    let copies = sv::param("copies", 1);
    let s: String = (0..copies).map(|_| x.clone() + "\n").collect();
    sv::note("source", &s);
    all_formats(&s, sv::param("doc", 0) == 1);
    if sv::param("clone", 0) == 1 { cloned(&s) }
}
/// A copy of a formatter writes what it writes, and lives without it.
fn cloned(s: &str) {
    use seam::assemble::{html::HTMLFormatter, xml::XMLFormatter, MarkupFormatter};
    let e = seam::tree_builder(Some("<src>"), s.to_string());
    let e = e.clone();
    let r = e.expand();
    if let Ok(t) = &r {
        let first = HTMLFormatter::new(t.clone());
        let want = first.display().ok();
        let second = first.clone();
        drop(first);
        let third: Box<dyn MarkupFormatter> = Box::new(second.clone());
        sv::check(second.display().ok() == want, "a copy of a formatter writes the same");
        drop(second);
        let fourth = third.clone();
        sv::check(fourth.display().ok() == want, "a copy of a formatter writes the same");
        let first = XMLFormatter::new(t.clone());
        let want = first.document().ok();
        let second = first.clone();
        drop(first);
        sv::check(second.document().ok() == want, "a copy of a formatter writes the same");
        sv::reach("cloned");
    }
}
