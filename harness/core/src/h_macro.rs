//! Expansion of macro programs against the reference evaluator.
use crate::{refr, refx, sv, util::*};

/// The expansion of a program is what the reference evaluator makes of it.
pub fn program(s: &str, id: &str) { program_in(s, refx::World::default(), id) }
/// The same with files and variables: `w.dirs` starts with "."
pub fn program_in(s: &str, w: refx::World, id: &str) {
    for f in &w.files { sv::file(&f.0, &f.1); sv::note(&f.0, &f.1); }
    for v in &w.vars { sv::env(&v.0, &v.1); }
    let dirs: Vec<String> = w.dirs.iter().skip(1).cloned().collect();
    let want = refr::read(s.as_bytes()).and_then(|l| refx::program_in(w, &l));
    expands_to(s, &dirs, want, id)
}
/// The expansion is this tree, or refused.
pub fn expands_to(s: &str, dirs: &[String], want: Option<Vec<refr::N>>, id: &str) {
    sv::note("source", s);
    let mut e = seam::tree_builder(Some("<src>"), s.to_string());
    e.add_includes(dirs.iter());
    let r = e.expand();
    match (&r, &want) {
        (Ok(t), Some(w)) => {
            let o = write_nodes(t.to_vec(), TEXT);
            if let Some(o) = &o { sv::note("output", o); }
            let mut p = String::new();
            crate::refm::plain(w, &mut p);
            sv::note("want", &p);
            sv::check(refr::same_tree(w, t, true), id);
            sv::reach("expanded");
        }
        (Err(e), None) => { let m = format!("{}", e); sv::check(!m.is_empty(), "an error has a message"); sv::reach("refused") }
        (Ok(_), None) => sv::fail("what has no meaning is refused"),
        (Err(_), Some(_)) => sv::fail("what has a meaning is not refused"),
    };
}
fn letter() -> String { sv::word(1) }
/// A value: a letter, or what a name stands for.
fn value(names: &[&str]) -> String {
    let k = sv::choice(1 + names.len() as u32) as usize;
    if k == 0 { letter() } else { names[k - 1].to_string() }
}
/// Definitions, shadowing and scopes: n statements, then everything is looked up.
#[no_mangle]
pub extern "C" fn h_scope() {
    let n = sv::param("n", 2);
    let mut s = String::new();
    if sv::param("pre", 0) == 1 { s.push_str("(%define a A)(%define b %a)(%define (f x) [%x %b])(%define (g) %a)"); }
    let v = || value(&["%a", "%b"]);
    for _ in 0..n {
        let t = match sv::choice(16) {
            0 => format!("(%define a {})", v()),
            1 => format!("(%define b {} {})", v(), letter()),
            2 => format!("(%define (f) {} %b)", v()),
            3 => format!("(%define (f a) {} %b)", v()),
            4 => format!("(%define (f x) (%define a %x) {})", v()),
            5 => format!("(%f)"),
            6 => format!("(%f {})", v()),
            7 => format!("(%ifdef a {} {})", v(), letter()),
            8 => format!("(p {} (%define a {}))", v(), v()),
            9 => format!("(%do (%define b {}) {})", letter(), v()),
            10 => format!("(%match {} (b %b{}))", v(), sv::pick(&["", " (%define a z)"])),
            11 => format!("(%for a in ({} {}) %a %b)", v(), letter()),
            12 => format!("(%namespace a (%define b {}) {})", letter(), v()),
            13 => format!("(%define (g) (%f {}))", v()),
            14 => format!("(%f (%define (f) {})(%define (a) {}))", v(), letter()),
            _ => format!("(%g)"),
        };
        s.push_str(sv::pick(&["", " "]));
        s.push_str(&t);
    }
    s.push_str(sv::pick(&[" %a", "\n(%f q)", " %b", " (%g)", " %a/b", " (%ifdef a y n)", " (%ifdef x y n)", " (%ifdef f y n)"]));
    program(&s, "meaning of a program of definitions");
}
/// Call-site whitespace: where a substitution stands, and what it stands for.
#[no_mangle]
pub extern "C" fn h_whitespace() {
    let w = || sv::pick(&["", " ", "\n "]);
    let body = match sv::choice(5) { 0 => letter(), 1 => format!("{}{}(b{})", letter(), w(), w()), 2 => format!("({}c) d", w()), 3 => String::new(), _ => format!("\"{}\"{}e", letter(), w()) };
    let (w1, w2, w3) = (w(), w(), w());
    let def = match sv::choice(2) { 0 => format!("(%define a{}{})", if w1.is_empty() { " " } else { w1 }, body), _ => format!("(%define (f){}{})", w1, body) };
    let end = sv::pick(&["", " ", "\n"]);
    let use_ = match sv::choice(10) {
        0 => "%a".to_string(),
        1 => "(%f)".to_string(),
        2 => format!("(p{}%a{})", if w3.is_empty() { " " } else { w3 }, end),
        3 => format!("(p{}(%f){})", w3, end),
        4 => format!("(%do{}(%f) %a)", w3),
        5 => format!("(%ifdef a{}%a{}(%f))", if w3.is_empty() { " " } else { w3 }, end),
        6 => format!("(%list{}%a{})", if w3.is_empty() { " " } else { w3 }, end),
        7 => format!("(%string{}%a{})", if w3.is_empty() { " " } else { w3 }, end),
        8 => format!("(p :k{}%a)", if w3.is_empty() { " " } else { w3 }),
        _ => format!("(%strip{}%a (%f))", if w3.is_empty() { " " } else { w3 }),
    };
    program(&format!("{}\"x\"{}{}", def, w2, use_), "whitespace of a substitution");
}
/// One parameter pattern.
fn pattern(i: usize, deep: bool) -> String {
    let n = ["x", "y", "z"][i];
    match sv::choice(if deep { 9 } else { 8 }) {
        0 | 1 => n.into(),
        2 => format!(":{} %dv", n),
        3 => format!("&{}", n),
        4 => format!("&&{}", n),
        5 => format!("{}", sv::digit() as char),
        6 => format!("\"{}\"", letter()),
        // (What another parameter holds, when that is looked up.)
        7 => format!(":{} {}", n, ["(d %y)", "(%ifdef z %z none)", "\"e\""][i]),
        _ => format!("({} {})", n, ["u", "&u", ":u 0"][sv::choice(3) as usize]),
    }
}
fn argument(i: usize, deep: bool) -> String {
    match sv::choice(if deep { 6 } else { 5 }) {
        0 => letter(),
        1 => format!(":{} {}", ["x", "y", "z"][i], letter()),
        2 => format!(":{} {}", utf8(vec![sv::between(b'x', b'z')]), letter()),
        3 => format!("{}", sv::digit() as char),
        4 => format!("\"{}\"", letter()),
        _ => format!("({}{})", letter(), sv::pick(&["", " 1", " :u 2", " 3 4"])),
    }
}
/// How a macro's arguments reach its parameters.
#[no_mangle]
pub extern "C" fn h_binding() {
    let (np, na, deep) = (sv::param("p", 2) as usize, sv::param("a", 2) as usize, sv::param("deep", 0) == 1);
    let mut pats = String::new();
    for i in 0..np { pats.push(' '); pats.push_str(&pattern(i, deep)); }
    let mut args = String::new();
    for i in 0..na { args.push(' '); args.push_str(&argument(i, deep)); }
    let mut body = String::new();
    for n in ["x", "y", "z", "u"] { body.push_str(&format!(" (%ifdef {} (%list {} %{}))", n, n, n)); }
    let s = match sv::param("how", 0) {
        0 => format!("(%define dv old)(%define (f{}){})(%define dv new)(%f{})", pats, body, args),
        1 => format!("(%match ({}) (({}){}) (_ none))", args, pats, body),
        2 => format!("(%define dv old)(%apply (%lambda ({}){}){})", pats, body, args),
        3 => format!("(%for ({}) in (({}) ({})){})", pats, args, args, body),
        // Without a call.
        _ => format!("(%define (f{}){}){}", pats, body, sv::pick(&["%f", "(p :k %f)", "(%ifdef f y n)", "(%map f)"])),
    };
    program(&format!("(%define dv w){}", s), "binding of arguments");
}
/// `%match`: the first case whose pattern fits, literals and shapes of every kind.
#[no_mangle]
pub extern "C" fn h_match() {
    let n = sv::param("n", 2);
    let v = match sv::choice(7) {
        0 => letter(),
        1 => sv::digits(1),
        2 => format!("\"{}\"", letter()),
        3 => format!("({} {})", letter(), sv::digits(1)),
        4 => "()".into(),
        5 => format!("(:k {})", letter()),
        _ => format!("({} (:k {}))", sv::digits(1), letter()),
    };
    let mut s = format!("(%match {}", v);
    for i in 0..n {
        let p = match sv::choice(9) {
            0 => "x".to_string(),
            1 => sv::digits(1),
            2 => format!("\"{}\"", letter()),
            3 => format!("(x {})", sv::digits(1)),
            4 => "(x y)".into(),
            5 => "()".into(),
            6 => "(:k 0)".into(),
            7 => "(&x)".into(),
            _ => format!("({} (:k 9 &&y))", sv::digits(1)),
        };
        s.push_str(&format!(" ({} {} (%ifdef x %x) (%ifdef k %k))", p, i));
    }
    s.push(')');
    program(&s, "the case a match takes");
}
