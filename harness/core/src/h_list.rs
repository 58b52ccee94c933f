//! Lists: sorting, indexing, mapping and the like, against the reference evaluator.
use crate::{h_macro::program, sv};

fn cased(w: &str) -> String {
    crate::util::utf8(w.bytes().map(|b| if sv::in_range(b, b'a', b'z') { sv::byte_of(&[b, b - 32]) } else { b }).collect())
}
fn letter() -> String { sv::word(1) }
/// A sort key of one of the kinds in `set`.
fn key(set: &[u32]) -> String {
    match sv::pick(set) {
        0 => sv::word(2),
        1 => sv::digits(1),
        2 => format!("-{}", sv::digits(1)),
        3 => sv::digits(2),
        4 => sv::pick(&["0.5", "1.0", "1.5", ".5", "9.", "10.25", "0.50"]).into(),
        5 => sv::pick(&["-0.5", "-1.0", "-2", "-0", "+0.5"]).into(),
        6 => format!("\"{}\"", sv::string_of(1, b"aZ :(")),
        7 => sv::pick(&["1e1", "2e0", "15e-1", "1E2"]).into(),
        8 => format!("\"{}\"", sv::string_of(2, b" 0a")),
        _ => format!("{}{}", sv::letter() as char, sv::digit() as char),
    }
}
/// `%sort`: every order of keys of every kind, by the items or by a key macro.
#[no_mangle]
pub extern "C" fn h_sort() {
    let n = sv::param("n", 3);
    let kinds: &[u32] = match sv::param("kinds", 0) { 0 => &[0], 1 => &[1, 2, 3], 2 => &[0, 1, 2], 3 => &[4, 5, 1], 4 => &[6, 8, 9], 5 => &[1, 7, 9], _ => &[4, 5, 7, 8] };
    let how = sv::param("how", 0);
    let mut s = String::new();
    if how == 2 { s.push_str("(%define (key (_ k)) %k)"); }
    s.push_str("x (%sort");
    let order = sv::pick(&["", " :order ascending", " :order descending", " :order \"descending\""]);
    let by = match how { 0 => "", 1 => " :key (%lambda ((_ k)) %k)", 2 => " :key key", _ => " :key (%lambda ((&_ :k 0)) %k)" };
    let after = sv::choice(2) == 1;
    if !after { s.push_str(order); s.push_str(by); }
    s.push_str(" (");
    for i in 0..n {
        let k = key(kinds);
        let item = match how { 0 => k, 1 | 2 => format!("({} {})", i, k), _ => format!("({} :k {})", i, k) };
        if i > 0 { s.push_str(if how == 0 { " " } else { ["", "\n", " "][i as usize % 3] }); }
        s.push_str(&item);
    }
    s.push(')');
    if after { s.push_str(by); s.push_str(order); }
    s.push(')');
    program(&s, "order of sorted items");
}
/// What `%sort` must refuse, and lists of one or no item.
#[no_mangle]
pub extern "C" fn h_sort_refused() {
    let l = sv::pick(&["()", "(a)", "(a (b))", "((a))", "a", "1", "(:k 1)", "(:k 1 a)", "(a b) c", "", "%l", "(%splat %l)"]);
    let o = sv::pick(&["", " :order up", " :order (a)", " :key 1", " :key \"do\"", " :key nothing", " :key (%lambda (x) %x %x)", " :key (%lambda (x))", " :key (%lambda (x) (%x))", " :up 1"]);
    program(&format!("(%define l (b a))(%sort{} {})", o, l), "what sort refuses");
}
fn small() -> String { match sv::choice(3) { 0 => letter(), 1 => sv::digits(1), _ => "()".into() } }
fn item() -> String {
    match sv::choice(8) {
        0 => letter(),
        1 => sv::digits(1),
        2 => format!("\"{}\"", letter()),
        3 => "()".into(),
        4 => format!("({} {})", small(), letter()),
        5 => format!("(\n{})", small()),
        6 => format!(":k {}", sv::pick(&["z", "(y x)"])),
        _ => "%l".into(),
    }
}
/// The list builders applied to any items.
#[no_mangle]
pub extern "C" fn h_lists() {
    let n = sv::param("n", 2);
    let mut l = String::new();
    for i in 0..n { l.push_str(if i == 1 { "\n" } else { " " }); l.push_str(&item()); }
    let w = sv::pick(&["", " ", "\n"]);
    let (f, g, h) = ("(%define (f x) (%match %x (a y z) (() w) (x [%x] y)))", "(%define (g x &y) %y (%x))", "(%define (h x) (%match %x (0 ()) (k ()) (x %x)))");
    let (d, t) = match sv::param("op", 0) {
        0 => (f, format!("(%map f{})", l)),
        1 => ("", format!("(%map{}(%lambda (x){}[ %x){})", w, w, l)),
        2 => (h, format!("(%filter h{})", l)),
        3 => ("", format!("(%filter (%lambda x (%match %x (0 ()) (\"a\" ()) (_ %x _))){})", l)),
        4 => ("", format!("(%reverse{}({}))", w, l.trim_start())),
        5 => ("", format!("(%reverse{})", l)),
        6 => ("", format!("(%splat{})", l)),
        7 => ("", format!("(%list{}{})", l, w)),
        8 => ("", format!("(%strip{}{})", sv::pick(&["", " ", "\n", "\n\t", "\r\n "]), l.trim_start())),
        9 => ("", format!("(%do{})", l)),
        10 => (g, format!("(%apply g{})", l)),
        11 => ("", format!("(%apply (%lambda (&x :k 1){}%x{}%k){})", w, w, l)),
        12 => (f, format!("(%apply {} {})", sv::pick(&["list", "do", "splat", "reverse", "f", "nothing"]), l)),
        13 => (g, format!("(%map {} {})", sv::pick(&["list", "do", "splat", "reverse", "string", "g", "1"]), l)),
        14 => ("", format!("(%for x in ({}){}%x{}(%list %x))", l.trim_start(), w, w)),
        15 => ("", format!("(%for (x y) in ({}){}%y{}%x)", l.trim_start(), w, w)),
        16 => ("", format!("(p{}(%splat{}))", w, l)),
        18 => ("(%define (k0 x))(%define (k2 x) () %x)(%define (k3 x) () (()) ())(%define (k4 x) %x ())", format!("(%{} {}{})", sv::pick(&["filter", "map"]), sv::pick(&["k0", "k2", "k3", "k4"]), l)),
        19 => ("(%define (e) \"\")(%define (u x) (%splat %x))(%define (n x) (%number 0))(%define (r x) (%raw \"\"))", format!("(%filter {}{})", sv::pick(&["u", "n", "r", "list", "do", "splat"]), l)),
        _ => ("", format!("(%for x in ({})(%for y in ({}){}%y%x))", l.trim_start(), l.trim_start(), w)),
    };
    program(&format!("(%define l (m n)){}\"x\"{}{}{}", d, w, t, sv::pick(&["", " end"])), "lists that macros build");
}
/// `%get`: paths of n steps into nested data.
#[no_mangle]
pub extern "C" fn h_get() {
    let n = sv::param("n", 1);
    let sep = sv::pick(&["", "-", "--", "."]);
    let mut p = String::new();
    for i in 0..n {
        if i > 0 { p.push_str(if sep.is_empty() { "/" } else { sep }); }
        match sv::choice(6) {
            0 => p.push_str(&sv::digits(1)),
            1 => p.push_str(&letter()),
            2 => p.push_str("k"),
            3 => p.push_str(&format!("0{}", sv::digits(1))),
            4 => p.push_str(&format!("+{}", sv::digits(1))),
            _ => {}
        }
    }
    let d = sv::pick(&["(a b)", "(:k 1 :a b)", "((a :k 2) :k (c d))", "(:k (:k (x y) :0 z) (e) \"f\")", "a", "()", "(:1 one two three)", "(:k 1 :k 2)", "%d", "(%splat %d)"]);
    let o = if sep.is_empty() { String::new() } else { format!(" :separator \"{}\"", sep) };
    let s = match sv::choice(4) { 0 => format!("(%get{} \"{}\" {})", o, p, d), 1 => format!("(%get \"{}\"{} {})", p, o, d), 2 => format!("(p (%get \"{}\"  {}{}))", p, d, o), _ => format!("(%get {} {}{})", if p.is_empty() { "k" } else { &p }, d, o) };
    program(&format!("(%define d (:k (one two) 0 (:k v)))w {}", s), "what a path leads to");
}
const NAMES: [&str; 22] = ["define", "match", "ifdef", "do", "get", "raw", "string", "number", "symbol", "namespace", "for", "sort", "reverse", "join", "concat", "map", "filter", "splat", "list", "strip", "apply", "lambda"];
/// Every built-in macro with any n arguments of any kind: what it takes and what it refuses.
#[no_mangle]
pub extern "C" fn h_arguments() {
    let n = sv::param("n", 2);
    let op = NAMES[sv::param("op", 0) as usize];
    let key = match op { "sort" => sv::pick(&["order", "key", "k"]), "join" => sv::pick(&["trailing", "k"]), "namespace" | "get" => sv::pick(&["separator", "k"]), _ => "k" };
    let mut s = format!("(%define l a)(%{}", op);
    for _ in 0..n {
        s.push(' ');
        let k = sv::choice(12);
        s.push_str(&match k {
            0 => letter(),
            1 => sv::digits(1),
            2 => format!("\"{}\"", letter()),
            3 => "(b 1)".into(),
            4 => "()".into(),
            5 => format!(":{} {}", key, match sv::choice(5) { 0 => "a".to_string(), 1 => "1".into(), 2 => "(l)".into(), 3 => cased("true"), _ => cased("descending") }),
            6 => "(%raw \"r\")".into(),
            7 => sv::pick(&["in", "list", "l"]).into(),
            8 => "(%list do)".into(),
            9 => "(x (%list a b))".into(),
            10 => format!(":{} {}", cased(&key), if op == "join" { "true" } else if op == "sort" && key == "order" { "descending" } else { "a" }),
            _ => "(%splat (3 c))".into(),
        });
    }
    s.push(')');
    s.push_str(sv::pick(&["", " (%ifdef x (%list %x) %l)"]));
    program(&s, "arguments of a built-in macro");
}
/// The macros that read from outside, and `%format` and `%log`: what they take, whatever its value.
#[no_mangle]
pub extern "C" fn h_takes() {
    // The values of the arguments in their places, and of the options; with the kinds of nodes they may be:
    // any literal, a string or raw text, a number, a string.
    let (name, places, options): (&str, &[(u8, &str)], &[(&str, u8, &str)]) = [
        ("yaml", &[(STRING, "a: 1")][..], &[("separator", LITERAL, "-")][..]),
        ("json", &[(STRING, "[1]")], &[("separator", LITERAL, "-")]),
        ("toml", &[(STRING, "a = 1")], &[("separator", LITERAL, "-")]),
        ("markdown", &[(STRING, "x *y*")], &[("only", LITERAL, "content"), ("separator", LITERAL, "-")]),
        ("include", &[(LITERAL, "file")], &[]),
        ("embed", &[(LITERAL, "file")], &[]),
        ("glob", &[(LITERAL, "f*")], &[("type", LITERAL, "file"), ("sort", LITERAL, "type"), ("order", LITERAL, "descending")]),
        ("date", &[(LITERAL, "%Y"), (NUMBER, "86400")], &[("timezone", NUMBER, "1")]),
        ("timestamp", &[(LITERAL, "%Y-%m-%d %H:%M:%S"), (LITERAL, "2024-01-01 00:00:00")], &[("timezone", NUMBER, "1")]),
        ("os/env", &[(LITERAL, "SEAM_A")], &[]),
        ("log", &[(LITERAL, "a"), (LITERAL, "b")], &[]),
        ("format", &[(ONLY_STRING, "{}-{}"), (LITERAL, "a"), (LITERAL, "b")], &[]),
    ][sv::param("op", 0) as usize];
    sv::file("file", "f");
    sv::env("SEAM_A", "v");
    let write = |kind: u8, v: &str| match kind { 0 => format!("(%symbol \"{v}\")"), 1 => format!("(%number \"{v}\")"), 2 => format!("\"{v}\""), 3 => format!("(%raw \"{v}\")"), 4 => format!("(\"{v}\")"), 5 => String::new(), 6 => format!("\"{v}\" \"{v}\""), _ => format!("(%do (%string \"{v}\"))") };
    let takes = |t: u8, kind: u8| match kind { 0 => t == LITERAL, 1 => t == LITERAL || t == NUMBER, 2 | 7 => t != NUMBER, 3 => t == LITERAL || t == STRING, _ => false };
    let kind = || sv::choice(8) as u8;
    let good = |t: u8| if t == NUMBER { 1 } else { 2 };
    // One is of any kind, and there are options before, between or after.
    let which = sv::choice((places.len() + options.len()) as u32) as usize;
    let (mut parts, mut plain, mut ok, mut moved) = (vec![], vec![], true, false);
    for (i, (t, v)) in places.iter().enumerate() {
        if i == which {
            let k = kind();
            if !takes(*t, k) { ok = false; }
            if name == "date" && i == 1 && k == 5 { return sv::reach("the time now") }
            if name == "log" && (k == 5 || k == 6) { ok = true; }
            // Another in its place will do; the values a format does not use too.
            if (name == "date" && k == 5) || (name == "format" && (k == 6 || (k == 5 && i == 0))) { ok = true; }
            moved = k == 5 || k == 6;
            parts.push(write(k, v));
        } else { parts.push(write(good(*t), v)); }
        plain.push(write(good(*t), v));
    }
    for (i, (o, t, v)) in options.iter().enumerate() {
        let (mut k, mut key) = (good(*t), o.to_string());
        if places.len() + i == which {
            k = [0, 1, 2, 3, 4, 7][sv::choice(6) as usize];
            if !takes(*t, k) { ok = false; }
            if sv::choice(4) == 0 { key.push(sv::letter() as char); ok = false; }
        } else if sv::choice(2) == 0 { continue }
        let at = sv::choice(parts.len() as u32 + 1) as usize;
        // (Not an option of an option.)
        parts.insert(at, format!(":{} {}", key, write(k, v)));
        plain.push(format!(":{} {}", o, write(good(*t), v)));
    }
    if places.iter().any(|p| p.0 == ONLY_STRING) && options.is_empty() && which > 0 && sv::choice(2) == 0 { parts.push(":k".into()); parts.push(write(4, "c")); ok = false }
    if name == "include" || name == "embed" || name == "os/env" || name == "log" { if sv::choice(4) == 0 { parts.push(":k v".into()); ok = false } }
    let s = format!("(%{} {})", name, parts.join(" "));
    sv::note("source", &s);
    let t = crate::util::render(&s, crate::util::SEXP);
    if !ok { crate::util::expect_error(&s, "arguments of a macro that reads from outside"); return }
    sv::check(t.is_some(), "arguments of a macro that reads from outside");
    if !moved { sv::check(t == crate::util::render(&format!("(%{} {})", name, plain.join(" ")), crate::util::SEXP), "what an argument is does not change what it says"); }
}
const LITERAL: u8 = 0;
const STRING: u8 = 1;
const NUMBER: u8 = 2;
const ONLY_STRING: u8 = 3;
/// A macro of any name of n characters: defined and called, or neither.
#[no_mangle]
pub extern "C" fn h_names() {
    let n = sv::param("n", 3) as usize;
    let mut v = vec![];
    for _ in 0..n {
        let b = sv::byte();
        sv::assume(sv::in_range(b, b'a', b'z') | (b == b'/') | (b == b'-') | (b == b'%') | (b == b'_') | (b == b'A'));
        v.push(b);
    }
    let name = crate::util::utf8(v);
    for b in ["include", "embed", "markdown", "yaml", "json", "toml", "glob", "date", "timestamp", "log", "format", "os/env"] { sv::assume(!sv::same(&name, b)); }
    let def = match sv::choice(4) { 0 => "", 1 => "(%define (NAME x) %x x)", 2 => "(%define NAME v)", _ => "(%namespace NAME (%define in w))" };
    let call = sv::pick(&["(%NAME y)", "%NAME", "(%ifdef NAME y n)", "(%map NAME (q))", "%NAME/in"]);
    program(&format!("{}{}", def, call).replace("NAME", &name), "a macro goes by its name");
}
