//! What is evaluated when, as `%log` tells.
use crate::{refr, refx::{self, World}, sv, util::*};

/// A call of `%log` with its own first word.
fn log(k: &mut u32, more: &str) -> String {
    *k += 1;
    format!("(%log T{} {})", k, more)
}
fn word() -> String {
    match sv::choice(3) { 0 => sv::word(1), 1 => format!("{}.50", sv::digits(1)), _ => format!("\" {}\" z", sv::word(1)) }
}
fn any(depth: i64, k: &mut u32) -> String {
    if depth == 0 { let w = word(); return log(k, &w); }
    let l = any(depth - 1, k);
    let n = *k * 10; // names of their own
    match sv::choice(24) {
        0 => format!("(p {} {})", l, log(k, "a")),
        1 => format!("(%define v{n} {l} y)%v{n} %v{n}"),
        2 => format!("(%define (g{n}) {l} y)(%g{n})(%g{n})"),
        3 => format!("(%define (g{n} a b) %a %b %a)(%g{n} (%do {l} y) (%do {} z))", log(k, "b")),
        4 => format!("(%define (g{n} :a (%do {l} 1)) %a)(%g{n})(%g{n} :a 2)"),
        5 => format!("(%match (%do {l} y) (x {}) (z{}) (z{}))", log(k, "c"), log(k, "d"), log(k, "e")),
        6 => format!("(%match x ((%do {l} y) {}) ((%do{}z){}))", log(k, "c"), log(k, "d"), log(k, "e")),
        7 => format!("{}(%ifdef v{n} (%do {l}) {})", if sv::choice(2) == 0 { "" } else { "(%define v10 1)(%define v20 1)(%define v30 1)" }, log(k, "f")),
        8 => format!("(%for i in ({}(%do{}2)) {l}{})", sv::pick(&["1", ""]), log(k, "h"), log(k, "%i")),
        9 => format!("(%map (%lambda (x) {l}{} %x) {}(%do{}2))", log(k, "%x"), sv::pick(&["1", ""]), log(k, "h")),
        10 => format!("(%filter (%lambda (x) {l}{} ()) {})", log(k, "%x"), sv::pick(&["1 2", "1", ""])),
        11 => format!("(%sort ({}) :key (%lambda (x) {l}{} %x))", sv::pick(&["3 1 2", "1", "", "2 2", "1 2 3"]), log(k, "%x")),
        12 => format!("(%concat (%do {l} a) (%do{}b))", log(k, "j")),
        13 => format!("(%join (%do {l} \",\") (%do{}b) :trailing (%do{}true) a)", log(k, "j"), log(k, "k")),
        14 => format!("(%format (%do {l} \"{{}}{{}}{{k}}\") (%do{}1) :k (%do{}2) 3)", log(k, "j"), log(k, "k")),
        15 => format!("(%get (%do {l} 0) ((%do{}a)))", log(k, "j")),
        16 => format!("(%apply (%lambda (x) {l} %x) (%do{} 1))", log(k, "j")),
        17 => format!("(p :k (%do {l} v))"),
        18 => format!("(%namespace n (%define v {l} 1){})%n/v", log(k, "j")),
        19 => format!("(%list {l} (%reverse ({} 1 2)))", log(k, "j")),
        20 => format!("(%string {l} a)(%symbol {}b)(%number{})(%raw{})", log(k, "l"), log(k, "m"), log(k, "n")),
        21 => format!("(%splat ({l} a) (%strip {}b))", log(k, "l")),
        22 => { *k += 1; let t = *k; format!("{l}(%log T{t} {})", log(k, "o")) },
        _ => format!("{l}(%log T0 (a){})", log(k, "o")),
    }
}
/// Messages come in the order of evaluation, once for each.
#[no_mangle]
pub extern "C" fn h_log() {
    let mut k = 0;
    let mut s = any(sv::param("n", 1), &mut k);
    s = format!("{}{}{}", sv::pick(&["", "x\n y", "é "]), s, sv::pick(&["", "\n(%log T)(%log)"]));
    let mut w = World { files: vec![], dirs: vec![".".into()], vars: vec![] };
    let (name, main) = match sv::choice(2) {
        0 => ("<src>", s.clone()),
        _ => { sv::file("b.sex", &s); w.files.push(("b.sex".into(), s.clone())); ("./b.sex", "(%include b)".to_string()) }
    };
    sv::note("source", &s);
    let l = match refr::read(main.as_bytes()) { Some(l) => l, None => return sv::fail("the program can be read") };
    let (want, log) = refx::program_logged(w, &l);
    let r = seam::tree_builder(Some("<src>"), main);
    let ok = r.expand().is_ok();
    sv::check(ok == want.is_some(), "refused as it should be");
    if want.is_none() { return sv::reach("refused"); }
    let mut text = String::new();
    for m in &log {
        // Where in the source the call is.
        let at = match m.split(' ').next() {
            Some(t) if t.starts_with('T') && m.len() > 1 => s.find(&format!("(%log {} ", t)),
            Some("T") => s.find("(%log T)"),
            _ => s.find("(%log)"),
        };
        let at = match at { Some(a) => a, None => return sv::fail("a message of the program") };
        let line = s[..at].matches('\n').count() + 1;
        let column = s[..at].rsplit('\n').next().unwrap().chars().count() + 1;
        text.push_str(&format!("[#] log ({}:{}:{}): {}\n", name, line, column, m));
    }
    let got = sv::captured(2);
    sv::note("got", &got);
    sv::note("want", &text);
    sv::check(sv::same(&got, &text), "messages in the order of evaluation");
    sv::reach("logged");
}
