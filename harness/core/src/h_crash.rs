//! C01: every source yields output or a reported error.
use crate::{sv, util::*};

/// Any ASCII text of n bytes.
#[no_mangle]
pub extern "C" fn h_crash_bytes() {
    let n = sv::param("n", 2) as usize;
    let s = sv::ascii_string(n);
    sv::note("source", &s);
    all_formats(&s, sv::param("doc", 1) == 1);
}
/// Any UTF-8 text of n characters, at most one of them not ASCII.
#[no_mangle]
pub extern "C" fn h_crash_utf8() {
    let n = sv::param("n", 2) as usize;
    let at = sv::choice(n as u32) as usize;
    let k = 2 + sv::choice(3) as usize;
    let mut v = vec![];
    for i in 0..n { utf8_char(if i == at { k } else { 1 }, &mut v); }
    let s = utf8(v);
    sv::note("source", &s);
    all_formats(&s, true);
}
const BUILTINS: &[&str] = &["define", "match", "ifdef", "do", "get", "raw", "string", "number", "symbol", "include", "embed", "namespace", "markdown", "yaml",
    "json", "toml", "glob", "for", "sort", "reverse", "date", "timestamp", "join", "concat", "map", "filter", "splat", "list", "strip", "apply", "lambda", "log", "format", "os/env",
    "f", "v", "l"];
/// Any macro with n arguments of any kinds, in any place.
#[no_mangle]
pub extern "C" fn h_crash_calls() {
    let n = sv::param("n", 1);
    let arg = || match sv::choice(sv::param("kinds", 27) as u32) {
        0 => format!("a"),
        1 => format!("{}", sv::digits(1)),
        2 => format!("\"{}\"", sv::ascii_string(1).replace('"', "'").replace('\\', "/")),
        3 => format!("()"),
        4 => format!("(b :k (c) {})", sv::digits(1)),
        5 => format!(":k v"),
        6 => format!("(%do)"),
        7 => format!("(%do p (q))"),
        8 => format!("%l"),
        9 => format!("%v"),
        10 => format!("in"),
        11 => format!("&r"),
        12 => format!(":separator {}", sv::pick(&["/", "()", "(%do)", "\"\""])),
        13 => format!("&&s"),
        14 => format!("-{}.{}e{}", sv::digits(1), sv::digits(1), sv::digits(1)),
        15 => format!("\"é{{:{}}}\"", sv::string_of(1, b"0 <x.")),
        16 => format!("(%f 1)"),
        17 => format!("(a (b) &c)"),
        18 => format!(":{} {}", sv::pick(&["timezone", "order", "sort", "type", "key", "only", "trailing"]), sv::pick(&["f", "k0", "k2", "9", "(1)", "descending", "\"\""])),
        19 => format!("(%raw <b>)"),
        20 => format!(":k (%do (%do))"),
        21 => format!("(((1)))"),
        22 => format!("\"---\\n{}: 1\\n---\\n{}\"", sv::word(1), sv::pick(&["# a", "* b", ""])),
        23 => format!("((%do))"),
        24 => format!("{}", sv::pick(&["f", "k0", "k2", "%k0", "%k2"])),
        25 => format!("(1 (2 b) \"é\" %v)"),
        _ => sv::pick(&["9223372036854775807", "-9223372036854775808", "9223372036854775808", "-1e400", "-99999999999999", "8210266876799", "18446744073709551616", "-2147483648", "596523.25"]).into(),
    };
    let mut call = format!("(%{}", sv::pick(BUILTINS));
    if sv::param("last", 0) == 1 { call.push_str(sv::pick(&[" f", " k0", " k2", " v", " \"\"", " x", " (1 a)", " :k k0", " (z) :key k2"])); }
    for _ in 0..n { call.push_str(&format!(" {}", arg())); }
    call.push(')');
    let s = format!("(%define (f x) (p %x))(%define v \"w\" 2)(%define l (%lambda (x) %x (y)))(%define (g) %a)(%define (k0 x))(%define (k2 x) %x b) {}",
        match sv::choice(if n > 1 { 2 } else if sv::param("last", 0) == 1 { 1 } else { 7 }) {
            0 => call,
            1 => format!("(%string {})", call),
            2 => format!("(p :k {} {})", call, call),
            3 => format!("(style (a {}) {})", call, call),
            4 => format!("({} {})", call, call),
            5 => format!("(%map {} {})", call, call),
            _ => format!("(pre {})(!-- {})", call, call),
        });
    sv::file("a", "(%define z 1)é");
    sv::file("b.sex", ")");
    sv::dir("k");
    sv::note("source", &s);
    all_formats(&s, true);
}
