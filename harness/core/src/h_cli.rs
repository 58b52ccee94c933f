//! The command line program, from its arguments to what it prints and returns.
use crate::{sv, util};
use seam::assemble::MarkupFormatter;

mod cli {
    include!("/repo/crates/seam/src/bin.rs");
    pub fn run() -> Result<(), Box<dyn Error>> { main() }
}

struct Want { out: String, code: i32, told: String }
static mut WANT: Option<Want> = None;

extern "C" fn ended(code: i32) {
    let want = unsafe { (*std::ptr::addr_of!(WANT)).as_ref().unwrap() };
    let (out, err) = (sv::captured(1), sv::captured(2));
    sv::note("output", &out);
    sv::note("errors", &err);
    sv::check(code == want.code, "the exit code tells whether it worked");
    sv::check(sv::same(&out, &want.out), "what is printed");
    sv::check(err.is_empty() == (want.code == 0 && want.told.is_empty()), "errors are reported, and only errors");
    // What was wrong, or the version, is in the message.
    sv::check(contains(&err, &want.told), "the message names what is wrong");
    sv::reach(if code == 0 { "worked" } else { "failed" });
}
fn contains(s: &str, t: &str) -> bool {
    let (s, t) = (s.as_bytes(), t.as_bytes());
    let mut r = t.is_empty();
    for i in 0..s.len() { if s.len() - i >= t.len() { r |= s[i..i + t.len()] == *t; } }
    r
}
/// One input, as the library writes it.
fn written(path: Option<&str>, text: &str, dirs: &[String], target: &str, doc: bool) -> Option<String> {
    let mut b = seam::tree_builder(path, text.to_string());
    b.add_includes(dirs.iter());
    let t = match b.expand() { Ok(t) => t, Err(_) => return None };
    use seam::assemble::*;
    let f: Box<dyn MarkupFormatter> = match target {
        "html" => Box::new(html::HTMLFormatter::new(t)),
        "xml" => Box::new(xml::XMLFormatter::new(t)),
        "css" => Box::new(css::CSSFormatter::new(t)),
        "sexp" => Box::new(sexp::SExpFormatter::new(t)),
        _ => Box::new(text::PlainTextFormatter::new(t)),
    };
    let r = if doc { f.document() } else { f.display() };
    let r = match r { Ok(s) => Some(s), Err(_) => None };
    r
}
#[no_mangle]
pub extern "C" fn h_command_line() {
    let n = sv::param("n", 1);
    let a = format!("(p a) {}", sv::word(1));
    let b = "(%include inc.sex)".to_string();
    let bad = "(%no)".to_string();
    let binary = util::utf8(vec![b'a', 0xff]);
    sv::file("a.sex", &a);
    sv::file("b", &b);
    sv::file("bad", &bad);
    sv::file("u", &binary);
    let inc = "(q \"<\")";
    sv::file("d/inc.sex", inc);
    let input = match sv::choice(if sv::param("stdin", 1) == 1 { 3 } else { 1 }) { 0 => format!("'s' {}", sv::word(1)), 1 => b.clone(), _ => binary.clone() };
    sv::stdin(&input);
    let mut args = vec!["seam".to_string()];
    let (mut target, mut doc, mut dirs, mut files) = (String::new(), true, vec![], vec![]);
    let mut stdin = false;
    let mut early: Option<(i32, String)> = None;
    let first = sv::param("first", -1);
    for i in 0..n {
        let k = if i == 0 && first >= 0 { first as u32 } else { sv::choice(17) };
        let arg = match k {
            0 => "--html".to_string(),
            1 => format!("--{}", sv::word(3)),
            2 => format!("--{}", sv::word(4)),
            3 => "--nodoc".into(),
            4 => "--nodocument".into(),
            5 => "-Id".into(),
            6 => "-I".into(),
            7 => "-v".into(),
            8 => "-".into(),
            9 => "a.sex".into(),
            10 => "b".into(),
            11 => "bad".into(),
            12 => "u".into(),
            13 => "d".into(),
            14 => sv::pick(&["none", "", "--", "-vv", "--htmlx", "-html"]).to_string(),
            15 => { let b = sv::ascii(); sv::assume(b != b'I'); format!("-{}", util::utf8(vec![b])) }
            _ => "--css".into(),
        };
        args.push(arg.clone());
        if early.is_some() { continue; }
        match arg.as_str() {
            "--text" | "--sexp" | "--html" | "--xml" | "--css" => target = arg[2..].to_string(),
            "--nodoc" | "--nodocument" => doc = false,
            "-v" => early = Some((0, "SEAM v0.".into())),
            "-" => stdin = true,
            "-I" | "-Id" => dirs.push(arg[2..].to_string()),
            "a.sex" | "b" | "bad" | "u" | "d" => files.push(arg),
            _ => early = Some((1, arg)),
        }
    }
    for a in &args { sv::note("argument", a); }
    if files.is_empty() { stdin = true; }
    if early.is_none() && target.is_empty() { early = Some((1, String::new())); }
    let mut want = Want { out: String::new(), code: 0, told: String::new() };
    match early {
        Some((code, told)) => { want.code = code; want.told = told; }
        None => {
            let mut inputs: Vec<(Option<&str>, Option<&str>)> = vec![];
            if stdin { inputs.push((None, if input.as_bytes().last() == Some(&0xff) { None } else { Some(&input) })); }
            for f in &files { inputs.push((Some(f), match f.as_str() { "a.sex" => Some(&a), "b" => Some(&b), "bad" => Some(&bad), _ => None })); }
            for (path, text) in inputs {
                match text.and_then(|t| written(path, t, &dirs, &target, doc)) {
                    Some(s) => { want.out.push_str(&s); want.out.push('\n'); }
                    None => { want.code = 1; break }
                }
            }
        }
    }
    let v: Vec<&str> = args.iter().map(|a| a.as_str()).collect();
    sv::args(&v);
    unsafe { WANT = Some(want); }
    sv::on_exit(ended);
    match cli::run() {
        Ok(()) => ended(0),
        // What std does with an error of main.
        Err(e) => { eprintln!("Error: {:?}", e); ended(1) }
    }
    // (Nothing else runs.)
    sv::on_exit(nothing);
}
extern "C" fn nothing(_: i32) {}
