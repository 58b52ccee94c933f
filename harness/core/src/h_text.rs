//! Macros that build text.
use crate::{h_macro::program, sv};

/// The text of an argument: any characters, quoted where they must be.
fn argument(n: usize) -> String {
    match sv::choice(9) {
        0 => {
            let v = sv::ascii_string(n);
            let mut s = String::from("\"");
            // Quoted so that any characters stand for themselves.
            for c in v.chars() { if sv::is_one_of(c as u8, b"\"\\") { s.push('\\'); } s.push(c); }
            s + "\""
        }
        1 => sv::word(n),
        2 => format!("-{}", sv::digits(1)),
        3 => format!("a\\{}", sv::byte_of(b" ();:%\"\\") as char),
        4 => "()".into(),
        5 => format!("(%raw \"<{}\")", sv::word(1)),
        6 => format!("(%string {}\n{})", sv::word(1), sv::digits(1)),
        7 => "\"\"".into(),
        _ => format!("(%splat (a{}b))", sv::pick(&["\n", " \"\" "])),
    }
}
/// Text from any parts.
#[no_mangle]
pub extern "C" fn h_strings() {
    let (n, parts) = (sv::param("n", 1) as usize, sv::param("parts", 2));
    let op = ["string", "concat", "join", "number", "symbol", "raw"][sv::param("op", 0) as usize];
    let mut s = format!("x{}(%{}", sv::pick(&["", " \n"]), op);
    if op == "join" { s.push_str(sv::pick(&["", " :trailing true", " :trailing false", " :trailing yes"])); }
    for _ in 0..parts { s.push_str(sv::pick(&[" ", "\n  "])); s.push_str(&argument(n)); }
    s.push_str(sv::pick(&["", " "]));
    s.push(')');
    program(&s, "text that macros build");
}
/// `%format`.
#[no_mangle]
pub extern "C" fn h_format() {
    let (n, m) = (sv::param("n", 2), sv::param("args", 2));
    let mut t = String::new();
    for _ in 0..n {
        let k = sv::choice(18) as usize;
        if k == 0 {
            let b = sv::ascii();
            sv::assume(!sv::is_one_of(b, b"\"\\"));
            t.push(b as char);
        } else { t.push_str(["{{", "}}", "{}", "{0}", "{1}", "{k}", "{:>3}", "{k:*<4}", "{:.1}", "{k:0>3}", "{:4}", "{:04}", "{", "}", "{:70000}", "{:}", "{2:_>3.2}"][k - 1]); }
    }
    let mut s = format!("x (%format \"{}\"", t);
    for i in 0..m {
        s.push(' ');
        s.push_str(&match sv::choice(6) {
            0 => sv::word(2),
            1 => format!("\"{}\"", sv::string_of(2, b"a {}0")),
            2 => sv::digits(2),
            3 => format!(":{} {}", ["k", "0"][i as usize % 2], sv::word(1)),
            4 => format!("-{}", sv::digits(1)),
            _ => "(a)".into(),
        });
    }
    s.push(')');
    program(&s, "a format string with its values");
}
/// Any format string of n characters from those that matter.
#[no_mangle]
pub extern "C" fn h_format_any() {
    let t = sv::string_of(sv::param("n", 3) as usize, b"{}0a:");
    let v = sv::pick(&["", " x", " :a x", " \"{a}\" :a \"{0}\"", " x y :a z"]);
    program(&format!("(%format \"{}\"{})", t, v), "a format string with its values");
}
