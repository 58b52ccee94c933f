//! The same properties on programs larger than those of the other harnesses: long,
//! deep or with many parts, a few of which are arbitrary.
use crate::{h_macro::program, h_markup::{compare, el, str, sym}, refr::N, sv, util::*};

fn l() -> char { sv::letter() as char }
/// One of n places.
fn at(n: usize) -> usize { sv::choice(n as u32) as usize }
fn attr(w: &str, k: String, v: N) -> N { N::Attr(w.into(), k, Box::new(v)) }

/// More items than a sort takes at once, keys repeated, two of them any of three.
#[no_mangle]
pub extern "C" fn h_sort_many() {
    let n = sv::param("n", 24) as usize;
    let (i, j) = (at(3), 3 + at(2));
    let mut s = String::from("(%sort (");
    for k in 0..n {
        // In no order, with repetitions.
        let key = if k == i * 5 || k == j * 4 + 1 { format!("{}", sv::byte_of(b"bdf") as char) } else { ["b", "f", "d", "10", "9"][(k * 7 + k / 3) % 5].to_string() };
        s.push_str(&format!("{}({} {})", if k % 5 == 4 { "\n" } else { " " }, k, key));
    }
    s.push_str(") :key (%lambda ((i k)) %k)");
    s.push_str(sv::pick(&["", " :order descending", " :order ascending"]));
    s.push(')');
    program(&s, "order of sorted items");
}
/// Many definitions, calls and scopes.
#[no_mangle]
pub extern "C" fn h_scope_many() {
    let n = sv::param("n", 12) as usize;
    let (a, b) = (l(), l());
    let mut s = String::new();
    match sv::choice(8) {
        // Each calls the next, with a definition of its own.
        0 => {
            for k in 0..n { s.push_str(&format!("(%define (f{k} x) (%define v{k} [%x {a}]) (%f{} (%x)) %v{k} %x)", k + 1)); }
            s.push_str(&format!("(%define (f{n} x) %v0 %v{} %x)(%f0 {b})(%ifdef v0 y n)(%ifdef v{} y n)", n - 1, n - 1));
        }
        // Redefined again and again, used between.
        1 => {
            for k in 0..n { s.push_str(&format!("(%define v{} {a} {k})(%define (g) %v{} {k}) %v0 ", k % 3, k % 2)); if k > 1 { s.push_str("(%g)"); } }
            s.push_str(&format!("(%define v0 {b})(%g)"));
        }
        // Many names, looked up in another order.
        2 => {
            for k in 0..n { s.push_str(&format!("(%define n{k} {})", if k == 5 { a } else { b })); }
            for k in 0..n { s.push_str(&format!(" %n{}", k * 5 % n)); }
            s.push_str("(%ifdef n0 y n)(%ifdef n12x y n)(%ifdef n1 y n)");
        }
        // Parameters that shadow each other.
        3 => {
            for k in 0..n { s.push_str(&format!("(%define (h{k} x y) (p %y (%h{} %y (q %x {k}))))", k + 1)); }
            s.push_str(&format!("(%define (h{n}0 x) none)(%define (h{n} x z) %x %z %y)(%h0 {a} {b})"));
        }
        // Calls without end of one macro in one scope.
        4 => {
            s.push_str(&format!("(%define (f x :k {a}) (%define u %x) %k %u)"));
            for k in 0..n { s.push_str(&format!("(%f {k} :k {b})(%f {a})")); }
            s.push_str("(%ifdef u y n)(%ifdef x y n)");
        }
        // Scopes in scopes.
        5 => {
            s.push_str(&format!("(%define a {a})"));
            let mut t = format!("%a (%define a {b}) %a");
            for k in 0..n / 2 { t = match (k + (a as usize == 0) as usize) % 5 {
                0 => format!("(%match {k} (a {t} %a))"),
                1 => format!("(%for a in ({k} z) %a {t} %a)"),
                2 => format!("(%do %a {t} %a)"),
                3 => format!("(%apply (%lambda a {t} %a) {k})"),
                _ => format!("(p :k %a (%define (m{k} a) {t}) (%m{k} (q %a {k})) %a)"),
            }; }
            s.push_str(&t);
            s.push_str(" %a");
        }
        // Namespaces in namespaces.
        6 => {
            let mut t = format!("(%define v {a})(%define (f x) %x x)");
            for k in 0..n / 3 { t = format!("(%namespace n{k} (%define w{k} {k}) {t})"); }
            let mut p = String::new();
            for k in 0..n / 3 { s.push_str(&format!("(%ifdef {p}w y n)")); p = format!("n{k}/{p}"); }
            s = format!("{t}{s}(%{p}f {b}) %{p}v %n{}/w{} (%ifdef v y n)", n / 3 - 1, n / 3 - 1);
        }
        // A macro that calls itself until a pattern stops it.
        _ => {
            s.push_str(&format!("(%define (r l) (%match %l (() {a}) ((x &y) (%define z %x) %x (%r (%list %y)) %z)))(%r ("));
            for k in 0..n { s.push_str(&format!("{k} ")); }
            s.push_str(&format!("{b}))(%ifdef z y n)"));
        }
    }
    program(&s, "meaning of a program of definitions");
}
/// Many parameters and arguments.
#[no_mangle]
pub extern "C" fn h_binding_many() {
    let n = sv::param("n", 10) as usize;
    let (a, b) = (l(), l());
    let i = at(n);
    let names: Vec<String> = (0..n).map(|k| format!("{}{}", (b'a' + (k * 7 % 26) as u8) as char, k)).collect();
    let order = |k: usize| (k * 7 + i) % n;
    let (pats, args) = match sv::choice(8) {
        // In their places.
        0 => (names.join(" "), (0..n + [0, 0, 1][at(3)]).map(|k| if k == i { a.to_string() } else { format!("{k}") }).collect::<Vec<_>>().join(" ")),
        // Keywords in any order, some not given, one perhaps unknown.
        1 => (names.iter().map(|k| format!(":{k} {k}d")).collect::<Vec<_>>().join(" "),
            (0..n).filter(|k| k % 3 != i % 3).map(|k| format!(":{} {}", names[order(k) / 3 * 3], k)).collect::<Vec<_>>().join(" ") + sv::pick(&["", " :zz 1"])),
        // Both, mixed.
        2 => (names.iter().enumerate().map(|(k, x)| if k % 2 == 0 { x.clone() } else { format!(":{x} {a}") }).collect::<Vec<_>>().join(" "),
            (0..n).map(|k| if k % 2 == 0 { format!("{k}{b}x") } else { format!(":{} {k}", names[order(k) / 2 * 2 + 1 - (n % 2) * (order(k) / 2 * 2 + 1 == n) as usize]) }).collect::<Vec<_>>().join(" ")),
        // The rest takes what is left.
        3 => (format!("{} &rest &&more", names[..3].join(" ")), (0..n).map(|k| if k % 4 == 2 { format!(":{} {b}", names[k]) } else { format!("({k} {a})") }).collect::<Vec<_>>().join("\n")),
        4 => (format!("&rest {}", names[..1].join(" ")), (0..n).map(|k| format!("{k}{a}")).collect::<Vec<_>>().join(" ")),
        // Shapes in shapes.
        5 => {
            let (mut p, mut q) = ("x &rest".to_string(), format!("{a} 1 2 3"));
            for k in 0..n / 2 { p = format!("({p}) {}", names[k]); q = format!("({q}) {k}{}", if k == i { " 1" } else { "" }); }
            (p, q)
        }
        6 => (names.iter().enumerate().map(|(k, x)| if k % 3 == 2 { format!("({x} :{x}k {k})") } else { x.clone() }).collect::<Vec<_>>().join(" "),
            (0..n).map(|k| if k % 3 == 2 { format!("({a}{})", if k / 3 == i { format!(" :{}k {b}", names[k]) } else { String::new() }) } else { format!("{k}") }).collect::<Vec<_>>().join(" ")),
        // Literals among them.
        _ => ((0..n).map(|k| if k == i { "\"q\"".into() } else if k % 3 == 0 { format!("{k}") } else { names[k].clone() }).collect::<Vec<_>>().join(" "),
            (0..n).map(|k| if k == i { format!("\"{a}\"") } else if k == 3 { format!("{}", sv::digit() as char) } else { format!("{k}") }).collect::<Vec<_>>().join(" ")),
    };
    let mut body = String::new();
    for x in names.iter().map(|x| &**x).chain(["rest", "more", "x"]) { body.push_str(&format!(" (%ifdef {x} (%list {x} %{x}))")); }
    for x in &names { body.push_str(&format!(" (%ifdef {x}k (%list %{x}k))")); }
    let s = match at(3) {
        0 => format!("(%define (f {pats}){body})(%f {args})"),
        1 => format!("(%match ({args}) (({pats}){body}) (_ none))"),
        _ => format!("(%apply (%lambda ({pats}){body}) {args})"),
    };
    program(&s, "binding of arguments");
}
/// Many cases, long and deep patterns.
#[no_mangle]
pub extern "C" fn h_match_many() {
    let n = sv::param("n", 10) as usize;
    let (a, i) = (l(), at(n));
    let s = match sv::choice(5) {
        0 => format!("(%match {}{} {})", sv::pick(&["", "0", "+", "-"]), sv::digits(1) + sv::pick(&["", ".0", ".", "e0"]), (0..n).map(|k| format!("({k} is {k})")).collect::<String>()),
        1 => format!("(%match \"w{a}\" {} (x other %x))", (0..n).map(|k| format!("(\"w{}\" is {k})", (b'a' + (k * 3) as u8) as char)).collect::<String>()),
        // Only the last part differs.
        2 => format!("(%match ({}) {} (_ none))", (0..n).map(|k| if k == i { a.to_string() } else { k.to_string() }).collect::<Vec<_>>().join(" "),
            (0..n).rev().map(|j| format!("(({}) case {j} %x)", (0..n).map(|k| if k == j { "x".into() } else if k == i { "y".into() } else { k.to_string() }).collect::<Vec<_>>().join(" "))).collect::<String>()),
        // By length.
        3 => format!("(%match ({}) {})", "e ".repeat(i), (0..n).map(|k| format!("(({}) length {k})", (0..k).map(|j| format!("x{j} ")).collect::<String>())).collect::<String>()),
        _ => {
            let mut v = format!("{a}");
            let mut p = sv::pick(&["x", "1", "()", "\"q\""]).to_string();
            for k in 0..i { v = format!("({v} {k} :k ({k}))"); p = format!("({p} {k} :k z{k})"); }
            format!("(%match {v} ({p} (%ifdef x %x) (%ifdef z0 %z0)) (q no))")
        }
    };
    program(&s, "the case a match takes");
}
/// Long lists through every list macro.
#[no_mangle]
pub extern "C" fn h_lists_many() {
    let n = sv::param("n", 12) as usize;
    let (a, i) = (l(), at(n));
    let items: Vec<String> = (0..n).map(|k| if k == i { sv::pick(&["()", "(x)", ":k v", "\"\""]).into() } else { match k % 4 { 0 => format!("{k}"), 1 => format!("({k} {a})"), 2 => format!("{a}{k}"), _ => format!("\"{k}\"") } }).collect();
    let l = items.iter().enumerate().map(|(k, x)| format!("{}{x}", if k % 5 == 4 { "\n  " } else { " " })).collect::<String>();
    let s = match sv::choice(14) {
        0 => format!("(%map (%lambda (x &y &&z) [%x] %z){l})"),
        1 => format!("(%map list{l})"),
        2 => format!("(%define (f x) (%match %x (0 ()) (4 ()) ((y z) %y) (\"7\" ()) (w %w)))(%filter f{l})"),
        3 => format!("(%reverse ({l}))"),
        4 => format!("(%splat (%list{l}) z (%list{l}))"),
        5 => format!("(%splat{l})"),
        6 => format!("(%for x in ({l}) %x)"),
        7 => format!("(%for x in ({l})\n%x z)"),
        8 => format!("(%apply list{l})"),
        9 => format!("(%define (g a b c &d &&e) %e (%list %d) %c %b %a)(%apply g{l})"),
        10 => format!("(%strip{l})"),
        11 => format!("(%get {i} ({l}))"),
        12 => format!("(%get 1{}/1 ({l}))", sv::digits(1)),
        _ => format!("(%map (%lambda x (%get 0 (%reverse ({l})))) 1 2)"),
    };
    program(&s, "lists that macros build");
}
/// Items far back in a list.
#[no_mangle]
pub extern "C" fn h_get_far() {
    let s = format!("(%get {}{}/1 ({}))", sv::pick(&["9", "25", "29", "30", "000"]), sv::digits(1), (0..303).map(|k| format!(" (i {})", k)).collect::<String>());
    program(&s, "what a path leads to");
}
/// Long text and many parts.
#[no_mangle]
pub extern "C" fn h_strings_many() {
    let n = sv::param("n", 12) as usize;
    let (a, i) = (sv::ascii(), at(n));
    let c = if sv::is_one_of(a, b"\"\\") { format!("\\{}", a as char) } else { format!("{}", a as char) };
    let parts = (0..n).map(|k| if k == i { format!("\"{c}\"") } else { match k % 4 { 0 => format!("{k}"), 1 => format!("\"p {k}é\""), 2 => format!("w{k}"), _ => format!("(%string \"{k} \" x)") } }).collect::<Vec<_>>().join(if i % 2 == 0 { " " } else { "\n" });
    let s = match sv::choice(8) {
        0 => format!("(%string {parts})"),
        1 => format!("(%concat {parts})"),
        2 => format!("(%join \", \" {parts})"),
        3 => format!("(%join \"{c}\" :trailing true {parts})"),
        4 => format!("(%raw {parts})"),
        5 => format!("(%format \"{}\" {parts})", "{}-".repeat(n - i % 3)),
        6 => format!("(%format \"{}\" {parts})", (0..n).map(|k| format!("{{{}}}", n - 1 - k)).collect::<Vec<_>>().join("")),
        _ => format!("(%format \"{{k:>12}}|{{0:012}}|{{11:é<3}}|{{:.3}}\" :k 1{parts} )", ).replace("1\"", "1 \"").replace(":k 10", ":k q 0"),
    };
    program(&s, "text that macros build");
}
/// Long texts with any character in them, many attributes, many and deep elements.
#[no_mangle]
pub extern "C" fn h_markup_many() {
    let n = sv::param("n", 10) as usize;
    let fmt = sv::param("fmt", 0) as u32;
    let long = || {
        let k = at(5) * 9;
        let mut v: Vec<u8> = "0123456789 é abcdef < & 漢 > \" ghijklmn ' opqrstuvw".bytes().collect();
        // (At the border of a character.)
        let mut k = k; while v[k] & 0xC0 == 0x80 { k += 1; }
        let c = if sv::choice(2) == 0 { vec![sv::ascii()] } else { let mut c = vec![]; utf8_char(2, &mut c); c };
        v.splice(k..k, c);
        utf8(v)
    };
    let nodes = match sv::choice(if fmt == HTML { 10 } else { 6 }) {
        0 => vec![el("", "p", vec![str(" ", long())], "")],
        1 => vec![el("", "p", vec![attr(" ", "k".into(), str(" ", long()))], "")],
        2 => {
            let i = at(n);
            let mut k: Vec<N> = (0..n).map(|k| attr(if k % 3 == 2 { "\n " } else { " " }, format!("k{k}"), if k == i { str(" ", format!("{}", sv::ascii() as char)) } else { sym(" ", "v") })).collect();
            k.extend([sym(" ", "a"), el("\n", "b", vec![], "")]);
            vec![el("", sv::pick(&["p", "svg", "title", "pre"]), k, "")]
        }
        3 => {
            let i = at(n);
            let k = (0..n).map(|k| if k == i { str("", format!("{}", sv::ascii() as char)) } else { match k % 4 { 0 => el("\n  ", "b", vec![sym(" ", "x")], ""), 1 => sym(" ", "w"), 2 => str(" ", "&".into()), _ => el("", "br", if fmt == HTML { vec![] } else { vec![sym(" ", "y")] }, " ") } }).collect();
            vec![el("", "div", k, "\n")]
        }
        4 => {
            let mut x = el("", "i", vec![str(" ", format!("{}", sv::ascii() as char))], "");
            for k in 0..n + at(3) { x = el(["", " ", "\n"][k % 3], ["p", "svg", "Div", "span", "math"][(k + n) % 5], vec![x], ["", "\n"][k % 2]); }
            vec![x, sym(" ", "end")]
        }
        5 => (0..n).map(|k| if k == n / 2 { str(" ", format!("{}", sv::ascii() as char)) } else { el("\n", ["a", "bc", "d-e", "f:g", "h1"][k % 5], vec![attr(" ", "x".into(), N::Num(" ".into(), sv::digits(1)))], "") }).collect(),
        6 => vec![el("\n", "pre", vec![sym(" ", "a"), el(" ", "b", vec![str("  ", long()), sym("\n", "c")], " "), N::Num("\n\n".into(), "1".into())], "\n")],
        7 => vec![el("", "script", vec![str(" ", "if (a < b && c > \"d\") { e('f') } ".repeat(2))], ""), el("\n", "title", vec![sym(" ", "a"), str(" ", "<b> & ".into()), el(" ", "c", vec![], "")], "")],
        8 => vec![el("", "style", vec![el(" ", "p", (0..n).map(|k| attr(" ", format!("k{k}"), N::Num(" ".into(), sv::digits(1)))).collect(), ""), el("\n", "@media", vec![sym(" ", "s"), el(" ", "q", vec![attr(" ", "a".into(), sym(" ", "b"))], "")], "")], "")],
        _ => vec![el("", "svg", vec![el(" ", "br", vec![], ""), el(" ", "title", vec![el(" ", "input", vec![sym(" ", "x")], "")], ""), el("", "style", vec![str("", "a < b".into())], "")], "")],
    };
    compare(&nodes, fmt, "a large tree of elements");
}
/// Long rules, many properties, deep arithmetic.
#[no_mangle]
pub extern "C" fn h_css_many() {
    let n = sv::param("n", 10) as usize;
    let i = at(n);
    let any = |k: usize| if k == i { N::Str(" ".into(), format!("{}", sv::ascii() as char)) } else { N::Num(" ".into(), format!("{k}px")) };
    let nodes = match sv::choice(7) {
        0 => vec![el("", "p", (0..n).map(|k| attr("\n ", format!("k{k}"), any(k))).collect(), "")],
        1 => vec![el("", "a,", (0..n).map(|k| sym(" ", ["b,", "c:d", "#e", ">", ".f"][k % 5])).chain([attr(" ", "x".into(), any(i))]).collect(), "")],
        2 => {
            let mut x = N::Num(" ".into(), sv::digits(1));
            for k in 0..n { let op = if k == i { utf8(vec![sv::byte_of(b"+-*/")]) } else { ["+", "*", "-", "/"][k % 4].to_string() };
                let (y, z) = if k % 2 == 0 { (x, N::Num(" ".into(), k.to_string())) } else { (N::Sym(" ".into(), format!("a{k}")), x) };
                x = N::List(" ".into(), vec![N::Sym("".into(), op), y, z], "".into()); }
            vec![el("", "p", vec![attr(" ", "w".into(), N::List(" ".into(), vec![sym("", "calc"), x], "".into()))], "")]
        }
        3 => vec![el("", "p", vec![attr(" ", "f".into(), N::List(" ".into(), [sym("", sv::pick(&["rgba", "linear-gradient", "+", "solid", "url", "hsla"]))].into_iter().chain((0..n).map(any)).collect(), "".into()))], "")],
        4 => (0..n).map(|k| el("\n", "p", vec![attr(" ", "a".into(), any(k))], "")).collect(),
        5 => vec![el("", "@media", (0..3).map(|k| sym(" ", ["screen", "and", "x"][k])).chain([attr(" ", "min-width".into(), any(i))]).chain((0..n).map(|k| el("\n ", ["p", "@media", "q"][k % 3], if k % 3 == 1 { vec![sym(" ", "z"), el(" ", "r", vec![attr(" ", "b".into(), any(k))], "")] } else { vec![attr(" ", "a".into(), any(k))] }, ""))).collect(), "")],
        _ => vec![el("", "@keyframes", vec![sym(" ", "m")].into_iter().chain((0..n).map(|k| N::List(" ".into(), vec![N::Num("".into(), format!("{}%", k * 10)), attr(" ", "a".into(), any(k))], "".into()))).collect(), "")],
    };
    compare(&nodes, CSS, "a large style sheet");
}
