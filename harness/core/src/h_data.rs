//! YAML, JSON and TOML read into the tree and into definitions.
use crate::{h_macro::expands_to, refr::N, sv};

const YAML_FLOW: i64 = 0;
const JSON: i64 = 1;
const YAML_BLOCK: i64 = 2;
const TOML: i64 = 3;
const TOML_TABLES: i64 = 4;

#[derive(Clone)]
enum D { Leaf(String, N), Seq(Vec<D>), Map(Vec<(String, D)>) }

fn printable(not: &[u8]) -> char { let b = sv::between(0x20, 0x7e); sv::assume(!sv::is_one_of(b, not)); b as char }
fn text(s: String, v: String) -> D { D::Leaf(s, N::Str(String::new(), v)) }
fn leaf(fmt: i64) -> D {
    if sv::param("plain", 0) == 1 {
        let w = sv::word(1);
        return text(if fmt == YAML_BLOCK || fmt == YAML_FLOW { w.clone() } else { format!("\"{}\"", w) }, w);
    }
    let plain = |s: &str| text(s.into(), s.into());
    let num = |s: &str, v: &str| D::Leaf(s.into(), N::Num(String::new(), v.into()));
    let word = |s: &str| D::Leaf(s.into(), N::Sym(String::new(), s.into()));
    match fmt {
        JSON => match sv::choice(4) {
            0 => { let c = printable(b"\"\\"); text(format!("\"{}\"", c), format!("{}", c)) }
            1 => plain(&sv::digits(1)),
            2 => { let (s, v) = sv::pick(&[("\"\\n\"", "\n"), ("\"\\u00e9\\\\ \"", "\u{e9}\\ "), ("\"\"", ""), ("\"a\\\"b\"", "a\"b"), ("\"\\/%v(\"", "/%v(")]); text(s.into(), v.into()) }
            _ => plain(sv::pick(&["true", "null", "-1.5e3"])),
        },
        YAML_FLOW | YAML_BLOCK => match sv::choice(5) {
            0 => { let c = printable(b"'"); text(format!("'a{}b'", c), format!("a{}b", c)) }
            1 => plain(&sv::word(2)),
            2 => { let (s, v) = sv::pick(&[("\"\\t\"", "\t"), ("'it''s'", "it's"), ("''", ""), ("&x y", "y"), ("!!str 1", "1")]); text(s.into(), v.into()) }
            3 => plain(sv::pick(&["true", "~", "1.50", "x y", "0x1f", "2020-01-02"])),
            _ => plain(&sv::digits(2)),
        },
        _ => match sv::choice(5) {
            0 => { let c = printable(b"\"\\"); text(format!("\"{}\"", c), format!("{}", c)) }
            1 => { let d = sv::digits(1); num(&d, &d) }
            2 => { let c = printable(b"'"); text(format!("'{}\\'", c), format!("{}\\", c)) }
            3 => { let s = sv::pick(&["true", "false", "1979-05-27", "07:32:00", "1979-05-27T07:32:00Z"]); word(s) }
            _ => { let (s, v) = sv::pick(&[("0x1F", "31"), ("-1_000", "-1000"), ("1.50", "1.5"), ("2.0", "2"), ("1e2", "100"), ("-inf", "-inf"), ("16777217.5", "16777217.5"), ("-0.1", "-0.1"), ("12345678901234567.0", "12345678901234568"), ("9223372036854775807", "9223372036854775807"), ("3.141592653589793", "3.141592653589793")]); num(s, v) }
        },
    }
}
fn key(used: &[(String, D)]) -> String {
    let k = sv::word(1);
    for u in used { sv::assume(!sv::same(&u.0, &k)); }
    k
}
/// More entries than digits, two of them any, in nested sequences or mappings.
fn many(fmt: i64, n: usize) -> D {
    let (i, j) = (sv::choice(n as u32) as usize, sv::choice(2) as usize);
    let name = |k: usize| ((b'a' + (k * 7 % 26) as u8) as char).to_string();
    let plain = |k: usize| text(if fmt == YAML_FLOW || fmt == YAML_BLOCK { format!("w{}", k) } else { format!("\"w{}\"", k) }, format!("w{}", k));
    let item = |k: usize| if k == i { leaf(fmt) } else if k % 4 == 1 + j { D::Seq(vec![plain(k), D::Map(vec![("z".into(), plain(k))])]) } else if k % 4 == 3 { D::Map(vec![(name(k + 1), D::Seq(vec![])), (name(k), plain(k))]) } else { plain(k) };
    let m = |n: usize| D::Map((0..n).map(|k| (name(k), item(k))).collect());
    if fmt >= TOML || sv::choice(2) == 0 { m(n) } else { D::Seq((0..n).map(item).collect()) }
}
fn value(fmt: i64, depth: i64, width: u32) -> D {
    match if depth == 0 { 0 } else { sv::choice(3) } {
        0 => leaf(fmt),
        1 => { let n = sv::choice(width + 1); D::Seq((0..n).map(|_| value(fmt, depth - 1, width)).collect()) }
        _ => map(fmt, depth, width),
    }
}
fn map(fmt: i64, depth: i64, width: u32) -> D {
    let n = sv::choice(width + 1);
    let mut l = vec![];
    for _ in 0..n { let k = key(&l); l.push((k, value(fmt, depth - 1, width))); }
    D::Map(l)
}
/// In braces and brackets.
fn flow(d: &D, fmt: i64, o: &mut String) {
    match d {
        D::Leaf(s, _) => o.push_str(s),
        D::Seq(l) => { o.push('['); for (i, x) in l.iter().enumerate() { if i > 0 { o.push_str(", ") } flow(x, fmt, o) } o.push(']') }
        D::Map(l) => {
            o.push('{');
            for (i, (k, x)) in l.iter().enumerate() {
                if i > 0 { o.push_str(", ") }
                match fmt { JSON => o.push_str(&format!("\"{}\":", k)), YAML_FLOW | YAML_BLOCK => o.push_str(&format!("{}: ", k)), _ => o.push_str(&format!("{} = ", k)) }
                flow(x, fmt, o)
            }
            o.push('}')
        }
    }
}
/// One line per item.
fn block(d: &D, indent: usize, o: &mut String) {
    let pad = |o: &mut String| for _ in 0..indent { o.push(' ') };
    match d {
        D::Seq(l) if !l.is_empty() => for x in l {
            pad(o); o.push_str("- ");
            match x { D::Leaf(s, _) => { o.push_str(s); o.push('\n') } x => { o.push('\n'); block(x, indent + 2, o) } }
        },
        D::Map(l) if !l.is_empty() => for (k, x) in l {
            pad(o); o.push_str(k); o.push_str(": ");
            match x { D::Leaf(s, _) => { o.push_str(s); o.push('\n') } x => { o.push('\n'); block(x, indent + 1, o) } }
        },
        d => { pad(o); flow(d, YAML_FLOW, o); o.push('\n') }
    }
}
fn tables(l: &[(String, D)], at: &str, o: &mut String) {
    for (k, x) in l { match x { D::Map(_) => {} D::Seq(s) if !s.is_empty() && s.iter().all(|x| matches!(x, D::Map(_))) => {} x => { o.push_str(&format!("{}=", k)); flow(x, TOML, o); o.push('\n') } } }
    for (k, x) in l {
        let name = if at.is_empty() { k.clone() } else { format!("{}.{}", at, k) };
        match x {
            D::Map(m) => { o.push_str(&format!("[{}]\n", name)); tables(m, &name, o) }
            D::Seq(s) if !s.is_empty() && s.iter().all(|x| matches!(x, D::Map(_))) =>
                for x in s { o.push_str(&format!("[[{}]] # c\n", name)); if let D::Map(m) = x { tables(m, &name, o) } },
            _ => {}
        }
    }
}
fn sorted(d: &D) -> D {
    match d {
        D::Map(l) => {
            let mut o: Vec<(String, D)> = vec![];
            for (k, x) in l { let at = o.iter().position(|y| k.as_bytes()[0] < y.0.as_bytes()[0]).unwrap_or(o.len()); o.insert(at, (k.clone(), sorted(x))); }
            D::Map(o)
        }
        D::Seq(l) => D::Seq(l.iter().map(sorted).collect()),
        d => d.clone(),
    }
}
fn node(d: &D, ws: &str) -> N {
    let sep = |i: usize| if i == 0 { "" } else { " " };
    match d {
        D::Leaf(_, n) => { let mut n = n.clone(); crate::refx::set_ws(&mut n, ws); n }
        D::Seq(l) => N::List(ws.into(), l.iter().enumerate().map(|(i, x)| node(x, sep(i))).collect(), String::new()),
        D::Map(l) => N::List(ws.into(), l.iter().enumerate().map(|(i, (k, x))| N::Attr(sep(i).into(), k.clone(), Box::new(node(x, " ")))).collect(), String::new()),
    }
}
fn names(d: &D, at: &str, sep: &str, o: &mut Vec<(String, D)>) {
    let full = |k: &str| if at.is_empty() { k.to_string() } else { format!("{}{}{}", at, sep, k) };
    match d {
        D::Leaf(..) => {}
        D::Seq(l) => for (i, x) in l.iter().enumerate() { let n = full(&i.to_string()); names(x, &n, sep, o); o.push((n, x.clone())) },
        D::Map(l) => for (k, x) in l { let n = full(k); names(x, &n, sep, o); o.push((n, x.clone())) },
    }
}
/// Data of any shape to a depth: the tree it becomes, and every name it defines.
#[no_mangle]
pub extern "C" fn h_data() {
    let (fmt, depth, width) = (sv::param("fmt", 0), sv::param("depth", 1), sv::param("width", 2) as u32);
    let toml = fmt >= TOML;
    let d = if sv::param("many", 0) > 0 { many(fmt, sv::param("many", 12) as usize) } else if toml { map(fmt, depth, width) } else { value(fmt, depth, width) };
    let mut t = String::new();
    match (fmt, &d) { (YAML_BLOCK, d) => block(d, 0, &mut t), (TOML_TABLES, D::Map(l)) => tables(l, "", &mut t), (TOML, D::Map(l)) => for (k, x) in l { t.push_str(&format!("{} = ", k)); flow(x, fmt, &mut t); t.push('\n') }, (f, d) => flow(d, f, &mut t) }
    let d = if toml { sorted(&d) } else { d };
    sv::file("data", &t);
    sv::note("data", &t);
    let (sep, opt) = sv::pick(&[("/", ""), ("-", " :separator \"-\"")]);
    let mut vars = vec![];
    names(&d, "", sep, &mut vars);
    let op = match fmt { YAML_FLOW | YAML_BLOCK => "yaml", JSON => "json", _ => "toml" };
    let mut s = format!("(%{} (%embed data){})(z", op, opt);
    let mut want = vec![N::Sym(String::new(), "z".into())];
    for (n, x) in vars { s.push_str(&format!(" %{}", n)); want.push(node(&x, " ")); }
    s.push(')');
    expands_to(&s, &[], Some(vec![node(&d, ""), N::List(String::new(), want, String::new())]), "what data becomes");
}
/// What the readers must refuse.
#[no_mangle]
pub extern "C" fn h_data_refused() {
    let op = sv::pick(&["yaml", "json", "toml"]);
    let t = if op != "toml" { sv::pick(&["[", "{a: 1", "a: b: c", "*x", "&x [*x]", "? [a]\n: b", "{[a]: b}", "\"", "- a\nb", "a: 1\n b: 2", "\"\\q\"", "@a", "a:\n\t- b"]) } else { sv::pick(&["a", "a =", "a = b", "a = 1\na = 2", "[a]\n[a]", "a = \"", "a = 01", "a = 1 b = 2", "[a", "a = [1", "a.b = 1\na = 2", "= 1", "a = {b = 1", "a = 1979-13-01", "a = 9223372036854775808"]) };
    sv::file("data", t);
    sv::note("data", t);
    expands_to(&format!("(%{} (%embed data))", op), &[], None, "malformed data is refused");
    let a = sv::pick(&["", " x", " 1", " (\"a\")", " \"a\" \"b\"", " \"a\" :k 1", " \"a\" :separator (b)", " :separator \"a\""]);
    expands_to(&format!("(%{}{})", op, a), &[], None, "malformed data is refused");
}
