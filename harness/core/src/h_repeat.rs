//! The same program gives the same result, whatever the hash tables' seeds.
use crate::{sv, util::*};

/// What a program gives, in every form: output, or error message.
fn result(s: &str) -> String {
    let b = seam::tree_builder(Some("<src>"), s.to_string());
    let r = match b.expand() {
        Err(e) => format!("E{}", e),
        Ok(t) => {
            let mut o = String::new();
            for f in [SEXP, HTML] { o.push_str(&format_tree(t.clone(), f, false).unwrap_or_else(|| "F".into())); }
            o
        }
    };
    r
}
#[no_mangle]
pub extern "C" fn h_repeat() {
    let (a, b) = (sv::letter() as char, sv::letter() as char);
    let s = match sv::choice(16) {
        0 => format!("(%define (f :{a} 1 :{b} 2 &&r) %{a} %{b} %r)(%f :x 3 :y 4 :{b} 5)"),
        1 => format!("(%define (f :{a} 1 :{b} 2) %{a} %{b})(%f :x 3 :y 4 :{b} 5)"),
        2 => format!("(%define (f &r &&k) %r %k)(%f :{a} 3 {a} :{b} 4 {b} :c 5)"),
        3 => format!("(%match (:{a} 1 :{b} 2 3) ((:c 1 &&r) %r) ((:{a} 1 &p &&r) %p %r))"),
        4 => format!("(%namespace n (%define {a} 1)(%define {b} 2)(%define (c) %{a} %{b}))%n/{a} %n/{b} (%n/c)"),
        5 => format!("(%define {a} 0)(%namespace n (%define {a} 1)(%namespace m (%define {b} 2)(%define {a} 3)))%n/{a} %n/m/{b} %n/m/{a}"),
        6 => format!("(%yaml \"{a}: 1\\n{b}: 2\\nq: [1, 2]\")"),
        7 => format!("(%toml \"{a}=1\\nq={{{b}=2,r=3}}\")"),
        8 => format!("(%json \"{{\\\"{a}\\\":1,\\\"q\\\":{{\\\"{b}\\\":2,\\\"c\\\":3}}}}\")"),
        9 => format!("(%sort ({a} {b} c 2 10 1) :order descending)"),
        10 => format!("(%sort (({a} 1) ({b} 1) (c 1)) :key (%lambda (x) (%get 1 %x)))"),
        11 => format!("(%join \",\" :trailing true :{a} 1 :{b} 2)"),
        12 => format!("(%format \"{{{a}}}{{{b}}}{{}}\" :{a} 1 :{b} 2 3)"),
        13 => format!("(%lambda (x) {a} %x)(%lambda (y) {b})"),
        14 => format!("(%glob \"*\")(%get {a} (:{a} 1 :{b} 2) :{b} 3 :{a} 4)"),
        _ => format!("(%sort (1) :{a} 1 :{b} 2 :c 3)"),
    };
    for f in ["z", "b.x", "a"] { sv::file(f, "x"); }
    sv::note("source", &s);
    sv::hash_mode(0);
    let first = result(&s);
    sv::hash_mode(sv::param("seeds", 2) as u32);
    let second = result(&s);
    sv::note("first", &first);
    sv::check(sv::same(&first, &second), "the same result each time");
    sv::reach(if first.starts_with('E') { "refused" } else { "expanded" });
}
