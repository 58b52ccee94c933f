//! `%markdown`: content as HTML, front matter as definitions.
use crate::{h_macro::expands_to, refr::N, sv};

/// A construct and its HTML.
fn construct(n: usize) -> (String, String) {
    let w = sv::word(n);
    match sv::choice(12) {
        0 => (format!("{}", w), format!("<p>{}</p>", w)),
        1 => (format!("# {}", w), format!("<h1>{}</h1>", w)),
        2 => (format!("*{}* **b**", w), format!("<p><em>{}</em> <strong>b</strong></p>", w)),
        3 => (format!("<b>{}</b>", w), format!("<p><b>{}</b></p>", w)),
        4 => (format!("- {}\n- b", w), format!("<ul>\n<li>{}</li>\n<li>b</li>\n</ul>", w)),
        5 => (format!("| {} |\n|---|\n| 1 |", w), format!("<table>\n<thead>\n<tr>\n<th>{}</th>\n</tr>\n</thead>\n<tbody>\n<tr>\n<td>1</td>\n</tr>\n</tbody>\n</table>", w)),
        6 => (format!("* [ ] {}", w), format!("<ul>\n<li><input type=\"checkbox\" disabled=\"\" /> {}</li>\n</ul>", w)),
        7 => (format!("[{}](javascript:b)", w), format!("<p><a href=\"javascript:b\">{}</a></p>", w)),
        8 => (format!("`{}` & <", w), format!("<p><code>{}</code> &amp; &lt;</p>", w)),
        9 => (format!("{}\n\nb", w), format!("<p>{}</p>\n<p>b</p>", w)),
        10 => (format!("<div>{}</div>", w), format!("<div>{}</div>", w)),
        _ => (String::new(), String::new()),
    }
}
#[no_mangle]
pub extern "C" fn h_markdown() {
    let (m, html) = construct(sv::param("n", 1) as usize);
    let v = sv::word(1);
    let sep = sv::pick(&["", "."]);
    // Text, whether it has front matter, and what it defines.
    let at = if sep.is_empty() { "/" } else { sep };
    let (text, has, good): (String, bool, Vec<(&str, String)>) = match sv::choice(7) {
        0 => (m, false, vec![]),
        1 => (format!("---\nk: {}\n---\n{}", v, m), true, vec![("k", v)]),
        2 => (format!("---\nk:\n  l: {}\n---\n\n{}", v, m), true, vec![("l", v)]),
        3 => (format!("+++\nk = \"{}\"\n+++\n{}", v, m), true, vec![("k", v)]),
        4 => (format!("---\nk: [{}\n---\n{}", v, m), true, vec![]),
        5 => (format!("---\n---\n{}", m), true, vec![("", v)]),
        _ => (format!("a\n\n---\nk: {}\n", v), false, vec![]),
    };
    let other = text.starts_with("a\n\n-");
    let html = if other { format!("<p>a</p>\n<hr />\n<p>k: {}</p>\n", &text[10..11]) } else { html };
    let only = sv::pick(&["", "frontmatter", "content"]);
    sv::file("m.md", &text);
    sv::note("m.md", &text);
    let ws = sv::pick(&["", "\n "]);
    let mut s = format!("x{}(%markdown (%embed m.md)", ws);
    if !only.is_empty() { s.push_str(&format!(" :only {}", only)); }
    if !sep.is_empty() { s.push_str(&format!(" :separator \"{}\"", sep)); }
    let name = format!("k{}l", at);
    s.push_str(&format!(") (%ifdef k %k none) (%ifdef {} %{} none)", name, name));
    let mut want = vec![N::Sym(String::new(), "x".into())];
    if only != "frontmatter" {
        // The line ending after the text is up to the writer of the HTML.
        want.push(N::Raw(ws.into(), html));
    }
    let none = || N::Sym(" ".into(), "none".into());
    let (mut a, mut b) = (none(), none());
    if only != "content" {
        for (k, v) in &good {
            if *k == "k" { a = N::Str(" ".into(), v.clone()); }
            if *k == "l" { b = N::Str(" ".into(), v.clone()); a = N::List(" ".into(), vec![N::Attr(String::new(), "l".into(), Box::new(N::Str(" ".into(), v.clone())))], String::new()); }
        }
    }
    want.extend([a, b]);
    let refused = only == "frontmatter" && (!has || good.is_empty());
    expands_to(&s, &[], if refused { None } else { Some(want) }, "content and front matter of markdown");
}
