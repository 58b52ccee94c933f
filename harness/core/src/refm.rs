//! Independent writers for the markup formats, and the source text of a tree:
//! the oracles for the formatters.
use crate::refr::N;
use crate::sv;

/// The program text that denotes these nodes.
pub fn src(l: &[N]) -> String { let mut o = String::new(); src_into(l, &mut o); o }
fn quoted(v: &str, o: &mut String) {
    let o = unsafe { o.as_mut_vec() };
    o.push(b'"');
    for b in v.bytes() {
        if (b == b'"') | (b == b'\\') { o.push(b'\\'); }
        o.push(b);
    }
    o.push(b'"');
}
pub fn src_into(l: &[N], o: &mut String) {
    for n in l {
        match n {
            N::Sym(w, v) | N::Num(w, v) => { o.push_str(w); o.push_str(v); }
            N::Str(w, v) => { o.push_str(w); quoted(v, o); }
            N::Raw(w, v) => { o.push_str(w); o.push_str("(%raw "); quoted(v, o); o.push(')'); }
            N::List(w, l, e) => { o.push_str(w); o.push('('); src_into(l, o); o.push_str(e); o.push(')'); }
            N::Attr(w, k, v) => { o.push_str(w); o.push(':'); o.push_str(k); src_into(std::slice::from_ref(v), o); }
        }
    }
}
/// Text with the five markup characters replaced.
pub fn esc(v: &str) -> String {
    let mut o: Vec<u8> = vec![];
    for b in v.bytes() {
        let r: &[u8] = if b == b'&' { b"&amp;" } else if b == b'<' { b"&lt;" } else if b == b'>' { b"&gt;" }
            else if b == b'"' { b"&quot;" } else if b == b'\'' { b"&apos;" } else { o.push(b); continue };
        o.extend(r);
    }
    unsafe { String::from_utf8_unchecked(o) }
}
/// ASCII lower case, without branching.
pub fn lower(v: &str) -> String {
    let b = v.bytes().map(|b| b | ((sv::in_range(b, b'A', b'Z') as u8) << 5)).collect();
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn one_of(v: &str, set: &[&str]) -> bool {
    let mut r = false;
    for s in set { r |= sv::same(v, s); }
    r
}
fn ws(n: &N) -> &str { match n { N::Sym(w, _) | N::Num(w, _) | N::Str(w, _) | N::Raw(w, _) | N::List(w, ..) | N::Attr(w, ..) => w } }
fn with_ws(n: &N, w: &str) -> N {
    let mut n = n.clone();
    match &mut n { N::Sym(x, _) | N::Num(x, _) | N::Str(x, _) | N::Raw(x, _) | N::List(x, ..) | N::Attr(x, ..) => *x = w.to_string() }
    n
}
fn value(n: &N) -> Option<String> {
    match n { N::Sym(_, v) | N::Num(_, v) | N::Str(_, v) => Some(esc(v)), N::Raw(_, v) => Some(v.clone()), _ => None }
}
/// Text output of a tree.
pub fn plain(l: &[N], out: &mut String) {
    for n in l {
        match n {
            N::Sym(w, v) | N::Num(w, v) | N::Str(w, v) | N::Raw(w, v) => { out.push_str(w); out.push_str(v); }
            N::List(w, l, e) => { out.push_str(w); out.push('('); plain(l, out); out.push_str(e); out.push(')'); }
            N::Attr(w, k, v) => { out.push_str(w); out.push(':'); out.push_str(k); plain(std::slice::from_ref(v), out); }
        }
    }
}
pub const VOID: [&str; 14] = ["wbr", "track", "source", "param", "meta", "link", "input", "img", "hr", "embed", "col", "br", "base", "area"];
fn has_newline(s: &str) -> bool { s.bytes().any(|b| b == b'\n') }

/// `None`: there is no such markup.
pub fn html(l: &[N], o: &mut String) -> Option<()> {
    for n in l { html_node(n, o)?; }
    Some(())
}
fn html_node(n: &N, o: &mut String) -> Option<()> {
    let (w, l, e) = match n {
        N::Attr(..) => return None,
        N::Raw(w, v) => { o.push_str(w); o.push_str(v); return Some(()) }
        N::Sym(w, v) | N::Num(w, v) | N::Str(w, v) => { o.push_str(w); o.push_str(&esc(v)); return Some(()) }
        N::List(w, l, e) => (w, l, e),
    };
    let Some(N::Sym(_, tag)) = l.first() else { return None };
    if tag.is_empty() { return None; }
    o.push_str(w);
    o.push('<');
    o.push_str(tag);
    let mut i = 1;
    if tag.as_bytes()[0] == b'!' {
        for x in &l[1..] {
            match x { N::Sym(_, v) | N::Num(_, v) => { o.push(' '); o.push_str(v); } _ => return None }
        }
        o.push('>');
        return Some(());
    }
    while let Some(N::Attr(w, k, v)) = l.get(i) {
        o.push_str(if w.is_empty() { " " } else { w });
        o.push_str(k);
        o.push_str("=\"");
        o.push_str(&value(v)?);
        o.push('"');
        i += 1;
    }
    o.push('>');
    let name = lower(tag);
    if one_of(&name, &VOID) { return if i == l.len() { Some(()) } else { None }; }
    let mut kids: Vec<N> = l[i..].to_vec();
    let next_line = kids.first().map_or(false, |k| has_newline(ws(k)));
    let close = |o: &mut String| { o.push_str("</"); o.push_str(&name); o.push('>'); };
    if sv::same(&name, "pre") {
        let mut t = src(&kids);
        t.push_str(e);
        let drop = !kids.is_empty() && ws(&kids[0]).starts_with(' ');
        o.push_str(&t[drop as usize..]);
        close(o);
        return Some(());
    }
    if let (Some(k), false) = (kids.first_mut(), next_line) { *k = with_ws(k, ""); }
    let mut style = false;
    if one_of(&name, &["textarea", "title"]) { plain(&kids, o); }
    else if sv::same(&name, "script") { o.push_str(&src(&kids)); }
    else if one_of(&name, &["svg", "math"]) { xml(&kids, o)?; }
    else if sv::same(&name, "style") {
        style = true;
        if let Some(N::Str(_, v)) = kids.first() {
            if kids.len() != 1 { return None; }
            o.push_str(v);
        } else {
            o.push('\n');
            css(&kids, o)?;
        }
    }
    else { html(&kids, o)?; }
    if !e.is_empty() { o.push_str(e); } else if next_line || style { o.push_str(w); }
    close(o);
    Some(())
}
pub fn xml(l: &[N], o: &mut String) -> Option<()> {
    for n in l { xml_node(n, o)?; }
    Some(())
}
fn xml_attr(k: &str, v: &N, o: &mut String) -> Option<()> {
    o.push(' ');
    o.push_str(k);
    o.push_str("=\"");
    o.push_str(&value(v)?);
    o.push('"');
    Some(())
}
fn xml_node(n: &N, o: &mut String) -> Option<()> {
    let (w, l, e) = match n {
        N::Attr(..) => return None,
        N::Raw(w, v) => { o.push_str(w); o.push_str(v); return Some(()) }
        N::Sym(w, v) | N::Num(w, v) | N::Str(w, v) => { o.push_str(w); o.push_str(&esc(v)); return Some(()) }
        N::List(w, l, e) => (w, l, e),
    };
    let Some(N::Sym(_, tag)) = l.first() else { return None };
    if tag.is_empty() { return None; }
    o.push_str(w);
    o.push('<');
    o.push_str(tag);
    let front = tag.as_bytes()[0];
    if (front == b'!') | (front == b'?') {
        for x in &l[1..] {
            match x {
                N::Sym(_, v) | N::Num(_, v) => { o.push(' '); o.push_str(v); }
                N::Attr(_, k, v) => xml_attr(k, v, o)?,
                _ => return None,
            }
        }
        o.push_str(if front == b'?' { " ?>" } else { ">" });
        return Some(());
    }
    let mut i = 1;
    while let Some(N::Attr(_, k, v)) = l.get(i) { xml_attr(k, v, o)?; i += 1; }
    o.push('>');
    let mut kids: Vec<N> = l[i..].to_vec();
    let next_line = kids.first().map_or(false, |k| has_newline(ws(k)));
    if let (Some(k), false) = (kids.first_mut(), next_line) { *k = with_ws(k, ""); }
    xml(&kids, o)?;
    if !e.is_empty() { o.push_str(e); } else if next_line || sv::same(tag, "style") { o.push_str(w); }
    o.push_str("</");
    o.push_str(tag);
    o.push('>');
    Some(())
}

const FUNCTIONS: [&str; 58] = ["attr", "blur", "brightness", "calc", "circle", "color", "contrast", "counter", "counters", "cubic-bezier",
    "drop-shadow", "ellipse", "format", "grayscale", "hsl", "hsla", "hue-rotate", "hwb", "image", "inset", "invert", "lab", "lch",
    "linear-gradient", "matrix", "matrix3d", "opacity", "perspective", "polygon", "radial-gradient", "repeating-linear-gradient",
    "repeating-radial-gradient", "rgb", "rgba", "rotate", "rotate3d", "rotateX", "rotateY", "rotateZ", "saturate", "scale", "scale3d",
    "scaleX", "scaleY", "scaleZ", "sepia", "skew", "skewX", "skewY", "supports", "symbols", "translate", "translate3d", "translateX",
    "translateY", "translateZ", "url", "var"];
pub fn css_value(n: &N) -> Option<String> {
    Some(match n {
        N::Attr(..) => return None,
        N::Raw(_, v) => v.clone(),
        N::Sym(_, v) | N::Num(_, v) | N::Str(_, v) => {
            let mut white = false;
            for b in v.bytes() { white |= (b == b' ') | sv::in_range(b, 9, 13); }
            if !white { return Some(v.clone()); }
            let mut o: Vec<u8> = vec![b'"'];
            for b in v.bytes() {
                if (b == b'"') | (b == b'\\') { o.push(b'\\'); o.push(b); }
                else if b == b'\n' { o.extend(b"\\a "); }
                else if b == b'\r' { o.extend(b"\\d "); }
                else if b == 12 { o.extend(b"\\c "); }
                else { o.push(b); }
            }
            o.push(b'"');
            unsafe { String::from_utf8_unchecked(o) }
        }
        N::List(_, l, _) => {
            let mut v = vec![];
            for x in l { v.push(css_value(x)?); }
            if v.is_empty() { return Some(String::new()); }
            let head = v.remove(0);
            if one_of(&head, &FUNCTIONS) {
                let sep = if one_of(&head, &["rgba", "hsla"]) { ", " } else { " " };
                format!("{}({})", head, v.join(sep).trim())
            } else if one_of(&head, &["+", "-", "*", "/"]) {
                format!("({})", v.join(&format!(" {} ", head)))
            } else { format!("{} {}", head, v.join(" ").trim()) }
        }
    })
}
const NESTED: [&str; 6] = ["@counter-style", "@document", "@font-feature-values", "@keyframes", "@media", "@supports"];
const LINE: [&str; 3] = ["@charset", "@import", "@namespace"];
fn atom(n: &N) -> Option<&str> { match n { N::Sym(_, v) | N::Num(_, v) | N::Str(_, v) | N::Raw(_, v) => Some(v), _ => None } }
pub fn css(l: &[N], o: &mut String) -> Option<()> {
    for n in l {
        let N::List(w, l, _) = n else { return None };
        o.push_str(w);
        css_rule(l, o)?;
    }
    Some(())
}
fn css_rule(l: &[N], o: &mut String) -> Option<()> {
    let head = atom(l.first()?)?;
    let nested = one_of(head, &NESTED);
    if nested | one_of(head, &LINE) {
        o.push_str(head);
        o.push(' ');
        let mut open = false;
        for n in &l[1..] {
            match n {
                N::List(w, r, _) if nested => {
                    if !open { o.push_str("{\n"); }
                    open = true;
                    o.push_str(w);
                    css_rule(r, o)?;
                }
                _ if open => return None,
                N::Attr(_, k, v) => o.push_str(&format!("({}: {}) ", k, css_value(v)?)),
                n => { o.push_str(&css_value(n)?); o.push(' '); }
            }
        }
        o.push_str(if open { "}" } else { ";\n" });
        return Some(());
    }
    let mut i = 0;
    while let Some(s) = l.get(i).and_then(atom) { o.push_str(s); o.push(' '); i += 1; }
    o.push_str("{\n");
    for n in &l[i..] {
        let N::Attr(_, k, v) = n else { return None };
        o.push_str(&format!("  {}: {};\n", k, css_value(v)?));
    }
    o.push('}');
    Some(())
}
