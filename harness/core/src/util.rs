//! Shared by the harnesses: running the pipeline, building sources.
use crate::sv;
use seam::assemble::{css::CSSFormatter, html::HTMLFormatter, sexp::SExpFormatter, text::PlainTextFormatter, xml::XMLFormatter, MarkupFormatter};
use seam::parse::parser::ParseTree;

pub const HTML: u32 = 0;
pub const XML: u32 = 1;
pub const CSS: u32 = 2;
pub const SEXP: u32 = 3;
pub const TEXT: u32 = 4;

/// The tree in one of the five formats; `None`: a reported error.
pub fn format_tree(tree: ParseTree, fmt: u32, document: bool) -> Option<String> {
    let go = |f: &dyn MarkupFormatter| {
        let r = if document { f.document() } else { f.display() };
        match r { Ok(s) => Some(s), Err(e) => { let m = format!("{}", e); sv::check(!m.is_empty(), "an error has a message"); None } }
    };
    match fmt {
        HTML => go(&HTMLFormatter::new(tree)),
        XML => go(&XMLFormatter::new(tree)),
        CSS => go(&CSSFormatter::new(tree)),
        SEXP => go(&SExpFormatter::new(tree)),
        _ => go(&PlainTextFormatter::new(tree)),
    }
}
/// Source to output; `None`: a reported error.
pub fn render(src: &str, fmt: u32) -> Option<String> {
    let b = seam::tree_builder(Some("<src>"), src.to_string());
    let r = b.expand();
    let o = match r {
        Ok(t) => format_tree(t, fmt, false),
        Err(e) => { let m = format!("{}", e); sv::check(!m.is_empty(), "an error has a message"); None }
    };
    o
}
pub fn render_doc(src: &str, fmt: u32) -> Option<String> {
    let b = seam::tree_builder(Some("<src>"), src.to_string());
    let r = b.expand();
    let o = match r {
        Ok(t) => format_tree(t, fmt, true),
        Err(e) => { let _ = format!("{}", e); None }
    };
    o
}
/// Expansion must succeed or be a reported error; every format likewise.
pub fn all_formats(src: &str, document: bool) {
    let b = seam::tree_builder(Some("<src>"), src.to_string());
    let r = b.expand();
    match r {
        Ok(t) => {
            sv::reach("expanded");
            for f in 0..5 {
                if format_tree(t.clone(), f, document).is_some() { sv::reach(["html", "xml", "css", "sexp", "text"][f as usize]) }
            }
        }
        Err(e) => {
            let m = format!("{}", e);
            sv::check(!m.is_empty(), "an error has a message");
            sv::reach("error");
        }
    };
}
/// `(%string …)`-free convenience: the text output of a macro program.
pub fn text(src: &str) -> Option<String> { render(src, TEXT) }
pub fn sexp(src: &str) -> Option<String> { render(src, SEXP) }

/// Checks that `src` renders to exactly `want`.
pub fn expect(src: &str, fmt: u32, want: &str, id: &str) {
    sv::note("source", src);
    sv::note("want", want);
    match render(src, fmt) {
        Some(o) => {
            sv::note("output", &o);
            sv::check(sv::same(&o, want), id);
        }
        None => sv::check(false, id),
    }
}
/// Output of nodes built by hand.
pub fn write_nodes(nodes: Vec<seam::parse::parser::ParseNode>, fmt: u32) -> Option<String> { format_tree(nodes.into_boxed_slice(), fmt, false) }
/// Checks that `src` is refused with an error.
pub fn expect_error(src: &str, id: &str) {
    sv::note("source", src);
    let r = render(src, TEXT);
    if let Some(o) = &r { sv::note("output", o); }
    sv::check(r.is_none(), id);
}
/// A UTF-8 character of `k` bytes. 1: any ASCII character; else its last byte is
/// arbitrary, after lead bytes from every region of the encoding that matters.
pub fn utf8_char(k: usize, out: &mut Vec<u8>) {
    let lead: &[u8] = match k {
        1 => { out.push(sv::ascii()); return }
        2 => sv::pick(&[&[0xC2u8][..], &[0xC3], &[0xCC], &[0xDF]]),
        3 => sv::pick(&[&[0xE2u8, 0x80][..], &[0xE3, 0x81], &[0xEF, 0xBB], &[0xEF, 0xBF], &[0xED, 0x9F]]),
        _ => sv::pick(&[&[0xF0u8, 0x9F, 0x98][..], &[0xF4, 0x8F, 0xBF]]),
    };
    out.extend(lead);
    out.push(sv::between(0x80, 0xBF));
}
pub fn utf8(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
