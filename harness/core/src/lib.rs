//! Verification harnesses: each `h_*` function states one property over
//! symbolic inputs, against the public interface of the `seam` crate.
pub mod sv;
pub mod util;
pub mod refr;
pub mod h_crash;
pub mod refm;
pub mod refx;
pub mod h_read;
pub mod h_markup;
pub mod h_macro;
pub mod h_list;
pub mod h_file;
pub mod h_text;
pub mod h_data;
pub mod h_date;
pub mod h_cli;
pub mod h_error;
pub mod h_memory;
pub mod h_repeat;
pub mod h_log;
pub mod h_markdown;
pub mod h_large;

macro_rules! entries { ($($m:ident { $($f:ident)* })*) => {
    pub fn entry(n: &str) -> Option<extern "C" fn()> {
        match n { $($(stringify!($f) => Some($m::$f),)*)* _ => None }
    }
} }
entries! {
    h_read { h_tokens h_tree h_string_literal h_string_quotes h_sexp_source h_sexp_nodes h_sexp_utf8 h_text_source h_identity }
    h_markup { h_markup_text h_markup_attr h_markup_tag h_markup_tag_wide h_markup_tree h_html_document h_xml_document h_html_special h_css_value h_css_function h_css_terms h_css_rules h_css_at }
    h_macro { h_scope h_whitespace h_binding h_match }
    h_list { h_sort h_sort_refused h_lists h_get h_arguments h_takes h_names }
    h_text { h_strings h_format h_format_any }
    h_data { h_data h_data_refused }
    h_markdown { h_markdown }
    h_large { h_sort_many h_scope_many h_binding_many h_match_many h_lists_many h_get_far h_strings_many h_markup_many h_css_many }
    h_repeat { h_repeat }
    h_memory { h_memory h_memory_text }
    h_error { h_error }
    h_log { h_log }
    h_cli { h_command_line }
    h_date { h_date h_timestamp h_timezone }
    h_file { h_include_search h_file_text h_include_deep h_glob_many h_include_program h_environment h_glob h_glob_refused }
    h_crash { h_crash_bytes h_crash_utf8 h_crash_calls }
}
