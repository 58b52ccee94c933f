"""What each property's check runs, with the bounds of each tier."""

def R(entry, checks=(), reach=(), time=None, steps=None, tries=None, nsamples=None, nochecks=False, **params):
    d = dict(entry=entry, checks=list(checks), reach=list(reach), params=params, nochecks=nochecks)
    if time: d["time"] = time
    if steps: d["steps"] = steps
    if tries: d["tries"] = tries
    if nsamples is not None: d["nsamples"] = nsamples
    return d

SPECS = {}
def S(id, quick, thorough, bounds, outside, assumptions=()):
    SPECS[id] = dict(runs=lambda tier: thorough if tier == "thorough" else quick, bounds=bounds, outside=outside, assumptions=list(assumptions))
def frags(entry, n=4):
    return [R(entry, n=2, frags=26)] + [R(entry, n=i, frags=19) for i in range(3, n + 1)]
def upto(entry, n, **kw):
    return [R(entry, n=i, **kw) for i in range(1, n + 1)]

S("C01",
  upto("h_crash_bytes", 4, nochecks=True) + upto("h_crash_utf8", 2, nochecks=True) + [R("h_crash_calls", n=i, nochecks=True) for i in (0, 1)] + [R("h_crash_calls", n=2, kinds=12, nochecks=True), R("h_crash_calls", n=1, last=1, nochecks=True)],
  upto("h_crash_bytes", 5, nochecks=True) + upto("h_crash_utf8", 3, nochecks=True) + [R("h_crash_calls", n=i, nochecks=True, time=1500) for i in (0, 1, 2)] + [R("h_crash_calls", n=3, kinds=8, nochecks=True, time=1500), R("h_crash_calls", n=1, last=1, nochecks=True)],
  "Every ASCII text up to 4 (thorough 5) bytes and UTF-8 text up to 2 (3) characters, in all formats; calls of every built-in and three defined macros with up to 2 (3) arguments of 27 kinds (12 for the second; thorough 27, then 8) and, before one argument, nine others; in seven places, or (several arguments) two or one.",
  "Longer texts except the shapes listed; NUL bytes; programs whose nesting or macro recursion exhausts the stack.")
S("C02", [R("h_memory", n=1, copies=5, clone=1), R("h_memory", n=2, clone=1), R("h_memory_text", n=3), R("h_memory_text", n=2, frags=26)], [R("h_memory_text", n=4), R("h_memory_text", n=2, frags=26), R("h_memory_text", n=3, frags=19), R("h_memory", n=1, copies=5, clone=1), R("h_memory", n=2, copies=5, clone=1), R("h_memory", n=3, time=1500)],
  "Nine kinds of text that borrow from a file, in up to 2 (thorough 3) of 18 kinds of calls and elements, up to five times in a row; the tokens and outputs of every ASCII text of 3 (4) bytes and of sequences of 2 (3) pieces of 26 (19) kinds; every access of every run of all checks.",
  "Deeper nesting; longer sequences.")
S("C03", upto("h_tokens", 4) + [R("h_tokens", n=5, special=1)] + frags("h_tokens"), upto("h_tokens", 5) + [R("h_tokens", n=6, special=1)] + frags("h_tokens", 5),
  "Every ASCII text up to 4 bytes and 5 over the characters special to the lexer (thorough 5, 6); sequences of 2 pieces of 26 kinds or 4 (5) of 19 (quoted text over several lines, comments, keywords, lists, numbers, any character of two to four bytes).", "Longer texts.")
S("C04", upto("h_tree", 4) + [R("h_tree", n=5, special=1)] + frags("h_tree"), upto("h_tree", 5) + [R("h_tree", n=6, special=1)] + frags("h_tree", 5),
  "Every ASCII text up to 4 bytes and 5 over the characters special to the lexer (thorough 5, 6); sequences of 2 pieces of 26 kinds or 4 (5) of 19 (quoted text over several lines, comments, keywords, lists, numbers, any character of two to four bytes).", "Longer texts.")
S("C05", [R("h_string_literal", n=i, esc=e) for e in (0, 1) for i in (1, 2, 3, 4)] + [R("h_string_literal", n=i, esc=e, wide=1) for e in (0, 1) for i in (1, 2)] + [R("h_string_quotes", n=i) for i in range(1, 9)],
  [R("h_string_literal", n=i, esc=e) for e in (0, 1) for i in (1, 2, 3, 4, 5)] + [R("h_string_literal", n=i, esc=e, wide=1) for e in (0, 1) for i in (1, 2, 3)] + [R("h_string_quotes", n=i) for i in range(1, 10)],
  "Every literal body up to 4 (thorough 5) ASCII characters, with and without a leading backslash, or 2 (3) beside characters of two to four bytes, and up to 8 (9) quotes, backslashes, spaces and letters; both quote styles.", "Longer bodies.")
S("C06", upto("h_sexp_source", 4) + frags("h_sexp_source", 3) + [R("h_sexp_nodes", n=1), R("h_sexp_utf8")],
  upto("h_sexp_source", 5) + frags("h_sexp_source") + [R("h_sexp_nodes", n=1), R("h_sexp_nodes", n=2), R("h_sexp_utf8")],
  "Trees of every ASCII text up to 4 (thorough 5) bytes and of sequences of 2 pieces of 26 kinds or 3 (4) of 19 (quoted text over several lines, comments, keywords, lists, numbers, any character of two to four bytes); every pair of nodes that macros can build side by side, values of 1 (2) characters.",
  "Longer values; deeper nesting; lists of more than two built nodes.")
S("C07", upto("h_text_source", 4) + frags("h_text_source"), upto("h_text_source", 5) + frags("h_text_source", 5), "Every ASCII text up to 4 (thorough 5) bytes; sequences of 2 pieces of 26 kinds or 4 (5) of 19 (quoted text over several lines, comments, keywords, lists, numbers, any character of two to four bytes).", "Longer texts.")
S("C08", upto("h_identity", 4) + frags("h_identity"), upto("h_identity", 5) + frags("h_identity", 5), "Every ASCII text up to 4 (thorough 5) bytes and sequences of 2 pieces of 26 kinds or 4 (5) of 19 (quoted text over several lines, comments, keywords, lists, numbers, any character of two to four bytes), with no symbol that starts with `%`.", "Longer texts.")
FM = (0, 1)
S("C09", [R("h_markup_text", n=i, fmt=f) for f in FM for i in (1, 2, 3)] + [R("h_markup_attr", n=i, fmt=f) for f in FM for i in (1, 2)] + [R("h_markup_" + w, n=5, fmt=f, entity=1) for f in FM for w in ("text", "attr")],
  [R("h_markup_text", n=i, fmt=f) for f in FM for i in (1, 2, 3, 4)] + [R("h_markup_attr", n=i, fmt=f) for f in FM for i in (1, 2, 3)] + [R("h_markup_" + w, n=7, fmt=f, entity=1) for f in FM for w in ("text", "attr")],
  "Text values of up to 3 (thorough 4) and attribute values of up to 2 (3) ASCII characters of every kind, in every position of an element with up to three parts, HTML and XML; up to 5 (7) characters of which entities are made.", "Longer values; non-ASCII text.")
S("C10", [R("h_markup_tag", n=i, fmt=0) for i in range(1, 9)] + [R("h_markup_tag_wide", wide=i, fmt=0) for i in (2, 3)] + [R("h_markup_tree", n=2, tags=t, fmt=0) for t in (0, 1, 2)],
  [R("h_markup_tag", n=i, fmt=0) for i in range(1, 13)] + [R("h_markup_tag_wide", wide=i, fmt=0) for i in (2, 3, 4)] + [R("h_markup_tree", n=3, tags=t, fmt=0) for t in (0, 1, 2)],
  "Tags of up to 8 (thorough 12) letters or digits in any case or with a character of two or three bytes, with twelve kinds of content; trees of up to 2 (3) nodes over seven tags.", "Longer tags, wider trees; tags with other characters.")
S("C11", [R("h_html_special", n=1)], [R("h_html_special", n=1), R("h_html_special", n=2)],
  "Seven special tags, first content of 1 (thorough 2) ASCII characters of three kinds, five continuations.", "Longer content; deeper nesting.")
S("C12", [R("h_html_document", n=i) for i in (1, 2, 3)], [R("h_html_document", n=i) for i in (1, 2, 3, 4)],
  "Up to 3 (thorough 4) top-level nodes, tags in any case.", "A `head` next to content without `body`, `html` or doctype; more nodes.")
S("C13", [R("h_xml_document")] + [R("h_markup_tag", n=i, fmt=1) for i in range(1, 7)] + [R("h_markup_tag_wide", wide=i, fmt=1) for i in (2, 3)] + [R("h_markup_tree", n=2, tags=t, fmt=1) for t in (0, 2)],
  [R("h_xml_document")] + [R("h_markup_tag", n=i, fmt=1) for i in range(1, 9)] + [R("h_markup_tag_wide", wide=i, fmt=1) for i in (2, 3, 4)] + [R("h_markup_tree", n=3, tags=t, fmt=1) for t in (0, 2)],
  "Tags of up to 6 (thorough 8) letters or digits in any case or with a character of two or three bytes, trees of up to 2 (3) nodes, documents of up to two nodes.", "Longer tags, wider trees.")
S("C14", [R("h_css_value", n=i) for i in (1, 2, 3)] + [R("h_css_function", n=i) for i in range(1, 11)] + [R("h_css_terms", depth=2)],
  [R("h_css_value", n=i) for i in (1, 2, 3, 4)] + [R("h_css_function", n=i) for i in range(1, 16)] + [R("h_css_terms", depth=3, time=1500)],
  "Values of up to 3 (thorough 4) ASCII characters; function names of up to 10 (15) characters with up to 3 arguments; arithmetic of depth 2 (3).", "Longer values; non-ASCII characters.")
S("C15", [R("h_css_rules", n=2, at=0, extra=0), R("h_css_rules", n=2, at=1, extra=0), R("h_css_rules", n=1, at=0)] + [R("h_css_at", n=i) for i in range(1, 14)],
  [R("h_css_rules", n=3, at=a, extra=0) for a in (0, 1)] + [R("h_css_rules", n=2, at=a) for a in (0, 1)] + [R("h_css_at", n=i) for i in range(1, 20)],
  "Rules of up to 2 (thorough 3) parts nested twice; @-rule names of up to 13 (19) characters with six kinds of content.", "More parts per rule.")
S("C16", [R("h_scope", n=1), R("h_scope", n=1, pre=1), R("h_scope", n=2)] + [R("h_binding", p=p, a=0, how=4) for p in (0, 1, 2)],
  [R("h_scope", n=1), R("h_scope", n=2), R("h_scope", n=2, pre=1)] + [R("h_binding", p=p, a=0, how=4) for p in (0, 1, 2, 3)],
  "Programs of 2 statements of 16 kinds (thorough: also after four definitions), then one of eight uses; macros of up to 2 parameters of every kind (thorough: 3) used as variables.", "Longer programs.")
S("C17", [R("h_binding", p=p, a=a, how=h) for h in (0, 1, 2, 3) for p in (1, 2) for a in (0, 1, 2)] + [R("h_binding", p=p, a=0, how=4) for p in (0, 1, 2)] + [R("h_binding", p=1, a=1, deep=1), R("h_binding", p=0, a=1), R("h_binding", p=1, a=3), R("h_binding", p=2, a=3)],
  [R("h_binding", p=p, a=a, how=h) for h in (0, 1, 2, 3) for p in (1, 2, 3) for a in (0, 1, 2, 3) if p + a < 6] + [R("h_binding", p=p, a=0, how=4) for p in (0, 1, 2, 3)] + [R("h_binding", p=2, a=2, deep=1, how=h) for h in (0, 1, 2, 3)],
  "Up to 2 parameters and 3 arguments (thorough 3 and 2) of every kind with any letters and digits, in definitions, matches, lambdas and loops; macros with up to 2 (3) parameters used without a call.", "More parameters; deeper nesting.")
S("C18", [R("h_match", n=i) for i in (1, 2, 3)], [R("h_match", n=i) for i in (1, 2, 3, 4)],
  "Values of seven shapes against up to 3 (thorough 4) cases of nine shapes, any letters and digits.", "More cases; deeper values.")
S("C19", [R("h_whitespace")], [R("h_whitespace")], "Three whitespaces around every part of a body, a definition and ten kinds of uses.", "Other whitespace.")
S("C20", [R("h_sort", n=3, kinds=k) for k in (0, 1, 2, 3, 4)] + [R("h_sort", n=2, kinds=k) for k in (5, 6)] + [R("h_sort", n=2, kinds=k, how=h) for h in (1, 2, 3) for k in (1, 2, 4)] + [R("h_sort_refused")],
  [R("h_sort", n=3, kinds=k) for k in (0, 1, 2, 3, 4, 5, 6)] + [R("h_sort", n=3, kinds=k, how=h) for h in (1, 2, 3) for k in (0, 1, 2, 3, 4)] + [R("h_sort", n=4, kinds=k) for k in (0, 2)] + [R("h_sort_refused")],
  "Lists of 3 items (2 for the kinds with exponents; thorough 3, or 4 for words and integers) whose keys are any word of two letters, integer of up to two digits, string of up to two characters or one of 16 decimals, by the items or by three kinds of key macro, in both orders.",
  "Longer lists and keys; other decimals than those listed; keys `inf`, `infinity` and `nan`, which count as numbers or not at all.")
S("C22", [R("h_lists", n=i, op=o) for i in (1, 2) for o in range(20)], [R("h_lists", n=i, op=o) for i in (1, 2, 3) for o in range(20)],
  "20 uses of the list macros on up to 2 (thorough 3) items of 9 kinds, any letters and digits, three whitespaces.", "Longer lists, other whitespace.")
S("C28", [R("h_get", n=i) for i in (1, 2)], [R("h_get", n=i) for i in (1, 2, 3)],
  "Paths of up to 2 (thorough 3) steps: any digit, letter, padded or signed digit, key or nothing, by five separators, into ten shapes of data.", "Longer paths; other data.")
S("C29", [R("h_arguments", n=i, op=o) for i in (1, 2) for o in range(22)] + [R("h_takes", op=o) for o in range(12)], [R("h_arguments", n=i, op=o) for i in (0, 1, 2, 3) for o in range(22)] + [R("h_takes", op=o) for o in range(12)],
  "22 built-in macros with up to 2 (thorough 3) arguments of 12 kinds, option names and words in any mix of cases, any letters and digits; the other twelve with any one argument or option of eight kinds, in any order.", "More arguments; the values those twelve take are checked for themselves.")
S("C34", upto("h_names", 6), upto("h_names", 9), "Names of up to 6 (thorough 9) characters from lower case letters and `/-%_A`, defined in four ways and used in five.", "Longer names, other characters; redefining the built-in macros that read files or the clock.")
S("C21", [R("h_include_search"), R("h_include_program"), R("h_environment", n=1), R("h_environment", n=2), R("h_file_text", n=1), R("h_file_text", n=2), R("h_file_text", n=3)], [R("h_include_search", wide=1), R("h_include_program"), R("h_environment", n=1), R("h_environment", n=3), R("h_file_text", n=2), R("h_file_text", n=4)],
  "Six files that may or may not be there in three directories, four orders of search, eight paths; 14 kinds of included files in 14 places; environment values of up to 2 (thorough 3) ASCII characters; files of up to 3 (4) ASCII characters between five beginnings and four ends (line ends of both kinds, a byte order mark, other characters).",
  "Absolute paths and `..`; files that are not UTF-8; more than two files deep.")
S("C23", [R("h_strings", parts=p, op=o) for p in (1, 2) for o in range(6)] + [R("h_format", n=1, args=a) for a in (0, 1, 2)] + [R("h_format", n=2, args=1)] + upto("h_format_any", 5),
  [R("h_strings", parts=p, op=o, n=2) for p in (1, 2, 3) for o in range(6)] + [R("h_format", n=n, args=a) for n in (1, 2) for a in (0, 1, 2)] + [R("h_format", n=3, args=1)] + upto("h_format_any", 7),
  "Up to 2 (thorough 3) parts of any 1 (2) ASCII characters or 8 other kinds; format strings of up to 2 (3) pieces of 18 kinds with up to 2 values, and of any 5 (7) characters from `{}0a:`.",
  "Longer parts; other format specifications: `^`, `+`, `#`, `?`, fills that are themselves `<`, `>` or `^`, non-ASCII text.")
S("C24", [R("h_data", fmt=f, depth=1, width=2) for f in range(5)] + [R("h_data", fmt=f, depth=2, width=1) for f in range(5)] + [R("h_data", fmt=f, depth=2, width=3 if f < 3 else 2, plain=1) for f in range(5)] + [R("h_data_refused")],
  [R("h_data", fmt=f, depth=2, width=3, plain=1, time=700) for f in range(5)] + [R("h_data", fmt=f, depth=3, width=2, plain=1, time=800) for f in range(5)] + [R("h_data", fmt=f, depth=1, width=3, time=700) for f in range(5)] + [R("h_data", fmt=f, depth=2, width=1) for f in range(5)] + [R("h_data", fmt=f, depth=3, width=1) for f in range(5)] + [R("h_data_refused")],
  "Values of depth 1 with up to 2 (thorough 3) entries of depth 2 (3) with one, and, with any words for scalars, of depth 2 with up to 3 (TOML 2; thorough 3, and depth 3 with 2), in YAML (block and flow), JSON and TOML (inline and tables), any letters and digits in the scalars.",
  "Text after the first YAML document; duplicate keys; other scalar forms (dates, floats, tags, anchors, block scalars).")
S("C25", [R("h_markdown", n=1), R("h_markdown", n=2)], [R("h_markdown", n=1), R("h_markdown", n=2), R("h_markdown", n=3, time=800)],
  "Documents of up to 2 (thorough 3) lines of the kinds listed, with any letters, with and without front matter.",
  "Markdown constructs other than those listed; malformed front matter.")
S("C26", [R("h_date", n=1), R("h_timezone")] + [R("h_timestamp", which=w, years=1, zones=0) for w in range(5)],
  [R("h_date", n=1), R("h_date", n=2), R("h_timezone")] + [R("h_timestamp", which=w) for w in range(5)],
  "Moments whose last digit (thorough two digits) is any, around seven dates; dates and times in one year (thorough six), one of whose five parts is any two digits; offsets with any whole digit and 14 fractions.",
  "Other moments and years; formats other than those listed; the local time zone (the check runs in UTC).")
S("C27", [R("h_glob", by=b, n=2) for b in range(5)] + [R("h_glob", by=2, n=3), R("h_glob_refused")], [R("h_glob", by=b, n=3) for b in range(5)] + [R("h_glob_refused")],
  "Two (thorough three) of nine paths, each a file, a directory or a dead link, in two directories, any times; eight patterns.",
  "Other paths and patterns; links that lead somewhere; unreadable directories.")
S("C30", [R("h_command_line", n=i) for i in (0, 1, 2, 3)] + [R("h_command_line", n=4, first=f) for f in (0, 3, 5, 6, 8, 9)],
  [R("h_command_line", n=i) for i in (0, 1, 2, 3, 4)] + [R("h_command_line", n=5, first=f, time=900) for f in (5, 8)],
  "Up to 3 arguments of 17 kinds, or 4 that start with one of 6 (thorough 4, or 5 that start with one of 2), any letters in options of three and four letters, any character after `-`; three standard inputs, five kinds of files.",
  "Arguments that are not UTF-8; output that cannot be written.")

S("C31", [R("h_error", n=0, kind=k) for k in range(6)] + [R("h_error", n=1, kind=k) for k in (1, 2, 3, 4)], [R("h_error", n=1, kind=k, time=800) for k in range(6)] + [R("h_error", n=2, kind=k) for k in (1, 2, 3, 4)],
  "63 kinds of faults with any letter in their names, in seven places, after up to 1 (thorough 2) characters and one of seven texts with lines and wide characters.",
  "The wording of messages; faults marked over several lines; coloured output; tabs before the fault.")
S("C32", [R("h_repeat", seeds=2, tries=40)], [R("h_repeat", seeds=3, tries=40, time=1500)],
  "16 kinds of programs with many names, keywords or keys, any letters in two of them; every assignment of 2 (thorough 3) hash values to the keys of each hash table, against equal hashes.",
  "The clock, the environment and the order of directories; other programs.")
S("C33", [R("h_log", n=i) for i in (0, 1, 2)], [R("h_log", n=i) for i in (0, 1, 2)] + [R("h_log", n=3, time=1500)],
  "Calls of `%log` with words of three kinds, in up to 2 (thorough 3) of 24 kinds of calls nested, in the program or an included file.",
  "Other nestings; what is logged before an error.")

# Larger programs, in both tiers.
def many(id, runs, bounds):
    d = SPECS[id]
    old = d["runs"]
    d["runs"] = lambda tier: old(tier) + runs
    d["bounds"] += " " + bounds
LONG = [dict(n=1, long=1), dict(n=2, long=1), dict(n=1, long=1, frags=26)]
for id, e in (("C03", "h_tokens"), ("C04", "h_tree"), ("C06", "h_sexp_source"), ("C07", "h_text_source"), ("C08", "h_identity")):
    many(id, [R(e, **p) for p in LONG], "After a text of 17 lines with one of over 300 characters, or of 40 levels: up to 2 bytes or 1 piece.")
many("C09", [R("h_markup_many", fmt=f) for f in FM], "Texts of 50 characters, 10 attributes, 10 children and 12 levels with any character at any of 5 to 10 places.")
many("C10", [R("h_markup_many", fmt=0)], "Elements with 10 attributes or children and of up to 12 levels, one of them arbitrary.")
many("C11", [R("h_markup_many", fmt=0)], "Long special elements with one arbitrary character.")
many("C12", [R("h_html_document", n=2, pad=8)], "Two nodes after eight others.")
many("C13", [R("h_markup_many", fmt=1)], "Elements with 10 attributes or children and of up to 12 levels, one of them arbitrary.")
many("C14", [R("h_css_many")], "10 arguments or levels of arithmetic, one of them arbitrary.")
many("C15", [R("h_css_many")], "10 properties, selectors, rules or nested rules, one of them arbitrary.")
many("C16", [R("h_scope_many")], "Eight programs of 12 definitions, calls, scopes, namespaces or recursive calls.")
many("C17", [R("h_binding_many")], "10 parameters and arguments of eight arrangements, one of them arbitrary.")
many("C18", [R("h_match_many")], "10 cases, patterns of 10 parts or levels, one of them arbitrary.")
many("C20", [R("h_sort_many")], "24 items with repeated keys, two of them any of three.")
many("C21", [R("h_include_deep")], "Six files that include each other over three directories, one of them of six kinds.")
many("C22", [R("h_lists_many")], "14 uses on 12 items, one of them arbitrary.")
many("C23", [R("h_strings_many")], "12 parts, one of them any character.")
many("C24", [R("h_data", many=12, fmt=f) for f in range(5)], "12 entries, one of them arbitrary, others nested.")
many("C27", [R("h_glob_many", by=b) for b in (1, 2, 3, 4)], "14 paths, two of them with any times.")
many("C28", [R("h_lists_many"), R("h_get_far")], "Indices of two digits into 12 items, and of three into 303.")

# Every other harness, smaller, for panics and memory errors alone.
def sweep():
    l = []
    def a(entry, **p): l.append(R(entry, nochecks=True, nsamples=1, crash=1, **p))
    for f in FM:
        a("h_markup_text", n=1, fmt=f); a("h_markup_attr", n=1, fmt=f); a("h_markup_tag", n=3, fmt=f); a("h_markup_many", fmt=f)
    a("h_string_literal", n=2, esc=1); a("h_sexp_nodes", n=1); a("h_html_special", n=1); a("h_html_document", n=2, pad=8); a("h_xml_document")
    a("h_css_value", n=2); a("h_css_function", n=4); a("h_css_terms", depth=1); a("h_css_rules", n=1, at=0); a("h_css_at", n=6); a("h_css_many")
    a("h_scope", n=1); a("h_scope_many"); a("h_binding_many"); a("h_match", n=1); a("h_match_many")
    for h in (0, 1, 2, 3): a("h_binding", p=2, a=2, how=h)
    for k in range(7): a("h_sort", n=2, kinds=k)
    a("h_sort_refused"); a("h_sort_many"); a("h_lists_many"); a("h_get_far"); a("h_markup_tag_wide", wide=3, fmt=0); a("h_get", n=1); a("h_names", n=3)
    for o in range(20): a("h_lists", n=1, op=o)
    for o in range(22): a("h_arguments", n=1, op=o)
    a("h_include_search"); a("h_include_program"); a("h_include_deep"); a("h_environment", n=1)
    for o in range(12): a("h_takes", op=o)
    a("h_file_text", n=1)
    for o in range(6): a("h_strings", parts=1, op=o)
    a("h_format", n=1, args=1); a("h_format_any", n=3); a("h_strings_many")
    for f in range(5): a("h_data", fmt=f, depth=1, width=2)
    a("h_data", fmt=1, many=12); a("h_data_refused"); a("h_markdown", n=1); a("h_date", n=1); a("h_timezone")
    for w in (0, 1): a("h_timestamp", which=w, years=1, zones=0)
    for b in range(5): a("h_glob", by=b, n=2)
    a("h_glob_refused"); a("h_glob_many", by=2); a("h_command_line", n=2); a("h_log", n=1)
    for k in range(1, 6): a("h_error", n=0, kind=k)
    return l
many("C01", sweep(), "The inputs of every other check, with smaller bounds, for crashes alone.")
many("C02", sweep(), "The inputs of every other check, with smaller bounds.")
