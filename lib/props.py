"""The properties: source of properties.jsonl."""
PROPS = []
def P(id, title, statement, q, why, files, mech, over=("inputs", "programs"), observe=(), na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), q=q, why=why, files=files, mech=mech, observe=list(observe), na=na))

P("C01", "Every source yields output or a reported error",
  "Whatever text it is given, expanding it and writing it in any format ends, with output or with an error that has a message. It never panics, overflows or loops; only nesting or macro recursion without end may exhaust the stack.",
  "All source texts (bytes, then calls of every macro with arguments of every kind), all five formats, document or fragment.",
  "The tests expand a few hand-written programs; a crash needs an unusual byte, nesting or argument shape.",
  ["parse/lexer.rs", "parse/parser.rs", "parse/expander.rs", "parse/macros.rs", "assemble/mod.rs"],
  [("error results instead of panics", "parse/expander.rs"), ("escape and number scanning", "parse/lexer.rs")])
P("C03", "Tokens cover the source exactly, with right positions",
  "The lexer splits any text into the tokens of the language with their values and the whitespace before each. Each token's byte offset, extent, line and column are those it has in the source; the only lexical error is an unclosed string, reported where it starts.",
  "All texts up to a length bound, every byte of which is any ASCII character.",
  "No test looks at tokens or positions; comments, escapes, newlines and quotes interact.",
  ["parse/lexer.rs", "parse/tokens.rs"], [("Lexer::consume, restore, eof", "parse/lexer.rs"), ("Site", "parse/tokens.rs")])
P("C04", "The parsed tree is the one the text denotes",
  "A text is accepted exactly when its parentheses balance, its strings close, its escapes are known and its keywords have values. The tree it gives has the nodes, nesting, attributes, values and whitespace the text denotes.",
  "All texts up to a length bound, every byte of which is any ASCII character.",
  "Tests see only the final output of well-formed programs.",
  ["parse/parser.rs", "parse/lexer.rs"], [("Parser::parse_expr", "parse/parser.rs"), ("escape_string, escape_sanitize", "parse/parser.rs")])
P("C05", "String literals denote what their escapes say",
  "A single- or triple-quoted string has the value its text denotes: descape escapes are decoded, other characters stay as they are, an escaped quote does not close it, and an unknown escape is an error that names it.",
  "All literal bodies up to a length bound.",
  "Tests use only plain strings.",
  ["parse/parser.rs", "parse/lexer.rs"], [("consume_string", "parse/lexer.rs"), ("descape", "parse/parser.rs")])
P("C06", "S-expression output reads back as the same tree",
  "Writing any expanded tree as s-expressions gives a text that reads back as the same tree, nodes neither merged, split, dropped nor changed in value, whatever characters the values hold. Writing what was read back gives the same text again.",
  "All trees: those of any text up to a bound, and those only macros can build, with any characters as values.",
  "No test uses the s-expression format.",
  ["assemble/sexp.rs"], [("SExpFormatter::generate", "assemble/sexp.rs")])
P("C07", "Plain text output keeps the text as written",
  "In the text format the output is the source with comments dropped, strings unquoted and escapes decoded; everything else, whitespace included, is as written, and a document equals its fragment.",
  "All texts up to a length bound without macros.",
  "Tests compare a few outputs only.",
  ["assemble/text.rs"], [("PlainTextFormatter::generate", "assemble/text.rs")])
P("C08", "A program without macros expands to itself",
  "Expanding a program that uses no macro returns the same tree, whitespace included.",
  "All texts up to a length bound, and sequences of pieces of programs, with no symbol that starts with `%`.",
  "Tests always use macros.",
  ["parse/expander.rs"], [("Expander::expand_node", "parse/expander.rs")])
P("C09", "Text and attribute values are escaped in HTML and XML",
  "Text inside an element and every attribute value is written with `<`, `>`, `&` and quotes as entities, each character exactly once, so that what is read back is the value given; only raw text is written unchanged. An attribute is written once, in its place, as a name with a quoted value.",
  "All ASCII values up to a length bound, of every kind of node, in every place of an element.",
  "Tests have text without special characters.",
  ["assemble/mod.rs", "assemble/html.rs", "assemble/xml.rs"], [("escape_xml", "assemble/mod.rs"), ("attribute writers", "assemble/html.rs, assemble/xml.rs")])
P("C10", "HTML elements are written well formed and complete",
  "A list is written as the element its head names: attributes, children in order with their whitespace, and a closing tag, except for void elements and declarations, which have none. Which tags are void does not depend on case; nothing is dropped, repeated or reordered.",
  "All tag names up to a length bound in any case, children of every kind, trees up to a size.",
  "Tests use a few common tags; each void tag, case and nesting needs its own.",
  ["assemble/html.rs"], [("HTMLFormatter::generate_html_node", "assemble/html.rs"), ("self-closing tags", "assemble/html.rs")])
P("C11", "Elements with special content hold it as HTML requires",
  "`style` and `script` hold their text unescaped (rules inside `style` become CSS), `pre` holds its source text as written, and foreign elements follow XML; each keeps its attributes and closing tag.",
  "Any content characters up to a bound, any following node, any whitespace, for each special tag.",
  "One test uses `pre`-like content; none has special characters in it.",
  ["assemble/html.rs", "assemble/css.rs"], [("special tags", "assemble/html.rs")])
P("C12", "A whole HTML document is wrapped exactly once",
  "Writing a document adds a doctype, `html`, `head` and `body` when and only when the program does not give them, in any case and wherever at top level they are; a fragment has none added. An empty document is a valid page.",
  "All sequences of top-level nodes up to a bound, tags in any mix of cases.",
  "Tests use documents of one shape.",
  ["assemble/html.rs"], [("HTMLFormatter::document", "assemble/html.rs")])
P("C13", "XML output is well formed and complete",
  "A list is written as the element its head names, empty elements closed, declarations as `<?...?>` or `<!...>`, children in order with whitespace; a document starts with exactly one XML declaration.",
  "All tag names up to a length bound, children of every kind, trees up to a size, with any declaration name.",
  "Tests have one XML program.",
  ["assemble/xml.rs"], [("XMLFormatter::generate_xml_node", "assemble/xml.rs"), ("XMLFormatter::document", "assemble/xml.rs")])
P("C14", "CSS values keep their meaning",
  "A value with whitespace in it becomes a CSS string of the same characters; every other word, number or unit is written unchanged. A list whose head is a CSS function becomes `name(...)` with its arguments in order, separated by commas or spaces as the function takes them; arithmetic becomes infix in parentheses, so that its structure is kept; any other list becomes its words separated by spaces.",
  "All values up to a length bound, all function names up to a length bound, all nestings of arithmetic to a depth.",
  "Tests use a few values.",
  ["assemble/css.rs"], [("css_value, css_function, funny_arg", "assemble/css.rs")])
P("C15", "CSS rules keep their selectors, properties and nesting",
  "A rule is written as its selectors and a block with its properties in order; @-rules keep their parameters, hold nested rules in one block and end with `;` when they have none. What has no CSS form is an error, never silently dropped.",
  "All rules and @-rules up to a number of parts, any names.",
  "Tests have two style sheets.",
  ["assemble/css.rs"], [("CSSFormatter::generate_css", "assemble/css.rs")])
P("C16", "Names mean their latest visible definition",
  "A variable or macro name stands for the latest definition in the innermost scope at the time it is used: variables are evaluated when defined, macro bodies when called, in a scope of the call. What is defined inside a body, a case, a loop or a `%do` stays there; using an unknown name is an error.",
  "All programs of up to a number of definitions, calls, scopes and uses, with any letters as values.",
  "Tests define each name once.",
  ["parse/expander.rs", "parse/macros.rs"], [("Scope", "parse/expander.rs"), ("expand_macro", "parse/expander.rs")])
P("C17", "Arguments reach the parameters they are for",
  "Positional, keyword, default, rest, literal and nested parameters each take the argument the call gives for them, in `%define`, `%match`, `%lambda` and `%for` alike. Missing, excess, unknown or mismatched arguments are errors, never dropped or bound to another name.",
  "All lists of parameters and arguments up to a bound, of every kind, any letters and digits.",
  "Tests call macros with matching arguments only.",
  ["parse/macros.rs", "parse/expander.rs"], [("Macro parameters, patterns", "parse/macros.rs")])
P("C18", "A match takes the first case that fits",
  "`%match` takes the first case whose pattern fits the value: names fit anything, literals fit equal values of the same kind, lists fit lists whose parts fit; nothing is written when none fits, and names of earlier cases do not leak into later ones.",
  "All values and lists of cases up to a bound, any letters and digits in them.",
  "Tests match a few values.",
  ["parse/expander.rs", "parse/macros.rs"], [("expand_match", "parse/expander.rs")])
P("C19", "A substitution stands where its call stood",
  "What a variable, macro call, conditional or include expands to takes the whitespace of its call; what is inside the body keeps its own. An expansion of several nodes keeps their order and distance.",
  "All combinations of whitespace around bodies, calls and arguments, in every place a call can stand.",
  "Tests compare a few outputs.",
  ["parse/expander.rs", "parse/parser.rs"], [("set_leading_whitespace", "parse/parser.rs"), ("expand_invocation", "parse/expander.rs")])
P("C20", "Sorting yields every item, in order, stably",
  "`%sort` returns exactly the items of its list, by the order asked for: numbers by value before everything else, the rest by its characters; items with equal keys stay in the order given, whitespace stays at its place, and the key macro is applied to each item.",
  "All lists up to a length, keys of every kind with any digits and letters, both orders, any key macro of the forms listed.",
  "Tests sort three lists.",
  ["parse/expander.rs"], [("expand_sort", "parse/expander.rs")])
P("C22", "List macros keep every item, once, in order",
  "`%map`, `%filter`, `%reverse`, `%splat`, `%list`, `%strip`, `%do`, `%apply` and `%for` yield what their definition says of each item, in the order of the items, with the whitespace of each, dropping or repeating none.",
  "All lists of items up to a length, of every kind, with any macro of the forms listed.",
  "Tests apply each to one list.",
  ["parse/expander.rs"], [("expand_map, expand_filter, expand_reverse, expand_splat, expand_for", "parse/expander.rs")])
P("C28", "A path leads to the value it names, or is refused",
  "`%get` follows its path step by step: an index to the item there, a key to its value; a step that leads nowhere is an error. The separator is the one given.",
  "All paths up to a number of steps, any digits, letters and separators, over nested lists and attributes.",
  "Tests follow two paths.",
  ["parse/expander.rs"], [("expand_get", "parse/expander.rs")])
P("C29", "Built-in macros take what they document, and no more",
  "Each built-in macro accepts exactly the number, order and kinds of arguments and keywords it documents, evaluates them once each from left to right, and refuses anything else with an error.",
  "All argument lists up to a length, of every kind of node, for each built-in macro.",
  "Tests call each macro correctly.",
  ["parse/macros.rs", "parse/expander.rs"], [("ArgRules, ArgParser, arguments!", "parse/macros.rs")])
P("C34", "A macro goes by its whole name",
  "A call reaches the built-in or user macro of exactly that name, a built-in before a user's; any other name is an undefined macro, which is an error. A namespace defines its names with its prefix.",
  "All names up to a length over letters, `/`, `-`, `%`, `_`.",
  "Tests use a handful of names.",
  ["parse/expander.rs"], [("expand_invocation, expand_namespace", "parse/expander.rs")])
P("C21", "Included and embedded files are found and used as documented",
  "A path names the first file found in the current directory and the include directories, in the order given, with `.sex` added if need be. An included file counts as if its nodes stood in place of the call, its definitions included; an embedded one is its text unchanged; an environment variable is its value; anything missing is an error.",
  "All layouts of files over a set of paths and search orders; included programs of every kind in every place; any short texts as contents and values.",
  "Tests include nothing.",
  ["parse/expander.rs", "parse/mod.rs"], [("expand_include_macro, expand_embed_macro", "parse/expander.rs"), ("register_parser", "parse/expander.rs")],
  over=("inputs", "files", "programs"))
P("C23", "Text macros yield exactly the text of their parts",
  "`%string`, `%concat`, `%join`, `%symbol`, `%number`, `%raw` and `%format` yield the characters of their arguments, unchanged and in order, with exactly the whitespace, separators, padding or braces their definition adds. Malformed format strings and missing values are errors.",
  "All parts of any characters up to a length; all format strings up to a length with any values.",
  "Tests build a handful of strings.",
  ["parse/expander.rs"], [("expand_concat, expand_join, expand_string", "parse/expander.rs"), ("expand_format_macro", "parse/expander.rs")])
P("C24", "Data files become the tree they denote",
  "`%yaml`, `%json` and `%toml` turn a document into nodes with every key and item once and the value each denotes: mappings become lists of attributes, sequences lists, scalars the node of their kind. Each value is also defined as a variable under its path of keys and indices, joined by the separator; a document that is not valid is an error.",
  "All documents of up to a size and depth, any letters and digits in keys and values.",
  "Tests read a few small documents.",
  ["parse/expander.rs"], [("expand_yaml, expand_toml and the conversions they use", "parse/expander.rs")])
P("C25", "Markdown becomes the HTML it denotes",
  "`%markdown` yields the HTML of its text, unescaped, with the whitespace of the call; YAML or TOML front matter is not shown, but its values are defined as variables. `:only` gives the front matter or the content alone.",
  "All documents of up to a number of lines of the kinds listed, any letters in them.",
  "One test has a line of markdown.",
  ["parse/expander.rs"], [("expand_markdown_macro", "parse/expander.rs")])
P("C26", "Dates and timestamps name the moment given",
  "`%date` writes the date and time of the moment given (or now) in the zone given, and `%timestamp` gives the seconds of the date it reads; a zone is hours from UTC, fractions counted to the second, and one written in the date wins. A bad date, format or zone is an error.",
  "All moments around several dates, all digits of a date or time, all zones of a digit and a fraction.",
  "Tests have no fixed moment to compare with.",
  ["parse/expander.rs"], [("expand_date_macro, expand_timestamp_macro", "parse/expander.rs")])
P("C27", "A pattern gives exactly the paths it matches, sorted as asked",
  "`%glob` yields each path its pattern matches once, restricted to files or directories if asked. Sorted by name, type (directories first, then by extension) or time (newest first), ties by name, or the reverse when descending; a bad pattern or option is an error.",
  "All layouts of a number of paths of each kind with any times, by several patterns, types, sortings and orders.",
  "No test uses it.",
  ["parse/expander.rs"], [("expand_glob_macro, GlobPath", "parse/expander.rs")], over=("inputs", "files"))
P("C30", "The command line writes each input as asked, and says when it cannot",
  "The program reads standard input (when `-` or no file is given), then each file, expands it with the include directories given and prints it in the format asked for, as a document unless told otherwise. At the first failure it stops with exit code 1, the error on standard error and nothing of that input on standard output; bad arguments are refused before anything is read.",
  "All argument lists up to a length from every kind of argument, with any short options, inputs that work, fail or are not text.",
  "No test runs the program.",
  ["bin.rs", "lib.rs"], [("main, generate_and_print", "bin.rs"), ("tree_builder_file, tree_builder_stream", "lib.rs")], over=("inputs", "files", "arguments"))
P("C31", "An error shows the line and the place at fault",
  "A reported error gives the file, line and column (in terminal columns) of what is at fault, the whole source line, and a mark under exactly that text: the argument at fault, or the call when the call as a whole is. This holds wherever it stands: in a macro body, an argument, or an included file.",
  "All kinds of faults, any names, in any surroundings: lines before, wide characters, calls, files.",
  "No test looks at an error.",
  ["parse/tokens.rs", "parse/expander.rs", "parse/parser.rs", "parse/lexer.rs", "assemble/mod.rs"], [("Site::line_column, line_slice, width", "parse/tokens.rs"), ("Display of errors", "parse/expander.rs, parse/parser.rs, parse/lexer.rs, assemble/mod.rs"), ("site of each node", "parse/parser.rs")])
P("C32", "The same program gives the same result every time",
  "Output, and the text of errors, depend on nothing but the program, its files, variables and the clock: not on the random seeds of hash tables, so attributes, keywords, names and keys come in an order that is fixed by the program.",
  "All seeds of the hash tables (all assignments of hash values within a bound), for programs of every kind that uses them.",
  "A test runs once, with one seed.",
  ["parse/expander.rs", "parse/macros.rs"], [("Scope", "parse/expander.rs"), ("ArgParser", "parse/macros.rs"), ("bind_list", "parse/expander.rs")], over=("inputs", "hash seeds"))
P("C33", "Everything is evaluated exactly when and as often as it is reached",
  "Arguments are evaluated once each, in order, before the call; variables when defined, bodies at each call, and only the case, branch or iteration that is taken. `%log` yields no node, and writes one line with its place and its words to standard error each time it is evaluated.",
  "All programs of up to a number of nested calls of each kind, any words.",
  "No test has effects to observe.",
  ["parse/expander.rs"], [("expand_log_macro", "parse/expander.rs"), ("expand_nodes, expand_invocation", "parse/expander.rs")])
P("C02", "No program makes it read or write memory it must not",
  "Expanding and writing any program touches only memory that is alive and inside its allocation, however long nodes outlive the scope, file, macro call or formatter they came from. A copy of a formatter writes the same as the original, and may outlive it.",
  "All programs of up to a number of nested calls and elements, over text borrowed from the source, from included files, or built by macros.",
  "Tests cannot see a stale read that happens to find the old bytes.",
  ["parse/expander.rs", "assemble/html.rs", "assemble/xml.rs", "lib.rs"], [("create_subcontext, register_parser", "parse/expander.rs"), ("register_formatter", "assemble/html.rs"), ("CloneBox", "lib.rs")])
