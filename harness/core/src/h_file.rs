//! What programs read from outside: files and environment variables.
use crate::{h_macro::{expands_to, program_in}, refr::N, refx::World, sv};

fn world(files: Vec<(String, String)>, dirs: &[&str]) -> World {
    World { files, dirs: dirs.iter().map(|d| d.to_string()).collect(), vars: vec![] }
}
/// Which of the files that a path can mean is taken.
#[no_mangle]
pub extern "C" fn h_include_search() {
    let dirs: &[&str] = sv::pick(&[&["."][..], &[".", "i"], &[".", "i", "j"], &[".", "j", "i"]]);
    let mut files = vec![];
    for d in [".", "i", "j"] {
        for n in ["a", "a.sex"] {
            match sv::choice(3) {
                0 => {}
                1 => files.push((format!("{}/{}", d, n).trim_start_matches("./").to_string(), format!("{}(%define v {})", sv::word(1), sv::word(1)))),
                _ => if sv::param("wide", 0) == 1 || d == "i" { sv::dir(&format!("{}/{}", d, n)) } else { return sv::reach("skipped") },
            }
        }
    }
    let path = sv::pick(&["a", "a.sex", "./a", "i/a", "\"a\"", "%p", "b", "a a"]);
    let m = sv::pick(&["include", "embed"]);
    program_in(&format!("(%define p a)(x{}(%{} {}))(%ifdef v %v)", sv::pick(&["", "\n "]), m, path), world(files, dirs), "the file a path means");
}
fn letter() -> String { sv::word(1) }
/// What a file holds, of any characters.
#[no_mangle]
pub extern "C" fn h_file_text() {
    let n = sv::param("n", 2) as usize;
    let mut t = sv::pick(&["", "a\r\n", "\"\r", "\u{feff}", "; é\r"]).to_string();
    t.push_str(&sv::ascii_string(n));
    for b in t.bytes() { sv::assume(b != b'%'); }
    t.push_str(sv::pick(&["", "\n", "\r\n\"", " é"]));
    let s = match sv::choice(3) { 0 => "x (%embed a) y", 1 => "x (%include a) y", _ => "(%define v (%embed a))(p %v)" };
    program_in(s, world(vec![("a".into(), t)], &["."]), "what a file holds");
}
/// Files that include files, over several directories, to a depth.
#[no_mangle]
pub extern "C" fn h_include_deep() {
    let n = sv::param("n", 6) as usize;
    let (a, i) = (letter(), sv::choice(n as u32) as usize);
    let mut files = vec![];
    for k in 0..n {
        let dir = ["", "i/", "j/"][(k + 1) % 3];
        let next = if k + 1 < n { format!("(%include f.{})", k + 1) } else { String::new() };
        let body = if k == i { match sv::choice(6) {
            0 => format!("{next}(%define last {a}){next}"),
            1 => format!("(%define (g{k} x) {next} %x)\n(%g{k} {a})"),
            2 => format!("(p {next} {a}"),
            3 => format!("(%for x in (1 2) {next} %x)"),
            4 => format!("(q (%embed f.{}.sex))", if k + 1 < n { k + 1 } else { 0 }),
            _ => format!("(%define v{k} {next}) %v{k} {a}"),
        } } else { format!("(%define d{k} {a}{k})\n(p{k}\n {next} (%ifdef d{} %d{}))", k / 2, k / 2) };
        files.push((format!("{dir}f.{k}.sex"), body));
    }
    let s = format!("x\n (%include f.0) (%ifdef d0 %d0) (%ifdef d{} y n) (%ifdef last %last) (%include \"f.{}\")", n - 1, n - 1);
    program_in(&s, world(files, sv::pick(&[&[".", "i", "j"][..], &[".", "j", "i"]])), "an included file counts as written in its place");
}
/// Many paths, two of them modified or created at any times.
#[no_mangle]
pub extern "C" fn h_glob_many() {
    let by = sv::param("by", 1) as usize;
    let mut all: Vec<Entry> = vec![];
    let names = ["m.rs", "a10", "b.sex", "B.sex", "a9", "c.d/e", "c.d/a.sex", "z", "a9.b.sex", "_", "a8.SEX", "f.SEX", "c.d/f/g.rs", "long-name-of-a-file.sex"];
    for (k, p) in names.iter().enumerate() { all.push(Entry { path: p.to_string(), kind: if k == 7 { 2 } else { 1 }, modified: 1000 + (k as i64 * 7) % 5, created: 1000 - (k as i64 * 3) % 4 }); }
    for d in ["c.d", "c.d/f"] { all.push(Entry { path: d.into(), kind: 2, modified: 1003, created: 998 }); }
    for e in &all { match e.kind { 1 => sv::file(&e.path, "x"), _ => sv::dir(&e.path) } }
    let (i, j) = (sv::choice(3) as usize * 3, 1 + sv::choice(3) as usize * 4);
    for (k, e) in all.iter_mut().enumerate() {
        if k == i || k == j { if by == 3 { e.modified = 990 + sv::byte() as i64; } if by == 4 { e.created = 990 + sv::byte() as i64; } }
        sv::times(&e.path, e.modified, e.created);
    }
    let pattern = sv::pick(&["**/*", "*", "*.sex", "c.d/*", "**/*.sex", "[a-c]*"]);
    let order = sv::pick(&["ascending", "descending"]);
    let only = sv::pick(&["", "file", "directory"]);
    let mut s = format!("(%glob \"{}\" :sort {} :order {}", pattern, ["", "name", "type", "modified", "created"][by], order);
    if !only.is_empty() { s.push_str(&format!(" :type {}", only)); }
    s.push(')');
    sv::note("source", &s);
    let mut want: Vec<&Entry> = vec![];
    for e in &all {
        let p = pattern.replace("[a-c]", "[abc]");
        if !fits_path(&parts(&p), &parts(&e.path)) { continue; }
        if (only == "file" && e.kind != 1) || (only == "directory" && e.kind != 2) { continue; }
        let k = want.iter().position(|x| before(e, x, by)).unwrap_or(want.len());
        want.insert(k, e);
    }
    if order == "descending" { want.reverse(); }
    let want: Vec<N> = want.iter().enumerate().map(|(i, e)| N::Str(if i == 0 { "" } else { " " }.into(), e.path.clone())).collect();
    expands_to(&s, &[], Some(want), "the paths of a pattern, in order");
}
/// What an included file may hold, and where it may be included.
#[no_mangle]
pub extern "C" fn h_include_program() {
    let body = match sv::choice(14) {
        0 => String::new(),
        1 => format!("{}", letter()),
        2 => format!(" ({} \"{}\")\n {} ", letter(), letter(), letter()),
        3 => format!("; comment\n{} ; more", letter()),
        4 => format!("(%define v {})", letter()),
        5 => format!("(%define (f x) (%x {}) %v)", letter()),
        6 => format!("%v {}", letter()),
        7 => format!("{}(", letter()),
        8 => format!("{} (%nothing)", letter()),
        9 => format!("(%include b){}", letter()),
        10 => format!("(%include b)(%include \"b\") (%f %v)"),
        11 => format!(":k {}", letter()),
        12 => format!("(%lambda (x) (%x %x {}))", letter()),
        _ => format!("\"{}", letter()),
    };
    let b = sv::pick(&["(%define v w)", "(%define (f x) %x)z", " (z (%v)) ", ""]);
    let inc = format!("{}(%include a)", sv::pick(&["", " ", "\n"]));
    let s = match sv::choice(14) {
        0 => format!("x{} y", inc),
        1 => format!("(x{} y)", inc),
        2 => format!("(%do{}){}", inc, inc),
        3 => format!("(%for i in (1 2){})", inc),
        4 => format!("(%define (g v){})(%g 1)(%g (2 3)) (%ifdef f (%f 1))", inc),
        5 => format!("(%match 1 (1{}))", inc),
        6 => format!("(%define c{})%c(%ifdef f (%f 1))", inc),
        7 => format!("(%ifdef v (){})%v", inc),
        8 => format!("(%map{} (1 2))", inc),
        9 => format!("(%apply (%lambda x{}) 1)", inc),
        10 => format!("(%namespace n{})(%ifdef n/f (%n/f 1))(%ifdef n/v %n/v)", inc),
        11 => format!("(x :k{})", inc),
        12 => format!("(%list{} {})", inc, inc),
        _ => format!("(%string{})", if body.contains("lambda") { "" } else { &inc }),
    };
    let tail = sv::pick(&["", " %v", " (%ifdef f (%f 2))"]);
    program_in(&format!("(%define v u){}{}", s, tail), world(vec![("a.sex".into(), body), ("b.sex".into(), b.into())], &["."]), "an included file counts as written in its place");
}
/// Environment variables and log messages.
#[no_mangle]
pub extern "C" fn h_environment() {
    let n = sv::param("n", 2) as usize;
    let v = sv::ascii_string(n);
    let mut w = world(vec![], &["."]);
    let name = sv::pick(&["SEAM_A", "SEAM_B"]);
    if !v.contains('\0') { w.vars.push(("SEAM_A".into(), v)); }
    let s = match sv::choice(6) {
        0 => format!("(%os/env {})", name),
        1 => format!("x (%os/env \"{}\") y", name),
        2 => format!("(%define n {})(p\n(%os/env %n))", name),
        3 => format!("(p (%os/env  {}) (%os/env {}))", name, name),
        4 => format!("(%os/env ({}))", name),
        _ => format!("(%os/env{})", sv::pick(&["", " SEAM_A SEAM_A", " :SEAM_A SEAM_A"])),
    };
    program_in(&s, w, "the value of an environment variable");
}

/// One component of a path against one of a pattern.
fn fits(p: &[u8], s: &[u8]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(b'*') => (0..=s.len()).any(|i| fits(&p[1..], &s[i..])),
        Some(b'?') => !s.is_empty() && fits(&p[1..], &s[1..]),
        Some(b'[') => {
            let k = p.iter().position(|c| *c == b']').unwrap();
            let (not, set) = if p[1] == b'!' { (true, &p[2..k]) } else { (false, &p[1..k]) };
            !s.is_empty() && set.contains(&s[0]) != not && fits(&p[k + 1..], &s[1..])
        }
        Some(c) => s.first() == Some(c) && fits(&p[1..], &s[1..]),
    }
}
fn fits_path(p: &[&str], s: &[&str]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(&"**") => (0..=s.len()).any(|i| fits_path(&p[1..], &s[i..])),
        Some(c) => !s.is_empty() && fits(c.as_bytes(), s[0].as_bytes()) && fits_path(&p[1..], &s[1..]),
    }
}
struct Entry { path: String, kind: u32, modified: i64, created: i64 }
fn suffix(p: &str) -> Option<&str> {
    let name = p.rsplit('/').next().unwrap();
    let k = name.rfind('.')?;
    if k == 0 { None } else { Some(&name[k + 1..]) }
}
fn parts(p: &str) -> Vec<&str> { p.split('/').collect() }
fn before(a: &Entry, b: &Entry, by: usize) -> bool {
    let name = || parts(&a.path) < parts(&b.path);
    match by {
        2 => {
            let (x, y) = ((a.kind != 2, suffix(&a.path)), (b.kind != 2, suffix(&b.path)));
            if x == y { name() } else { x < y }
        }
        3 => if a.modified == b.modified { name() } else { a.modified > b.modified },
        4 => if a.created == b.created { name() } else { a.created > b.created },
        _ => name(),
    }
}
/// Which paths a pattern gives, and in which order.
#[no_mangle]
pub extern "C" fn h_glob() {
    let by = sv::param("by", 1) as usize;
    let n = sv::param("n", 3) as usize;
    let pools: [&[&str]; 3] = [&["z", "b.x", "m"], &["a.b", "a", "Z.a"], &["d/e", "c.x", "d/.h"]];
    let mut all: Vec<Entry> = vec![];
    for pool in &pools[..n] {
        let path = sv::pick(pool).to_string();
        let kind = sv::choice(if by < 3 { 3 } else { 2 });
        all.push(Entry { path, kind: kind + 1, modified: 0, created: 0 });
    }
    if all.iter().any(|e| e.path.starts_with("d/")) { all.push(Entry { path: "d".into(), kind: 2, modified: 0, created: 0 }); }
    // What each is: a file, a directory or a link that leads nowhere.
    for e in &all { match e.kind { 1 => sv::file(&e.path, "x"), 2 => sv::dir(&e.path), _ => sv::broken_link(&e.path) } }
    for e in &mut all {
        if by == 3 { e.modified = 1000 + sv::byte() as i64; }
        if by == 4 { e.created = 1000 + sv::byte() as i64; }
        if by >= 3 { sv::times(&e.path, e.modified, e.created); }
        sv::note("path", &e.path);
    }
        let patterns = &["**/*", "*", "?", "[ab]*", "d/*", "*.[!a]", "**/*.x", "*/*"];
    let pattern = sv::pick(&patterns[..if by < 2 { 8 } else { 2 }]);
    let only = sv::pick(&["", "file", "directory", "any"][..if by < 3 { 4 } else { 2 }]);
    let order = sv::pick(&["", "ascending", "descending"]);
    let mut s = format!("(%glob \"{}\"", pattern);
    if !only.is_empty() { s.push_str(&format!(" :type {}", only)); }
    if by > 0 { s.push_str(&format!(" :sort {}", ["", "name", "type", "modified", "created"][by])); }
    if !order.is_empty() { s.push_str(&format!(" :order {}", order)); }
    s.push(')');
    let mut want: Vec<&Entry> = vec![];
    for e in &all {
        if !fits_path(&parts(pattern), &parts(&e.path)) { continue; }
        if (only == "file" && e.kind != 1) || (only == "directory" && e.kind != 2) { continue; }
        let k = want.iter().position(|x| before(e, x, by)).unwrap_or(want.len());
        want.insert(k, e);
    }
    if order == "descending" { want.reverse(); }
    sv::note("source", &s);
    if by > 0 {
        let want: Vec<N> = want.iter().enumerate().map(|(i, e)| N::Str(if i == 0 { "" } else { " " }.into(), e.path.clone())).collect();
        expands_to(&s, &[], Some(want), "the paths of a pattern, in order");
    } else {
        // In any order, but each once.
        let o = crate::util::text(&s);
        let o = match o { Some(o) => o, None => return sv::fail("a pattern gives its paths") };
        sv::note("output", &o);
        let mut got: Vec<&str> = o.split(' ').filter(|s| !s.is_empty()).collect();
        got.sort();
        let mut want: Vec<&str> = want.iter().map(|e| e.path.as_str()).collect();
        want.sort();
        sv::check(got == want, "a pattern gives its paths");
        sv::reach("unsorted");
    }
}
#[no_mangle]
pub extern "C" fn h_glob_refused() {
    sv::file("a", "x");
    let a = sv::pick(&["\"***\"", "\"a**\"", "\"[\"", "", "(a)", ":type file", "* *", "* :type dir", "* :sort size", "* :order up", "* :sort", "* :type (file)", "* :only file", "[]"]);
    let (c, w) = (sv::word(1), sv::word(2));
    let s = match sv::choice(2) { 0 => format!("(%glob {})", a), _ => format!("(%glob * :{} {})", c, w) };
    crate::util::expect_error(&s, "a pattern or option that is not one is refused");
    sv::reach("refused");
}
