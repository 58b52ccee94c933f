//! An independent evaluator of the macro language: the oracle for expansion.
//! `None`: the program is refused.
use crate::refr::N;

#[derive(Clone)]
pub struct Mac { id: u32, params: Vec<N>, body: Vec<N> }
#[derive(Clone, Default)]
pub struct Env { defs: Vec<(String, Mac)>, counter: std::rc::Rc<std::cell::Cell<u32>>, world: std::rc::Rc<World>, log: std::rc::Rc<std::cell::RefCell<Vec<String>>> }
/// What a program may read: files, in directories searched in this order, and variables.
#[derive(Default)]
pub struct World { pub files: Vec<(String, String)>, pub dirs: Vec<String>, pub vars: Vec<(String, String)> }
impl World {
    /// The first of the directories that has one of the names.
    fn find(&self, names: &[String]) -> Option<&str> {
        for d in &self.dirs {
            for n in names {
                let path = plain_path(&format!("{}/{}", d, n));
                if let Some(f) = self.files.iter().find(|f| f.0 == path) { return Some(&f.1); }
            }
        }
        None
    }
}
fn plain_path(p: &str) -> String {
    let mut o: Vec<&str> = vec![];
    for c in p.split('/') { if c == ".." { o.pop(); } else if !c.is_empty() && c != "." { o.push(c) } }
    o.join("/")
}
type Out = Option<Vec<N>>;

impl Env {
    fn fresh(&self) -> u32 { let n = self.counter.get() + 1; self.counter.set(n); n }
    fn get(&self, name: &str) -> Option<Mac> { self.defs.iter().rev().find(|d| d.0 == name).map(|d| d.1.clone()) }
    fn put(&mut self, name: &str, m: Mac) {
        for d in self.defs.iter_mut() { if d.0 == name { d.1 = m; return } }
        self.defs.push((name.to_string(), m));
    }
    fn set(&mut self, name: &str, params: Vec<N>, body: Vec<N>) { let id = self.fresh(); self.put(name, Mac { id, params, body }) }
}
pub fn ws(n: &N) -> &str { match n { N::Sym(w, _) | N::Num(w, _) | N::Str(w, _) | N::Raw(w, _) | N::List(w, ..) | N::Attr(w, ..) => w } }
pub fn set_ws(n: &mut N, w: &str) {
    match n { N::Sym(x, _) | N::Num(x, _) | N::Str(x, _) | N::Raw(x, _) | N::List(x, ..) | N::Attr(x, ..) => *x = w.to_string() }
}
fn first_ws(l: &mut Vec<N>, w: &str) { if let Some(n) = l.first_mut() { set_ws(n, w) } }
pub fn atom(n: &N) -> Option<&str> { match n { N::Sym(_, v) | N::Num(_, v) | N::Str(_, v) | N::Raw(_, v) => Some(v), _ => None } }
fn sym(n: &N) -> Option<&str> { match n { N::Sym(_, v) => Some(v), _ => None } }
fn macro_name(n: &N) -> Option<&str> { sym(n).and_then(|v| v.strip_prefix('%')) }

/// Arguments that are not keywords, and keywords not in `known`; the known ones apart.
fn split<'a>(params: &'a [N], known: &[&str]) -> (Vec<&'a N>, Vec<(&'a str, &'a N)>) {
    let (mut rest, mut named) = (vec![], vec![]);
    for p in params {
        match p {
            N::Attr(_, k, v) if known.contains(&k.as_str()) => named.push((k.as_str(), &**v)),
            p => rest.push(p),
        }
    }
    (rest, named)
}
/// The first k arguments that are not keywords, and what is left.
fn places(params: &[N], k: usize) -> Option<(Vec<N>, Vec<N>)> {
    let (mut first, mut rest) = (vec![], vec![]);
    for p in params { if first.len() < k && !matches!(p, N::Attr(..)) { first.push(p.clone()) } else { rest.push(p.clone()) } }
    if first.len() < k { None } else { Some((first, rest)) }
}
fn option<'a>(named: &[(&'a str, &'a N)], k: &str) -> Option<&'a N> { named.iter().rev().find(|n| n.0 == k).map(|n| n.1) }

pub fn program(l: &[N]) -> Out { nodes(&mut Env::default(), l) }
pub fn program_in(w: World, l: &[N]) -> Out { nodes(&mut Env { world: w.into(), ..Env::default() }, l) }
/// The same, and what it logs.
pub fn program_logged(w: World, l: &[N]) -> (Out, Vec<String>) {
    let mut env = Env { world: w.into(), ..Env::default() };
    let o = nodes(&mut env, l);
    let log = env.log.borrow().clone();
    (o, log)
}
pub fn nodes(env: &mut Env, l: &[N]) -> Out {
    let mut o = vec![];
    for n in l { o.extend(node(env, n)?); }
    Some(o)
}
fn node(env: &mut Env, n: &N) -> Out {
    match n {
        N::Sym(w, v) if v.starts_with('%') => {
            let m = env.get(&v[1..])?;
            if !m.params.is_empty() { return None; }
            let mut o = nodes(env, &m.body)?;
            first_ws(&mut o, w);
            Some(o)
        }
        N::List(w, l, e) => {
            if let Some(name) = l.first().and_then(macro_name) {
                let mut params = l[1..].to_vec();
                if params.first().map_or(false, |p| !ws(p).contains('\n')) { first_ws(&mut params, ""); }
                return call(env, name, n, params);
            }
            Some(vec![N::List(w.clone(), nodes(env, l)?, e.clone())])
        }
        N::Attr(w, k, v) => {
            let mut o = node(env, v)?;
            let f = o.first_mut()?;
            *f = N::Attr(w.clone(), k.clone(), Box::new(f.clone()));
            Some(o)
        }
        n => Some(vec![n.clone()]),
    }
}
/// Gives the names in the pattern the values they stand for.
fn bind(env: &mut Env, pat: &N, val: &N) -> Option<()> {
    match (pat, val) {
        (N::Sym(_, s), v) => env.set(s, vec![], vec![v.clone()]),
        (N::Num(_, a), N::Num(_, b)) => if a != b { return None },
        (N::Str(_, a) | N::Raw(_, a), N::Str(_, b) | N::Raw(_, b)) => if a != b { return None },
        (N::Attr(_, k, p), N::Attr(_, l, v)) => { if k != l { return None } bind(env, p, v)? }
        (N::List(_, p, _), N::List(_, v, _)) => bind_list(env, p, v)?,
        _ => return None,
    }
    Some(())
}
fn bind_list(env: &mut Env, pats: &[N], vals: &[N]) -> Option<()> {
    let (mut rest, mut kwrest, mut named, mut places): (Option<&str>, Option<&str>, Vec<(&str, &N)>, Vec<&N>) = (None, None, vec![], vec![]);
    for p in pats {
        match p {
            N::Attr(_, k, d) => { named.retain(|n| n.0 != k); named.push((k, d)) }
            N::Sym(_, s) if s.starts_with("&&") => { if kwrest.is_some() { return None } kwrest = Some(&s[2..]) }
            N::Sym(_, s) if s.starts_with('&') => { if rest.is_some() { return None } rest = Some(&s[1..]) }
            p => places.push(p),
        }
    }
    let values: Vec<&N> = vals.iter().filter(|v| !matches!(v, N::Attr(..))).collect();
    if values.len() < places.len() { return None; }
    for (p, v) in places.iter().zip(&values) { bind(env, p, v)?; }
    let extra: Vec<N> = values[places.len()..].iter().map(|v| (*v).clone()).collect();
    match rest { Some(r) => env.set(r, vec![], extra), None => if !extra.is_empty() { return None } }
    // Each keyword once: where it was first given, with the value last given.
    let mut given: Vec<&N> = vec![];
    for v in vals {
        if let N::Attr(_, k, _) = v {
            match given.iter_mut().find(|g| matches!(g, N::Attr(_, l, _) if l == k)) { Some(g) => *g = v, None => given.push(v) }
        }
    }
    named.sort_by(|a, b| a.0.cmp(b.0));
    for (k, default) in named {
        let mut value = default;
        if let Some(i) = given.iter().position(|g| matches!(g, N::Attr(_, l, _) if l == k)) {
            if let N::Attr(_, _, v) = given.remove(i) { value = v }
        }
        env.set(k, vec![], vec![value.clone()]);
    }
    match kwrest { Some(r) => env.set(r, vec![], given.into_iter().cloned().collect()), None => if !given.is_empty() { return None } }
    Some(())
}
fn define(env: &mut Env, name: &str, params: Vec<N>, body: Vec<N>) -> Option<()> {
    let count = |p: &str| params.iter().filter(|n| sym(n).map_or(false, |s| s.starts_with(p))).count();
    let (all, double) = (count("&"), count("&&"));
    if double > 1 || all - double > 1 { return None; }
    env.set(name, params, body);
    Some(())
}
fn literal_text(l: &[N]) -> Option<String> {
    let mut s = String::new();
    for n in l { s.push_str(ws(n)); s.push_str(atom(n)?); }
    Some(s)
}
fn atoms<'a>(l: &[&'a N]) -> Option<Vec<&'a str>> { l.iter().map(|n| atom(n)).collect() }
fn call(env: &mut Env, name: &str, site: &N, params: Vec<N>) -> Out {
    let N::List(w, _, e) = site else { return None };
    let string = |s: String| Some(vec![N::Str(w.clone(), s)]);
    match name {
        "define" => {
            let head = params.first()?;
            match head {
                N::Sym(_, v) => { let b = nodes(env, &params[1..])?; define(env, v, vec![], b)? }
                N::List(_, l, _) => define(env, sym(l.first()?)?, l[1..].to_vec(), params[1..].to_vec())?,
                _ => return None,
            }
            return Some(vec![]);
        }
        "ifdef" => {
            if params.len() < 2 || params.len() > 3 { return None; }
            let mut o = match (env.get(atom(&params[0])?), params.get(2)) {
                (Some(_), _) => node(env, &params[1])?,
                (None, Some(e)) => node(env, e)?,
                _ => vec![],
            };
            first_ws(&mut o, w);
            return Some(o);
        }
        "match" => {
            let o = node(env, params.first()?)?;
            if o.len() != 1 { return None; }
            for c in &params[1..] {
                let N::List(_, l, _) = c else { return None };
                let p = node(env, l.first()?)?;
                if p.len() != 1 { return None; }
                let mut sub = env.clone();
                if bind(&mut sub, &p[0], &o[0]).is_some() { return nodes(&mut sub, &l[1..]); }
            }
            return Some(vec![]);
        }
        "for" => {
            let (a, body) = places(&params, 3)?;
            if sym(&a[1]) != Some("in") { return None; }
            let N::List(_, l, _) = &a[2] else { return None };
            let items = nodes(env, l)?;
            let mut sub = env.clone();
            let mut o = vec![];
            for i in items { bind(&mut sub, &a[0], &i)?; o.extend(nodes(&mut sub, &body)?); }
            return Some(o);
        }
        "lambda" => {
            let (head, body) = places(&params, 1)?;
            let args = match &head[0] { N::List(_, l, _) => l.clone(), N::Sym(..) => head, _ => return None };
            let name = format!("__lambda{}", env.fresh());
            define(env, &name, args, body)?;
            return Some(vec![N::Sym(w.clone(), name)]);
        }
        "namespace" => {
            let mut sub = env.clone();
            let p = nodes(&mut sub, &params)?;
            let ns = atom(p.first()?)?;
            let (mut sep, mut i) = ("/", 1);
            while let Some(N::Attr(_, k, v)) = p.get(i) { if k != "separator" { return None } sep = atom(v)?; i += 1; }
            for (k, m) in &sub.defs {
                if env.get(k).map_or(true, |o| o.id != m.id) { env.put(&format!("{}{}{}", ns, sep, k), m.clone()); }
            }
            return Some(p[i..].to_vec());
        }
        _ => {}
    }
    let params = nodes(env, &params)?;
    let p: &[N] = &params;
    match name {
        "do" => Some(params),
        "strip" => { let mut p = params; first_ws(&mut p, ""); Some(p) }
        "list" => Some(vec![N::List(w.clone(), params, e.clone())]),
        "raw" => Some(vec![N::Raw(w.clone(), literal_text(p)?)]),
        "string" => string(literal_text(p)?),
        "number" | "symbol" => p.iter().map(|n| atom(n).map(|v| if name == "number" { N::Num(ws(n).into(), v.into()) } else { N::Sym(ws(n).into(), v.into()) })).collect(),
        "splat" => {
            let mut o = vec![];
            for n in p {
                match n { N::List(w, l, _) => { let mut l = l.clone(); first_ws(&mut l, w); o.extend(l) } n => o.push(n.clone()) }
            }
            Some(o)
        }
        "include" => {
            let [p] = p else { return None };
            let p = atom(p)?;
            let world = env.world.clone();
            let l = crate::refr::read(world.find(&[p.to_string(), format!("{}.sex", p)])?.as_bytes())?;
            let mut o = nodes(env, &l)?;
            first_ws(&mut o, w);
            Some(o)
        }
        "embed" => {
            let [p] = p else { return None };
            string(env.world.find(&[atom(p)?.to_string()])?.to_string())
        }
        "os/env" => {
            let [p] = p else { return None };
            let v = env.world.vars.iter().find(|v| v.0 == atom(p).unwrap_or(""))?;
            Some(vec![N::Str(ws(p).to_string(), v.1.clone())])
        }
        "log" => { let m = atoms(&p.iter().collect::<Vec<_>>())?.join(" "); env.log.borrow_mut().push(m); Some(vec![]) }
        "format" => {
            let N::Str(_, template) = p.first()? else { return None };
            let mut values: Vec<(String, &str)> = vec![];
            let mut k = 0;
            for v in &p[1..] {
                match v {
                    N::Attr(_, name, v) => values.push((name.clone(), atom(v)?)),
                    v => { values.push((k.to_string(), atom(v)?)); k += 1 }
                }
            }
            string(format(template, &values)?)
        }
        "concat" => string(atoms(&p.iter().collect::<Vec<_>>())?.concat()),
        "join" => {
            let (a, named) = split(p, &["trailing"]);
            let a = atoms(&a)?;
            let t = match option(&named, "trailing") { Some(v) => match atom(v)? { "true" => true, "false" => false, _ => return None }, None => false };
            let sep = a.first()?;
            string(a[1..].join(sep) + if t { sep } else { "" })
        }
        "reverse" => {
            let [N::List(w, l, e)] = p else { return None };
            let mut o: Vec<N> = l.iter().rev().cloned().collect();
            for (x, y) in o.iter_mut().zip(l) { set_ws(x, ws(y)); }
            Some(vec![N::List(w.clone(), o, e.clone())])
        }
        "map" | "filter" => {
            let (f, rest) = places(p, 1)?;
            let f = sym(&f[0])?.to_string();
            let mut o = vec![];
            for n in rest {
                let r = call(env, &f, site, vec![n])?;
                let null = matches!(&r[..], [N::List(_, l, _)] if l.is_empty());
                if name == "map" || !null { o.extend(r); }
            }
            Some(o)
        }
        "apply" => {
            let (f, rest) = places(p, 1)?;
            let f = sym(&f[0])?.to_string();
            call(env, &f, site, rest)
        }
        "get" => {
            let (a, named) = split(p, &["separator"]);
            let sep = match option(&named, "separator") { Some(s) => atom(s)?, None => "/" };
            let [path, v] = &a[..] else { return None };
            let mut v: N = (*v).clone();
            for step in atom(path)?.split(sep) {
                let N::List(_, l, _) = v else { return None };
                let index = step.parse::<usize>().ok().and_then(|i| l.get(i));
                let key = || l.iter().find_map(|n| match n { N::Attr(_, k, x) if k == step => Some(&**x), _ => None });
                v = match index { Some(x) => x.clone(), None => key()?.clone() };
            }
            Some(vec![v])
        }
        "sort" => {
            let (a, named) = split(p, &["order", "key"]);
            let [N::List(_, l, e)] = &a[..] else { return None };
            let up = match option(&named, "order") { Some(o) => match atom(o)? { "ascending" => true, "descending" => false, _ => return None }, None => true };
            let key = match option(&named, "key") { Some(k) => sym(k)?.to_string(), None => "do".to_string() };
            let mut items: Vec<(String, N)> = vec![];
            for n in l {
                let k = call(env, &key, site, vec![n.clone()])?;
                if k.len() != 1 { return None; }
                items.push((atom(&k[0])?.to_string(), n.clone()));
            }
            // Insertion: equal keys stay in the order given.
            let mut o: Vec<(String, N)> = vec![];
            for x in items {
                let mut i = o.len();
                while i > 0 && (if up { before(&x.0, &o[i - 1].0) } else { before(&o[i - 1].0, &x.0) }) { i -= 1; }
                o.insert(i, x);
            }
            let mut o: Vec<N> = o.into_iter().map(|x| x.1).collect();
            for (x, y) in o.iter_mut().zip(l) { set_ws(x, ws(y)); }
            Some(vec![N::List(w.clone(), o, e.clone())])
        }
        _ => {
            let m = env.get(name)?;
            let mut sub = env.clone();
            bind_list(&mut sub, &m.params, &params)?;
            nodes(&mut sub, &m.body)
        }
    }
}
/// Numbers by value, before everything else, which goes by its bytes.
fn before(a: &str, b: &str) -> bool {
    match (decimal(a), decimal(b)) {
        (Some(a), Some(b)) => a.less(&b),
        (Some(_), None) => true,
        (None, Some(_)) => false,
        (None, None) => a.as_bytes() < b.as_bytes(),
    }
}
/// A decimal number: digits before the point (no leading zeros), and after it (no trailing zeros).
struct Decimal { negative: bool, whole: Vec<u8>, part: Vec<u8> }
impl Decimal {
    fn less(&self, o: &Decimal) -> bool {
        match (self.negative, o.negative) {
            (true, false) => true,
            (false, true) => false,
            (false, false) => self.smaller(o),
            (true, true) => o.smaller(self),
        }
    }
    fn smaller(&self, o: &Decimal) -> bool {
        if self.whole.len() != o.whole.len() { return self.whole.len() < o.whole.len(); }
        if self.whole != o.whole { return self.whole < o.whole; }
        self.part < o.part
    }
}
fn decimal(s: &str) -> Option<Decimal> {
    let b = s.as_bytes();
    let (negative, mut d) = match b.first() { Some(b'-') => (true, &b[1..]), Some(b'+') => (false, &b[1..]), _ => (false, b) };
    let (mut digits, mut point) = (vec![], None);
    while let Some(c) = d.first() {
        if *c == b'.' { if point.is_some() { return None } point = Some(digits.len() as i32) }
        else if c.is_ascii_digit() { digits.push(*c) }
        else { break }
        d = &d[1..];
    }
    if digits.is_empty() { return None; }
    let mut point = point.unwrap_or(digits.len() as i32);
    if let Some(b'e' | b'E') = d.first() {
        d = &d[1..];
        let neg = match d.first() { Some(b'-') => { d = &d[1..]; true } Some(b'+') => { d = &d[1..]; false } _ => false };
        if d.is_empty() { return None; }
        let mut e = 0i32;
        while let Some(c) = d.first() { if !c.is_ascii_digit() { break } e = e * 10 + (c - b'0') as i32; d = &d[1..]; }
        point += if neg { -e } else { e };
    }
    if !d.is_empty() { return None; }
    while point < 0 { digits.insert(0, b'0'); point += 1; }
    while (digits.len() as i32) < point { digits.push(b'0'); }
    let mut part = digits.split_off(point as usize);
    while part.last() == Some(&b'0') { part.pop(); }
    let mut whole = digits;
    while whole.first() == Some(&b'0') { whole.remove(0); }
    let zero = whole.is_empty() && part.is_empty();
    Some(Decimal { negative: negative && !zero, whole, part })
}
/// Text with `{…}` placeholders; `{{` and `}}` are braces.
fn format(t: &str, values: &[(String, &str)]) -> Option<String> {
    let b = t.as_bytes();
    // (literal, None) or (name, Some(spec))
    let mut parts: Vec<(String, Option<String>)> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'{' || b[i] == b'}' {
            if i + 1 < b.len() && b[i + 1] == b[i] { parts.push((t[i..i + 1].into(), None)); i += 2; continue; }
            if b[i] == b'}' { return None; }
            let mut j = i + 1;
            while j < b.len() && b[j] != b'}' { if b[j] == b'{' { return None } j += 1; }
            if j >= b.len() { return None; }
            let inner = &t[i + 1..j];
            let (name, spec) = match inner.find(':') { Some(c) => (&inner[..c], &inner[c + 1..]), None => (inner, "") };
            parts.push((name.into(), Some(spec.into())));
            i = j + 1;
        } else {
            let j = i;
            while i < b.len() && b[i] != b'{' && b[i] != b'}' { i += 1; }
            parts.push((t[j..i].into(), None));
        }
    }
    let taken: Vec<String> = parts.iter().filter(|p| p.1.is_some()).map(|p| p.0.clone()).collect();
    let mut k = 0;
    for p in &mut parts {
        if p.1.is_some() && p.0.is_empty() {
            while taken.contains(&k.to_string()) { k += 1; }
            p.0 = k.to_string();
            k += 1;
        }
    }
    let mut o = String::new();
    for (name, spec) in &parts {
        match spec {
            None => o.push_str(name),
            Some(spec) => {
                let v = values.iter().find(|v| v.0 == *name)?;
                o.push_str(&padded(v.1, spec)?);
            }
        }
    }
    Some(o)
}
/// `[[fill]<|>][0][width][.precision]`
fn padded(v: &str, spec: &str) -> Option<String> {
    let mut s = spec.as_bytes();
    let (mut fill, mut align) = (b' ', 0);
    if s.len() > 1 && (s[1] == b'<' || s[1] == b'>') { fill = s[0]; align = s[1]; s = &s[2..]; }
    else if s.len() > 0 && (s[0] == b'<' || s[0] == b'>') { align = s[0]; s = &s[1..]; }
    let zero = s.first() == Some(&b'0');
    if zero { s = &s[1..]; }
    let num = |s: &mut &[u8]| { let mut n = 0usize; while let Some(c) = s.first() { if !c.is_ascii_digit() { break } n = n * 10 + (c - b'0') as usize; *s = &s[1..]; } n };
    let width = num(&mut s);
    let mut v: Vec<u8> = v.bytes().collect();
    if s.first() == Some(&b'.') { s = &s[1..]; let p = num(&mut s); v.truncate(p); if p > 65535 { return None } }
    if width > 65535 { return None; }
    let number = decimal(std::str::from_utf8(&v).ok()?).is_some();
    let missing = width.saturating_sub(v.len());
    let at = if align == 0 && number && zero { fill = b'0'; if v[0] == b'-' { 1 } else { 0 } } else if align == b'>' || (align == 0 && number) { 0 } else { v.len() };
    for _ in 0..missing { v.insert(at, fill); }
    String::from_utf8(v).ok()
}
