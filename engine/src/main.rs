//! svx: bounded symbolic execution of whole-program LLVM IR with z3.
mod builtins;
mod exec;
mod expr;
mod ir;
mod llvm;
mod solver;
mod state;

use exec::*;
use state::*;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Run { entry: String, params: Vec<(String, i64)>, time: u64, steps: u64, allow: Vec<String> }

const SAMPLES: u64 = 12;

struct Shared {
    queue: Mutex<VecDeque<Vec<u32>>>,
    cv: Condvar,
    idle: AtomicUsize,
    threads: usize,
    stop: AtomicBool,
    timed_out: AtomicBool,
    nviol: AtomicUsize,
    deadline: Instant,
    stop_at: Mutex<Option<Instant>>,
}

fn initial(w: &mut Worker, f: u32, prefix: Vec<u32>) -> State {
    let mut io = Io::default();
    io.clock = 1_000_000_000;
    io.fds = vec![Some(Fd::Std), Some(Fd::Std), Some(Fd::Std)];
    io.files.push(FileNode { path: b"/".to_vec(), kind: FKind::Dir, mtime: crate::state::Val::C(1), ctime: crate::state::Val::C(1) });
    io.files.push(FileNode { path: b"/w".to_vec(), kind: FKind::Dir, mtime: crate::state::Val::C(1), ctime: crate::state::Val::C(1) });
    let mut st = State { frames: vec![], mem: Mem::new(w.m), path: Path::default(), model: Rc::new(vec![]), inputs: vec![], trace: vec![],
        prefix: Rc::new(prefix), steps: 0, io: Rc::new(io), pending: None };
    let _ = w.call(&mut st, f, &[], u32::MAX, u32::MAX);
    st
}

fn apply(w: &mut Worker, st: &mut State, a: &Alt, i: u32) {
    st.trace.push(i);
    if let Some(m) = &a.model { st.model = m.clone(); }
    if let Some(c) = a.cons { w.add(st, c); }
    if let Some(k) = a.choice { st.pending = Some(k); }
}

fn finish(w: &mut Worker, st: &State, o: Outcome, run: &Run) {
    w.st.paths += 1;
    w.st.steps += st.steps;
    w.st.max_steps = w.st.max_steps.max(st.steps);
    let m = st.model.clone();
    if !matches!(o, Outcome::Infeasible) && (w.st.paths < 8 || w.st.paths % 32 == 0) && !st.path.doms.is_empty() {
        assert!(w.audit_path(st), "audit: the solver does not confirm a path condition");
    }
    if matches!(o, Outcome::Done) && !st.io.notes.is_empty() {
        // Sample of completed paths, to be replayed against the native build.
        w.st.seen += 1;
        let n = w.st.seen;
        let r = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20;
        let slot = if n <= SAMPLES { n - 1 } else { r % n };
        if slot < SAMPLES {
            let notes = w.render_notes(st, &m);
            let s = format!("{{\"input\":[{}],\"notes\":{{{}}}}}", w.input_tokens(st, &m).iter().map(|t| t.to_string()).collect::<Vec<_>>().join(","),
                notes.iter().map(|(k, v)| format!("{}:{}", js(k), js(&String::from_utf8_lossy(v)))).collect::<Vec<_>>().join(","));
            if n <= SAMPLES { w.st.samples.push(s) } else { w.st.samples[slot as usize] = s }
        }
    }
    let (kind, id) = match &o {
        Outcome::Done => { w.st.done += 1; ("done".to_string(), None) }
        Outcome::Infeasible => { w.st.infeasible += 1; ("assumed away".to_string(), None) }
        Outcome::Panic(l) => (format!("panic {}", l), Some(("panic", l.clone()))),
        Outcome::Memory(l) => (format!("memory {}", l), Some(("memory", l.clone()))),
        Outcome::Exit(c) => (format!("exit {}", c), Some(("exit", c.to_string()))),
        Outcome::Limit(l) => (format!("limit {}", l), Some(("limit", l.clone()))),
        Outcome::Unsupported(l) => (format!("unsupported {}", l), Some(("unsupported", l.clone()))),
    };
    if let Some((k, id)) = id {
        if run.allow.iter().any(|a| kind.starts_with(a.as_str())) { w.st.done += 1; }
        else {
            let id = if std::env::var("SVX_BT").is_ok() {
                let mut s = id;
                for f in st.frames.iter().rev().take(14) { s += "\n    "; s += &w.m.funcs[f.f as usize].name; }
                s
            } else { id };
            w.violation(st, k, &id, &m)
        }
    }
    *w.st.ends.entry(kind).or_default() += 1;
}

fn worker(w: &mut Worker, f: u32, sh: &Shared, run: &Run) {
    let mut seen = 0;
    loop {
        let prefix = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::Relaxed) { sh.cv.notify_all(); return; }
                if let Some(p) = q.pop_front() { break p; }
                if sh.idle.fetch_add(1, Ordering::SeqCst) + 1 == sh.threads {
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    return;
                }
                q = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                if sh.stop.load(Ordering::Relaxed) { return; }
                sh.idle.fetch_sub(1, Ordering::SeqCst);
            }
        };
        let mut stack = VecDeque::new();
        stack.push_back(initial(w, f, prefix));
        while let Some(mut st) = stack.pop_back() {
            loop {
                match w.exec(&mut st) {
                    Stop::Fork(alts) => {
                        w.st.forks += 1;
                        if w.st.forks < 8 || w.st.forks % 64 == 0 { assert!(w.audit_fork(&st, &alts), "audit: the solver finds a case the fork leaves out"); }
                        let pos = st.trace.len();
                        if pos < st.prefix.len() {
                            let i = st.prefix[pos];
                            assert!((i as usize) < alts.len(), "work sharing: replay diverged");
                            apply(w, &mut st, &alts[i as usize], i);
                            continue;
                        }
                        for i in (1..alts.len()).rev() {
                            let mut s = st.clone();
                            apply(w, &mut s, &alts[i], i as u32);
                            stack.push_back(s);
                        }
                        apply(w, &mut st, &alts[0], 0);
                        if sh.idle.load(Ordering::Relaxed) > 0 && !stack.is_empty() {
                            let mut q = sh.queue.lock().unwrap();
                            let mut want = sh.idle.load(Ordering::Relaxed).saturating_sub(q.len());
                            while want > 0 && !stack.is_empty() {
                                let s = stack.pop_front().unwrap();
                                q.push_back(s.trace.clone());
                                want -= 1;
                            }
                            drop(q);
                            sh.cv.notify_all();
                        }
                    }
                    Stop::End(o) => {
                        finish(w, &st, o, run);
                        if w.viol.len() > seen {
                            seen = w.viol.len();
                            let n = sh.nviol.fetch_add(1, Ordering::SeqCst) + 1;
                            let mut g = sh.stop_at.lock().unwrap();
                            if g.is_none() { *g = Some(Instant::now() + Duration::from_secs(10)); }
                            if n >= 200 { sh.stop.store(true, Ordering::SeqCst); }
                        }
                        break;
                    }
                }
                if sh.stop.load(Ordering::Relaxed) { return; }
            }
            let now = Instant::now();
            if now > sh.deadline { sh.timed_out.store(true, Ordering::SeqCst); sh.stop.store(true, Ordering::SeqCst); }
            if sh.nviol.load(Ordering::Relaxed) > 0 { if let Some(t) = *sh.stop_at.lock().unwrap() { if now > t { sh.stop.store(true, Ordering::SeqCst); } } }
            if sh.stop.load(Ordering::Relaxed) { return; }
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut irf, mut out, mut threads) = (String::new(), String::new(), 0usize);
    let mut runs: Vec<Run> = vec![];
    let mut trace = false;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--ir" => irf = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--threads" => threads = args.next().unwrap().parse().unwrap(),
            "--trace" => trace = true,
            // entry[,k=v]*
            "--run" => {
                let s = args.next().unwrap();
                let mut it = s.split(',');
                let mut r = Run { entry: it.next().unwrap().into(), params: vec![], time: 600, steps: 60_000_000, allow: vec![] };
                for kv in it {
                    let (k, v) = kv.split_once('=').unwrap();
                    match k { "time" => r.time = v.parse().unwrap(), "steps" => r.steps = v.parse().unwrap(), "allow" => r.allow.push(v.into()),
                        _ => r.params.push((k.into(), v.parse().unwrap())) }
                }
                runs.push(r);
            }
            a => panic!("bad argument {}", a),
        }
    }
    if threads == 0 { threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4); }
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(match llvm::load(&irf) { Ok(m) => m, Err(e) => { eprintln!("svx: {}", e); std::process::exit(2) } }));
    let bi: &'static [Option<BI>] = Box::leak(m.funcs.iter().map(|f| builtins::resolve(&f.name)).collect::<Vec<_>>().into_boxed_slice());
    let load = t0.elapsed().as_secs_f64();
    eprintln!("svx: {} functions, {} globals, loaded in {:.2}s", m.funcs.len(), m.globals.len(), load);
    let mut res = vec![];
    for run in &runs {
        let f = match m.fnames.get(&run.entry) { Some(f) => *f, None => { eprintln!("svx: no entry {}", run.entry); std::process::exit(2) } };
        let t = Instant::now();
        let sh = Shared { queue: Mutex::new(VecDeque::from([vec![]])), cv: Condvar::new(), idle: AtomicUsize::new(0), threads, stop: AtomicBool::new(false),
            timed_out: AtomicBool::new(false), nviol: AtomicUsize::new(0), deadline: t + Duration::from_secs(run.time), stop_at: Mutex::new(None) };
        struct Out { st: Stats, viol: Vec<Violation>, used: Vec<bool>, q: (u64, u64, u64, u64, u64), died: bool }
        let outs: Vec<Out> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|_| {
                let sh = &sh;
                std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || {
                    let mut w = Worker::new(m, bi);
                    w.params = run.params.clone();
                    w.max_steps = run.steps;
                    w.trace_calls = trace;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(&mut w, f, sh, run)));
                    if r.is_err() { sh.stop.store(true, Ordering::SeqCst); }
                    Out { viol: std::mem::take(&mut w.viol), used: std::mem::take(&mut w.used),
                        q: (w.z.queries, w.z.cache_hits, w.z.nanos, w.z.sat, w.z.unsat), st: std::mem::take(&mut w.st), died: r.is_err() }
                }).unwrap()
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let secs = t.elapsed().as_secs_f64();
        let mut a = Stats::default();
        let mut viol: Vec<Violation> = vec![];
        let mut used = vec![false; m.funcs.len()];
        let mut q = (0, 0, 0, 0, 0);
        let mut died = false;
        for o in outs {
            died |= o.died;
            a.paths += o.st.paths; a.done += o.st.done; a.infeasible += o.st.infeasible; a.forks += o.st.forks; a.steps += o.st.steps;
            a.max_steps = a.max_steps.max(o.st.max_steps); a.max_vars = a.max_vars.max(o.st.max_vars);
            a.audited_forks += o.st.audited_forks; a.audited_paths += o.st.audited_paths; a.samples.extend(o.st.samples);
            for (k, v) in o.st.checks { let e = a.checks.entry(k).or_default(); e.0 += v.0; e.1 += v.1; e.2 += v.2; }
            for (k, v) in o.st.reach { *a.reach.entry(k).or_default() += v; }
            for (k, v) in o.st.ends { *a.ends.entry(k).or_default() += v; }
            for i in 0..used.len() { used[i] |= o.used[i]; }
            q.0 += o.q.0; q.1 += o.q.1; q.2 += o.q.2; q.3 += o.q.3; q.4 += o.q.4;
            viol.extend(o.viol);
        }
        viol.sort_by(|x, y| (&x.kind, &x.id, x.choices.len(), &x.choices).cmp(&(&y.kind, &y.id, y.choices.len(), &y.choices)));
        let mut per: BTreeMap<(String, String), usize> = BTreeMap::new();
        viol.retain(|v| { let c = per.entry((v.kind.clone(), v.id.clone())).or_default(); *c += 1; *c <= 12 });
        let complete = !sh.timed_out.load(Ordering::SeqCst) && !died && viol.is_empty();
        let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        eprintln!("svx: {} {:?}: {} paths ({} done, {} assumed away), {} forks, {} steps, {:.1}s, {} solver queries ({} cached) {:.1}s, {} violations{}{}",
            run.entry, run.params, a.paths, a.done, a.infeasible, a.forks, a.steps, secs, q.0, q.1, q.2 as f64 / 1e9, viol.len(),
            if sh.timed_out.load(Ordering::SeqCst) { " TIMED OUT" } else { "" }, if died { " ENGINE ERROR" } else { "" });
        let fns: Vec<String> = used.iter().enumerate().filter(|(_, u)| **u).map(|(i, _)| js(&m.funcs[i].name)).collect();
        res.push(format!("{{\"entry\":{},\"params\":{{{}}},\"complete\":{},\"timed_out\":{},\"engine_error\":{},\"paths\":{},\"done\":{},\"assumed_away\":{},\"forks\":{},\"instructions\":{},\"max_path_instructions\":{},\"symbolic_bytes\":{},\"seconds\":{:.3},\"queries\":{},\"cached_queries\":{},\"sat\":{},\"unsat\":{},\"solver_seconds\":{:.3},\"checks\":{{{}}},\"reach\":{},\"ends\":{},\"audited_forks\":{},\"audited_paths\":{},\"samples\":[{}],\"violations\":[{}],\"functions\":[{}]}}",
            js(&run.entry), run.params.iter().map(|p| format!("{}:{}", js(&p.0), p.1)).collect::<Vec<_>>().join(","), complete,
            sh.timed_out.load(Ordering::SeqCst), died, a.paths, a.done, a.infeasible, a.forks, a.steps, a.max_steps, a.max_vars, secs, q.0, q.1, q.3, q.4, q.2 as f64 / 1e9,
            a.checks.iter().map(|(k, v)| format!("{}:[{},{},{}]", js(k), v.0, v.1, v.2)).collect::<Vec<_>>().join(","), map(&a.reach), map(&a.ends), a.audited_forks, a.audited_paths, a.samples.join(","),
            viol.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"input\":[{}],\"note\":{}}}", js(&v.kind), js(&v.id), v.choices.join(","), js(&v.note))).collect::<Vec<_>>().join(","),
            fns.join(",")));
    }
    let doc = format!("{{\"z3\":{},\"load_seconds\":{:.3},\"threads\":{},\"functions_in_module\":{},\"runs\":[{}]}}\n", js(&solver::version()), load, threads, m.funcs.len(), res.join(",\n"));
    if out.is_empty() { println!("{}", doc) } else { std::fs::write(&out, doc).unwrap() }
    // The module is leaked on purpose; skip teardown.
    std::process::exit(0);
}
