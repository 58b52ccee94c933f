//! Runs one harness natively on a concrete input found by the solver.
//!
//!     svreplay ENTRY RESULT-FILE TOKENS [k=v …]     (cwd: an empty scratch directory)
//!
//! TOKENS: comma separated; below 256: a byte, 1000 + k: choice k.
//! One line per event is appended to RESULT-FILE.
use std::io::Write;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::OnceLock;

struct Conf { tokens: Vec<u32>, params: Vec<(String, i64)>, out: String }
static CONF: OnceLock<Conf> = OnceLock::new();
static POS: AtomicUsize = AtomicUsize::new(0);
static CLOCK: AtomicI64 = AtomicI64::new(1_000_000_000);
static EXIT: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn on_exit(f: extern "C" fn(i32, *mut u8), arg: *mut u8) -> i32;
    fn _exit(c: i32) -> !;
    fn dup2(a: i32, b: i32) -> i32;
    fn dup(a: i32) -> i32;
}
#[repr(C)]
pub struct Timespec { s: i64, n: i64 }
#[cfg(not(sv_asan))]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut Timespec) -> i32 { (*t).s = CLOCK.load(SeqCst); (*t).n = 0; 0 }

fn st<'a>(p: *const u8, n: usize) -> &'a str { unsafe { std::str::from_utf8_unchecked(bs(p, n)) } }
fn bs<'a>(p: *const u8, n: usize) -> &'a [u8] { if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } } }
fn conf() -> &'static Conf { CONF.get().unwrap() }
fn event(s: &str) {
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&conf().out).unwrap();
    let _ = f.write_all(format!("{}\n", s.replace('\n', " ")).as_bytes());
}
fn quit(c: i32) -> ! { unsafe { _exit(c) } }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn next() -> Option<u32> { conf().tokens.get(POS.fetch_add(1, SeqCst)).copied() }
#[no_mangle]
pub extern "C" fn sv_byte() -> u8 { next().map(|t| t as u8).unwrap_or(b'a') }
#[no_mangle]
pub extern "C" fn sv_choice(n: u32) -> u32 { next().map(|t| t.wrapping_sub(1000)).unwrap_or(0).min(n.max(1) - 1) }
#[no_mangle]
pub extern "C" fn sv_assume(c: bool) { if !c && sv_param("crash".as_ptr(), 5, 0) == 0 { event("assumed-away"); quit(40) } }
#[no_mangle]
pub extern "C" fn sv_check(c: bool, p: *const u8, n: usize) { if !c && sv_param("crash".as_ptr(), 5, 0) == 0 { event(&format!("check {}", st(p, n))); quit(42) } }
#[no_mangle]
pub extern "C" fn sv_reach(p: *const u8, n: usize) { event(&format!("reach {}", st(p, n))) }
#[no_mangle]
pub extern "C" fn sv_param(p: *const u8, n: usize, d: i64) -> i64 {
    conf().params.iter().find(|x| x.0 == st(p, n)).map(|x| x.1).unwrap_or(d)
}
fn parents(p: &str) { if let Some(d) = std::path::Path::new(p).parent() { let _ = std::fs::create_dir_all(d); } }
fn inside(p: &str) -> &str { assert!(!p.starts_with('/') && !p.contains(".."), "replay keeps to its scratch directory"); p }
#[no_mangle]
pub extern "C" fn sv_file(p: *const u8, n: usize, d: *const u8, m: usize) {
    let p = inside(st(p, n));
    parents(p);
    std::fs::write(p, bs(d, m)).unwrap();
}
#[no_mangle]
pub extern "C" fn sv_node(p: *const u8, n: usize, kind: u32) {
    let p = inside(st(p, n));
    parents(p);
    match kind {
        0 => { let _ = std::fs::create_dir_all(p); }
        _ => { let _ = std::os::unix::fs::symlink("nowhere", p); }
    }
}
static TIMES: std::sync::Mutex<Vec<(String, i64, i64)>> = std::sync::Mutex::new(vec![]);
/// Puts the new file or directory in the place of the old one.
fn replace(new: &str, p: &str) {
    if std::path::Path::new(p).is_dir() {
        for e in std::fs::read_dir(p).unwrap() { let e = e.unwrap(); std::fs::rename(e.path(), std::path::Path::new(new).join(e.file_name())).unwrap(); }
        std::fs::remove_dir(p).unwrap();
    }
    std::fs::rename(new, p).unwrap();
}
#[no_mangle]
pub extern "C" fn sv_times(p: *const u8, n: usize, m: i64, c: i64) {
    let mut all = TIMES.lock().unwrap();
    all.push((inside(st(p, n)).to_string(), m, c));
    all.sort_by_key(|e| e.2);
    let born = |p: &str| std::fs::metadata(p).unwrap().created().unwrap();
    // All are made anew beside their places, where nothing looks at them in between.
    // The clock may tick between two that are to be created together: again, until they are.
    for _ in 0..20 {
        std::fs::create_dir("new~").unwrap();
        let mut last = None;
        for (k, e) in all.iter().enumerate() {
            if last.is_some() && last != Some(e.2) { std::thread::sleep(std::time::Duration::from_millis(12)); }
            let t = format!("new~/{}", k);
            if std::path::Path::new(&e.0).is_dir() { std::fs::create_dir(&t).unwrap(); } else { std::fs::write(&t, std::fs::read(&e.0).unwrap()).unwrap(); }
            last = Some(e.2);
        }
        for (k, e) in all.iter().enumerate() { replace(&format!("new~/{}", k), &e.0); }
        std::fs::remove_dir("new~").unwrap();
        if all.windows(2).all(|w| (w[0].2 == w[1].2) == (born(&w[0].0) == born(&w[1].0))) { break; }
    }
    for e in all.iter() {
        std::fs::File::open(&e.0).unwrap().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(e.1 as u64)).unwrap();
    }
}
#[no_mangle]
pub extern "C" fn sv_env(p: *const u8, n: usize, d: *const u8, m: usize) { unsafe { std::env::set_var(st(p, n), st(d, m)) } }
#[no_mangle]
pub extern "C" fn sv_clock(s: i64) { CLOCK.store(s, SeqCst) }
#[no_mangle]
pub extern "C" fn sv_hash_mode(_: u32) {}
#[no_mangle]
pub extern "C" fn sv_note(p: *const u8, n: usize, d: *const u8, m: usize) {
    event(&format!("note {} {}", st(p, n), hex(bs(d, m))))
}
#[no_mangle]
pub extern "C" fn sv_print(p: *const u8, n: usize) { eprintln!("PRINT {}", st(p, n)) }
fn redirect(fd: i32, name: &str) {
    let f = std::fs::OpenOptions::new().append(true).create(true).open(format!("../{}", name)).unwrap();
    unsafe { dup2(f.as_raw_fd(), fd); }
}
#[no_mangle]
pub extern "C" fn sv_captured(fd: u32, p: *mut u8, cap: usize) -> usize {
    let _ = std::io::stdout().flush();
    let d = std::fs::read(format!("../fd{}", fd)).unwrap_or_default();
    let n = d.len().min(cap);
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), p, n); }
    d.len()
}
#[no_mangle]
pub extern "C" fn sv_stdin(p: *const u8, n: usize) {
    std::fs::write("../stdin", bs(p, n)).unwrap();
    let f = std::fs::File::open("../stdin").unwrap();
    unsafe { dup2(f.as_raw_fd(), 0); }
}
extern "C" fn exiting(code: i32, _: *mut u8) {
    let f: extern "C" fn(i32) = unsafe { std::mem::transmute(EXIT.load(SeqCst)) };
    f(code);
    event("done");
    quit(0)
}
#[no_mangle]
pub extern "C" fn sv_on_exit(f: extern "C" fn(i32)) { EXIT.store(f as usize, SeqCst); unsafe { on_exit(exiting, std::ptr::null_mut()); } }
/// The harness is started again with the command line it asks for.
#[no_mangle]
pub extern "C" fn sv_args(p: *const u8, n: usize) {
    if std::env::var("SV_ARGS_SET").is_ok() { return; }
    use std::os::unix::process::CommandExt;
    let v: Vec<&str> = st(p, n).split('\0').collect();
    let e = std::process::Command::new("/proc/self/exe").arg0(v[0]).args(&v[1..])
        .env("SV_ARGS_SET", "1").env("SV_REPLAY", std::env::var("SV_REPLAY").unwrap()).exec();
    panic!("{}", e);
}
#[no_mangle]
pub extern "C" fn sv_is_symbolic(_: u8) -> u64 { 0 }

fn main() {
    let conf = match std::env::var("SV_REPLAY") { Ok(c) => c, Err(_) => { eprintln!("SV_REPLAY unset"); std::process::exit(2) } };
    let mut it = conf.split('\u{1}');
    let entry = it.next().unwrap().to_string();
    let out = it.next().unwrap().to_string();
    let tokens = it.next().unwrap().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let params = it.filter(|s| !s.is_empty()).map(|s| { let (k, v) = s.split_once('=').unwrap(); (k.to_string(), v.parse().unwrap()) }).collect();
    let _ = CONF.set(Conf { tokens, params, out });
    redirect(1, "fd1");
    let tty = unsafe { dup(2) };
    let _ = tty;
    if cfg!(not(sv_asan)) { redirect(2, "fd2"); }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        event(&format!("panic {}", l));
        quit(43)
    }));
    let f = svh::entry(&entry).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(2) });
    // Same stack as a main thread has; the harness runs in a thread so that the size is fixed.
    f();
    event("done");
    quit(0)
}
