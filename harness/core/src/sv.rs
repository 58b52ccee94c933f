//! Interface to the symbolic engine (or, in the replay build, to an input file).
#![allow(dead_code)]
mod raw {
    extern "C" {
        pub fn sv_byte() -> u8;
        pub fn sv_choice(n: u32) -> u32;
        pub fn sv_assume(c: bool);
        pub fn sv_check(c: bool, p: *const u8, n: usize);
        pub fn sv_reach(p: *const u8, n: usize);
        pub fn sv_param(p: *const u8, n: usize, default: i64) -> i64;
        pub fn sv_file(p: *const u8, n: usize, d: *const u8, m: usize);
        pub fn sv_node(p: *const u8, n: usize, kind: u32);
        pub fn sv_env(p: *const u8, n: usize, d: *const u8, m: usize);
        pub fn sv_clock(secs: i64);
        pub fn sv_hash_mode(n: u32);
        pub fn sv_note(p: *const u8, n: usize, d: *const u8, m: usize);
        pub fn sv_captured(fd: u32, p: *mut u8, cap: usize) -> usize;
        pub fn sv_stdin(p: *const u8, n: usize);
        pub fn sv_args(p: *const u8, n: usize);
        pub fn sv_on_exit(f: extern "C" fn(i32));
        pub fn sv_times(p: *const u8, n: usize, mtime: i64, ctime: i64);
        pub fn sv_print(p: *const u8, n: usize);
    }
}
/// Any byte.
pub fn byte() -> u8 { unsafe { raw::sv_byte() } }
/// Any of 0 .. n (explored one by one).
pub fn choice(n: u32) -> u32 { unsafe { raw::sv_choice(n) } }
pub fn pick<T: Copy>(xs: &[T]) -> T { xs[choice(xs.len() as u32) as usize] }
pub fn assume(c: bool) { unsafe { raw::sv_assume(c) } }
pub fn check(c: bool, id: &str) { unsafe { raw::sv_check(c, id.as_ptr(), id.len()) } }
pub fn reach(id: &str) { unsafe { raw::sv_reach(id.as_ptr(), id.len()) } }
pub fn fail(id: &str) { check(false, id) }
pub fn param(id: &str, default: i64) -> i64 { unsafe { raw::sv_param(id.as_ptr(), id.len(), default) } }
pub fn file(path: &str, data: &str) { unsafe { raw::sv_file(path.as_ptr(), path.len(), data.as_ptr(), data.len()) } }
pub fn dir(path: &str) { unsafe { raw::sv_node(path.as_ptr(), path.len(), 0) } }
pub fn broken_link(path: &str) { unsafe { raw::sv_node(path.as_ptr(), path.len(), 1) } }
pub fn env(k: &str, v: &str) { unsafe { raw::sv_env(k.as_ptr(), k.len(), v.as_ptr(), v.len()) } }
pub fn clock(secs: i64) { unsafe { raw::sv_clock(secs) } }
/// From here on hashes are an arbitrary function with values 0 .. n (0: constant).
pub fn hash_mode(n: u32) { unsafe { raw::sv_hash_mode(n) } }
pub fn note(name: &str, v: &str) { unsafe { raw::sv_note(name.as_ptr(), name.len(), v.as_ptr(), v.len()) } }
pub fn stdin(s: &str) { unsafe { raw::sv_stdin(s.as_ptr(), s.len()) } }
/// The command line, from the program name on.
pub fn args(a: &[&str]) { let s = a.join("\0"); unsafe { raw::sv_args(s.as_ptr(), s.len()) } }
/// Called with the exit code when the process exits.
pub fn on_exit(f: extern "C" fn(i32)) { unsafe { raw::sv_on_exit(f) } }
pub fn times(path: &str, mtime: i64, ctime: i64) { unsafe { raw::sv_times(path.as_ptr(), path.len(), mtime, ctime) } }
pub fn print(v: &str) { unsafe { raw::sv_print(v.as_ptr(), v.len()) } }
pub fn captured(fd: u32) -> String {
    let mut b = vec![0u8; 1 << 16];
    let n = unsafe { raw::sv_captured(fd, b.as_mut_ptr(), b.len()) };
    b.truncate(n);
    unsafe { String::from_utf8_unchecked(b) }
}
/// A byte from lo to hi.
pub fn between(lo: u8, hi: u8) -> u8 { let b = byte(); assume(in_range(b, lo, hi)); b }
pub fn letter() -> u8 { between(b'a', b'z') }
pub fn digit() -> u8 { between(b'0', b'9') }
/// n lower case letters.
pub fn word(n: usize) -> String { let v: Vec<u8> = (0..n).map(|_| letter()).collect(); unsafe { String::from_utf8_unchecked(v) } }
pub fn digits(n: usize) -> String { let v: Vec<u8> = (0..n).map(|_| digit()).collect(); unsafe { String::from_utf8_unchecked(v) } }
/// Equality without branching on the contents.
pub fn same(a: &str, b: &str) -> bool { a.len() == b.len() && a.as_bytes() == b.as_bytes() }
/// Membership without branching.
pub fn is_one_of(b: u8, set: &[u8]) -> bool {
    let mut r = false;
    for s in set { r |= b == *s; }
    r
}
pub fn in_range(b: u8, lo: u8, hi: u8) -> bool { (b >= lo) & (b <= hi) }
/// A byte restricted to `set`.
pub fn byte_of(set: &[u8]) -> u8 { let b = byte(); assume(is_one_of(b, set)); b }
/// An ASCII byte other than NUL.
pub fn ascii() -> u8 { let b = byte(); assume((b < 128) & (b != 0)); b }
pub fn ascii_string(n: usize) -> String {
    let v: Vec<u8> = (0..n).map(|_| ascii()).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn string_of(n: usize, set: &[u8]) -> String {
    let v: Vec<u8> = (0..n).map(|_| byte_of(set)).collect();
    unsafe { String::from_utf8_unchecked(v) }
}
