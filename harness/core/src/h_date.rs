//! Dates and timestamps.
use crate::{h_macro::expands_to, refr::N, sv};

fn s(ws: &str, v: &str) -> N { N::Str(ws.into(), v.into()) }
/// The calendar day `z` days after 1970-01-01.
fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, doy - (153 * mp + 2) / 5 + 1)
}
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
fn two(n: i64) -> String { let v = vec![b'0' + (n / 10) as u8, b'0' + (n % 10) as u8]; crate::util::utf8(v) }
/// An offset as written, and in seconds.
fn zone() -> (String, Option<i64>) {
    let (a, b) = match sv::choice(8) {
        0 => return (String::new(), Some(0)),
        1 => { let d = sv::digit(); (format!("{}", d as char), Some((d - b'0') as i64 * 3600)) }
        2 => { let d = sv::digit(); (format!("-{}", d as char), Some((d - b'0') as i64 * -3600)) }
        3 => ("+5.5".into(), Some(19800)),
        4 => ("-3.5".into(), Some(-12600)),
        5 => ("5.75".into(), Some(20700)),
        6 => { let d = sv::digit(); (format!("2{}", d as char), if d < b'4' { Some(((d - b'0') as i64 + 20) * 3600) } else { None }) }
        _ => (sv::pick(&["-24", "1000000", "a", "0x1", "\"1\"", "(1)"]).into(), None),
    };
    (format!(" :timezone {}", a), b)
}
/// A moment: its digits, k of them arbitrary.
#[no_mangle]
pub extern "C" fn h_date() {
    let k = sv::param("n", 1) as usize;
    let base = sv::pick(&["0", "951868799", "1709164799", "1672531199", "68169600", "4107542399", "1000000000"]);
    let keep = base.len().saturating_sub(k);
    let neg = sv::choice(2) == 1;
    let mut secs = 0i64;
    for c in base[..keep].bytes() { secs = secs * 10 + (c - b'0') as i64; }
    let low = sv::digits(k);
    for c in low.bytes() { secs = secs * 10 + (c - b'0') as i64; }
    let t = if neg { -secs } else { secs };
    let (zs, off) = if k < 2 { zone() } else { let z = sv::pick(&[("", Some(0)), (" :timezone -3.5", Some(-12600)), (" :timezone 5.75", Some(20700))]); (z.0.to_string(), z.1) };
    let text = format!("{}{}{}", if neg { "-" } else { "" }, &base[..keep], low);
    let ws = sv::pick(&["", "\n"]);
    let f = sv::pick(&["%Y-%m-%d", "%H:%M:%S", "[%d.%m]%%", "%A", "%Q", "%", "%z", "%s %y"]);
    let src = format!("x{}(%date \"{}\"{} {})", ws, f, zs, text);
    let want = match off {
        None => None,
        Some(off) => {
            let t = t + off;
            // The day is one of the few the base can lie on.
            let b0 = { let mut b = 0i64; for c in base[..keep].bytes() { b = b * 10 + (c - b'0') as i64; } for _ in 0..k { b *= 10; } if neg { -b } else { b } };
            let mut day = b0.div_euclid(86400) - 2;
            while t >= (day + 1) * 86400 { day += 1; }
            let sod = t - day * 86400;
            let (y, m, d) = civil(day);
            match f {
                "%Y-%m-%d" => Some(format!("{}-{}-{}", y, two(m), two(d))),
                "%H:%M:%S" => Some(format!("{}:{}:{}", two(sod / 3600), two(sod / 60 % 60), two(sod % 60))),
                "[%d.%m]%%" => Some(format!("[{}.{}]%", two(d), two(m))),
                "%A" => Some(["Thursday", "Friday", "Saturday", "Sunday", "Monday", "Tuesday", "Wednesday"][day.rem_euclid(7) as usize].into()),
                "%z" => { let (s, a) = if off < 0 { ("-", -off) } else { ("+", off) }; Some(format!("{}{}{}", s, two(a / 3600), two(a / 60 % 60))) }
                "%s %y" => Some(format!("{}{} {}", if neg && secs != 0 { "-" } else { "" }, { let mut b = [base[..keep].as_bytes(), low.as_bytes()].concat(); let mut z = 0; while z + 1 < b.len() && b[z] == b'0' { z += 1; } b.drain(..z); crate::util::utf8(b) }, two(y.rem_euclid(100)))),
                _ => None,
            }
        }
    };
    expands_to(&src, &[], want.map(|w| vec![N::Sym(String::new(), "x".into()), s(ws, &w)]), "the date of a moment");
}
/// A date and time of any digits, and the moment it names.
#[no_mangle]
pub extern "C" fn h_timestamp() {
    let years = &["2024", "1900", "1970", "2000", "2023", "0001"];
    let year = sv::pick(&years[..sv::param("years", 6) as usize]);
    let which = sv::param("which", 0);
    let two_or = |sym: bool, v: &'static str| -> String { if sym { sv::digits(2) } else { v.into() } };
    let (mo, da) = (two_or(which == 0, "02"), two_or(which == 1, sv::pick(&["01", "28", "29"])));
    let (h, mi, se) = (two_or(which == 2, "23"), two_or(which == 3, "59"), two_or(which == 4, "07"));
    let num = |s: &str| { let b = s.as_bytes(); (b[0] - b'0') as i64 * 10 + (b[1] - b'0') as i64 };
    // Zones in one year, the rest in every one.
    let zoned = year == "2024";
    let (zs, off) = if zoned && sv::param("zones", 1) == 1 { zone() } else if zoned { let z = sv::pick(&[("", Some(0)), (" :timezone -3.5", Some(-12600)), (" :timezone 5.75", Some(20700)), (" :timezone -24", None)]); (z.0.to_string(), z.1) } else { (String::new(), Some(0)) };
    let form = sv::choice(3);
    let inside = if zoned && form == 1 { sv::pick(&[("+0000", 0i64), ("-0330", -12600), ("+14:00", 50400)]) } else { ("+0100", 3600) };
    let (f, d) = match form {
        0 => ("%Y-%m-%d %H:%M:%S", format!("{}-{}-{} {}:{}:{}", year, mo, da, h, mi, se)),
        1 => ("%d.%m.%Y %H:%M:%S %z", format!("{}.{}.{} {}:{}:{} {}", da, mo, year, h, mi, se, inside.0)),
        _ => ("%Y-%m-%d %H:%M", format!("{}-{}-{} {}:{}:{}", year, mo, da, h, mi, se)),
    };
    let ws = if zoned { sv::pick(&["", " "]) } else { "\n" };
    let src = format!("x{}(%timestamp{} \"{}\" \"{}\")", ws, zs, f, d);
    let y: i64 = year.parse().unwrap();
    // Months and days are few: find which.
    let mut m = 0; for i in 1..13 { if num(&mo) == i { m = i; break } }
    let mut dd = 0; for i in 1..32 { if num(&da) == i { dd = i; break } }
    let long = [0, 31, if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let ok = m > 0 && dd > 0 && dd <= long[m as usize] && form != 2;
    let (hh, mm, ss) = (num(&h), num(&mi), num(&se));
    if !(ok && hh < 24 && mm < 60 && ss <= 60) || off.is_none() { expands_to(&src, &[], None, "the moment of a date"); return; }
    let t = days(y, m, dd) * 86400 + hh * 3600 + mm * 60 + ss - if form == 1 { inside.1 } else { off.unwrap() };
    // A leap second counts as the one before it.
    let t = if ss == 60 { t - 1 } else { t };
    sv::note("moment", &format!("{}", t));
    // Written out again.
    let want = N::Num(ws.into(), format!("{}", t));
    expands_to(&src, &[], Some(vec![N::Sym(String::new(), "x".into()), want]), "the moment of a date");
}
/// Offsets with fractions: what each shifts the time by.
#[no_mangle]
pub extern "C" fn h_timezone() {
    let neg = sv::choice(3);
    let w = sv::digits(1);
    // A fraction of an hour, and the seconds it is, to the nearest.
    let (p, x) = sv::pick(&[(".5", 1800i64), (".25", 900), (".75", 2700), (".1", 360), (".9", 3240), (".01", 36), (".99", 3564), (".3333", 1200), (".0001", 0), (".0002", 1), (".9999", 3600), (".", 0), (".05", 180), (".125", 450)]);
    let z = format!("{}{}{}", ["", "-", "+"][neg as usize], w, p);
    let secs = (w.as_bytes()[0] - b'0') as i64 * 3600 + x;
    let off = if neg == 1 { -secs } else { secs };
    let t = 1000000 + off;
    let sod = t - 11 * 86400;
    let sod = if sod >= 86400 { sod - 86400 } else if sod < 0 { sod + 86400 } else { sod };
    let want = format!("{}:{}:{}", two(sod / 3600), two(sod / 60 % 60), two(sod % 60));
    expands_to(&format!("(%date \"%H:%M:%S\" 1000000 :timezone {})", z), &[], Some(vec![s("", &want)]), "the time in a zone");
}
