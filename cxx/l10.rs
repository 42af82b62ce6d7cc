// The Rust half: the standard library is the reference.
#![allow(unused)]
use std::slice::from_raw_parts;
#[no_mangle] pub extern "C" fn r_char(u: u32, out: *mut u8) -> i32 {
    match char::from_u32(u) { None => -1, Some(c) => { let mut b = [0u8; 4]; let n = c.encode_utf8(&mut b).len(); unsafe { std::ptr::copy(b.as_ptr(), out, n) }; assert_eq!(n, c.len_utf8()); n as i32 } }
}
#[no_mangle] pub extern "C" fn r_char_cmp(a: char, b: char) -> i32 { a.cmp(&b) as i32 }
#[no_mangle] pub unsafe extern "C" fn r_utf8(p: *const u8, n: usize) -> bool { std::str::from_utf8(from_raw_parts(p, n)).is_ok() }
fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }
/// Looks at a &str which C++ made.
#[no_mangle] pub unsafe extern "C" fn r_str(s: *const &str, n: *mut usize, h: *mut u64) -> i32 {
    let s: &str = *s;
    if s.as_ptr().is_null() { return 1 }
    *n = s.len(); *h = fnv(s.as_bytes());
    if std::str::from_utf8(s.as_bytes()).is_err() { return 2 }
    0
}
/// Makes a &str for C++: chars a..b of s.
#[no_mangle] pub unsafe extern "C" fn r_sub(s: *const &'static str, a: usize, b: usize, out: *mut &'static str) {
    let s: &'static str = *s;
    let cut = |k: usize| s.char_indices().map(|x| x.0).chain([s.len()]).nth(k).unwrap_or(s.len());
    let (x, y) = (cut(a), cut(b)); *out = &s[x.min(y)..x.max(y)];
}
#[no_mangle] pub unsafe extern "C" fn r_str_cmp(a: *const &str, b: *const &str) -> i32 { let (a, b): (&str, &str) = (*a, *b); a.cmp(b) as i32 }
macro_rules! slices { ($($t:ty, $sum:ident, $inc:ident, $sub:ident, $eq:ident;)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $sum(s: *const &[$t], n: *mut usize) -> u64 {
        let s: &[$t] = *s; *n = if s.as_ptr().is_null() || s.as_ptr() as usize % align_of::<$t>() != 0 { usize::MAX } else { s.len() };
        s.iter().fold(7u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64)) }
    #[no_mangle] pub unsafe extern "C" fn $inc(s: *mut &mut [$t], by: $t) { let s: &mut [$t] = *s; for x in s { *x = x.wrapping_add(by) } }
    #[no_mangle] pub unsafe extern "C" fn $sub(s: *const &'static [$t], a: usize, b: usize, out: *mut &'static [$t]) { let s: &'static [$t] = *s; let (a, b) = (a.min(s.len()), b.min(s.len())); *out = &s[a.min(b)..a.max(b)] }
    #[no_mangle] pub unsafe extern "C" fn $eq(a: *const &[$t], b: *const &[$t]) -> bool { let (a, b): (&[$t], &[$t]) = (*a, *b); a == b }
)* } }
slices! { u8, sum_u8, inc_u8, sub_u8, eq_u8; u16, sum_u16, inc_u16, sub_u16, eq_u16; i32, sum_i32, inc_i32, sub_i32, eq_i32; u64, sum_u64, inc_u64, sub_u64, eq_u64; i8, sum_i8, inc_i8, sub_i8, eq_i8; }
