//! Stand-ins for the C and C++ libraries, for Miri only: same contracts, and every byte they touch is checked.
use std::os::raw::{c_char, c_int};
use std::slice;

fn input<'a>(p: *const c_char, n: usize) -> &'a [u8] { if n == 0 { &[] } else { unsafe { slice::from_raw_parts(p as *const u8, n) } } }
fn touch(b: &[u8]) -> u64 { b.iter().fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(*x as u64)) }

use clickhouse_rs_cityhash_sys::UInt128 as U128;

#[no_mangle]
pub extern "C" fn CityHash128(s: *const c_char, len: usize) -> U128 {
    let (lo, hi) = crate::city::city128(input(s, len));
    U128 { lo, hi }
}

#[no_mangle]
pub extern "C" fn LZ4_compressBound(n: c_int) -> c_int { if !(0..=0x7E000000).contains(&n) { 0 } else { n + n / 255 + 16 } }

#[no_mangle]
pub extern "C" fn LZ4_compress_default(src: *const c_char, dst: *mut c_char, n: c_int, cap: c_int) -> c_int {
    let out = crate::lz4::compress(input(src, n as usize), None);
    if out.len() > cap as usize { return 0; }
    // the library may use the whole of the buffer
    let d = unsafe { slice::from_raw_parts_mut(dst as *mut std::mem::MaybeUninit<u8>, cap as usize) };
    for (a, b) in d.iter_mut().zip(&out) { a.write(*b); }
    out.len() as c_int
}

#[no_mangle]
pub extern "C" fn LZ4_decompress_safe(src: *const c_char, dst: *mut c_char, n: c_int, cap: c_int) -> c_int {
    if n <= 0 || cap < 0 { return -1; }
    let i = input(src, n as usize);
    touch(i);
    let d = unsafe { slice::from_raw_parts_mut(dst as *mut std::mem::MaybeUninit<u8>, cap as usize) };
    match crate::lz4::decompress(i, cap as usize) {
        Ok(v) if v.len() <= cap as usize => { for (a, b) in d.iter_mut().zip(&v) { a.write(*b); } v.len() as c_int }
        _ => -1,
    }
}
