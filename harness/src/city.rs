//! Independent implementation of CityHash128 v1.0.2 (the one ClickHouse uses),
//! written from the published algorithm. Oracle only.

const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;
const K3: u64 = 0xc949d7c7509e6557;

fn f64_(s: &[u8]) -> u64 { u64::from_le_bytes(s[..8].try_into().unwrap()) }
fn f32_(s: &[u8]) -> u64 { u32::from_le_bytes(s[..4].try_into().unwrap()) as u64 }
fn rot(v: u64, n: u32) -> u64 { v.rotate_right(n) }
fn shift_mix(v: u64) -> u64 { v ^ (v >> 47) }

fn hash128to64(lo: u64, hi: u64) -> u64 {
    const M: u64 = 0x9ddfea08eb382d69;
    let mut a = (lo ^ hi).wrapping_mul(M);
    a ^= a >> 47;
    let mut b = (hi ^ a).wrapping_mul(M);
    b ^= b >> 47;
    b.wrapping_mul(M)
}

fn hash_len16(u: u64, v: u64) -> u64 { hash128to64(u, v) }

fn hash_len0to16(s: &[u8]) -> u64 {
    let len = s.len();
    if len > 8 {
        let a = f64_(s);
        let b = f64_(&s[len - 8..]);
        return hash_len16(a, rot(b.wrapping_add(len as u64), len as u32)) ^ b;
    }
    if len >= 4 {
        let a = f32_(s);
        return hash_len16((len as u64).wrapping_add(a << 3), f32_(&s[len - 4..]));
    }
    if len > 0 {
        let a = s[0] as u32;
        let b = s[len >> 1] as u32;
        let c = s[len - 1] as u32;
        let y = a.wrapping_add(b << 8);
        let z = (len as u32).wrapping_add(c << 2);
        return shift_mix((y as u64).wrapping_mul(K2) ^ (z as u64).wrapping_mul(K3)).wrapping_mul(K2);
    }
    K2
}

fn weak32(w: u64, x: u64, y: u64, z: u64, mut a: u64, mut b: u64) -> (u64, u64) {
    a = a.wrapping_add(w);
    b = rot(b.wrapping_add(a).wrapping_add(z), 21);
    let c = a;
    a = a.wrapping_add(x);
    a = a.wrapping_add(y);
    b = b.wrapping_add(rot(a, 44));
    (a.wrapping_add(z), b.wrapping_add(c))
}
fn weak32s(s: &[u8], a: u64, b: u64) -> (u64, u64) {
    weak32(f64_(s), f64_(&s[8..]), f64_(&s[16..]), f64_(&s[24..]), a, b)
}

fn murmur(s: &[u8], seed: (u64, u64)) -> (u64, u64) {
    let len = s.len();
    let (mut a, mut b) = seed;
    let mut c;
    let mut d;
    let mut l = len as isize - 16;
    if l <= 0 {
        a = shift_mix(a.wrapping_mul(K1)).wrapping_mul(K1);
        c = b.wrapping_mul(K1).wrapping_add(hash_len0to16(s));
        d = shift_mix(a.wrapping_add(if len >= 8 { f64_(s) } else { c }));
    } else {
        c = hash_len16(f64_(&s[len - 8..]).wrapping_add(K1), a);
        d = hash_len16(b.wrapping_add(len as u64), c.wrapping_add(f64_(&s[len - 16..])));
        a = a.wrapping_add(d);
        let mut p = 0;
        loop {
            a ^= shift_mix(f64_(&s[p..]).wrapping_mul(K1)).wrapping_mul(K1);
            a = a.wrapping_mul(K1);
            b ^= a;
            c ^= shift_mix(f64_(&s[p + 8..]).wrapping_mul(K1)).wrapping_mul(K1);
            c = c.wrapping_mul(K1);
            d ^= c;
            p += 16;
            l -= 16;
            if l <= 0 { break; }
        }
    }
    a = hash_len16(a, c);
    b = hash_len16(d, b);
    (a ^ b, hash_len16(b, a))
}

fn with_seed(s0: &[u8], seed: (u64, u64)) -> (u64, u64) {
    if s0.len() < 128 {
        return murmur(s0, seed);
    }
    let mut len = s0.len();
    let mut p = 0usize;
    let (mut x, mut y) = seed;
    let mut z = (len as u64).wrapping_mul(K1);
    let mut v = (0u64, 0u64);
    let mut w = (0u64, 0u64);
    v.0 = rot(y ^ K1, 49).wrapping_mul(K1).wrapping_add(f64_(s0));
    v.1 = rot(v.0, 42).wrapping_mul(K1).wrapping_add(f64_(&s0[8..]));
    w.0 = rot(y.wrapping_add(z), 35).wrapping_mul(K1).wrapping_add(x);
    w.1 = rot(x.wrapping_add(f64_(&s0[88..])), 53).wrapping_mul(K1);
    loop {
        for _ in 0..2 {
            let s = &s0[p..];
            x = rot(x.wrapping_add(y).wrapping_add(v.0).wrapping_add(f64_(&s[16..])), 37).wrapping_mul(K1);
            y = rot(y.wrapping_add(v.1).wrapping_add(f64_(&s[48..])), 42).wrapping_mul(K1);
            x ^= w.1;
            y ^= v.0;
            z = rot(z ^ w.0, 33);
            v = weak32s(s, v.1.wrapping_mul(K1), x.wrapping_add(w.0));
            w = weak32s(&s[32..], z.wrapping_add(w.1), y);
            std::mem::swap(&mut z, &mut x);
            p += 64;
        }
        len -= 128;
        if len < 128 { break; }
    }
    y = y.wrapping_add(rot(w.0, 37).wrapping_mul(K0)).wrapping_add(z);
    x = x.wrapping_add(rot(v.0.wrapping_add(z), 49).wrapping_mul(K0));
    let end = s0.len();
    let mut tail = 0;
    while tail < len {
        tail += 32;
        y = rot(y.wrapping_sub(x), 42).wrapping_mul(K0).wrapping_add(v.1);
        w.0 = w.0.wrapping_add(f64_(&s0[end - tail + 16..]));
        x = rot(x, 49).wrapping_mul(K0).wrapping_add(w.0);
        w.0 = w.0.wrapping_add(v.0);
        v = weak32s(&s0[end - tail..], v.0, v.1);
    }
    x = hash_len16(x, v.0);
    y = hash_len16(y, w.0);
    (hash_len16(x.wrapping_add(v.1), w.1).wrapping_add(y), hash_len16(x.wrapping_add(w.1), y.wrapping_add(v.1)))
}

/// (lo, hi)
pub fn city128(s: &[u8]) -> (u64, u64) {
    let len = s.len();
    if len >= 16 {
        with_seed(&s[16..], (f64_(s) ^ K3, f64_(&s[8..])))
    } else if len >= 8 {
        with_seed(&[], (f64_(s) ^ (len as u64).wrapping_mul(K0), f64_(&s[len - 8..]) ^ K1))
    } else {
        with_seed(s, (K0, K1))
    }
}
