//! Independent LZ4 block codec (oracle side).
use crate::rng::Rng;

pub fn decompress(src: &[u8], expected: usize) -> Result<Vec<u8>, String> {
    let mut out = Vec::with_capacity(expected);
    let mut i = 0;
    loop {
        let t = *src.get(i).ok_or("lz4: no token")?;
        i += 1;
        let mut lit = (t >> 4) as usize;
        if lit == 15 {
            loop {
                let b = *src.get(i).ok_or("lz4: literal length")?;
                i += 1;
                lit += b as usize;
                if b != 255 { break; }
            }
        }
        if i + lit > src.len() { return Err("lz4: literals past end".into()); }
        out.extend_from_slice(&src[i..i + lit]);
        i += lit;
        if i == src.len() { break; }
        if i + 2 > src.len() { return Err("lz4: offset past end".into()); }
        let off = src[i] as usize | (src[i + 1] as usize) << 8;
        i += 2;
        if off == 0 || off > out.len() { return Err("lz4: bad offset".into()); }
        let mut ml = (t & 15) as usize;
        if ml == 15 {
            loop {
                let b = *src.get(i).ok_or("lz4: match length")?;
                i += 1;
                ml += b as usize;
                if b != 255 { break; }
            }
        }
        ml += 4;
        let st = out.len() - off;
        for k in 0..ml {
            let b = out[st + k];
            out.push(b);
        }
        if out.len() > expected { return Err("lz4: output too long".into()); }
    }
    if out.len() != expected { return Err(format!("lz4: output {} expected {}", out.len(), expected)); }
    Ok(out)
}

fn put_len(out: &mut Vec<u8>, mut n: usize) {
    while n >= 255 { out.push(255); n -= 255; }
    out.push(n as u8);
}

/// A valid LZ4 block; greedy with a small hash table, or literals only.
pub fn compress(src: &[u8], rng: Option<&mut Rng>) -> Vec<u8> {
    let lit_only = match rng { Some(r) => r.chance(1, 4), None => false };
    let mut out = Vec::new();
    let n = src.len();
    let mut anchor = 0;
    let mut i = 0;
    let mut tab = vec![usize::MAX; 4096];
    if !lit_only && n > 13 {
        let mf = n - 12;
        while i < mf {
            let h = (u32::from_le_bytes(src[i..i + 4].try_into().unwrap()).wrapping_mul(2654435761) >> 20) as usize;
            let c = tab[h];
            tab[h] = i;
            if c != usize::MAX && i - c <= 65535 && src[c..c + 4] == src[i..i + 4] {
                let mut m = 4;
                while i + m < n - 5 && src[c + m] == src[i + m] { m += 1; }
                let lit = i - anchor;
                let ml = m - 4;
                out.push(((lit.min(15) as u8) << 4) | ml.min(15) as u8);
                if lit >= 15 { put_len(&mut out, lit - 15); }
                out.extend_from_slice(&src[anchor..i]);
                out.extend_from_slice(&((i - c) as u16).to_le_bytes());
                if ml >= 15 { put_len(&mut out, ml - 15); }
                i += m;
                anchor = i;
            } else {
                i += 1;
            }
        }
    }
    let lit = n - anchor;
    out.push((lit.min(15) as u8) << 4);
    if lit >= 15 { put_len(&mut out, lit - 15); }
    out.extend_from_slice(&src[anchor..]);
    out
}
