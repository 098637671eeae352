//! Independent native-format encoder/decoder.
use crate::city::city128;
use crate::lz4;
use crate::model::*;
use crate::rng::Rng;
use std::io::Read;

pub type R<T> = Result<T, String>;

pub fn uvarint(o: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 { o.push(x as u8 | 0x80); x >>= 7; }
    o.push(x as u8);
}
pub fn string(o: &mut Vec<u8>, s: &[u8]) { uvarint(o, s.len() as u64); o.extend_from_slice(s); }

pub fn rd_n(r: &mut dyn Read, n: usize) -> R<Vec<u8>> {
    if n > 1 << 31 { return Err(format!("unreasonable length {n}")); }
    let mut b = vec![0; n];
    r.read_exact(&mut b).map_err(|e| format!("read {n}: {e}"))?;
    Ok(b)
}
pub fn rd_u8(r: &mut dyn Read) -> R<u8> { let mut b = [0u8; 1]; r.read_exact(&mut b).map_err(|e| format!("read: {e}"))?; Ok(b[0]) }
pub fn rd_u64(r: &mut dyn Read) -> R<u64> { let mut b = [0u8; 8]; r.read_exact(&mut b).map_err(|e| format!("read: {e}"))?; Ok(u64::from_le_bytes(b)) }
pub fn rd_uvarint(r: &mut dyn Read) -> R<u64> {
    let mut x = 0u64;
    for i in 0..10 {
        let b = rd_u8(r)?;
        x |= ((b & 0x7f) as u64) << (7 * i);
        if b < 0x80 { return Ok(x); }
    }
    Err("uvarint too long".into())
}
pub fn rd_str(r: &mut dyn Read) -> R<Vec<u8>> { let n = rd_uvarint(r)? as usize; rd_n(r, n) }
pub fn rd_string(r: &mut dyn Read) -> R<String> { String::from_utf8(rd_str(r)?).map_err(|e| e.to_string()) }

pub fn half_rev(b: &[u8; 16]) -> [u8; 16] { let mut x = *b; x[..8].reverse(); x[8..].reverse(); x }

/// Encoding choices a real server may make freely.
#[derive(Clone, Default)]
pub struct EncOpt { pub low_extra_keys: bool, pub low_wide: u8 }

pub fn enc_col(o: &mut Vec<u8>, t: &Ty, vals: &[Val], opt: &EncOpt) {
    match t {
        Ty::Nullable(inner) => {
            for v in vals { o.push((*v == Val::Null) as u8); }
            let d = inner.default_val();
            let iv: Vec<Val> = vals.iter().map(|v| if *v == Val::Null { d.clone() } else { v.clone() }).collect();
            enc_col(o, inner, &iv, opt);
        }
        Ty::Array(inner) => {
            let mut off = 0u64;
            let mut flat = vec![];
            for v in vals { if let Val::A(x) = v { off += x.len() as u64; o.extend(off.to_le_bytes()); flat.extend(x.iter().cloned()); } else { panic!("{v:?}") } }
            enc_col(o, inner, &flat, opt);
        }
        Ty::Map(k, w) => {
            let mut off = 0u64;
            let (mut ks, mut vs) = (vec![], vec![]);
            for v in vals { if let Val::M(x) = v { off += x.len() as u64; o.extend(off.to_le_bytes()); for (a, b) in x { ks.push(a.clone()); vs.push(b.clone()); } } else { panic!("{v:?}") } }
            enc_col(o, k, &ks, opt);
            enc_col(o, w, &vs, opt);
        }
        Ty::Agg(_, inner) => enc_col(o, inner, vals, opt),
        Ty::Low(inner) => {
            if vals.is_empty() { return; }
            // state prefix: version 1
            o.extend(1u64.to_le_bytes());
            let mut dict: Vec<Val> = vec![inner.default_val()];
            let mut map: std::collections::HashMap<Val, u64> = std::collections::HashMap::new();
            map.insert(dict[0].clone(), 0);
            if opt.low_extra_keys { for v in vals.iter().rev() { let n = dict.len() as u64; map.entry(v.clone()).or_insert_with(|| { dict.push(v.clone()); n }); } }
            let mut idx = vec![];
            for v in vals {
                let n = dict.len() as u64;
                let e = *map.entry(v.clone()).or_insert_with(|| { dict.push(v.clone()); n });
                idx.push(e);
            }
            let mut w: u8 = if dict.len() <= 256 { 0 } else if dict.len() <= 65536 { 1 } else { 2 };
            w = w.max(opt.low_wide.min(3));
            o.extend((w as u64 | 0x200 | 0x400).to_le_bytes());
            o.extend((dict.len() as u64).to_le_bytes());
            enc_col(o, inner, &dict, opt);
            o.extend((vals.len() as u64).to_le_bytes());
            for i in idx { o.extend(&i.to_le_bytes()[..1 << w]); }
        }
        _ => for v in vals { enc_scalar(o, t, v) },
    }
}

fn enc_scalar(o: &mut Vec<u8>, t: &Ty, v: &Val) {
    match (t, v) {
        (Ty::Bool, Val::Bool(b)) => o.push(*b as u8),
        (Ty::U8, Val::U(x)) => o.push(*x as u8),
        (Ty::U16, Val::U(x)) => o.extend((*x as u16).to_le_bytes()),
        (Ty::U32, Val::U(x)) => o.extend((*x as u32).to_le_bytes()),
        (Ty::U64, Val::U(x)) => o.extend((*x as u64).to_le_bytes()),
        (Ty::U128, Val::U(x)) => o.extend(x.to_le_bytes()),
        (Ty::I8, Val::I(x)) => o.push(*x as u8),
        (Ty::I16, Val::I(x)) => o.extend((*x as i16).to_le_bytes()),
        (Ty::I32, Val::I(x)) => o.extend((*x as i32).to_le_bytes()),
        (Ty::I64, Val::I(x)) => o.extend((*x as i64).to_le_bytes()),
        (Ty::I128, Val::I(x)) => o.extend(x.to_le_bytes()),
        (Ty::F32, Val::F32(x)) => o.extend(x.to_le_bytes()),
        (Ty::F64, Val::F64(x)) => o.extend(x.to_le_bytes()),
        (Ty::Str, Val::S(s)) => string(o, s),
        (Ty::Fixed(n), Val::S(s)) => { assert_eq!(*n, s.len()); o.extend_from_slice(s) }
        (Ty::Date, Val::Date(d)) => o.extend(d.to_le_bytes()),
        (Ty::DateTime(_), Val::DT(d)) => o.extend(d.to_le_bytes()),
        (Ty::DateTime64(..), Val::DT64(d)) => o.extend(d.to_le_bytes()),
        (Ty::Ip4, Val::Ip4(a)) => { let mut b = *a; b.reverse(); o.extend(b) }
        (Ty::Ip6, Val::Ip6(a)) => o.extend(a),
        (Ty::Uuid, Val::Uuid(a)) => o.extend(half_rev(a)),
        (Ty::Dec(p, _), Val::Dec(x, _)) => if *p <= 9 { o.extend((*x as i32).to_le_bytes()) } else { o.extend(x.to_le_bytes()) },
        (Ty::Enum8(_), Val::E(x)) => o.push(*x as i8 as u8),
        (Ty::Enum16(_), Val::E(x)) => o.extend(x.to_le_bytes()),
        _ => panic!("encode {t:?} {v:?}"),
    }
}

pub fn dec_col(r: &mut dyn Read, t: &Ty, rows: usize) -> R<Vec<Val>> {
    Ok(match t {
        Ty::Nullable(inner) => {
            let nulls = rd_n(r, rows)?;
            let iv = dec_col_lenient(r, inner, rows, Some(&nulls))?;
            let mut out = Vec::with_capacity(rows);
            for (i, v) in iv.into_iter().enumerate() {
                match nulls[i] { 0 => out.push(v), 1 => out.push(Val::Null), x => return Err(format!("null mask byte {x}")) }
            }
            out
        }
        _ => dec_col_lenient(r, t, rows, None)?,
    })
}

fn dec_col_lenient(r: &mut dyn Read, t: &Ty, rows: usize, nulls: Option<&[u8]>) -> R<Vec<Val>> {
    Ok(match t {
        Ty::Nullable(_) => dec_col(r, t, rows)?,
        Ty::Array(inner) => {
            let offs = dec_offsets(r, rows)?;
            let flat = dec_col(r, inner, *offs.last().unwrap_or(&0))?;
            let mut out = vec![];
            let mut p = 0;
            for o in offs { out.push(Val::A(flat[p..o].to_vec())); p = o; }
            out
        }
        Ty::Map(k, v) => {
            let offs = dec_offsets(r, rows)?;
            let n = *offs.last().unwrap_or(&0);
            let ks = dec_col(r, k, n)?;
            let vs = dec_col(r, v, n)?;
            let mut out = vec![];
            let mut p = 0;
            for o in offs { out.push(Val::M((p..o).map(|i| (ks[i].clone(), vs[i].clone())).collect())); p = o; }
            out
        }
        Ty::Agg(_, inner) => dec_col(r, inner, rows)?,
        Ty::Low(inner) => {
            if rows == 0 { return Ok(vec![]); }
            let ver = rd_u64(r)?;
            if ver != 1 { return Err(format!("LowCardinality version {ver}")); }
            let flags = rd_u64(r)?;
            let w = flags & 0xff;
            if w > 3 { return Err(format!("LowCardinality index type {w}")); }
            if flags & 0x200 == 0 { return Err("LowCardinality: no additional keys flag".into()); }
            if flags & 0x100 != 0 { return Err("LowCardinality: global dictionary in native format".into()); }
            let nk = rd_u64(r)? as usize;
            let keys = dec_col(r, inner, nk)?;
            let n = rd_u64(r)? as usize;
            if n != rows { return Err(format!("LowCardinality: {n} indexes for {rows} rows")); }
            let mut out = vec![];
            for _ in 0..n {
                let b = rd_n(r, 1 << w)?;
                let mut x = [0u8; 8];
                x[..b.len()].copy_from_slice(&b);
                let i = u64::from_le_bytes(x) as usize;
                out.push(keys.get(i).ok_or(format!("LowCardinality index {i} of {nk}"))?.clone());
            }
            out
        }
        _ => {
            let mut out = Vec::with_capacity(rows);
            for i in 0..rows { let masked = nulls.map(|n| n[i] != 0).unwrap_or(false); out.push(dec_scalar(r, t, masked)?); }
            out
        }
    })
}

fn dec_offsets(r: &mut dyn Read, rows: usize) -> R<Vec<usize>> {
    let mut out = vec![];
    let mut p = 0u64;
    for i in 0..rows {
        let o = rd_u64(r)?;
        if o < p { return Err(format!("array offset {o} at row {i} after {p}")); }
        if o > 1 << 28 { return Err(format!("array offset {o}")); }
        p = o;
        out.push(o as usize);
    }
    Ok(out)
}

fn dec_scalar(r: &mut dyn Read, t: &Ty, masked: bool) -> R<Val> {
    macro_rules! le { ($t:ty) => {{ let mut b = [0u8; std::mem::size_of::<$t>()]; r.read_exact(&mut b).map_err(|e| format!("read: {e}"))?; <$t>::from_le_bytes(b) }} }
    Ok(match t {
        Ty::Bool => match rd_u8(r)? { 0 => Val::Bool(false), 1 => Val::Bool(true), x => return Err(format!("Bool byte {x}")) },
        Ty::U8 => Val::U(le!(u8) as u128), Ty::U16 => Val::U(le!(u16) as u128), Ty::U32 => Val::U(le!(u32) as u128), Ty::U64 => Val::U(le!(u64) as u128), Ty::U128 => Val::U(le!(u128)),
        Ty::I8 => Val::I(le!(i8) as i128), Ty::I16 => Val::I(le!(i16) as i128), Ty::I32 => Val::I(le!(i32) as i128), Ty::I64 => Val::I(le!(i64) as i128), Ty::I128 => Val::I(le!(i128)),
        Ty::F32 => Val::F32(le!(u32)), Ty::F64 => Val::F64(le!(u64)),
        Ty::Str => Val::S(rd_str(r)?), Ty::Fixed(n) => Val::S(rd_n(r, *n)?),
        Ty::Date => Val::Date(le!(u16)), Ty::DateTime(_) => Val::DT(le!(u32)), Ty::DateTime64(..) => Val::DT64(le!(i64)),
        Ty::Ip4 => { let mut b: [u8; 4] = rd_n(r, 4)?.try_into().unwrap(); b.reverse(); Val::Ip4(b) }
        Ty::Ip6 => Val::Ip6(rd_n(r, 16)?.try_into().unwrap()),
        Ty::Uuid => Val::Uuid(half_rev(&rd_n(r, 16)?.try_into().unwrap())),
        Ty::Dec(p, s) => if *p <= 9 { Val::Dec(le!(i32) as i64, *s) } else { Val::Dec(le!(i64), *s) },
        Ty::Enum8(v) => { let x = le!(i8) as i16; if !masked && !v.iter().any(|e| e.1 == x) { return Err(format!("value {x} is not in the enum")); } Val::E(x) }
        Ty::Enum16(v) => { let x = le!(i16); if !masked && !v.iter().any(|e| e.1 == x) { return Err(format!("value {x} is not in the enum")); } Val::E(x) }
        _ => return Err(format!("not a scalar {t:?}")),
    })
}

pub fn enc_block(t: &Table, opt: &EncOpt) -> Vec<u8> {
    let mut o = vec![1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0];
    uvarint(&mut o, t.cols.len() as u64);
    uvarint(&mut o, t.rows() as u64);
    for c in &t.cols {
        string(&mut o, c.name.as_bytes());
        string(&mut o, c.ty.name().as_bytes());
        enc_col(&mut o, &c.ty, &c.vals, opt);
    }
    o
}

/// A block received from the client.
#[derive(Clone, Debug, Default)]
pub struct RxBlock { pub cols: Vec<(String, String)>, pub rows: usize, pub table: Table, pub frames: Vec<(usize, usize)> }

pub fn dec_block(r: &mut dyn Read) -> R<RxBlock> {
    loop {
        match rd_uvarint(r)? {
            0 => break,
            1 => { let b = rd_u8(r)?; if b > 1 { return Err("is_overflows".into()); } }
            2 => { rd_n(r, 4)?; }
            x => return Err(format!("block info field {x}")),
        }
    }
    let nc = rd_uvarint(r)?;
    let nr = rd_uvarint(r)? as usize;
    if nc > 10_000 { return Err(format!("{nc} columns")); }
    let mut b = RxBlock { rows: nr, ..Default::default() };
    for _ in 0..nc {
        let name = rd_string(r)?;
        let tn = rd_string(r)?;
        let ty = parse_ty(&tn)?;
        let vals = dec_col(r, &ty, nr).map_err(|e| format!("column {name:?} {tn}: {e}"))?;
        b.cols.push((name.clone(), tn));
        b.table.cols.push(Col { name, ty, vals });
    }
    Ok(b)
}

/// One checksummed LZ4 frame.
pub fn frame(raw: &[u8], rng: Option<&mut Rng>) -> Vec<u8> {
    let c = lz4::compress(raw, rng);
    let mut body = vec![0x82];
    body.extend((c.len() as u32 + 9).to_le_bytes());
    body.extend((raw.len() as u32).to_le_bytes());
    body.extend(c);
    let (lo, hi) = city128(&body);
    let mut o = lo.to_le_bytes().to_vec();
    o.extend(hi.to_le_bytes());
    o.extend(body);
    o
}

pub fn frames(raw: &[u8], mut rng: Option<&mut Rng>, max: usize) -> Vec<u8> {
    let mut o = vec![];
    for ch in raw.chunks(max.max(1)) { o.extend(frame(ch, rng.as_deref_mut())); }
    o
}

/// Reader over checksummed frames; strict.
pub struct FrameRd<'a> { pub r: &'a mut dyn Read, pub buf: Vec<u8>, pub pos: usize, pub frames: Vec<(usize, usize)>, pub err: Option<String> }
impl<'a> FrameRd<'a> {
    pub fn new(r: &'a mut dyn Read) -> Self { FrameRd { r, buf: vec![], pos: 0, frames: vec![], err: None } }
    fn fill(&mut self) -> R<()> {
        let h = rd_n(self.r, 16)?;
        let head = rd_n(self.r, 9)?;
        if head[0] != 0x82 { return Err(format!("compression method {:#x}", head[0])); }
        let cs = u32::from_le_bytes(head[1..5].try_into().unwrap()) as usize;
        let us = u32::from_le_bytes(head[5..9].try_into().unwrap()) as usize;
        if cs < 9 { return Err("compressed size below header".into()); }
        let body = rd_n(self.r, cs - 9)?;
        let mut all = head;
        all.extend(&body);
        let (lo, hi) = city128(&all);
        if h[..8] != lo.to_le_bytes() || h[8..] != hi.to_le_bytes() { return Err("checksum of the client's frame is wrong".into()); }
        self.buf = lz4::decompress(&body, us)?;
        self.pos = 0;
        self.frames.push((cs, us));
        Ok(())
    }
}
impl Read for FrameRd<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.pos == self.buf.len() {
            if let Err(e) = self.fill() { self.err = Some(e.clone()); return Err(std::io::Error::new(std::io::ErrorKind::Other, e)); }
        }
        let n = b.len().min(self.buf.len() - self.pos);
        b[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn dec_block_maybe(r: &mut dyn Read, compressed: bool) -> R<RxBlock> {
    if !compressed { return dec_block(r); }
    let mut f = FrameRd::new(r);
    let mut b = dec_block(&mut f)?;
    if f.pos != f.buf.len() { return Err(format!("{} bytes left in the compressed frame after the block", f.buf.len() - f.pos)); }
    b.frames = f.frames;
    Ok(b)
}
