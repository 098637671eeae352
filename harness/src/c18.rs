//! C18: inserts convert to the table's column types exactly or fail.
use crate::codec::RxBlock;
use crate::drv::*;
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use chrono_tz::Tz;
use clickhouse_rs::{Block, Pool};
use futures_util::StreamExt;
use std::sync::{Arc, Mutex};

/// What the value `v` of type `from` is in the type `to`; None if `to` has no such value.
pub fn conv(from: &Ty, v: &Val, to: &Ty) -> Option<Val> {
    use Ty::*;
    if from.strip_tz() == to.strip_tz() { return Some(v.clone()); }
    let ints = |t: &Ty| match t { U8 => Some((0i128, u8::MAX as i128)), U16 => Some((0, u16::MAX as i128)), U32 => Some((0, u32::MAX as i128)), U64 => Some((0, u64::MAX as i128)), U128 => Some((0, i128::MAX)), I8 => Some((i8::MIN as i128, i8::MAX as i128)), I16 => Some((i16::MIN as i128, i16::MAX as i128)), I32 => Some((i32::MIN as i128, i32::MAX as i128)), I64 => Some((i64::MIN as i128, i64::MAX as i128)), I128 => Some((i128::MIN, i128::MAX)), _ => Option::None };
    match (from, to) {
        (Low(f), _) => conv(f, v, to),
        (Agg(_, f), _) => conv(f, v, to),
        (_, Low(t)) | (_, Agg(_, t)) => conv(from, v, t),
        (Nullable(f), Nullable(t)) => if *v == Val::Null { Some(Val::Null) } else { conv(f, v, t) },
        (Nullable(f), _) => if *v == Val::Null { None } else { conv(f, v, to) },
        (_, Nullable(t)) => conv(from, v, t),
        (Array(f), Array(t)) => match v { Val::A(x) => x.iter().map(|y| conv(f, y, t)).collect::<Option<Vec<_>>>().map(Val::A), _ => None },
        (Map(a, b), Map(c, d)) => match v { Val::M(x) => x.iter().map(|(k, w)| Some((conv(a, k, c)?, conv(b, w, d)?))).collect::<Option<Vec<_>>>().map(Val::M), _ => None },
        (Array(f), Str) if **f == U8 => bytes(v).map(Val::S),
        (Array(f), Fixed(n)) if **f == U8 => bytes(v).and_then(|b| fixed(b, *n)),
        (Fixed(_), Str) => Some(v.clone()),
        (Str, Fixed(n)) | (Fixed(_), Fixed(n)) => if let Val::S(b) = v { fixed(b.clone(), *n) } else { None },
        (Str, Ip4) => text(v)?.parse::<std::net::Ipv4Addr>().ok().map(|a| Val::Ip4(a.octets())),
        (Str, Ip6) => text(v)?.parse::<std::net::Ipv6Addr>().ok().map(|a| Val::Ip6(a.octets())),
        (Dec(..), Dec(p, s)) => if let Val::Dec(x, s0) = v {
            let mut y = *x as i128;
            for _ in *s0..*s { y = y.checked_mul(10)?; }
            for _ in *s..*s0 { if y % 10 != 0 { return None; } y /= 10; }
            if y.abs() < 10i128.pow(*p as u32) { Some(Val::Dec(y as i64, *s)) } else { None }
        } else { None },
        (Enum8(a), Enum8(b)) | (Enum16(a), Enum16(b)) | (Enum8(a), Enum16(b)) | (Enum16(a), Enum8(b)) => if let Val::E(x) = v {
            // a column made of bare numbers has no names
            if a.is_empty() { return b.iter().find(|i| i.1 == *x).map(|i| Val::E(i.1)); }
            let name = &a.iter().find(|i| i.1 == *x)?.0;
            b.iter().find(|i| i.0 == *name).map(|i| Val::E(i.1))
        } else { None },
        (Enum8(a), Str) | (Enum16(a), Str) => if let Val::E(x) = v { a.iter().find(|i| i.1 == *x).map(|i| Val::S(i.0.clone().into_bytes())) } else { None },
        (Str, Enum8(b)) | (Str, Enum16(b)) => { let n = text(v)?; b.iter().find(|i| i.0 == n).map(|i| Val::E(i.1)) }
        (DateTime(_), DateTime64(p, _)) => if let Val::DT(x) = v { ticks(*x as i128, 0, *p) } else { None },
        (DateTime64(_, _), DateTime64(p, _)) => if let (Val::DT64(x), DateTime64(p0, _)) = (v, from) { ticks(*x as i128, *p0, *p) } else { None },
        (DateTime64(p0, _), DateTime(_)) => if let Val::DT64(x) = v { u32::try_from((*x as i128).div_euclid(10i128.pow(*p0))).ok().map(Val::DT) } else { None },
        (Bool, t) if ints(t).is_some() => if let Val::Bool(b) = v { Some(int(*b as i128, t)) } else { None },
        (f, t) if ints(f).is_some() && ints(t).is_some() => {
            let x = match v { Val::U(x) => i128::try_from(*x).ok()?, Val::I(x) => *x, _ => return None };
            let (lo, hi) = ints(t)?;
            if lo <= x && x <= hi { Some(int(x, t)) } else { None }
        }
        _ => None,
    }
}

fn int(x: i128, t: &Ty) -> Val { if matches!(t, Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128) { Val::U(x as u128) } else { Val::I(x) } }
fn ticks(x: i128, p0: u32, p: u32) -> Option<Val> {
    let y = if p >= p0 { x * 10i128.pow(p - p0) } else { x.div_euclid(10i128.pow(p0 - p)) };
    i64::try_from(y).ok().map(Val::DT64)
}
fn text(v: &Val) -> Option<&str> { if let Val::S(s) = v { std::str::from_utf8(s).ok() } else { None } }
fn bytes(v: &Val) -> Option<Vec<u8>> { if let Val::A(x) = v { x.iter().map(|y| if let Val::U(u) = y { Some(*u as u8) } else { None }).collect() } else { None } }
fn fixed(mut b: Vec<u8>, n: usize) -> Option<Val> {
    if b.len() > n { return None; }
    b.resize(n, 0);
    Some(Val::S(b))
}

/// Conversions that the driver offers: they have to succeed if every value has its equal.
pub fn offered(from: &Ty, to: &Ty, built: Built) -> bool {
    use Ty::*;
    if from.strip_tz() == to.strip_tz() && (from == to || !built.read() || !has_dt64(from)) { return true; }
    let chrono = !built.read();
    match (from, to) {
        (_, Agg(_, t)) => offered(from, t, built),
        (Str, Low(t)) if matches!(**t, Str | Fixed(_)) => true,
        (f, Low(t)) if f.strip_tz() == t.strip_tz() => matches!(f, Fixed(_) | Date | DateTime(_) | U8 | U16 | U32 | U64 | I8 | I16 | I32 | I64),
        (DateTime(_), Low(t)) | (DateTime64(..), Low(t)) => matches!(**t, DateTime(_)) && chrono,
        (Array(f), Str) | (Array(f), Fixed(_)) => **f == U8,
        (Nullable(f), Nullable(t)) => matches!((&**f, &**t), (Str, Fixed(_)) | (Dec(..), Dec(..)) | (Enum8(_), Enum8(_)) | (Enum16(_), Enum16(_))) || chrono && matches!((&**f, &**t), (DateTime(_), DateTime64(..)) | (DateTime64(..), DateTime64(..)) | (DateTime64(..), DateTime(_))),
        (Array(f), Array(t)) => chrono && matches!((&**f, &**t), (DateTime(_), DateTime64(..)) | (DateTime64(..), DateTime64(..)) | (DateTime64(..), DateTime(_))),
        (Str, Fixed(_)) | (Str, Ip4) | (Str, Ip6) | (Dec(..), Dec(..)) | (Enum8(_), Enum8(_)) | (Enum16(_), Enum16(_)) => true,
        (DateTime(_), DateTime64(..)) | (DateTime64(..), DateTime64(..)) | (DateTime64(..), DateTime(_)) => chrono,
        _ => false,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Built { Rows, Cols, Bare, Read, Fetched }

impl Built { fn read(self) -> bool { matches!(self, Built::Read | Built::Fetched) } }

fn gen_dec(r: &mut Rng) -> Ty { let p = r.range(1, 18) as u8; Ty::Dec(p, r.below(p as usize + 1) as u8) }
fn gen_dec_near(r: &mut Rng, t: &Ty) -> Ty {
    if let Ty::Dec(p, s) = t {
        let d = |r: &mut Rng, x: u8| (x as i64 + r.range(0, 4) as i64 - 2).clamp(1, 18) as u8;
        let p2 = match r.below(3) { 0 => *p, 1 => *r.pick(&[9u8, 10, 18]), _ => d(r, *p) };
        let s2 = match r.below(3) { 0 => *s, _ => d(r, *s) - r.below(2) as u8 };
        return Ty::Dec(p2, s2.min(p2));
    }
    gen_dec(r)
}
/// Values with trailing zeros and near the limits of other precisions.
fn dec_vals(r: &mut Rng, t: &Ty, rows: usize) -> Vec<Val> {
    let Ty::Dec(p, s) = t else { unreachable!() };
    let lim = 10i64.pow(*p as u32) - 1;
    (0..rows).map(|_| {
        let x = match r.below(6) {
            0 => 0, 1 => lim, 2 => -lim,
            3 => { let k = 10i64.pow(r.below(*p as usize) as u32); k * (r.below(19) as i64 - 9) }
            4 => { let k = 10i64.pow(r.below(*p as usize) as u32); ((r.u64() as i64) % (lim + 1)) / k * k }
            _ => 10i64.pow(r.below(*p as usize) as u32) - 1 + r.below(2) as i64,
        };
        Val::Dec(x.clamp(-lim, lim), *s)
    }).collect()
}

fn rekeyed(r: &mut Rng, v: &[(String, i16)], wide: bool) -> Vec<(String, i16)> {
    let mut b = v.to_vec();
    match r.below(7) {
        0 => {}
        1 => { let n = b.len(); if n > 1 { let (i, j) = (r.below(n), r.below(n)); let t = b[i].1; b[i].1 = b[j].1; b[j].1 = t; } }
        2 => { for (i, x) in b.iter_mut().enumerate() { x.1 = i as i16 * 2 - 3; } }
        3 => { let i = r.below(b.len()); b[i].0.push('!'); }
        4 => { if b.len() > 1 { let i = r.below(b.len()); b.remove(i); } }
        5 => { for (n, x) in gen_enum(r, wide, false) { if !b.iter().any(|(m, y)| *m == n || *y == x) { b.push((n, x)); } } r.shuffle(&mut b); }
        _ => { let k: Vec<i16> = b.iter().map(|x| x.1).collect(); let n = b.len(); for (i, x) in b.iter_mut().enumerate() { x.1 = k[(i + 1) % n]; } }
    }
    b
}

fn addr_text(r: &mut Rng, six: bool, bad: bool) -> Vec<u8> {
    if bad { return r.pick(&[&b"1.2.3"[..], b"", b"1.2.3.256", b"::g", b"1.2.3.4 ", b"01.2.3.4", b"localhost", b"\xff\xfe", b"1.2.3.4/8", b"fe80::1%eth0", b"[::1]"]).to_vec(); }
    if six { if let Val::Ip6(a) = gen_val(r, &Ty::Ip6) { return std::net::Ipv6Addr::from(a).to_string().into_bytes(); } }
    if let Val::Ip4(a) = gen_val(r, &Ty::Ip4) { return std::net::Ipv4Addr::from(a).to_string().into_bytes(); }
    unreachable!()
}

fn times(r: &mut Rng, t: &Ty, rows: usize) -> Vec<Val> {
    (0..rows).map(|_| match t {
        Ty::DateTime64(p, _) if r.chance(2, 3) => {
            // within what a DateTime can hold, on and off whole seconds
            let mul = 10i128.pow(*p);
            let s = match r.below(4) { 0 => 0, 1 => u32::MAX as i128, _ => r.u64() as u32 as i128 };
            let hi = dt64_limits(*p).1 as i128;
            Val::DT64((s * mul + *r.pick(&[0, 0, 1, mul - 1, mul / 2, -1]).min(&(mul - 1))).min(hi) as i64)
        }
        t => gen_val(r, t),
    }).collect()
}

fn gen_rows_(r: &mut Rng) -> usize { match r.below(8) { 0 => 0, 1 => 1, 7 if r.chance(1, 6) => r.range(250, 600), _ => r.range(2, 12) } }

/// One column: the block's type, its values and the table's type.
pub fn gen_pair(r: &mut Rng, rows: usize, good: bool) -> (Ty, Vec<Val>, Ty) {
    let tz = |r: &mut Rng| if r.chance(1, 2) { Some(*r.pick(&TZS)) } else { None };
    let null = |r: &mut Rng, v: Vec<Val>| -> Vec<Val> { v.into_iter().map(|x| if r.chance(1, 3) { Val::Null } else { x }).collect() };
    let strs = |r: &mut Rng, n: usize, rows: usize| -> Vec<Val> { let over = !good && r.chance(1, 4); (0..rows).map(|_| { let k = match r.below(4) { 0 => n, 1 => 0, _ => r.below(n + 1) }; let k = if over && r.chance(1, 3) { n + r.range(1, 3) } else { k }; Val::S(if r.chance(2, 3) { (0..k).map(|_| b'a' + r.below(26) as u8).collect() } else { r.bytes(k) }) }).collect() };
    match r.below(22) {
        0 | 1 => { let n = r.range(1, 20); let v = strs(r, n, rows); if r.chance(1, 3) { (n_(Ty::Str), null(r, v), n_(Ty::Fixed(n))) } else { (Ty::Str, v, Ty::Fixed(n)) } }
        2 => { let n = r.range(1, 20); let v = strs(r, n, rows).into_iter().map(|x| if let Val::S(b) = x { Val::A(b.into_iter().map(|c| Val::U(c as u128)).collect()) } else { x }).collect(); (Ty::Array(Box::new(Ty::U8)), v, if r.chance(1, 2) { Ty::Str } else { Ty::Fixed(n) }) }
        3..=5 => { let a = gen_dec(r); let b = if r.chance(2, 3) { gen_dec_near(r, &a) } else { gen_dec(r) }; let mut v = dec_vals(r, &a, rows); if good { v = v.into_iter().map(|x| if conv(&a, &x, &b).is_some() { x } else if let Val::Dec(_, s) = x { Val::Dec(0, s) } else { x }).collect(); } if r.chance(1, 3) { (n_(a), null(r, v), n_(b)) } else { (a, v, b) } }
        6..=8 => {
            let wide = r.chance(1, 2);
            let a = gen_enum(r, wide, false);
            let b = rekeyed(r, &a, wide);
            let (ta, tb) = if wide { (Ty::Enum16(a), Ty::Enum16(b)) } else { (Ty::Enum8(a), Ty::Enum8(b)) };
            let all: Vec<Val> = if let Ty::Enum8(a) | Ty::Enum16(a) = &ta { a.iter().map(|x| Val::E(x.1)).filter(|x| !good || conv(&ta, x, &tb).is_some()).collect() } else { vec![] };
            let v: Vec<Val> = if all.is_empty() { vec![] } else { (0..rows).map(|_| r.pick(&all).clone()).collect() };
            if v.len() != rows { return (ta.clone(), gen_col(r, &ta, rows), ta); }
            if r.chance(1, 3) { (n_(ta), null(r, v), n_(tb)) } else { (ta, v, tb) }
        }
        9 | 10 => { let six = r.chance(1, 2); let bad = !good && r.chance(1, 3); let v = (0..rows).map(|_| { let b = bad && r.chance(1, 3); Val::S(addr_text(r, six, b)) }).collect::<Vec<_>>(); let t = if six { Ty::Ip6 } else { Ty::Ip4 }; if r.chance(1, 4) { (n_(Ty::Str), null(r, v), n_(t)) } else { (Ty::Str, v, t) } }
        11 | 12 => { let i = gen_low_inner(r); if let (Ty::Fixed(n), true) = (&i, r.chance(1, 2)) { return (Ty::Str, strs(r, *n, rows), Ty::Low(Box::new(i))); } let v = gen_col(r, &Ty::Low(Box::new(i.clone())), rows); (i.clone(), v, Ty::Low(Box::new(i))) }
        13..=15 => {
            let a = if r.chance(1, 4) { Ty::DateTime(tz(r)) } else { Ty::DateTime64(r.below(10) as u32, tz(r)) };
            let b = if r.chance(1, 3) { Ty::DateTime(tz(r)) } else { Ty::DateTime64(r.below(10) as u32, tz(r)) };
            let mut v = times(r, &a, rows);
            if good { let d = a.default_val(); v = v.into_iter().map(|x| if conv(&a, &x, &b).is_some() { x } else { d.clone() }).collect(); }
            match r.below(6) {
                0 => (n_(a), null(r, v), n_(b)),
                1 => { let v = (0..rows).map(|_| Val::A((0..r.below(4)).map(|_| v[r.below(v.len())].clone()).collect())).collect(); (Ty::Array(Box::new(a)), v, Ty::Array(Box::new(b))) }
                2 => (a, v, Ty::Low(Box::new(b))),
                _ => (a, v, b),
            }
        }
        16 => { let (a, v, b) = gen_pair(r, rows, good); if matches!(b, Ty::Agg(..)) { (a, v, b) } else { (a, v, Ty::Agg(r.pick(&AGGS).to_string(), Box::new(b))) } }
        17 => { let a = gen_ty(r, 2); (a.clone(), gen_col(r, &a, rows), if r.chance(1, 2) { n_if(&a) } else { un_null(&a) }) }
        18 => { let (a, v, b) = gen_pair(r, rows, good); let v = v.chunks(2).map(|c| Val::A(c.to_vec())).chain(std::iter::repeat(Val::A(vec![]))).take(rows).collect(); if contains_low(&a) || contains_low(&b) { let a = Ty::Array(Box::new(Ty::Str)); return (a.clone(), gen_col(r, &a, rows), a); } (Ty::Array(Box::new(a)), v, Ty::Array(Box::new(b))) }
        19 => { let a = gen_scalar(r); (a.clone(), gen_col(r, &a, rows), gen_scalar(r)) }
        _ => { let a = gen_ty(r, 2); (a.clone(), gen_col(r, &a, rows), if r.chance(1, 3) { gen_ty(r, 2) } else { a }) }
    }
}
fn n_(t: Ty) -> Ty { Ty::Nullable(Box::new(t)) }
fn n_if(t: &Ty) -> Ty { if matches!(t, Ty::Nullable(_) | Ty::Array(_) | Ty::Map(..) | Ty::Low(_) | Ty::Agg(..)) { t.clone() } else { n_(t.clone()) } }
fn un_null(t: &Ty) -> Ty { if let Ty::Nullable(t) = t { (**t).clone() } else { t.clone() } }
fn contains_low(t: &Ty) -> bool { match t { Ty::Low(_) | Ty::Agg(..) => true, Ty::Nullable(t) | Ty::Array(t) => contains_low(t), Ty::Map(a, b) => contains_low(a) || contains_low(b), _ => false } }

/// Enum columns of bare numbers and byte slices, which have no list of names.
fn bare(b: Block, name: &str, t: &Ty, v: &[Val]) -> Option<(Block, Ty)> {
    Some(match t {
        Ty::Enum8(_) => (b.column(name, v.iter().map(e8_of).collect::<Vec<_>>()), Ty::Enum8(vec![])),
        Ty::Enum16(_) => (b.column(name, v.iter().map(e16_of).collect::<Vec<_>>()), Ty::Enum16(vec![])),
        Ty::Nullable(x) => match &**x {
            Ty::Enum8(_) => (b.column(name, v.iter().map(|x| if *x == Val::Null { None } else { Some(e8_of(x)) }).collect::<Vec<_>>()), n_(Ty::Enum8(vec![]))),
            Ty::Enum16(_) => (b.column(name, v.iter().map(|x| if *x == Val::Null { None } else { Some(e16_of(x)) }).collect::<Vec<_>>()), n_(Ty::Enum16(vec![]))),
            _ => return None,
        },
        Ty::Array(x) => match &**x {
            Ty::Enum8(_) => (b.column(name, v.iter().map(|x| if let Val::A(x) = x { x.iter().map(e8_of).collect() } else { vec![] }).collect::<Vec<Vec<_>>>()), Ty::Array(Box::new(Ty::Enum8(vec![])))),
            Ty::Enum16(_) => (b.column(name, v.iter().map(|x| if let Val::A(x) = x { x.iter().map(e16_of).collect() } else { vec![] }).collect::<Vec<Vec<_>>>()), Ty::Array(Box::new(Ty::Enum16(vec![])))),
            _ => return None,
        },
        _ => return None,
    })
}

pub fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let good = r.chance(1, 2);
    let rows = gen_rows_(r);
    let k = match r.below(4) { 0 => 2, 1 => r.range(2, 4), _ => 1 };
    let mut src = Table::default();
    let mut dst: Vec<(String, Ty)> = vec![];
    for i in 0..k {
        let (a, v, b) = gen_pair(r, rows, good);
        src.cols.push(Col { name: format!("c{i}"), ty: a, vals: v });
        dst.push((format!("c{i}"), b));
    }
    let tz = *r.pick(&TZS);
    let how = match r.below(5) { 0 => Built::Rows, 1 => Built::Cols, 2 => Built::Bare, 3 => Built::Read, _ => Built::Fetched };
    one(ctx, "cast", n, r, src, dst, tz, how)
}

fn one(ctx: &Ctx, part: &str, n: u64, r: &mut Rng, mut src: Table, dst: Vec<(String, Ty)>, tz: Tz, mut how: Built) {
    let rows = src.rows();
    let hdr = Table { cols: dst.iter().map(|(n, t)| Col { name: n.clone(), ty: t.clone(), vals: vec![] }).collect() };
    let plain = Table { cols: vec![Col { name: "x".into(), ty: Ty::U32, vals: vec![Val::U(7), Val::U(8)] }] };
    // the block to insert
    let block = match how {
        Built::Read | Built::Fetched => None,
        Built::Rows if rows > 0 => match guard(|| block_by_rows(&src, tz)) { Ok(Ok(b)) => Some(b), Ok(Err(e)) => { ctx.violation(part, n, "push", format!("{}: push: {e}", src.brief())); return } Err(e) => { ctx.violation(part, n, "push", format!("{}: push panicked: {e}", src.brief())); return } },
        _ => {
            let mut b = Some(Block::new());
            for c in &mut src.cols {
                let Some(x) = b.take() else { break };
                if how == Built::Bare { if let Some((y, t)) = bare(x.clone(), &c.name, &c.ty, &c.vals) { b = Some(y); c.ty = t; continue; } }
                b = add_typed(x, &c.name, &c.ty, &c.vals, tz).ok();
            }
            b
        }
    };
    if block.is_none() && !how.read() { how = Built::Read; for (c, (_, t)) in src.cols.iter_mut().zip(&dst) { if has_bare(&c.ty) { c.ty = t.clone(); c.vals = gen_col(r, t, rows); } } }
    let exp: Vec<Option<Vec<Val>>> = src.cols.iter().zip(&dst).map(|(c, (_, t))| c.vals.iter().map(|v| conv(&c.ty, v, t)).collect()).collect();
    // a column without rows has no values to convert, but its type may be refused
    let must = src.cols.iter().zip(&dst).zip(&exp).all(|((c, (_, t)), e)| e.is_some() && offered(&c.ty, t, how) && crate::c01::nested_ok(&c.ty, false, false) && crate::c01::nested_ok(t, false, false));
    let can = exp.iter().all(|e| e.is_some());
    let wr = Mutex::new(r.fork());
    let (h2, p2) = (hdr.clone(), plain.header());
    let parts = if how == Built::Fetched { let k = r.range(1, 4); split(r, &src, k) } else { vec![src.clone()] };
    let s0 = src.header();
    let cfg = SrvCfg::new(move |c, q| {
        if q.sql.starts_with("SELECT") { c.send_data(&s0)?; for p in &parts { c.send_data(p)?; } return c.send_eos(); }
        c.do_insert(if q.sql.starts_with("INSERT INTO t ") { &h2 } else { &p2 })?;
        Ok(())
    }).wire(move |_| gen_wire(&mut wr.lock().unwrap())).tz(tz.name());
    let srv = Server::start(cfg);
    let url = srv.url(&format!("{LIMITS}&pool_min=1&pool_max=1{}", if r.chance(1, 2) { "&compression=lz4" } else { "" }));
    let what = format!("block [{}] made by {how:?}, table [{}]", src.brief(), hdr.brief());
    let log = srv.log.clone();
    let pb = block_by_cols(&plain, tz).unwrap();
    let res = block_on(MAX, async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        let block = match block {
            Some(b) => b,
            None if how == Built::Fetched => {
                let all = h.query("SELECT 1").fetch_all().await.map_err(|e| format!("source: {e}"))?;
                let mut b = Block::new();
                for c in all.columns() { b = b.column(c.name(), c.clone()); }
                b
            }
            None => {
                let mut bs = vec![];
                { let mut s = h.query("SELECT 1").stream_blocks(); while let Some(b) = s.next().await { bs.push(b.map_err(|e| format!("source: {e}"))?); } }
                bs.into_iter().find(|b| b.column_count() > 0 && b.row_count() == rows).ok_or("source: no block".to_string())?
            }
        };
        let mark = log.len();
        let got = h.insert("t", &block).await;
        ctx.eval();
        let evs = log.snapshot()[mark..].to_vec();
        let ds: Vec<RxBlock> = evs.iter().filter_map(|e| if let Ev::Data(d) = &e.ev { Some((**d).clone()) } else { None }).collect();
        let sent: Vec<RxBlock> = ds.iter().filter(|d| d.rows > 0).cloned().collect();
        ctx.count(match (&got, can) { (Ok(_), _) => "converted", (Err(_), true) => "refused_type", (Err(_), false) => "refused_value" }, 1);
        for (c, (_, t)) in src.cols.iter().zip(&dst) { ctx.distinct(&(c.ty.kind(), t.kind(), got.is_ok(), how)); }
        ctx.distinct(&(&src, &dst, how));
        match &got {
            Ok(()) => {
                if !can && rows > 0 { return Err(format!("delivered: the insert succeeded, but the table has no equal of the values; received {}", sent.iter().map(|d| format!("{:?}", d.table)).collect::<String>().chars().take(900).collect::<String>())); }
                if rows > 0 {
                    let want = Table { cols: hdr.cols.iter().zip(&exp).map(|(c, e)| Col { name: c.name.clone(), ty: c.ty.clone(), vals: e.clone().unwrap() }).collect() };
                    if let Some(d) = crate::c01::judge(&want, &sent) { return Err(format!("data: {d}")); }
                    ctx.count("cells_compared", (rows * want.cols.len()) as u64);
                }
            }
            Err(e) => {
                if must { return Err(format!("refused: every value has its equal, but the insert failed: {e}")); }
            }
        }
        if got.is_err() {
            // nothing may arrive later either
            drop(block);
        }
        match h.insert("p", &pb).await { Ok(()) => {}, Err(e) => return Err(format!("after: the next insert failed: {e}")) }
        let evs = log.snapshot()[mark..].to_vec();
        let after = evs.iter().position(|e| matches!(&e.ev, Ev::Query(q) if q.sql.starts_with("INSERT INTO p "))).ok_or("after: no statement")?;
        if got.is_err() {
            if let Some(d) = evs[..after].iter().find_map(|e| if let Ev::Data(d) = &e.ev { if d.rows > 0 { Some(d) } else { None } } else { None }) { return Err(format!("sent: the insert failed, but {} rows were sent", d.rows)); }
        }
        let ps: Vec<RxBlock> = evs[after..].iter().filter_map(|e| if let Ev::Data(d) = &e.ev { if d.rows > 0 { Some((**d).clone()) } else { None } } else { None }).collect();
        if let Some(d) = crate::c01::judge(&plain, &ps) { return Err(format!("after: the next insert: {d}")); }
        Ok::<(), String>(())
    });
    let bad = srv.log.bad();
    match res {
        Out::Done(Ok(())) => { if let Some(b) = bad { ctx.violation(part, n, "protocol", format!("{what}: the server could not understand the client: {b}")) } else { ctx.sample(|| what.clone()) } }
        Out::Done(Err(e)) => ctx.violation(part, n, &crate::c02::sig_of(&e), format!("{what}\n{e}\nserver: {bad:?}\n{}", srv.log.trace())),
        Out::Panic(e) => ctx.violation(part, n, "panic", format!("{what}\npanic: {e}\n{}", srv.log.trace())),
        Out::Hang => ctx.violation(part, n, "hang", format!("{what}\nno result within {MAX:?}\n{}", srv.log.trace())),
    }
}
fn has_dt64(t: &Ty) -> bool { match t { Ty::DateTime64(..) => true, Ty::Nullable(t) | Ty::Array(t) | Ty::Low(t) | Ty::Agg(_, t) => has_dt64(t), Ty::Map(a, b) => has_dt64(a) || has_dt64(b), _ => false } }
fn has_bare(t: &Ty) -> bool { match t { Ty::Enum8(v) | Ty::Enum16(v) => v.is_empty(), Ty::Nullable(t) | Ty::Array(t) => has_bare(t), _ => false } }

/// Blocks of several packets whose last rows may have no equal in the table.
fn tail(ctx: &Ctx, n: u64, r: &mut Rng) {
    let rows = 1_048_576 + r.range(0, 3);
    let bad = r.chance(1, 2);
    let (a, b, v, w) = match r.below(5) {
        0 => (Ty::Str, Ty::Fixed(2), Val::S(b"ab".to_vec()), Val::S(b"abc".to_vec())),
        1 => (Ty::Dec(18, 2), Ty::Dec(9, 1), Val::Dec(120, 2), Val::Dec(121, 2)),
        2 => { let a = vec![("a".to_string(), 1), ("b".to_string(), 2), ("c".to_string(), 3)]; (Ty::Enum8(a), Ty::Enum8(vec![("b".into(), 1), ("a".into(), 2)]), Val::E(1), Val::E(3)) }
        3 => (Ty::DateTime64(3, None), Ty::DateTime(None), Val::DT64(1999), Val::DT64(-1)),
        _ => (Ty::Str, Ty::Ip4, Val::S(b"1.2.3.4".to_vec()), Val::S(b"1.2.3".to_vec())),
    };
    let mut vals = vec![v; rows];
    if bad { let k = rows - 1 - r.below(3); vals[k] = w; }
    let src = Table { cols: vec![Col { name: "c0".into(), ty: a, vals }] };
    one(ctx, "tail", n, r, src, vec![("c0".into(), b)], Tz::UTC, Built::Cols)
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case inserts one block of 1-4 columns into a table whose column types are related (offered conversions and their nullable, array, dictionary and aggregate forms), merely similar, or unrelated; the block is built by rows, by typed columns, of bare enum numbers, or read from a server first; every packet is decoded with the table's types and compared with independently converted values; a refused insert must have sent no row, and the handle must then insert correctly; a conversion that the driver offers must succeed when every value has its equal");
    ctx.assume("LowCardinality(Nullable), Array(LowCardinality) excluded; which further conversions are refused is left open");
    watchdog(ctx.clone(), secs(160), true);
    cases(ctx, "tail", ctx.n(6, 60), 4, secs(ctx.n(60, 300)), tail);
    cases(ctx, "cast", ctx.n(80_000, 1_000_000), 8, secs(ctx.n(60, 1200)), case);
}
