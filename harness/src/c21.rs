//! C21: scalar conversions are exact or refused.
use crate::drv::*;
use crate::kit::secs;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use chrono::{DateTime, Datelike, NaiveDate, NaiveDateTime, Offset, TimeZone, Timelike, Utc};
use chrono_tz::Tz;
use clickhouse_rs::types::{DateTimeType, Decimal, Enum16, Enum8, FromSql, HasSqlType, SqlType, Value, ValueRef};
use clickhouse_rs::Block;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }

/// What equality means for two values of type `t`; None where it is left open.
fn same(t: &Ty, a: &Val, b: &Val) -> Option<bool> {
    match (t, a, b) {
        (Ty::Nullable(_), Val::Null, Val::Null) => Some(true),
        (Ty::Nullable(_), Val::Null, _) | (Ty::Nullable(_), _, Val::Null) => Some(false),
        (Ty::Nullable(t), a, b) | (Ty::Low(t), a, b) | (Ty::Agg(_, t), a, b) => same(t, a, b),
        (_, Val::F32(x), Val::F32(y)) => { let (x, y) = (f32::from_bits(*x), f32::from_bits(*y)); if x.is_nan() || y.is_nan() { None } else { Some(x == y) } }
        (_, Val::F64(x), Val::F64(y)) => { let (x, y) = (f64::from_bits(*x), f64::from_bits(*y)); if x.is_nan() || y.is_nan() { None } else { Some(x == y) } }
        (Ty::Array(t), Val::A(x), Val::A(y)) => {
            if x.len() != y.len() { return Some(false); }
            let r: Vec<_> = x.iter().zip(y).map(|(a, b)| same(t, a, b)).collect();
            if r.contains(&Some(false)) { Some(false) } else if r.contains(&None) { None } else { Some(true) }
        }
        (Ty::Map(_, w), Val::M(x), Val::M(y)) => {
            if x.len() != y.len() { return Some(false); }
            let mut out = Some(true);
            for (k, v) in x {
                match y.iter().find(|(k2, _)| k.norm() == k2.norm()) {
                    None => return Some(false),
                    Some((_, v2)) => match same(w, v, v2) { Some(false) => return Some(false), None => out = None, _ => {} },
                }
            }
            out
        }
        (_, a, b) => Some(a.norm() == b.norm()),
    }
}

fn has_chrono(t: &Ty) -> bool { match t { Ty::DateTime64(..) => true, Ty::Nullable(t) | Ty::Array(t) | Ty::Low(t) | Ty::Agg(_, t) => has_chrono(t), Ty::Map(k, v) => has_chrono(k) || has_chrono(v), _ => false } }

/// A DateTime64 read back from a chrono time may have another precision: compare instants.
fn diff_read(t: &Ty, exp: &Val, got: &ValueRef) -> Option<String> {
    let bad = || Some(format!("expected {exp:?} ({}), read {got:?}", t.name()));
    match (t, exp, got) {
        (Ty::Nullable(_), Val::Null, ValueRef::Nullable(either::Either::Left(_))) => None,
        (Ty::Nullable(t), v, ValueRef::Nullable(either::Either::Right(g))) if *v != Val::Null => diff_read(t, v, g),
        (Ty::Low(t), v, g) | (Ty::Agg(_, t), v, g) => diff_read(t, v, g),
        (Ty::Array(t), Val::A(v), ValueRef::Array(_, g)) => { if v.len() != g.len() { return bad(); } v.iter().zip(g.iter()).find_map(|(a, b)| diff_read(t, a, b)) }
        (Ty::Map(k, w), Val::M(v), ValueRef::Map(_, _, g)) => {
            if v.len() != g.len() { return bad(); }
            v.iter().find_map(|(a, b)| if g.iter().any(|(c, d)| diff_read(k, a, c).is_none() && diff_read(w, b, d).is_none()) { None } else { bad() })
        }
        (Ty::DateTime64(p, z), Val::DT64(x), g) => {
            let exp = nanos(*x, *p);
            let (got, tz) = match g { ValueRef::DateTime64(y, pr) => (nanos(*y, pr.0), pr.1), ValueRef::DateTime(s, tz) => (*s as i128 * 1_000_000_000, *tz), _ => return bad() };
            if exp != got || z.map(|z| z != tz).unwrap_or(false) { bad() } else { None }
        }
        (_, v, g) => if from_ref(g).norm() == v.norm() { None } else { bad() },
    }
}

fn nanos(ticks: i64, p: u32) -> i128 { if p <= 9 { ticks as i128 * 10i128.pow(9 - p) } else { (ticks as i128).div_euclid(10i128.pow(p - 9)) } }

/// Round trips and equality of generated values of every (nested) type.
fn values(ctx: &Ctx, n: u64, r: &mut Rng) {
    let t = gen_ty(r, 3);
    let tz = *r.pick(&TZS);
    let a = gen_val(r, &t);
    let b = if r.chance(1, 4) { a.clone() } else { gen_val(r, &t) };
    let bad = |sig: &str, e: String| ctx.violation("values", n, sig, format!("{} in {tz}\n{a:?}\n{b:?}\n{e}", t.name()));
    let (va, vb) = (to_value(&t, &a, tz), to_value(&t, &b, tz));
    ctx.eval();
    ctx.distinct(&(t.kind(), h(&format!("{a:?}"))));
    let (ra, rb) = (ValueRef::from(&va), ValueRef::from(&vb));
    if let Some(e) = diff_read(&t, &a, &ra) { return bad("read", e); }
    let back = Value::from(ra.clone());
    if let Some(e) = diff_read(&t, &a, &ValueRef::from(&back)) { return bad("back", e); }
    if SqlType::from(back.clone()) != SqlType::from(ra.clone()) { return bad("type", format!("{} became {}", SqlType::from(ra), SqlType::from(back))); }
    for (what, x, y, z) in [("Value", va == vb, vb == va, h(&va) == h(&vb)), ("ValueRef", ra == rb, rb == ra, h(&ra) == h(&rb))] {
        if x != y { return bad("symmetry", format!("{what}: a == b is {x}, b == a is {y}")); }
        if let Some(s) = same(&t, &a, &b) {
            if s { ctx.count("equal_pairs", 1) } else { ctx.count("unequal_pairs", 1) }
            if s != x { return bad("equality", format!("{what}: a == b is {x}, it should be {s}")); }
        }
        if x && !z { return bad("hash", format!("{what}: equal values have different hashes")); }
    }
    if same(&t, &a, &a) == Some(true) {
        if va != va.clone() || ra != ra.clone() { return bad("reflexive", String::new()); }
        if !has_chrono(&t) && (back != va || h(&back) != h(&va)) { return bad("identity", format!("Value -> ValueRef -> Value gave {back:?}")); }
        let mut m = HashMap::new();
        m.insert(va.clone(), 1);
        if m.get(&va.clone()) != Some(&1) { return bad("lookup", String::new()); }
        if same(&t, &a, &b) == Some(false) && m.contains_key(&vb) { return bad("lookup", "found under another value".into()); }
        let mut m = HashMap::new();
        m.insert(ra.clone(), 1);
        if m.get(&ra) != Some(&1) { return bad("lookup", String::new()); }
    }
    // text never panics, and equal values of unordered-free types have one text
    let (x, y, z) = (format!("{va}"), format!("{ra}"), format!("{va:#} {ra:#} {va:?} {ra:?}"));
    if x.is_empty() && y.is_empty() && z.is_empty() && !matches!(a, Val::S(_)) { bad("text", "empty".into()) }
    if let Some(e) = scalar_text(&t, &a, &y) { return bad("text", format!("ValueRef shown as {y:?}: {e}")); }
    if !matches!(strip(&t), Ty::DateTime(_) | Ty::DateTime64(..) | Ty::Enum8(_) | Ty::Enum16(_) | Ty::Map(..) | Ty::Array(_)) {
        if let Some(e) = scalar_text(&t, &a, &x) { return bad("text", format!("Value shown as {x:?}: {e}")); }
    }
    ctx.sample(|| format!("{}: {a:?} <-> {x}", t.name()));
}

fn strip(t: &Ty) -> &Ty { match t { Ty::Nullable(t) | Ty::Low(t) | Ty::Agg(_, t) => strip(t), t => t } }

/// Year, month, day of a day number since 1970-01-01 (independent of chrono).
fn civil(days: i64) -> (i64, u32, u32) {
    let z = days + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m as u32, (doy - (153 * mp + 2) / 5 + 1) as u32)
}

fn year(y: i64) -> String { if y > 9999 { format!("+{y}") } else if y < 0 { format!("-{:04}", -y) } else { format!("{y:04}") } }

fn stamp_text(secs: i64, tz: Tz) -> Option<String> {
    let utc = DateTime::from_timestamp(secs, 0)?.naive_utc();
    let local = secs + tz.offset_from_utc_datetime(&utc).fix().local_minus_utc() as i64;
    let (y, m, d) = civil(local.div_euclid(86_400));
    let s = local.rem_euclid(86_400);
    Some(format!("{}-{m:02}-{d:02} {:02}:{:02}:{:02}", year(y), s / 3600, s / 60 % 60, s % 60))
}

/// The text has no seconds of the offset (some zones of old): the local time must be right then.
fn rfc_ok(q: &DateTime<chrono::FixedOffset>, s: i64, tz: Tz) -> bool {
    let Some(utc) = DateTime::from_timestamp(s, 0) else { return false };
    let off = tz.offset_from_utc_datetime(&utc.naive_utc()).fix().local_minus_utc();
    if off % 60 == 0 { q.timestamp() == s } else { Some(q.naive_local().format("%Y-%m-%d %H:%M:%S").to_string()) == stamp_text(s, tz) }
}

fn dec_text(u: i128, scale: u32) -> String {
    let (p, neg) = (10u128.pow(scale), u < 0);
    let a = u.unsigned_abs();
    let mut s = format!("{}{}", if neg { "-" } else { "" }, a / p);
    if scale > 0 { s.push('.'); for k in (0..scale).rev() { s.push((b'0' + (a / 10u128.pow(k) % 10) as u8) as char); } }
    s
}

fn scalar_text(t: &Ty, v: &Val, s: &str) -> Option<String> {
    let exp = match (t, v) {
        (Ty::Nullable(_), Val::Null) => "NULL".to_string(),
        (Ty::Nullable(t), v) | (Ty::Low(t), v) | (Ty::Agg(_, t), v) => return scalar_text(t, v, s),
        (_, Val::U(x)) => x.to_string(),
        (_, Val::I(x)) => x.to_string(),
        (_, Val::Bool(x)) => x.to_string(),
        (_, Val::Date(d)) => { let (y, m, d) = civil(*d as i64); format!("{y:04}-{m:02}-{d:02}") }
        (Ty::DateTime(Some(z)), Val::DT(x)) => stamp_text(*x as i64, *z)?,
        (Ty::DateTime64(p, Some(z)), Val::DT64(x)) => stamp_text(x.div_euclid(10i64.pow(*p)), *z)?,
        (_, Val::Dec(u, sc)) => dec_text(*u as i128, *sc as u32),
        (_, Val::Ip4(a)) => format!("{}.{}.{}.{}", a[0], a[1], a[2], a[3]),
        (_, Val::Uuid(u)) => { let x: String = u.iter().map(|b| format!("{b:02x}")).collect(); format!("{}-{}-{}-{}-{}", &x[..8], &x[8..12], &x[12..16], &x[16..20], &x[20..]) }
        (_, Val::Ip6(a)) => return match s.parse::<std::net::Ipv6Addr>() { Ok(x) if x.octets() == *a => None, _ => Some("not this address".into()) },
        (_, Val::F32(x)) => return match s.parse::<f32>() { Ok(y) if y.to_bits() == *x || (y.is_nan() && f32::from_bits(*x).is_nan()) => None, _ => Some("not this number".into()) },
        (_, Val::F64(x)) => return match s.parse::<f64>() { Ok(y) if y.to_bits() == *x || (y.is_nan() && f64::from_bits(*x).is_nan()) => None, _ => Some("not this number".into()) },
        (_, Val::S(x)) => match std::str::from_utf8(x) { Ok(x) => x.to_string(), Err(_) => format!("{x:?}") },
        _ => return None,
    };
    if exp == s { None } else { Some(format!("expected {exp:?}")) }
}

// ---- Rust types ----

/// Rust value -> Value -> ValueRef -> FromSql.
fn sql<T>(x: T) -> Result<(), String>
where T: Into<Value> + Clone + PartialEq + Debug + for<'a> FromSql<'a> {
    let v: Value = x.clone().into();
    let r = ValueRef::from(&v);
    match T::from_sql(r.clone()) { Ok(y) if y == x => {} o => return Err(format!("{x:?} became {v:?} and was read as {o:?}")) }
    let v2 = Value::from(r);
    match T::from_sql(ValueRef::from(&v2)) { Ok(y) if y == x => Ok(()), o => Err(format!("{x:?} became {v2:?} and was read as {o:?}")) }
}
/// Rust value -> Value -> Rust value.
fn own<T>(x: T) -> Result<(), String>
where T: Into<Value> + From<Value> + Clone + PartialEq + Debug {
    let v: Value = x.clone().into();
    let y = T::from(v.clone());
    if x == y { Ok(()) } else { Err(format!("{x:?} became {v:?} and then {y:?}")) }
}
fn byref<T>(x: T) -> Result<(), String>
where T: Into<Value> + for<'a> From<ValueRef<'a>> + Clone + PartialEq + Debug {
    let v: Value = x.clone().into();
    let y = T::from(ValueRef::from(&v));
    if x == y { Ok(()) } else { Err(format!("{x:?} became {v:?} and then {y:?}")) }
}
fn opt<T>(x: T) -> Result<(), String>
where Value: From<T>, T: HasSqlType + Clone + PartialEq + Debug + for<'a> FromSql<'a> {
    sql(x.clone())?;
    sql(Some(x))?;
    sql(None::<T>)?;
    let v: Value = None::<T>.into();
    if SqlType::from(v.clone()) != SqlType::Nullable(T::get_sql_type().into()) { return Err(format!("None is of type {}", SqlType::from(v))); }
    Ok(())
}
fn vec_<T>(r: &mut Rng, f: impl Fn(&mut Rng) -> T) -> Vec<T> { (0..r.below(6)).map(|_| f(r)).collect() }

fn int(r: &mut Rng) -> i128 {
    match r.below(6) { 0 => 0, 1 => *r.pick(&[1, -1, i8::MIN as i128, i8::MAX as i128, u8::MAX as i128, i16::MIN as i128, u16::MAX as i128, i32::MIN as i128, i32::MAX as i128, u32::MAX as i128, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, i128::MIN, i128::MAX]), k => (r.u128() as i128) >> (k * 21 + r.below(40)).min(127) }
}
fn f(r: &mut Rng) -> f64 { match r.below(5) { 0 => 0.0, 1 => -(r.u64() as f64), 2 => f64::MIN_POSITIVE, 3 => f64::INFINITY, _ => { let x = f64::from_bits(r.u64()); if x.is_nan() { 1.5 } else { x } } } }
fn text(r: &mut Rng) -> String { let n = r.below(20); (0..n).map(|_| *r.pick(&['a', 'Z', '\0', '\'', 'é', '漢', '🦀', ' ', '\n', '"'])).collect() }
fn day(r: &mut Rng) -> NaiveDate { let d = *r.pick(&[0, 1, 65535, 65534, r_u16(r)]); NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(d as i64) }
fn r_u16(r: &Rng) -> u16 { r.clone().u64() as u16 }
fn time(r: &mut Rng) -> DateTime<Tz> {
    let tz = *r.pick(&TZS);
    let s = match r.below(5) { 0 => *r.pick(&[0, -1, 1, u32::MAX as i64, u32::MAX as i64 + 1, -86400, 951_782_400, -2_203_891_200]), 1 => r.u64() as u32 as i64, 2 => -((r.u64() >> 30) as i64 % 9_000_000_000), _ => (r.u64() >> 30) as i64 % 9_000_000_000 };
    let ns = match r.below(4) { 0 => 0, 1 => r.below(1000) as u32 * 1_000_000, 2 => r.below(1_000_000) as u32 * 1000, _ => r.below(1_000_000_000) as u32 };
    tz.timestamp_opt(s, ns).unwrap()
}
fn dec(r: &mut Rng) -> Decimal { Decimal::new(underlying(r), r.below(19) as u8) }
fn underlying(r: &mut Rng) -> i64 {
    const L: i64 = 1_000_000_000_000_000_000;
    match r.below(6) { 0 => *r.pick(&[0, 1, -1, L - 1, 1 - L, 10, -10, 5, -5]), 1 => { let k = r.below(18) as u32; (r.below(19) as i64 - 9) * 10i64.pow(k) } k => ((r.u64() as i64) >> (r.below(12) + k * 8)) % L }
}

fn rust(ctx: &Ctx, n: u64, r: &mut Rng) {
    let i = int(r);
    let x = f(r);
    let checks: Vec<(&str, Result<(), String>)> = vec![
        ("bool", { let b = i & 1 == 1; opt(b).and_then(|_| own(b)).and_then(|_| byref(b)) }),
        ("u8", opt(i as u8).and_then(|_| own(i as u8)).and_then(|_| byref(i as u8))),
        ("u16", opt(i as u16).and_then(|_| own(i as u16)).and_then(|_| byref(i as u16))),
        ("u32", opt(i as u32).and_then(|_| own(i as u32)).and_then(|_| byref(i as u32))),
        ("u64", opt(i as u64).and_then(|_| own(i as u64)).and_then(|_| byref(i as u64))),
        ("u128", opt(i as u128).and_then(|_| own(i as u128)).and_then(|_| byref(i as u128))),
        ("i8", opt(i as i8).and_then(|_| own(i as i8)).and_then(|_| byref(i as i8))),
        ("i16", opt(i as i16).and_then(|_| own(i as i16)).and_then(|_| byref(i as i16))),
        ("i32", opt(i as i32).and_then(|_| own(i as i32)).and_then(|_| byref(i as i32))),
        ("i64", opt(i as i64).and_then(|_| own(i as i64)).and_then(|_| byref(i as i64))),
        ("i128", opt(i).and_then(|_| own(i)).and_then(|_| byref(i))),
        ("f64", opt(x).and_then(|_| own(x)).and_then(|_| byref(x))),
        ("f32", opt(x as f32).and_then(|_| own(x as f32)).and_then(|_| byref(x as f32))),
        ("String", { let s = text(r); opt(s.clone()).and_then(|_| own(s)) }),
        ("&str", { let s = text(r); let v = Value::from(s.as_str()); match <&str>::from_sql(ValueRef::from(&v)) { Ok(y) if y == s && ValueRef::from(&v).as_str().ok() == Some(&s) && ValueRef::from(s.as_str()) == ValueRef::from(&v) => Ok(()), o => Err(format!("{s:?} read as {o:?}")) } }),
        ("bytes", { let k = r.below(20); let s = r.bytes(k); let v = Value::from(s.as_slice()); match <&[u8]>::from_sql(ValueRef::from(&v)) { Ok(y) if y == s && v == Value::from(s.clone()) => sql(s.clone()).and_then(|_| own(s)), o => Err(format!("{s:?} read as {o:?}")) } }),
        ("not text", { let v = Value::from(vec![b'a', 0xff]); match (String::from_sql(ValueRef::from(&v)), guard(|| String::from(v.clone()))) { (Err(_), Err(_)) => Ok(()), o => Err(format!("invalid UTF-8 read as {o:?}")) } }),
        ("NaiveDate", { let d = day(r); opt(d).and_then(|_| own(d)).and_then(|_| byref(d)) }),
        ("DateTime<Tz>", { let t = time(r); let zone = |v: Value| DateTime::<Tz>::from(v).timezone(); opt(t).and_then(|_| own(t)).and_then(|_| byref(t)).and_then(|_| if zone(t.into()) == t.timezone() { Ok(()) } else { Err(format!("{t:?} lost its zone")) }) }),
        ("DateTime<Utc>", { let t = time(r).with_timezone(&Utc); let v = Value::from(t); let (a, b) = (DateTime::<Tz>::from(v.clone()), DateTime::<Tz>::from_sql(ValueRef::from(&v))); if a == t && b.as_ref().ok() == Some(&a) { Ok(()) } else { Err(format!("{t:?} became {v:?}, then {a:?}, {b:?}")) } }),
        ("Uuid", { let u = uuid::Uuid::from_u128(r.u128()); let v = Value::from(u); match uuid::Uuid::from_sql(ValueRef::from(&v)) { Ok(y) if y == u && v.to_string() == u.to_string() => Ok(()), o => Err(format!("{u} became {v:?}, read as {o:?}")) } }),
        ("ipv4", { let a = (r.u64() as u32).to_be_bytes(); own(a).and_then(|_| { let mut rev = a; rev.reverse(); let v = Value::from(rev); match std::net::Ipv4Addr::from_sql(ValueRef::from(&v)) { Ok(y) if y.octets() == a && v.to_string() == y.to_string() => Ok(()), o => Err(format!("{a:?} read as {o:?}")) } }) }),
        ("ipv6", { let a = r.u128().to_be_bytes(); let v = Value::from(a); match std::net::Ipv6Addr::from_sql(ValueRef::from(&v)) { Ok(y) if y.octets() == a && v.to_string() == y.to_string() => Ok(()), o => Err(format!("{a:?} read as {o:?}")) } }),
        ("Decimal", { let d = dec(r); let v = Value::from(d.clone()); match Decimal::from_sql(ValueRef::from(&v)) { Ok(y) if y.internal::<i64>() == d.internal::<i64>() && y.scale() == d.scale() => Ok(()), o => Err(format!("{d} became {v:?}, read as {o:?}")) } }),
        ("Enum8", { let e = Enum8::of(i as i8); sql(e).and_then(|_| { let v = Value::from(e); if Enum8::from(ValueRef::from(&v)).internal() == i as i8 { Ok(()) } else { Err(format!("{v:?}")) } }) }),
        ("Enum16", { let e = Enum16::of(i as i16); sql(e).and_then(|_| { let v = Value::from(e); if Enum16::from(ValueRef::from(&v)).internal() == i as i16 { Ok(()) } else { Err(format!("{v:?}")) } }) }),
        ("Vec<u16>", sql(vec_(r, |r| int(r) as u16))), ("Vec<u32>", sql(vec_(r, |r| int(r) as u32))), ("Vec<u64>", sql(vec_(r, |r| int(r) as u64))), ("Vec<u128>", sql(vec_(r, |r| int(r) as u128))),
        ("Vec<i8>", sql(vec_(r, |r| int(r) as i8))), ("Vec<i16>", sql(vec_(r, |r| int(r) as i16))), ("Vec<i32>", sql(vec_(r, |r| int(r) as i32))), ("Vec<i64>", sql(vec_(r, |r| int(r) as i64))), ("Vec<i128>", sql(vec_(r, int))),
        ("Vec<f32>", sql(vec_(r, |r| f(r) as f32))), ("Vec<f64>", sql(vec_(r, f))), ("Vec<String>", sql(vec_(r, text))),
        ("HashMap<String, u64>", sql(vec_(r, |r| (text(r), int(r) as u64)).into_iter().collect::<HashMap<_, _>>())),
        ("HashMap<i64, String>", sql(vec_(r, |r| (int(r) as i64, text(r))).into_iter().collect::<HashMap<_, _>>())),
        ("HashMap<NaiveDate, f64>", sql(vec_(r, |r| (day(r), f(r))).into_iter().collect::<HashMap<_, _>>())),
        ("HashMap<u8, HashMap<u8, bool>>", sql(vec_(r, |r| (int(r) as u8, vec_(r, |r| (int(r) as u8, r.chance(1, 2))).into_iter().collect::<HashMap<_, _>>())).into_iter().collect::<HashMap<_, _>>())),
        ("Option<HashMap>", sql(Some(vec_(r, |r| (text(r), time(r))).into_iter().collect::<HashMap<_, _>>()))),
    ];
    for (t, c) in checks {
        ctx.eval();
        ctx.count("round_trips", 1);
        if let Err(e) = c { ctx.violation("rust", n, t, format!("{t}: {e}")); }
    }
    ctx.distinct(&(i, x.to_bits()));
    columns(ctx, n, r);
}

/// Columns of chrono values keep the instants; dates out of range are refused.
fn columns(ctx: &Ctx, n: u64, r: &mut Rng) {
    let ts: Vec<DateTime<Tz>> = { let tz = *r.pick(&TZS); (0..r.range(1, 5)).map(|_| time(r).with_timezone(&tz)).collect() };
    let b = Block::new().column("t", ts.clone());
    for (k, t) in ts.iter().enumerate() {
        ctx.eval();
        match b.get::<DateTime<Tz>, _>(k, "t") { Ok(x) if x == *t && x.timezone() == t.timezone() => {} o => ctx.violation("rust", n, "chrono column", format!("{t:?} in a column was read as {o:?}")) }
    }
    let days = match r.below(4) { 0 => *r.pick(&[-1i64, 65536, 65535, 0, -65536, 131072]), 1 => r.below(65536) as i64, _ => (r.u64() >> 44) as i64 - 524_288 };
    let d = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(days);
    let fits = (0..65536).contains(&days);
    ctx.eval();
    ctx.count(if fits { "dates_fitting" } else { "dates_out_of_range" }, 1);
    for (k, got) in [guard(|| NaiveDate::from(Value::from(d))), guard(|| Block::new().column("d", vec![d]).get::<NaiveDate, _>(0, "d").unwrap()), guard(|| Block::new().column("d", vec![vec![d]]).get::<Vec<NaiveDate>, _>(0, "d").unwrap()[0])].into_iter().enumerate() {
        match got { Ok(x) if x == d && fits => {} Err(_) if !fits => {} o => ctx.violation("rust", n, "date", format!("conversion {k} of {d} gave {o:?}")) }
    }
    let t = time(r);
    let fits = u32::try_from(t.timestamp()).is_ok() && t.nanosecond() == 0;
    for (k, v) in [Value::from(t), Value::from(t.with_timezone(&Utc))].into_iter().enumerate() {
        ctx.eval();
        if let ValueRef::DateTime(s, _) = ValueRef::from(&v) { if !fits || s as i64 != t.timestamp() { ctx.violation("rust", n, "seconds", format!("conversion {k} of {t:?} gave {v:?}")); } }
    }
}

/// Every value asked for as every type: the right one, or refused.
fn types(ctx: &Ctx, n: u64, r: &mut Rng) {
    let mut t = gen_ty(r, 2);
    while let Ty::Low(x) | Ty::Agg(_, x) = t { t = *x; }
    let v = gen_val(r, &t);
    let tz = *r.pick(&TZS);
    let val = to_value(&t, &v, tz);
    let mut tried = 0;
    macro_rules! ask { ($($ty:ty, $kind:pat => $conv:expr;)*) => { $({
        tried += 1;
        let got = guard(|| <$ty>::from_sql(ValueRef::from(&val)).map_err(|e| e.to_string()));
        let s = stringify!($ty);
        match (got, &v) {
            (Err(e), _) => ctx.violation("types", n, "panic", format!("{} {v:?} as {s}: panic {e}", t.name())),
            (Ok(Err(_)), _) => if matches!(&t, $kind) && !matches!(&v, Val::S(x) if std::str::from_utf8(x).is_err()) { ctx.violation("types", n, "refused", format!("{} {v:?} as {s} was refused", t.name())) },
            (Ok(Ok(x)), _) => { if !matches!(&t, $kind) { ctx.violation("types", n, "accepted", format!("{} {v:?} as {s} was accepted: {x:?}", t.name())) }
                else { let g: Val = $conv(x.clone()); if g.norm() != v.norm() { ctx.violation("types", n, "value", format!("{} {v:?} as {s}: {x:?}", t.name())) } } }
        }
    })* } }
    ask! {
        bool, Ty::Bool => Val::Bool;
        u8, Ty::U8 => |x| Val::U(x as u128); u16, Ty::U16 => |x| Val::U(x as u128); u32, Ty::U32 => |x| Val::U(x as u128); u64, Ty::U64 => |x| Val::U(x as u128); u128, Ty::U128 => Val::U;
        i8, Ty::I8 => |x| Val::I(x as i128); i16, Ty::I16 => |x| Val::I(x as i128); i32, Ty::I32 => |x| Val::I(x as i128); i64, Ty::I64 => |x| Val::I(x as i128); i128, Ty::I128 => Val::I;
        f32, Ty::F32 => |x: f32| Val::F32(x.to_bits()); f64, Ty::F64 => |x: f64| Val::F64(x.to_bits());
        String, Ty::Str | Ty::Fixed(_) => |x: String| Val::S(x.into_bytes());
        NaiveDate, Ty::Date => |x: NaiveDate| Val::Date((x.num_days_from_ce() - 719_163) as u16);
        Decimal, Ty::Dec(..) => |x: Decimal| Val::Dec(x.internal(), x.scale() as u8);
        Enum8, Ty::Enum8(_) => |x: Enum8| Val::E(x.internal() as i16); Enum16, Ty::Enum16(_) => |x: Enum16| Val::E(x.internal());
        uuid::Uuid, Ty::Uuid => |x: uuid::Uuid| Val::Uuid(*x.as_bytes());
        std::net::Ipv4Addr, Ty::Ip4 => |x: std::net::Ipv4Addr| Val::Ip4(x.octets()); std::net::Ipv6Addr, Ty::Ip6 => |x: std::net::Ipv6Addr| Val::Ip6(x.octets());
    }
    // the infallible ones: the value or a panic
    macro_rules! inf { ($($ty:ty, $kind:pat => $conv:expr;)*) => { $({
        tried += 1;
        let s = stringify!($ty);
        for (how, got) in [("Value", guard(|| <$ty>::from(val.clone()))), ("ValueRef", guard(|| <$ty>::from(ValueRef::from(&val))))] {
            match got {
                Err(_) => if matches!(&t, $kind) { ctx.violation("types", n, "refused", format!("{how}: {} {v:?} as {s} was refused", t.name())) },
                Ok(x) => { let g: Val = $conv(x.clone()); if !matches!(&t, $kind) || g != v { ctx.violation("types", n, "converted", format!("{how}: {} {v:?} as {s}: {x:?}", t.name())) } }
            }
        }
    })* } }
    if r.chance(1, 20) {
        inf! {
            bool, Ty::Bool => Val::Bool;
            u8, Ty::U8 => |x| Val::U(x as u128); u16, Ty::U16 => |x| Val::U(x as u128); u32, Ty::U32 => |x| Val::U(x as u128); u64, Ty::U64 => |x| Val::U(x as u128); u128, Ty::U128 => Val::U;
            i8, Ty::I8 => |x| Val::I(x as i128); i16, Ty::I16 => |x| Val::I(x as i128); i32, Ty::I32 => |x| Val::I(x as i128); i64, Ty::I64 => |x| Val::I(x as i128); i128, Ty::I128 => Val::I;
            f32, Ty::F32 => |x: f32| Val::F32(x.to_bits()); f64, Ty::F64 => |x: f64| Val::F64(x.to_bits());
            NaiveDate, Ty::Date => |x: NaiveDate| Val::Date((x.num_days_from_ce() - 719_163) as u16);
        }
    }
    ctx.eval();
    ctx.count("value_type_pairs", tried);
    ctx.distinct(&(t.kind(), h(&format!("{v:?}"))));
}

// ---- decimals ----

fn decimals(ctx: &Ctx, n: u64, r: &mut Rng) {
    let bad = |sig: &str, e: String| ctx.violation("decimals", n, sig, e);
    for _ in 0..40 {
        ctx.eval();
        let (u, s) = (underlying(r), r.below(19) as u8);
        let d = Decimal::new(u, s);
        ctx.distinct(&(u, s));
        if d.to_string() != dec_text(u as i128, s as u32) || format!("{d:?}") != d.to_string() { bad("text", format!("{u}e-{s} is shown as {d}")); }
        if d.internal::<i64>() != u || d.scale() != s as usize { bad("parts", format!("{u}e-{s}")); }
        match guard(|| d.internal::<i32>()) { Ok(x) if x as i64 == u => {} Err(_) if i32::try_from(u).is_err() => {} o => bad("i32", format!("{u}e-{s} as i32: {o:?}")) }
        let txt: f64 = d.to_string().parse().unwrap();
        let fl = f64::from(d.clone());
        let exact = u.unsigned_abs() < 1 << 53;
        if (exact && fl != txt) || (fl - txt).abs() > txt.abs() * 4.5e-16 { bad("f64", format!("{d} as f64: {fl}")); }
        let (t32, f32_) = (d.to_string().parse::<f32>().unwrap(), f32::from(d.clone()));
        if (u.unsigned_abs() < 1 << 24 && s <= 10 && f32_ != t32) || (f32_ - t32).abs() > t32.abs() * 3e-7 { bad("f32", format!("{d} as f32: {f32_}")); }
        // another decimal, equal or nearly so
        let s2 = r.below(19) as u8;
        let eqv = if s2 >= s { u.checked_mul(10i64.pow((s2 - s) as u32)) } else { let p = 10i64.pow((s - s2) as u32); if u % p == 0 { Some(u / p) } else { None } };
        let u2 = match (r.below(3), eqv) { (0, Some(x)) => x, (1, Some(x)) => x.saturating_add(r.below(3) as i64 - 1), _ => match r.below(3) { 0 => underlying(r), 1 => if s2 >= s { u.wrapping_mul(10i64.pow((s2 - s) as u32)) } else { u.wrapping_mul(10i64.pow((s - s2) as u32)) }, _ => { (u as i128 * 10i128.pow(s2 as u32) / 10i128.pow(s as u32)).clamp(i64::MIN as i128, i64::MAX as i128) as i64 } } };
        let e = Decimal::new(u2, s2);
        let same = u as i128 * 10i128.pow(s2 as u32) == u2 as i128 * 10i128.pow(s as u32);
        ctx.count(if same { "equal_decimals" } else { "unequal_decimals" }, 1);
        match guard(|| (d == e, e == d)) { Ok((a, b)) if a == same && b == same => {} o => bad("equality", format!("{d} == {e}: {o:?}")) }
        if same && h(&d) != h(&e) { bad("hash", format!("{d} and {e} hash differently")); }
        let (va, vb) = (Value::from(d.clone()), Value::from(e.clone()));
        if (va == vb) != same || (ValueRef::from(&va) == ValueRef::from(&vb)) != same { bad("equality", format!("Value: {d} == {e}")); }
        if same && h(&va) != h(&vb) { bad("hash", format!("Value: {d} and {e} hash differently")); }
        // from numbers
        let i = int(r);
        macro_rules! of { ($($t:ty),*) => { $({
            let x = i as $t;
            let exp = (x as i128).checked_mul(10i128.pow(s as u32)).filter(|u| u.unsigned_abs() < 10u128.pow(18));
            match (guard(|| Decimal::of(x, s)), exp) { (Ok(d), Some(u)) if d.internal::<i64>() as i128 == u && d.scale() == s as usize => {} (Err(_), None) => {} (o, e) => bad("of", format!("Decimal::of({x}_{}, {s}) is {o:?}, expected {e:?}", stringify!($t))) }
        })* } }
        of!(i8, i16, i32, i64, u8, u16, u32, u64);
        // the shortest floats of short decimals, and any float
        let su = u % (1 << 51);
        let fl: f64 = dec_text(su as i128, s as u32).parse().unwrap();
        match guard(|| Decimal::of(fl, s)) { Ok(d) if d.internal::<i64>() == su => {} o => bad("of f64", format!("Decimal::of({fl}_f64, {s}) is {o:?}, expected {su}")) }
        let su = u % (1 << 22);
        let fl: f32 = dec_text(su as i128, s as u32).parse().unwrap();
        match guard(|| Decimal::of(fl, s)) { Ok(d) if d.internal::<i64>() == su => {} o => bad("of f32", format!("Decimal::of({fl}_f32, {s}) is {o:?}, expected {su}")) }
        let fl = match r.below(8) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => f64::from_bits(r.u64()), _ => (r.u64() as i64 as f64) / 10f64.powi(r.below(30) as i32) };
        let p = fl * 10f64.powi(s as i32);
        match guard(|| Decimal::of(fl, s)) {
            Ok(d) => { let u = d.internal::<i64>() as f64; if !p.is_finite() || p.abs() > 1.0001e18 || (u - p).abs() > 0.5000001 + p.abs() * 4.5e-16 { bad("float", format!("Decimal::of({fl:e}, {s}) is {d}")) } }
            Err(_) => if p.abs() < 0.9999e18 { bad("float", format!("Decimal::of({fl:e}, {s}) is refused")) },
        }
    }
    match guard(|| Decimal::new(1, 19 + r.below(200) as u8)) { Err(_) => {} o => bad("scale", format!("scale over 18 accepted: {o:?}")) }
    ctx.sample(|| format!("decimal {}", dec(&mut r.fork())));
}

// ---- times ----

fn times(ctx: &Ctx, n: u64, r: &mut Rng) {
    for _ in 0..40 {
        let p = r.below(10) as u32;
        let tz = *r.pick(&TZS);
        let m = 10i64.pow(p);
        let x = match r.below(7) {
            0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, m, -m, m - 1, -m - 1, 1 - m]),
            1 => r.u64() as i64,
            2 => ((r.u64() >> 32) as i64).saturating_mul(m).saturating_add(r.u64() as i64 % m),
            3 => -((r.u64() >> 31) as i64).saturating_mul(m).saturating_add(r.u64() as i64 % m),
            4 => 253_402_300_800i64.saturating_mul(m).saturating_add(r.below(100_000) as i64 - 50_000),
            5 => (r.u64() as i64) >> r.below(50),
            _ => { let s = 951_782_400 + 86_400 * (r.below(80_000) as i64 - 40_000) - 1 + r.below(2) as i64; s.saturating_mul(m) }
        };
        let val = Value::DateTime64(x, (p, tz));
        let params = (p, tz);
        let rf = ValueRef::DateTime64(x, &params);
        let (s, ns) = (x.div_euclid(m), (x.rem_euclid(m) as u128 * 10u128.pow(9 - p)) as u32);
        let valid = DateTime::from_timestamp(s, ns).is_some();
        ctx.eval();
        ctx.distinct(&(x, p, tz));
        ctx.count(if !valid { "times_out_of_calendar" } else if s < 0 { "times_before_1970" } else { "times_since_1970" }, 1);
        let bad = |sig: &str, e: String| ctx.violation("times", n, sig, format!("DateTime64({p}, {tz}) of {x} ticks: {e}"));
        match guard(|| DateTime::<Tz>::from_sql(rf.clone()).map_err(|e| e.to_string())) {
            Ok(Ok(t)) => if !valid || t.timestamp() != s || t.timestamp_subsec_nanos() != ns || t.timezone() != tz { bad("value", format!("read as {t:?}")) },
            Ok(Err(e)) => if valid { bad("refused", e) },
            Err(e) => bad("panic", e),
        }
        match guard(|| Vec::<DateTime<Tz>>::from_sql(ValueRef::Array(SqlType::DateTime(DateTimeType::DateTime64(p, tz)).into(), Arc::new(vec![rf.clone()]))).map_err(|e| e.to_string())) {
            Ok(Ok(t)) => if !valid || t[0].timestamp() != s || t[0].timestamp_subsec_nanos() != ns { bad("value", format!("read in an array as {t:?}")) },
            Ok(Err(e)) => if valid { bad("refused", e) },
            Err(e) => bad("panic", e),
        }
        for (how, got) in [("Value", guard(|| DateTime::<Tz>::from(val.clone()))), ("ValueRef", guard(|| DateTime::<Tz>::from(rf.clone())))] {
            match got { Ok(t) => if !valid || t.timestamp() != s || t.timestamp_subsec_nanos() != ns { bad("value", format!("{how} converted to {t:?}")) }, Err(e) => if valid { bad("panic", format!("{how}: {e}")) } }
        }
        // text; the last day of the calendar is left out
        let edge = valid && (DateTime::from_timestamp(s + 86_400, 0).is_none() || DateTime::from_timestamp(s - 86_400, 0).is_none());
        if !edge {
            match guard(|| format!("{rf}")) { Ok(t) => if valid && Some(&t) != stamp_text(s, tz).as_ref() { bad("text", format!("ValueRef shown as {t:?}, expected {:?}", stamp_text(s, tz))) } else if !valid && NaiveDateTime::parse_from_str(&t, "%Y-%m-%d %H:%M:%S").is_ok() { bad("text", format!("ValueRef shown as {t:?}")) }, Err(e) => bad("panic", format!("ValueRef: {e}")) }
            let back = guard(|| format!("{val}"));
            match back {
                Ok(t) => if let Ok(q) = DateTime::parse_from_rfc2822(&t) { if !rfc_ok(&q, s, tz) { bad("text", format!("Value shown as {t:?}")) } }
                    else if valid && (s >= -62_135_596_800 + 86_400 && s < 253_402_300_800 - 86_400) { bad("text", format!("Value shown as {t:?}")) }
                    else if valid && stamp_text(s, tz).map(|x| !t.contains(&x[x.len() - 8..])).unwrap_or(false) { bad("text", format!("Value shown as {t:?}")) },
                Err(e) => bad("panic", format!("Value: {e}")),
            }
        }
        // equality across precisions and zones
        let p2 = r.below(10) as u32;
        let conv = nanos(x, p);
        let q = 10i128.pow(9 - p2);
        let y = i64::try_from(conv.div_euclid(q) + r.below(3) as i128 * r.below(2) as i128).unwrap_or(x);
        let params2 = (p2, *r.pick(&TZS));
        let rf2 = ValueRef::DateTime64(y, &params2);
        let same = nanos(x, p) == nanos(y, p2);
        match guard(|| (rf == rf2, rf2 == rf, h(&rf) == h(&rf2))) { Ok((a, b, c)) if a == same && b == same && (c || !same) => {} o => bad("equality", format!("compared with {y} ticks of {p2}: {o:?}, expected {same}")) }
        let (v2, v3) = (Value::DateTime64(y, (p, params2.1)), Value::DateTime64(x, (p, params2.1)));
        match guard(|| (val == v2, v2 == val, val == v3, h(&val) == h(&v3))) { Ok((a, b, true, true)) if a == (x == y) && a == b => {} o => bad("equality", format!("Value compared with {y} ticks: {o:?}")) }
        // DateTime
        let s = r.u64() as u32;
        let (a, b) = (Value::DateTime(s, tz), Value::DateTime(s, params2.1));
        let ra = ValueRef::from(&a);
        if a != b || h(&a) != h(&b) || ra != ValueRef::from(&b) || h(&ra) != h(&ValueRef::from(&b)) { bad("equality", format!("{a:?} and {b:?} are one instant")); }
        if a == Value::DateTime(s ^ 1, tz) { bad("equality", format!("{a:?} equals another second")); }
        if Some(ra.to_string()) != stamp_text(s as i64, tz) { bad("text", format!("{a:?} shown as {ra}")); }
        for t in [a.to_string(), format!("{ra:#}")] { if !DateTime::parse_from_rfc2822(&t).map(|q| rfc_ok(&q, s as i64, tz)).unwrap_or(false) { bad("text", format!("{a:?} shown as {t}")); } }
        match DateTime::<Tz>::from_sql(ra) { Ok(t) if t.timestamp() == s as i64 && t.timestamp_subsec_nanos() == 0 && t.timezone() == tz => {} o => bad("value", format!("{a:?} read as {o:?}")) }
        let d = s as u16;
        let (y, m, dd) = civil(d as i64);
        let exp = format!("{y:04}-{m:02}-{dd:02}");
        let v = Value::Date(d);
        if v.to_string() != exp || format!("{v:#}") != exp || ValueRef::Date(d).to_string() != exp || format!("{:#}", ValueRef::Date(d)) != exp { bad("text", format!("Date {d} shown as {v}")); }
        match NaiveDate::from_sql(ValueRef::Date(d)) { Ok(x) if (x.year() as i64, x.month(), x.day()) == (y, m, dd) => {} o => bad("value", format!("Date {d} read as {o:?}")) }
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("generated values of every type (nested to depth 3): Rust -> Value -> ValueRef -> FromSql/From and back give the same value, every value asked for as every scalar type gives that value or is refused, equality and hashes of pairs agree with the model, decimals (text, equality, hashing, conversion to and from integers and floats) against exact arithmetic, times and dates (values, text, equality at every precision, before 1970, out of the calendar) against an independent calendar; distinct = values");
    ctx.assume("chrono-tz gives the offsets of zones; NaN equality and Value equality of DateTime64 of different precisions are left open; text of times is to the second");
    cases(ctx, "decimals", ctx.n(20_000, 1_000_000), 8, secs(ctx.n(20, 300)), decimals);
    cases(ctx, "times", ctx.n(12_000, 600_000), 8, secs(ctx.n(20, 300)), times);
    cases(ctx, "values", ctx.n(300_000, 8_000_000), 8, secs(ctx.n(25, 400)), values);
    cases(ctx, "rust", ctx.n(60_000, 2_000_000), 8, secs(ctx.n(20, 300)), rust);
    cases(ctx, "types", ctx.n(200_000, 5_000_000), 8, secs(ctx.n(25, 400)), types);
}
