//! Bridge between the driver's public API and the model.
use crate::codec::half_rev;
use crate::model::*;
use chrono::{DateTime, NaiveDate, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::errors::Result as ChResult;
use clickhouse_rs::types::{Column, ColumnType, DateTimeType, Decimal, Enum16, Enum8, FromSql, FromSqlResult, Simple, SimpleAggFunc, SqlType, Value, ValueRef};
use clickhouse_rs::Block;
use either::Either;
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::sync::Arc;

/// Any cell, as the model sees it.
#[derive(Debug, Clone, PartialEq)]
pub struct Any(pub Val);

pub fn from_ref(v: &ValueRef) -> Val {
    match v {
        ValueRef::Bool(b) => Val::Bool(*b),
        ValueRef::UInt8(x) => Val::U(*x as u128), ValueRef::UInt16(x) => Val::U(*x as u128), ValueRef::UInt32(x) => Val::U(*x as u128), ValueRef::UInt64(x) => Val::U(*x as u128), ValueRef::UInt128(x) => Val::U(*x),
        ValueRef::Int8(x) => Val::I(*x as i128), ValueRef::Int16(x) => Val::I(*x as i128), ValueRef::Int32(x) => Val::I(*x as i128), ValueRef::Int64(x) => Val::I(*x as i128), ValueRef::Int128(x) => Val::I(*x),
        ValueRef::String(s) => Val::S(s.to_vec()),
        ValueRef::Float32(x) => Val::F32(x.to_bits()), ValueRef::Float64(x) => Val::F64(x.to_bits()),
        ValueRef::Date(d) => Val::Date(*d),
        ValueRef::DateTime(d, _) => Val::DT(*d),
        ValueRef::DateTime64(t, _) => Val::DT64(*t),
        ValueRef::Nullable(Either::Left(_)) => Val::Null,
        ValueRef::Nullable(Either::Right(v)) => from_ref(v),
        ValueRef::Array(_, v) => Val::A(v.iter().map(from_ref).collect()),
        ValueRef::Decimal(d) => Val::Dec(d.internal::<i64>(), d.scale() as u8),
        ValueRef::Ipv4(a) => { let mut b = *a; b.reverse(); Val::Ip4(b) }
        ValueRef::Ipv6(a) => Val::Ip6(*a),
        ValueRef::Uuid(a) => Val::Uuid(half_rev(a)),
        ValueRef::Enum8(_, e) => Val::E(e.internal() as i16),
        ValueRef::Enum16(_, e) => Val::E(e.internal()),
        ValueRef::Map(_, _, m) => { let mut v: Vec<(Val, Val)> = m.iter().map(|(k, v)| (from_ref(k), from_ref(v))).collect(); v.sort(); Val::M(v) }
    }
}

impl<'a> FromSql<'a> for Any {
    fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> { Ok(Any(from_ref(&v))) }
}

pub fn agg_of(s: &str) -> SimpleAggFunc { s.parse().unwrap() }

pub fn sql_type(t: &Ty) -> SqlType {
    let i8s = |v: &Vec<(String, i16)>| v.iter().map(|(n, x)| (n.clone(), *x as i8)).collect::<Vec<_>>();
    match t {
        Ty::Bool => SqlType::Bool, Ty::U8 => SqlType::UInt8, Ty::U16 => SqlType::UInt16, Ty::U32 => SqlType::UInt32, Ty::U64 => SqlType::UInt64, Ty::U128 => SqlType::UInt128,
        Ty::I8 => SqlType::Int8, Ty::I16 => SqlType::Int16, Ty::I32 => SqlType::Int32, Ty::I64 => SqlType::Int64, Ty::I128 => SqlType::Int128,
        Ty::F32 => SqlType::Float32, Ty::F64 => SqlType::Float64, Ty::Str => SqlType::String, Ty::Fixed(n) => SqlType::FixedString(*n), Ty::Date => SqlType::Date,
        Ty::DateTime(_) => SqlType::DateTime(DateTimeType::DateTime32),
        Ty::DateTime64(p, tz) => SqlType::DateTime(DateTimeType::DateTime64(*p, tz.unwrap_or(Tz::UTC))),
        Ty::Ip4 => SqlType::Ipv4, Ty::Ip6 => SqlType::Ipv6, Ty::Uuid => SqlType::Uuid,
        Ty::Dec(p, s) => SqlType::Decimal(*p, *s),
        Ty::Enum8(v) => SqlType::Enum8(i8s(v)), Ty::Enum16(v) => SqlType::Enum16(v.clone()),
        Ty::Nullable(t) => SqlType::Nullable(sql_type(t).into()), Ty::Array(t) => SqlType::Array(sql_type(t).into()),
        Ty::Low(t) => SqlType::LowCardinality(sql_type(t).into()), Ty::Agg(f, t) => SqlType::SimpleAggregateFunction(agg_of(f), sql_type(t).into()),
        Ty::Map(k, v) => SqlType::Map(sql_type(k).into(), sql_type(v).into()),
    }
}

pub fn ty_of(t: &SqlType) -> Ty {
    match t {
        SqlType::Bool => Ty::Bool, SqlType::UInt8 => Ty::U8, SqlType::UInt16 => Ty::U16, SqlType::UInt32 => Ty::U32, SqlType::UInt64 => Ty::U64, SqlType::UInt128 => Ty::U128,
        SqlType::Int8 => Ty::I8, SqlType::Int16 => Ty::I16, SqlType::Int32 => Ty::I32, SqlType::Int64 => Ty::I64, SqlType::Int128 => Ty::I128,
        SqlType::Float32 => Ty::F32, SqlType::Float64 => Ty::F64, SqlType::String => Ty::Str, SqlType::FixedString(n) => Ty::Fixed(*n), SqlType::Date => Ty::Date,
        SqlType::DateTime(DateTimeType::DateTime64(p, tz)) => Ty::DateTime64(*p, Some(*tz)),
        SqlType::DateTime(_) => Ty::DateTime(None),
        SqlType::Ipv4 => Ty::Ip4, SqlType::Ipv6 => Ty::Ip6, SqlType::Uuid => Ty::Uuid,
        SqlType::Decimal(p, s) => Ty::Dec(*p, *s),
        SqlType::Enum8(v) => Ty::Enum8(v.iter().map(|(n, x)| (n.clone(), *x as i16)).collect()), SqlType::Enum16(v) => Ty::Enum16(v.clone()),
        SqlType::Nullable(t) => Ty::Nullable(Box::new(ty_of(t))), SqlType::Array(t) => Ty::Array(Box::new(ty_of(t))),
        SqlType::LowCardinality(t) => Ty::Low(Box::new(ty_of(t))),
        SqlType::SimpleAggregateFunction(f, t) => { let n: &str = (*f).into(); Ty::Agg(n.to_string(), Box::new(ty_of(t))) }
        SqlType::Map(k, v) => Ty::Map(Box::new(ty_of(k)), Box::new(ty_of(v))),
    }
}

pub fn dt64_to_chrono(ticks: i64, p: u32, tz: Tz) -> DateTime<Tz> {
    let mul = 10i64.pow(p);
    let secs = ticks.div_euclid(mul);
    let frac = ticks.rem_euclid(mul) * 10i64.pow(9 - p);
    tz.timestamp_opt(secs, frac as u32).unwrap()
}

/// A driver value for pushing into a block. `tz` is used for instants without a column zone.
pub fn to_value(t: &Ty, v: &Val, tz: Tz) -> Value {
    match (t, v) {
        (Ty::Bool, Val::Bool(b)) => (*b).into(),
        (Ty::U8, Val::U(x)) => (*x as u8).into(), (Ty::U16, Val::U(x)) => (*x as u16).into(), (Ty::U32, Val::U(x)) => (*x as u32).into(), (Ty::U64, Val::U(x)) => (*x as u64).into(), (Ty::U128, Val::U(x)) => (*x).into(),
        (Ty::I8, Val::I(x)) => (*x as i8).into(), (Ty::I16, Val::I(x)) => (*x as i16).into(), (Ty::I32, Val::I(x)) => (*x as i32).into(), (Ty::I64, Val::I(x)) => (*x as i64).into(), (Ty::I128, Val::I(x)) => (*x).into(),
        (Ty::F32, Val::F32(x)) => f32::from_bits(*x).into(), (Ty::F64, Val::F64(x)) => f64::from_bits(*x).into(),
        (Ty::Str, Val::S(s)) | (Ty::Fixed(_), Val::S(s)) => Value::String(Arc::new(s.clone())),
        (Ty::Date, Val::Date(d)) => Value::Date(*d),
        (Ty::DateTime(z), Val::DT(d)) => Value::DateTime(*d, z.unwrap_or(tz)),
        (Ty::DateTime64(p, z), Val::DT64(x)) => Value::ChronoDateTime(dt64_to_chrono(*x, *p, z.unwrap_or(tz))),
        (Ty::Ip4, Val::Ip4(a)) => { let mut b = *a; b.reverse(); Value::Ipv4(b) }
        (Ty::Ip6, Val::Ip6(a)) => Value::Ipv6(*a),
        (Ty::Uuid, Val::Uuid(a)) => Value::from(uuid::Uuid::from_bytes(*a)),
        (Ty::Dec(_, _), Val::Dec(x, s)) => Value::Decimal(Decimal::new(*x, *s)),
        (Ty::Enum8(e), Val::E(x)) => Value::Enum8(e.iter().map(|(n, x)| (n.clone(), *x as i8)).collect(), Enum8::of(*x as i8)),
        (Ty::Enum16(e), Val::E(x)) => Value::Enum16(e.clone(), Enum16::of(*x)),
        (Ty::Nullable(t), Val::Null) => Value::Nullable(Either::Left(push_type(t).into())),
        (Ty::Nullable(t), v) => Value::Nullable(Either::Right(Box::new(to_value(t, v, tz)))),
        (Ty::Array(t), Val::A(v)) => Value::Array(push_type(t).into(), Arc::new(v.iter().map(|x| to_value(t, x, tz)).collect())),
        (Ty::Low(t), v) => to_value(t, v, tz),
        (Ty::Agg(_, t), v) => to_value(t, v, tz),
        (Ty::Map(k, w), Val::M(m)) => Value::Map(push_type(k).into(), push_type(w).into(), Arc::new(m.iter().map(|(a, b)| (to_value(k, a, tz), to_value(w, b, tz))).collect::<HashMap<_, _>>())),
        _ => panic!("to_value {t:?} {v:?}"),
    }
}

/// The type that a pushed value of `t` has on the driver's side.
pub fn push_type(t: &Ty) -> SqlType {
    match t {
        Ty::Fixed(_) => SqlType::String,
        Ty::DateTime(_) | Ty::DateTime64(..) => SqlType::DateTime(DateTimeType::Chrono),
        Ty::Dec(_, s) => SqlType::Decimal(18, *s),
        Ty::Low(t) | Ty::Agg(_, t) => push_type(t),
        Ty::Nullable(t) => SqlType::Nullable(push_type(t).into()),
        Ty::Array(t) => SqlType::Array(push_type(t).into()),
        Ty::Map(k, v) => SqlType::Map(push_type(k).into(), push_type(v).into()),
        t => sql_type(t),
    }
}

/// Can a column of this type be built by pushing rows / is the insert a native one?
pub fn row(t: &Table, i: usize, tz: Tz) -> Vec<(String, Value)> {
    t.cols.iter().map(|c| (c.name.clone(), to_value(&c.ty, &c.vals[i], tz))).collect()
}

pub fn block_by_rows(t: &Table, tz: Tz) -> ChResult<Block> {
    let mut b = Block::new();
    for i in 0..t.rows() { b.push(row(t, i, tz))?; }
    Ok(b)
}

macro_rules! col { ($b:expr, $n:expr, $v:expr) => { Some($b.column($n, $v)) } }

fn s(v: &Val) -> Vec<u8> { if let Val::S(s) = v { s.clone() } else { panic!() } }
fn st(v: &Val) -> String { String::from_utf8(s(v)).unwrap() }
fn u(v: &Val) -> u128 { if let Val::U(s) = v { *s } else { panic!("{v:?}") } }
fn i(v: &Val) -> i128 { if let Val::I(s) = v { *s } else { panic!("{v:?}") } }
fn f3(v: &Val) -> f32 { if let Val::F32(s) = v { f32::from_bits(*s) } else { panic!() } }
fn f6(v: &Val) -> f64 { if let Val::F64(s) = v { f64::from_bits(*s) } else { panic!() } }
fn bo(v: &Val) -> bool { if let Val::Bool(s) = v { *s } else { panic!() } }
pub fn date(v: &Val) -> NaiveDate { if let Val::Date(d) = v { NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(*d as i64) } else { panic!() } }
fn dec(v: &Val) -> Decimal { if let Val::Dec(x, s) = v { Decimal::new(*x, *s) } else { panic!() } }
fn e8(v: &Val) -> Enum8 { if let Val::E(x) = v { Enum8::of(*x as i8) } else { panic!() } }
fn e16(v: &Val) -> Enum16 { if let Val::E(x) = v { Enum16::of(*x) } else { panic!() } }
pub fn ip4(v: &Val) -> Ipv4Addr { if let Val::Ip4(x) = v { Ipv4Addr::from(*x) } else { panic!() } }
pub fn ip6(v: &Val) -> Ipv6Addr { if let Val::Ip6(x) = v { Ipv6Addr::from(*x) } else { panic!() } }
pub fn uu(v: &Val) -> uuid::Uuid { if let Val::Uuid(x) = v { uuid::Uuid::from_bytes(*x) } else { panic!() } }
pub fn dt(t: &Ty, v: &Val, tz: Tz) -> DateTime<Tz> {
    match (t, v) {
        (Ty::DateTime(z), Val::DT(d)) => z.unwrap_or(tz).timestamp_opt(*d as i64, 0).unwrap(),
        (Ty::DateTime64(p, z), Val::DT64(x)) => dt64_to_chrono(*x, *p, z.unwrap_or(tz)),
        _ => panic!(),
    }
}
fn opt<T>(v: &Val, f: impl Fn(&Val) -> T) -> Option<T> { if *v == Val::Null { None } else { Some(f(v)) } }
fn arr<T>(v: &Val, f: impl Fn(&Val) -> T) -> Vec<T> { if let Val::A(x) = v { x.iter().map(f).collect() } else { panic!() } }

/// Add the column through the typed column-wise API; None if there is no such API for the type.
pub fn add_typed(b: Block, name: &str, t: &Ty, v: &[Val], tz: Tz) -> Result<Block, Block> {
    let utf8 = |v: &Val| match v { Val::S(s) => std::str::from_utf8(s).is_ok(), Val::A(x) => x.iter().all(|y| if let Val::S(s) = y { std::str::from_utf8(s).is_ok() } else { true }), _ => true };
    macro_rules! num { ($($k:pat => $t:ty, $g:expr;)*) => {
        match t {
            $( $k => { let g = $g; return Ok(b.column(name, v.iter().map(|x| g(x)).collect::<Vec<$t>>())) } )*
            Ty::Nullable(x) => match &**x { $( $k => { let g = $g; return Ok(b.column(name, v.iter().map(|x| opt(x, |y| g(y))).collect::<Vec<Option<$t>>>())) } )* _ => {} },
            Ty::Array(x) => match &**x { $( $k => { let g = $g; return Ok(b.column(name, v.iter().map(|x| arr(x, |y| g(y))).collect::<Vec<Vec<$t>>>())) } )* _ => {} },
            _ => {}
        }
    } }
    num! {
        Ty::Bool => bool, bo; Ty::U8 => u8, |x: &Val| u(x) as u8; Ty::U16 => u16, |x: &Val| u(x) as u16; Ty::U32 => u32, |x: &Val| u(x) as u32; Ty::U64 => u64, |x: &Val| u(x) as u64; Ty::U128 => u128, u;
        Ty::I8 => i8, |x: &Val| i(x) as i8; Ty::I16 => i16, |x: &Val| i(x) as i16; Ty::I32 => i32, |x: &Val| i(x) as i32; Ty::I64 => i64, |x: &Val| i(x) as i64; Ty::I128 => i128, i;
        Ty::F32 => f32, f3; Ty::F64 => f64, f6;
    }
    let r = match t {
        Ty::Str | Ty::Fixed(_) => { if v.iter().all(utf8) { col!(b, name, v.iter().map(st).collect::<Vec<String>>()) } else { let o: Vec<Vec<u8>> = v.iter().map(s).collect(); let r: Vec<&[u8]> = o.iter().map(|x| x.as_slice()).collect(); col!(b, name, r) } }
        Ty::Date => col!(b, name, v.iter().map(date).collect::<Vec<NaiveDate>>()),
        Ty::DateTime(_) | Ty::DateTime64(..) => col!(b, name, v.iter().map(|x| dt(t, x, tz)).collect::<Vec<DateTime<Tz>>>()),
        Ty::Ip4 => col!(b, name, v.iter().map(ip4).collect::<Vec<_>>()),
        Ty::Ip6 => col!(b, name, v.iter().map(ip6).collect::<Vec<_>>()),
        Ty::Uuid => col!(b, name, v.iter().map(uu).collect::<Vec<_>>()),
        Ty::Dec(..) if !v.is_empty() => col!(b, name, v.iter().map(dec).collect::<Vec<_>>()),
        Ty::Nullable(x) => match &**x {
            Ty::Str | Ty::Fixed(_) if v.iter().all(utf8) => col!(b, name, v.iter().map(|x| opt(x, st)).collect::<Vec<Option<String>>>()),
            Ty::Date => col!(b, name, v.iter().map(|x| opt(x, date)).collect::<Vec<_>>()),
            Ty::DateTime(_) | Ty::DateTime64(..) => col!(b, name, v.iter().map(|y| opt(y, |z| dt(x, z, tz))).collect::<Vec<_>>()),
            Ty::Ip4 => col!(b, name, v.iter().map(|x| opt(x, ip4)).collect::<Vec<_>>()),
            Ty::Ip6 => col!(b, name, v.iter().map(|x| opt(x, ip6)).collect::<Vec<_>>()),
            Ty::Uuid => col!(b, name, v.iter().map(|x| opt(x, uu)).collect::<Vec<_>>()),
            Ty::Dec(..) if v.iter().any(|x| *x != Val::Null) => col!(b, name, v.iter().map(|x| opt(x, dec)).collect::<Vec<_>>()),
            _ => return Err(b),
        },
        Ty::Array(x) => match &**x {
            Ty::Str | Ty::Fixed(_) if v.iter().all(utf8) => col!(b, name, v.iter().map(|x| arr(x, st)).collect::<Vec<Vec<String>>>()),
            Ty::Date => col!(b, name, v.iter().map(|x| arr(x, date)).collect::<Vec<_>>()),
            Ty::DateTime(_) | Ty::DateTime64(..) => col!(b, name, v.iter().map(|y| arr(y, |z| dt(x, z, tz))).collect::<Vec<_>>()),
            _ => return Err(b),
        },
        Ty::Low(x) => return add_typed(b, name, x, v, tz),
        Ty::Agg(_, x) => return add_typed(b, name, x, v, tz),
        _ => return Err(b),
    };
    Ok(r.unwrap())
}

pub fn e8_of(v: &Val) -> Enum8 { e8(v) }
pub fn e16_of(v: &Val) -> Enum16 { e16(v) }

pub fn block_by_cols(t: &Table, tz: Tz) -> Option<Block> {
    let mut b = Block::new();
    for c in &t.cols { b = add_typed(b, &c.name, &c.ty, &c.vals, tz).ok()?; }
    Some(b)
}

/// Contents of a driver block as model values, cell by cell.
pub fn read_block<K: ColumnType>(b: &Block<K>) -> Result<Table, String> {
    let mut t = Table::default();
    for (ci, c) in b.columns().iter().enumerate() {
        let mut vals = Vec::with_capacity(b.row_count());
        for r in 0..b.row_count() { vals.push(b.get::<Any, _>(r, ci).map_err(|e| format!("get({r},{ci}): {e}"))?.0); }
        t.cols.push(Col { name: c.name().to_string(), ty: ty_of(&c.sql_type()), vals });
    }
    Ok(t)
}

pub fn col_vals<K: ColumnType>(b: &Block<K>, ci: usize) -> Result<Vec<Val>, String> {
    (0..b.row_count()).map(|r| b.get::<Any, _>(r, ci).map(|a| a.0).map_err(|e| e.to_string())).collect()
}

#[allow(dead_code)]
pub fn column_name(c: &Column<Simple>) -> &str { c.name() }

/// Compare what the driver returned with the table the server sent.
pub fn diff_table(exp: &Table, got: &Table) -> Option<String> {
    if exp.cols.len() != got.cols.len() { return Some(format!("{} columns expected, {} found", exp.cols.len(), got.cols.len())); }
    for (e, g) in exp.cols.iter().zip(&got.cols) {
        if e.name != g.name { return Some(format!("column name {:?} expected, {:?} found", e.name, g.name)); }
        if e.ty.strip_tz() != g.ty.strip_tz() { return Some(format!("column {:?}: type {} expected, {} found", e.name, e.ty.name(), g.ty.name())); }
        if let Some(d) = diff_vals(&e.vals, &g.vals) { return Some(format!("column {:?} {}: {d}", e.name, e.ty.name())); }
    }
    None
}
