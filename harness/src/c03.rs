//! C03: every way of reading a result gives the same values.
use crate::c02::{gen_answer, gen_result_ty, send_answer, sig_of, Answer};
use crate::codec::EncOpt;
use crate::drv::*;
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use chrono::{DateTime, NaiveDate, NaiveDateTime};
use chrono_tz::Tz;
use clickhouse_rs::types::column::iter::Iterable;
use clickhouse_rs::types::{Column, ColumnType, Complex, Decimal, Enum16, Enum8, FromSql, Simple};
use clickhouse_rs::{Block, Pool};
use futures_util::StreamExt;
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::sync::{Arc, Mutex};
use uuid::Uuid;

/// Does a Rust type stand for a column type?
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fit {
    /// reading must succeed
    Yes,
    /// reading may be refused, but never give another value
    May,
    /// reading must be refused
    No,
}
use Fit::*;
fn min(a: Fit, b: Fit) -> Fit { if a == No || b == No { No } else if a == May || b == May { May } else { Yes } }

pub trait Reads {
    const BYTE: bool = false;
    const BYTES: bool = false;
    const TEXT: bool = false;
    fn fits(t: &Ty) -> Fit;
    fn same(&self, t: &Ty, v: &Val, tz: Tz) -> bool;
    fn byte(&self) -> u8 { 0 }
}
fn plain(t: &Ty) -> &Ty { match t { Ty::Low(t) => plain(t), Ty::Agg(_, t) => plain(t), t => t } }
/// For a scalar reader: the column as it is, or dressed up.
fn scalar(t: &Ty, f: impl Fn(&Ty) -> bool) -> Fit { match t { Ty::Low(x) | Ty::Agg(_, x) => if scalar(x, f) == No { No } else { May }, t => if f(t) { Yes } else { No } } }

macro_rules! ints { ($($t:ty: $k:ident, $b:literal;)*) => { $(
    impl Reads for $t {
        const BYTE: bool = $b;
        fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::$k)) }
        fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { match v { Val::U(x) => *x == *self as u128 && *self as i128 >= 0 || *x == *self as u128 && *x > i128::MAX as u128, Val::I(x) => *x == *self as i128, _ => false } }
        fn byte(&self) -> u8 { *self as u8 }
    } )* } }
ints! { u8: U8, true; u16: U16, false; u32: U32, false; u64: U64, false; u128: U128, false; i8: I8, false; i16: I16, false; i32: I32, false; i64: I64, false; i128: I128, false; }
impl Reads for f32 { fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::F32)) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { *v == Val::F32(self.to_bits()) } }
impl Reads for f64 { fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::F64)) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { *v == Val::F64(self.to_bits()) } }
impl Reads for bool { fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::Bool)) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { *v == Val::Bool(*self) } }
fn strs(t: &Ty) -> Fit { match t { Ty::Low(x) => strs(x), _ => scalar(t, |x| matches!(x, Ty::Str | Ty::Fixed(_))) } }
impl Reads for [u8] { fn fits(t: &Ty) -> Fit { strs(t) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { matches!(v, Val::S(s) if s.as_slice() == self) } }
impl Reads for str { const TEXT: bool = true; fn fits(t: &Ty) -> Fit { strs(t) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { matches!(v, Val::S(s) if s.as_slice() == self.as_bytes()) } }
impl Reads for String { const TEXT: bool = true; fn fits(t: &Ty) -> Fit { strs(t) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { matches!(v, Val::S(s) if s.as_slice() == self.as_bytes()) } }
impl Reads for Decimal {
    fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::Dec(..))) }
    fn same(&self, t: &Ty, v: &Val, _: Tz) -> bool { matches!((plain(t), v), (Ty::Dec(_, s), Val::Dec(x, _)) if self.internal::<i64>() == *x && self.scale() == *s as u32 as _ ) }
}
impl Reads for Enum8 { fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::Enum8(_))) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { *v == Val::E(self.internal() as i16) } }
impl Reads for Enum16 { fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::Enum16(_))) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { *v == Val::E(self.internal()) } }
impl Reads for Ipv4Addr { fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::Ip4)) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { *v == Val::Ip4(self.octets()) } }
impl Reads for Ipv6Addr { fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::Ip6)) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { *v == Val::Ip6(self.octets()) } }
impl Reads for Uuid { fn fits(t: &Ty) -> Fit { scalar(t, |x| matches!(x, Ty::Uuid)) } fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { *v == Val::Uuid(*self.as_bytes()) } }
impl Reads for NaiveDate {
    fn fits(t: &Ty) -> Fit { match t { Ty::Low(x) => Self::fits(x), _ => scalar(t, |x| matches!(x, Ty::Date)) } }
    fn same(&self, _: &Ty, v: &Val, _: Tz) -> bool { matches!(v, Val::Date(_)) && date(v) == *self }
}
fn times(t: &Ty) -> Fit { match t { Ty::Low(x) => times(x), _ => scalar(t, |x| matches!(x, Ty::DateTime(_) | Ty::DateTime64(..))) } }
impl Reads for DateTime<Tz> {
    fn fits(t: &Ty) -> Fit { times(t) }
    fn same(&self, t: &Ty, v: &Val, tz: Tz) -> bool {
        if !matches!(v, Val::DT(_) | Val::DT64(_)) { return false; }
        let e = dt(plain(t), v, tz);
        e == *self && e.timestamp_subsec_nanos() == self.timestamp_subsec_nanos() && e.timezone() == self.timezone()
    }
}
impl Reads for NaiveDateTime {
    fn fits(t: &Ty) -> Fit { times(t) }
    fn same(&self, t: &Ty, v: &Val, tz: Tz) -> bool { matches!(v, Val::DT(_) | Val::DT64(_)) && dt(plain(t), v, tz).naive_utc() == *self }
}
/// Iterating dates and times inside other types is an operation the driver refuses.
fn inner(f: Fit, t: &Ty) -> Fit { if matches!(plain(t), Ty::Date | Ty::DateTime(_) | Ty::DateTime64(..) | Ty::Fixed(_) | Ty::Enum8(_) | Ty::Enum16(_)) || matches!(t, Ty::Low(_) | Ty::Agg(..)) { min(f, May) } else { f } }
impl<X: Reads> Reads for Option<X> {
    const TEXT: bool = X::TEXT;
    fn fits(t: &Ty) -> Fit { match t { Ty::Nullable(x) => inner(X::fits(x), x), Ty::Agg(_, x) => min(Self::fits(x), May), _ => No } }
    fn same(&self, t: &Ty, v: &Val, tz: Tz) -> bool { match (t, self) { (Ty::Agg(_, x), _) => self.same(x, v, tz), (Ty::Nullable(_), None) => *v == Val::Null, (Ty::Nullable(t), Some(x)) => *v != Val::Null && x.same(t, v, tz), _ => false } }
}
impl<X: Reads> Reads for Vec<X> {
    const TEXT: bool = X::TEXT;
    const BYTES: bool = X::BYTE;
    fn fits(t: &Ty) -> Fit { match t { Ty::Array(x) if X::BYTES && matches!(**x, Ty::Array(_)) => min(X::fits(x), May), Ty::Array(x) => inner(X::fits(x), x), Ty::Agg(_, x) => min(Self::fits(x), May), _ if X::BYTE => strs(t), _ => No } }
    fn same(&self, t: &Ty, v: &Val, tz: Tz) -> bool {
        match (t, v) {
            (Ty::Agg(_, x), _) => self.same(x, v, tz),
            (Ty::Array(t), Val::A(x)) => self.len() == x.len() && self.iter().zip(x).all(|(a, b)| a.same(t, b, tz)),
            (_, Val::S(s)) if X::BYTE => self.len() == s.len() && self.iter().zip(s).all(|(a, b)| a.byte() == *b),
            _ => false,
        }
    }
}
impl<K: Reads + Eq + std::hash::Hash, V: Reads> Reads for HashMap<K, V> {
    const TEXT: bool = K::TEXT || V::TEXT;
    fn fits(t: &Ty) -> Fit { match t { Ty::Map(k, v) => min(inner(K::fits(k), k), inner(V::fits(v), v)), Ty::Agg(_, x) => min(Self::fits(x), May), _ => No } }
    fn same(&self, t: &Ty, v: &Val, tz: Tz) -> bool {
        match (t, v) {
            (Ty::Agg(_, x), _) => self.same(x, v, tz),
            (Ty::Map(k, w), Val::M(x)) => self.len() == x.len() && x.iter().all(|(a, b)| self.iter().any(|(c, d)| c.same(k, a, tz) && d.same(w, b, tz))),
            _ => false,
        }
    }
}
impl<X: Reads + ?Sized> Reads for &X {
    const TEXT: bool = X::TEXT;
    fn fits(t: &Ty) -> Fit { X::fits(t) }
    fn same(&self, t: &Ty, v: &Val, tz: Tz) -> bool { (**self).same(t, v, tz) }
}

pub struct Cell<'c> { pub ctx: &'c Ctx, pub tz: Tz, pub strict: bool }
type Res<T> = Result<T, String>;

fn short<T>() -> String { std::any::type_name::<T>().replace("chrono::naive::date::", "").replace("chrono::datetime::", "").replace("core::net::ip_addr::", "").replace("alloc::", "").replace("std::collections::hash::map::", "").replace("core::option::", "") }

fn utf8(v: &Val) -> bool { match v { Val::S(s) => std::str::from_utf8(s).is_ok(), Val::A(x) => x.iter().all(utf8), Val::M(m) => m.iter().all(|(a, b)| utf8(a) && utf8(b)), _ => true } }

/// One cell through one Rust type.
fn by_get<'a, T: FromSql<'a> + Reads, K: ColumnType>(c: &Cell, b: &'a Block<K>, row: usize, ci: usize, ty: &Ty, v: &Val) -> Res<()> {
    let fit = T::fits(ty);
    let r = guard(|| b.get::<T, _>(row, ci)).map_err(|p| format!("get::<{}> of a {} panicked: {p}", short::<T>(), ty.name()))?;
    match r {
        // NULL is NULL in any type, and a map without entries has none of any type
        Ok(x) if fit == No && matches!(v, Val::Null | Val::M(_)) && x.same(ty, v, c.tz) => Ok(()),
        Ok(_) if fit == No => Err(format!("get::<{}> of a {} is not refused", short::<T>(), ty.name())),
        Ok(x) => { c.ctx.count("typed_gets", 1); if x.same(ty, v, c.tz) { Ok(()) } else { Err(format!("get::<{}> of a {} gives another value than {v:?}", short::<T>(), ty.name())) } }
        Err(e) => { c.ctx.count("refusals", 1); if fit == Yes && c.strict && !(T::TEXT && !utf8(v)) { Err(format!("get::<{}> of a {} is refused: {e}", short::<T>(), ty.name())) } else { Ok(()) } }
    }
}

/// A column through one typed iterator, with the iterator's laws.
fn by_iter<'a, T, K: ColumnType>(c: &Cell, col: &'a Column<K>, ty: &Ty, vals: &[Val], r: &mut Rng, exact: Option<&dyn Fn(&T::Iter) -> usize>) -> Res<()>
where T: Iterable<'a, K>, <T::Iter as Iterator>::Item: Reads {
    type It<'a, T, K> = <<T as Iterable<'a, K>>::Iter as Iterator>::Item;
    let fit = <It<'a, T, K>>::fits(ty);
    let name = format!("iter::<{}> of a column of {}", short::<T>(), ty.name());
    let it = guard(|| col.iter::<T>()).map_err(|p| format!("{name} panicked: {p}"))?;
    let mut it = match it {
        Ok(_) if fit == No => return Err(format!("{name} is not refused")),
        Ok(x) => x,
        Err(e) => { c.ctx.count("refusals", 1); return if fit == Yes && c.strict { Err(format!("{name} is refused: {e}")) } else { Ok(()) } }
    };
    c.ctx.count("typed_iterators", 1);
    let n = vals.len();
    let step = r.range(0, 3);
    guard(|| -> Res<()> {
        let mut i = 0;
        loop {
            if let Some(f) = exact {
                if f(&it) != n - i { return Err(format!("{name}: at row {i} of {n} its length is {}", f(&it))); }
                if it.size_hint() != (n - i, Some(n - i)) { return Err(format!("{name}: at row {i} of {n} its size hint is {:?}", it.size_hint())); }
            } else { let (lo, hi) = it.size_hint(); if lo > n - i || hi.map_or(false, |h| h < n - i) { return Err(format!("{name}: at row {i} of {n} its size hint is {:?}", it.size_hint())); } }
            let skip = match step { 0 => 0, 1 => r.below(3), 2 => if r.chance(1, 6) { n } else { 0 }, _ => r.below(2) };
            match if skip == 0 { it.next() } else { it.nth(skip) } {
                None => { if i + skip < n { return Err(format!("{name}: ends after skipping {skip} at row {i} of {n}")); } i = n; break; }
                Some(x) => {
                    if i + skip >= n { return Err(format!("{name}: goes on after {n} rows")); }
                    if !x.same(ty, &vals[i + skip], c.tz) { return Err(format!("{name}: row {} is {:?}, the iterator gives another value", i + skip, vals[i + skip])); }
                    i += skip + 1;
                }
            }
        }
        if let Some(f) = exact { if f(&it) != 0 { return Err(format!("{name}: its length is {} at the end", f(&it))); } }
        if it.next().is_some() { return Err(format!("{name}: goes on after its end at row {i}")); }
        Ok(())
    }).map_err(|p| format!("{name} panicked while iterating: {p}"))??;
    if let Ok(Ok(x)) = guard(|| col.iter::<T>()) { let k = guard(|| x.count()).map_err(|p| format!("{name}: count panicked: {p}"))?; if k != n { return Err(format!("{name}: count() is {k} for {n} rows")); } }
    Ok(())
}

macro_rules! each_scalar { ($m:ident) => { $m!(bool); $m!(u8); $m!(u16); $m!(u32); $m!(u64); $m!(u128); $m!(i8); $m!(i16); $m!(i32); $m!(i64); $m!(i128); $m!(f32); $m!(f64); $m!(&[u8]); $m!(Decimal); $m!(Ipv4Addr); $m!(Ipv6Addr); $m!(Uuid); $m!(NaiveDate); $m!(DateTime<Tz>); } }

macro_rules! iter_all { ($fname:ident, $k:ty, $law:expr) => {
    fn $fname(c: &Cell, col: &Column<$k>, ty: &Ty, vals: &[Val], r: &mut Rng, wide: bool) -> Res<()> {
        macro_rules! one { ($t:ty) => { by_iter::<$t, $k>(c, col, ty, vals, r, $law)?; } }
        macro_rules! dress { ($t:ty) => { one!($t); one!(Option<$t>); one!(Vec<$t>); } }
        each_scalar!(dress);
        one!(NaiveDateTime);
        if wide {
            macro_rules! more { ($t:ty) => { one!(Vec<Option<$t>>); one!(Vec<Vec<$t>>); one!(HashMap<&[u8], $t>); one!(HashMap<u64, Option<$t>>); } }
            each_scalar!(more);
            macro_rules! maps { ($t:ty) => { one!(HashMap<$t, u64>); one!(HashMap<$t, &[u8]>); one!(HashMap<$t, Vec<u32>>); one!(HashMap<$t, Option<&[u8]>>); one!(Vec<HashMap<$t, u64>>); one!(Vec<HashMap<$t, &[u8]>>); one!(HashMap<&[u8], HashMap<$t, i64>>); one!(HashMap<$t, HashMap<u8, f64>>); one!(HashMap<$t, Vec<Option<u16>>>); } }
            maps!(u8); maps!(u32); maps!(u64); maps!(i64); maps!(&[u8]); maps!(Uuid); maps!(bool); maps!(Ipv4Addr);
        }
        Ok(())
    }
} }
iter_all!(iter_simple, Simple, Some(&|i| i.len()));
iter_all!(iter_complex, Complex, None);

fn get_all<K: ColumnType>(c: &Cell, b: &Block<K>, row: usize, ci: usize, ty: &Ty, v: &Val) -> Res<()> {
    macro_rules! one { ($t:ty) => { by_get::<$t, K>(c, b, row, ci, ty, v)?; } }
    macro_rules! dress { ($t:ty) => { one!($t); one!(Option<$t>); one!(HashMap<u64, $t>); one!(HashMap<String, $t>); } }
    each_scalar!(dress);
    one!(Enum8); one!(Enum16); one!(Option<Enum8>); one!(Option<Enum16>); one!(&str); one!(String); one!(Option<String>); one!(Option<&str>);
    one!(Vec<u8>); one!(Vec<u16>); one!(Vec<u32>); one!(Vec<u64>); one!(Vec<u128>); one!(Vec<i8>); one!(Vec<i16>); one!(Vec<i32>); one!(Vec<i64>); one!(Vec<i128>); one!(Vec<f32>); one!(Vec<f64>); one!(Vec<bool>);
    one!(Vec<&str>); one!(Vec<String>); one!(Vec<&[u8]>); one!(Vec<Vec<u8>>); one!(Vec<NaiveDate>); one!(Vec<DateTime<Tz>>); one!(Vec<Enum8>); one!(Vec<Enum16>);
    one!(HashMap<Uuid, u64>); one!(HashMap<u8, Vec<u32>>); one!(HashMap<bool, Option<String>>); one!(HashMap<Ipv4Addr, HashMap<u8, f64>>);
    Ok(())
}

/// Rows and cells of a block through all untyped paths and the typed getters.
fn cells<K: ColumnType>(c: &Cell, b: &Block<K>, t: &Table, r: &mut Rng) -> Res<()> {
    let n = t.rows();
    if b.row_count() != n || b.column_count() != t.cols.len() { return Err(format!("the block has {} rows and {} columns, {n} and {} expected", b.row_count(), b.column_count(), t.cols.len())); }
    if b.is_empty() != (t.cols.is_empty()) { return Err("is_empty is wrong".into()); }
    let first = |name: &str| t.cols.iter().position(|c| c.name == name).unwrap();
    for (ci, col) in t.cols.iter().enumerate() {
        let fi = first(&col.name);
        if b.columns()[ci].name() != col.name { return Err(format!("column {ci} is called {:?}", b.columns()[ci].name())); }
        let g = b.get_column(ci).map_err(|e| e.to_string())?;
        if g.name() != col.name || ty_of(&g.sql_type()).strip_tz() != col.ty.strip_tz() { return Err(format!("get_column({ci}) gives {:?} {}", g.name(), g.sql_type())); }
        let g = b.get_column(col.name.as_str()).map_err(|e| e.to_string())?;
        if ty_of(&g.sql_type()).strip_tz() != t.cols[fi].ty.strip_tz() { return Err(format!("get_column({:?}) gives a column of {}", col.name, g.sql_type())); }
        for i in 0..n {
            let x: Any = b.get(i, col.name.as_str()).map_err(|e| format!("get({i}, {:?}): {e}", col.name))?;
            if x.0.norm() != t.cols[fi].vals[i].norm() { return Err(format!("get({i}, {:?}) by name gives {:?}, not {:?}", col.name, x.0, t.cols[fi].vals[i])); }
            let y: Any = b.get(i, ci).map_err(|e| format!("get({i}, {ci}): {e}"))?;
            if y.0.norm() != col.vals[i].norm() { return Err(format!("get({i}, {ci}) by index gives {:?}, not {:?}", y.0, col.vals[i])); }
            c.ctx.count("cells", 1);
        }
        for _ in 0..2.min(n) { let i = r.below(n); get_all(c, b, i, ci, &col.ty, &col.vals[i])?; }
    }
    let mut k = 0;
    for row in b.rows() {
        if k >= n { return Err(format!("rows() gives more than {n} rows")); }
        if row.len() != t.cols.len() { return Err(format!("a row of {} cells", row.len())); }
        for (ci, col) in t.cols.iter().enumerate() {
            if row.name(ci).map_err(|e| e.to_string())? != col.name { return Err(format!("row {k}: cell {ci} is called {:?}", row.name(ci))); }
            if ty_of(&row.sql_type(ci).map_err(|e| e.to_string())?).strip_tz() != col.ty.strip_tz() { return Err(format!("row {k}: cell {ci} has type {:?}", row.sql_type(ci))); }
            let x: Any = row.get(ci).map_err(|e| format!("row {k}: {e}"))?;
            let y: Any = row.get(col.name.as_str()).map_err(|e| format!("row {k}: {e}"))?;
            if x.0.norm() != col.vals[k].norm() || y.0.norm() != t.cols[first(&col.name)].vals[k].norm() { return Err(format!("row {k} of rows() gives {:?} by index and {:?} by name in column {:?}", x.0, y.0, col.name)); }
        }
        k += 1;
    }
    if k != n { return Err(format!("rows() gives {k} of {n} rows")); }
    match guard(|| b.get::<Any, _>(0, "no such column")) { Ok(Err(_)) => Ok(()), Ok(Ok(_)) => Err("a column that does not exist has a value".into()), Err(p) => Err(format!("get of a column that does not exist panicked: {p}")) }
}

fn wide(t: &Ty) -> bool { matches!(t, Ty::Array(_) | Ty::Map(..)) }

pub fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let mut a = gen_answer(r, false);
    if r.chance(1, 3) {
        // a single column of a type picked for the typed readers
        let ty = match r.below(8) {
            0 => Ty::Map(Box::new(gen_map_key(r)), Box::new(r.pick(&[Ty::U64, Ty::Str, Ty::Array(Box::new(Ty::U32)), Ty::Nullable(Box::new(Ty::Str)), Ty::Map(Box::new(Ty::U8), Box::new(Ty::F64)), Ty::Array(Box::new(Ty::Nullable(Box::new(Ty::U16))))]).clone())),
            1 => Ty::Array(Box::new(Ty::Map(Box::new(gen_map_key(r)), Box::new(r.pick(&[Ty::U64, Ty::Str]).clone())))),
            2 => Ty::Map(Box::new(Ty::Str), Box::new(Ty::Map(Box::new(gen_map_key(r)), Box::new(Ty::I64)))),
            3 => Ty::Array(Box::new(Ty::Array(Box::new(gen_scalar(r))))),
            4 => Ty::Array(Box::new(Ty::Nullable(Box::new(gen_scalar(r))))),
            5 => Ty::Low(Box::new(r.pick(&[Ty::Date, Ty::DateTime(None), Ty::Str, Ty::Fixed(3)]).clone())),
            _ => gen_result_ty(r),
        };
        let rows = gen_rows(r).min(40);
        let mut t = gen_table(r, 1, rows, &|_| ty.clone());
        if let (Ty::Map(kt, vt), true, true) = (&ty, rows > 0, r.chance(1, 40)) {
            let (i, k) = (r.below(rows), r.range(1050, 1400));
            t.cols[0].vals[i] = Val::M((0..k).map(|_| (gen_val(r, kt), gen_val(r, vt))).collect::<std::collections::BTreeMap<_, _>>().into_iter().collect());
        }
        let k = r.range(1, 4);
        a.parts = split(r, &t, k);
    } else if r.chance(1, 150) {
        let mut t = crate::c01::long_table(r);
        while crate::c01::elements(&t) > 30_000 { t = crate::c01::long_table(r); }
        // (the comparison of maps is quadratic)
        for c in t.cols.iter_mut() { for v in c.vals.iter_mut() { if let Val::M(m) = v { m.truncate(2500); } } }
        a.parts = split(r, &t, 2);
    }
    for p in a.parts.iter_mut() { let k = p.rows().min(60); *p = p.slice(0, k); }
    let tz = *r.pick(&TZS);
    let ans: Answer = a.clone();
    let wr = Mutex::new(r.fork());
    // an incomplete packet is parsed again from its beginning as more of it arrives
    let long = a.parts.iter().map(crate::c01::elements).sum::<usize>() > 3000;
    let srv = Server::start(SrvCfg::new(move |c, _| send_answer(c, &ans)).wire(move |_| if long { Wire::whole() } else { gen_wire(&mut wr.lock().unwrap()) }).tz(tz.name()));
    let compress = r.chance(1, 3);
    let url = srv.url(&format!("{LIMITS}&pool_min=1&pool_max=1{}", if compress { "&compression=lz4" } else { "" }));
    let full = concat(&a.parts);
    let what = format!("server zone {}, {} in {} blocks", tz.name(), full.brief(), a.parts.len());
    let got = block_on(MAX, async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        let all = h.query("x").fetch_all().await.map_err(|e| format!("fetch_all: {e}"))?;
        let mut parts = vec![];
        { let mut s = h.query("x").stream_blocks(); while let Some(b) = s.next().await { parts.push(b.map_err(|e| format!("stream_blocks: {e}"))?); } }
        Ok::<_, String>((all, parts))
    });
    ctx.eval();
    let (all, parts) = match got { Out::Done(Ok(x)) => x, Out::Done(Err(e)) => { ctx.violation("read", n, &sig_of(&e), format!("{what}\n{e}")); return; } Out::Panic(p) => { ctx.violation("read", n, "panic", format!("{what}\n{p}")); return; } Out::Hang => { ctx.violation("read", n, "hang", what); return; } };
    ctx.distinct(&(full.kinds(), full.rows(), a.parts.len()));
    let c = Cell { ctx, tz, strict: true };
    let res = (|| -> Res<()> {
        cells(&c, &all, &full, r)?;
        for (ci, col) in full.cols.iter().enumerate() { iter_complex(&c, &all.columns()[ci], &col.ty, &col.vals, r, wide(&col.ty))?; }
        let exp: Vec<&Table> = a.parts.iter().collect();
        let mut row = 0;
        for b in &parts {
            let k = b.row_count();
            if row + k > full.rows() { return Err("stream_blocks gives too many rows".into()); }
            let t = full.slice(row, row + k);
            cells(&c, b, &t, r)?;
            for (ci, col) in t.cols.iter().enumerate() { iter_simple(&c, &b.columns()[ci], &col.ty, &col.vals, r, wide(&col.ty))?; }
            row += k;
        }
        if row != full.rows() { return Err(format!("stream_blocks gives {row} of {} rows in {} blocks ({} sent)", full.rows(), parts.len(), exp.len())); }
        Ok(())
    })();
    if let Err(e) = res { ctx.violation("read", n, &sig_of(&e), format!("{e}\n{what}")); return; }
    ctx.sample(|| what);
}

/// Blocks built locally: typed reading is refused or right.
fn local(ctx: &Ctx, n: u64, r: &mut Rng) {
    let cols = r.range(1, 3);
    let rows = r.range(1, 12);
    let t = gen_table(r, cols, rows, &|r| crate::c01::gen_insert_ty(r));
    let t = Table { cols: t.cols.into_iter().map(|c| Col { ty: built(&c.ty), vals: c.vals, name: c.name }).collect() };
    let tz = *r.pick(&TZS);
    let b = if r.chance(1, 2) { block_by_cols(&t, tz) } else { None };
    let b = match b { Some(b) => b, None => match guard(|| block_by_rows(&t, tz)) { Ok(Ok(b)) => b, Ok(Err(e)) => { ctx.violation("local", n, "push", format!("push: {e}\n{}", t.brief())); return; } Err(p) => { ctx.violation("local", n, "push", format!("push panicked: {p}\n{}", t.brief())); return; } } };
    ctx.eval();
    ctx.distinct(&("local", t.kinds(), rows));
    let c = Cell { ctx, tz, strict: false };
    for (ci, col) in t.cols.iter().enumerate() {
        // times are kept as they were pushed, whatever their type
        if has_time(&col.ty) { continue; }
        let res = (|| { for _ in 0..2 { let i = r.below(rows); get_all(&c, &b, i, ci, &col.ty, &col.vals[i])?; } iter_simple(&c, &b.columns()[ci], &col.ty, &col.vals, r, wide(&col.ty)) })();
        if let Err(e) = res { ctx.violation("local", n, "local", format!("{e}\nblock built locally: {}", t.brief())); return; }
    }
}
fn has_time(t: &Ty) -> bool { match t { Ty::DateTime(_) | Ty::DateTime64(..) => true, Ty::Nullable(t) | Ty::Array(t) | Ty::Low(t) | Ty::Agg(_, t) => has_time(t), Ty::Map(k, v) => has_time(k) || has_time(v), _ => false } }
/// The type a locally built column has.
fn built(t: &Ty) -> Ty { match t { Ty::Fixed(_) => Ty::Str, Ty::Dec(_, s) => Ty::Dec(18, *s), Ty::Low(t) | Ty::Agg(_, t) => built(t), Ty::Nullable(t) => Ty::Nullable(Box::new(built(t))), Ty::Array(t) => Ty::Array(Box::new(built(t))), Ty::Map(k, v) => Ty::Map(Box::new(built(k)), Box::new(built(v))), t => t.clone() } }

#[allow(dead_code)]
fn unused(_: EncOpt) {}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case fetches one generated result through fetch_all (concatenated columns) and stream_blocks and reads it by index, by name, through rows(), through get::<T> for ~110 Rust types and through iter::<T> for ~60-210 Rust types with random skips; each pair (column type, T) must give the model's value or be refused, and must succeed where T is the column's own type; distinct = (column kinds, rows, blocks)");
    watchdog(ctx.clone(), secs(160), true);
    cases(ctx, "read", ctx.n(5000, 60_000), 8, secs(ctx.n(70, 900)), case);
    cases(ctx, "local", ctx.n(5000, 60_000), 8, secs(ctx.n(40, 600)), local);
}
