//! C20: workloads for the instrumented builds (AddressSanitizer, Memcheck, Miri). The tool is the oracle; values are
//! read in full so that it sees every byte, and kept beyond their iterators for as long as the borrow checker allows.
use crate::c02::{gen_result_ty, send_answer, Answer};
use crate::c03::{Fit, Reads};
use crate::codec::EncOpt;
use crate::drv::*;
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use chrono::{DateTime, NaiveDate, NaiveDateTime};
use chrono_tz::Tz;
use clickhouse_rs::types::column::iter::Iterable;
use clickhouse_rs::types::{Column, ColumnType, Complex, Decimal, Enum16, Enum8, FromSql, Simple};
use clickhouse_rs::{Block, Pool};
use futures_util::StreamExt;
use std::collections::HashMap;
use std::net::{Ipv4Addr, Ipv6Addr};
use std::sync::{Arc, Mutex};
use uuid::Uuid;

/// Under Miri only few of the readers that do not fit are tried.
fn odds(r: &mut Rng, fits: bool) -> bool { if fits { !cfg!(miri) || r.chance(3, 4) } else { r.chance(1, if cfg!(miri) { 60 } else { 4 }) } }

struct St<'c> { ctx: &'c Ctx, tz: Tz }

fn keep<'a, T, K: ColumnType>(s: &St, col: &'a Column<K>, ty: &Ty, vals: &[Val], r: &mut Rng)
where T: Iterable<'a, K>, <T::Iter as Iterator>::Item: Reads {
    type It<'a, T, K> = <<T as Iterable<'a, K>>::Iter as Iterator>::Item;
    if !odds(r, <It<'a, T, K>>::fits(ty) != Fit::No) { return; }
    let Ok(Ok(mut it)) = guard(|| col.iter::<T>()) else { s.ctx.count("refused", 1); return };
    s.ctx.count("iterators", 1);
    let skip = if r.chance(1, 3) { r.below(vals.len() + 2) } else { 0 };
    let stop = if r.chance(1, 4) { r.below(vals.len() + 1) } else { vals.len() + 3 };
    let Ok(items) = guard(|| {
        let mut items: Vec<It<'a, T, K>> = vec![];
        if skip > 0 { items.extend(it.nth(skip - 1)); }
        while items.len() < stop { match it.next() { Some(x) => items.push(x), None => break } }
        if it.next().is_some() { let _ = it.size_hint(); }
        drop(it);
        items
    }) else { return };
    // the iterator is gone, the column is not: the items must still be readable in full
    let from = skip.saturating_sub(1);
    let mut wrong = 0;
    for (i, x) in items.iter().enumerate() { if let Some(v) = vals.get(from + i) { if !x.same(ty, v, s.tz) { wrong += 1; } } }
    if wrong > 0 { s.ctx.count("other_values", wrong); }
    s.ctx.count("items", items.len() as u64);
}

macro_rules! each { ($m:ident) => { $m!(bool); $m!(u8); $m!(u16); $m!(u32); $m!(u64); $m!(u128); $m!(i8); $m!(i16); $m!(i32); $m!(i64); $m!(i128); $m!(f32); $m!(f64); $m!(&[u8]); $m!(Decimal); $m!(Ipv4Addr); $m!(Ipv6Addr); $m!(Uuid); $m!(NaiveDate); $m!(DateTime<Tz>); } }

macro_rules! iters { ($fname:ident, $k:ty) => {
    fn $fname(s: &St, col: &Column<$k>, ty: &Ty, vals: &[Val], r: &mut Rng) {
        macro_rules! one { ($t:ty) => { keep::<$t, $k>(s, col, ty, vals, r); } }
        macro_rules! dress { ($t:ty) => { one!($t); one!(Option<$t>); one!(Vec<$t>); } }
        each!(dress);
        one!(NaiveDateTime);
        if matches!(ty, Ty::Array(_) | Ty::Map(..)) || !cfg!(miri) && r.chance(1, 10) {
            macro_rules! more { ($t:ty) => { one!(Vec<Option<$t>>); one!(Vec<Vec<$t>>); one!(HashMap<&[u8], $t>); one!(HashMap<u64, Option<$t>>); } }
            each!(more);
            macro_rules! maps { ($t:ty) => { one!(HashMap<$t, u64>); one!(HashMap<$t, &[u8]>); one!(HashMap<$t, Vec<u32>>); one!(HashMap<$t, Option<&[u8]>>); one!(Vec<HashMap<$t, &[u8]>>); one!(HashMap<&[u8], HashMap<$t, i64>>); } }
            maps!(u8); maps!(u32); maps!(u64); maps!(i64); maps!(&[u8]); maps!(Uuid); maps!(Ipv4Addr);
        }
    }
} }
iters!(iters_simple, Simple);
iters!(iters_complex, Complex);

fn got<'a, T: FromSql<'a> + Reads, K: ColumnType>(s: &St, b: &'a Block<K>, ci: usize, ty: &Ty, vals: &[Val], r: &mut Rng) {
    if !odds(r, T::fits(ty) != Fit::No) { return; }
    let rows: Vec<usize> = if cfg!(miri) { (0..2.min(vals.len())).map(|_| r.below(vals.len())).collect() } else { (0..vals.len()).collect() };
    let items: Vec<(usize, T)> = rows.into_iter().filter_map(|i| guard(|| b.get::<T, _>(i, ci)).ok().and_then(|x| x.ok()).map(|x| (i, x))).collect();
    for (i, x) in &items { if !x.same(ty, &vals[*i], s.tz) { s.ctx.count("other_values", 1); } }
    s.ctx.count("gets", items.len() as u64);
}

fn gets<K: ColumnType>(s: &St, b: &Block<K>, ci: usize, ty: &Ty, vals: &[Val], r: &mut Rng) {
    macro_rules! one { ($t:ty) => { got::<$t, K>(s, b, ci, ty, vals, r); } }
    macro_rules! dress { ($t:ty) => { one!($t); one!(Option<$t>); one!(HashMap<u64, $t>); one!(HashMap<String, $t>); } }
    each!(dress);
    one!(Enum8); one!(Enum16); one!(Option<Enum8>); one!(Option<Enum16>); one!(&str); one!(String); one!(Option<String>); one!(Option<&str>);
    one!(Vec<u8>); one!(Vec<u16>); one!(Vec<u64>); one!(Vec<i8>); one!(Vec<i128>); one!(Vec<f64>); one!(Vec<bool>);
    one!(Vec<&str>); one!(Vec<String>); one!(Vec<&[u8]>); one!(Vec<NaiveDate>); one!(Vec<DateTime<Tz>>); one!(Vec<Enum8>); one!(Vec<Enum16>);
}

/// All cells, first with all of the rows at hand.
fn walk<K: ColumnType>(s: &St, b: &Block<K>, t: &Table) {
    let mut kept: Vec<Option<&[u8]>> = vec![];
    let rows: Vec<_> = b.rows().collect();
    for row in &rows { for ci in 0..b.column_count() { kept.push(row.get::<&[u8], _>(ci).ok()); } }
    let n: usize = kept.iter().flatten().map(|x| x.iter().map(|b| *b as usize).sum::<usize>() & 1).sum();
    s.ctx.count("kept", 1 + n as u64 % 2);
    if let Ok(g) = read_block(b) { s.ctx.count("cells", (g.rows() * g.cols.len()) as u64); if diff_table(t, &g).is_some() { s.ctx.count("other_values", 1); } }
    let text = guard(|| format!("{b:?}")).map(|x| x.len()).unwrap_or(0);
    s.ctx.count("shown", (text > 0) as u64);
}

fn bulk(v: &[Val]) -> usize {
    v.iter().map(|x| match x { Val::S(s) => 2 + s.len(), Val::A(a) => 2 + bulk(a), Val::M(m) => 2 + m.iter().map(|(a, b)| bulk(std::slice::from_ref(a)) + bulk(std::slice::from_ref(b))).sum::<usize>(), _ => 4 }).sum()
}

/// Miri takes minutes for long values.
fn vals_of(r: &mut Rng, t: &Ty, rows: usize) -> Vec<Val> {
    loop { let v = gen_col(r, t, rows); if !cfg!(miri) || bulk(&v) < 400 { return v; } }
}

/// Types in turn, so that a few cases see all of them.
fn pick_ty(n: u64, r: &mut Rng) -> Ty {
    let b = |t: Ty| Box::new(t);
    let list = [
        Ty::Str, Ty::Fixed(5), Ty::Nullable(b(Ty::Str)), Ty::Array(b(Ty::Str)), Ty::Low(b(Ty::Str)), Ty::Dec(9, 3), Ty::Dec(18, 4), Ty::DateTime64(3, None), Ty::DateTime(None), Ty::Date,
        Ty::Ip4, Ty::Ip6, Ty::Uuid, Ty::Enum8(gen_enum(r, false, false)), Ty::Enum16(gen_enum(r, true, false)), Ty::U8, Ty::U16, Ty::I64, Ty::U128, Ty::F64, Ty::Bool,
        Ty::Nullable(b(Ty::Dec(9, 2))), Ty::Nullable(b(Ty::DateTime64(6, None))), Ty::Nullable(b(Ty::Fixed(3))), Ty::Nullable(b(Ty::Uuid)), Ty::Nullable(b(Ty::Ip4)), Ty::Nullable(b(Ty::Ip6)), Ty::Nullable(b(Ty::Date)), Ty::Nullable(b(Ty::DateTime(None))), Ty::Nullable(b(Ty::U32)), Ty::Nullable(b(Ty::Enum8(gen_enum(r, false, true)))),
        Ty::Array(b(Ty::U8)), Ty::Array(b(Ty::Nullable(b(Ty::Str)))), Ty::Array(b(Ty::Array(b(Ty::U32)))), Ty::Array(b(Ty::Array(b(Ty::Str)))), Ty::Array(b(Ty::Dec(18, 2))), Ty::Array(b(Ty::DateTime64(0, None))), Ty::Array(b(Ty::Date)), Ty::Array(b(Ty::Uuid)), Ty::Array(b(Ty::Ip6)), Ty::Array(b(Ty::Fixed(2))), Ty::Array(b(Ty::Enum16(gen_enum(r, true, true)))),
        Ty::Map(b(Ty::Str), b(Ty::U64)), Ty::Map(b(Ty::U64), b(Ty::Nullable(b(Ty::Str)))), Ty::Map(b(Ty::U8), b(Ty::Array(b(Ty::U32)))), Ty::Map(b(Ty::Str), b(Ty::Map(b(Ty::U8), b(Ty::I64)))), Ty::Array(b(Ty::Map(b(Ty::U32), b(Ty::Str)))), Ty::Map(b(Ty::Uuid), b(Ty::U64)),
        Ty::Low(b(Ty::Fixed(3))), Ty::Low(b(Ty::Date)), Ty::Low(b(Ty::DateTime(None))), Ty::Low(b(Ty::U32)), Ty::Agg("max".into(), b(Ty::Str)), Ty::Agg("sum".into(), b(Ty::U64)), Ty::Nullable(b(Ty::Bool)), Ty::Array(b(Ty::Bool)), Ty::Array(b(Ty::Ip4)), Ty::Array(b(Ty::F32)),
    ];
    if n < 5 * list.len() as u64 || r.chance(1, 2) { list[n as usize % list.len()].clone() } else { gen_result_ty(r) }
}

fn read(ctx: &Ctx, n: u64, r: &mut Rng) {
    let tz = *r.pick(&TZS);
    let rows = if cfg!(miri) { r.range(1, 5) } else { gen_rows(r).clamp(1, 60) };
    // a connection costs Miri more than reading a column
    let width = if cfg!(miri) { 8 } else { 1 };
    let t = Table { cols: (0..width).map(|i| { let ty = pick_ty(n * width + i, r); Col { name: format!("a{i}"), vals: vals_of(r, &ty, rows), ty } }).collect() };
    let k = r.range(1, 3);
    let parts = split(r, &t, k);
    let ans = Answer { parts: parts.clone(), opt: EncOpt { low_extra_keys: r.chance(1, 3), low_wide: r.below(4) as u8 }, noise: r.u64(), tail: true };
    let wr = Mutex::new(r.fork());
    let srv = Server::start(SrvCfg::new(move |c, _| send_answer(c, &ans)).wire(move |_| gen_wire(&mut wr.lock().unwrap())).tz(tz.name()));
    let url = srv.url(&format!("{LIMITS}&pool_min=1&pool_max=1{}", if r.chance(1, 3) { "&compression=lz4" } else { "" }));
    let got = block_on(MAX, async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        let all = h.query("x").fetch_all().await.map_err(|e| format!("fetch_all: {e}"))?;
        let mut parts = vec![];
        { let mut s = h.query("x").stream_blocks(); while let Some(b) = s.next().await { parts.push(b.map_err(|e| format!("stream_blocks: {e}"))?); } }
        Ok::<_, String>((all, parts))
    });
    ctx.eval();
    ctx.distinct(&("read", t.kinds(), rows, k));
    ctx.sample(|| t.brief());
    let Out::Done(Ok((all, blocks))) = got else { ctx.count("no_result", 1); return };
    let s = St { ctx, tz };
    walk(&s, &all, &t);
    if all.column_count() == t.cols.len() && all.row_count() == rows {
        for (i, c) in t.cols.iter().enumerate() {
            iters_complex(&s, &all.columns()[i], &c.ty, &c.vals, r);
            gets(&s, &all, i, &c.ty, &c.vals, r);
        }
    }
    let mut row = 0;
    for b in &blocks {
        let k = b.row_count();
        if row + k > rows { break; }
        let p = t.slice(row, row + k);
        if b.column_count() == p.cols.len() {
            for (i, c) in p.cols.iter().enumerate() { iters_simple(&s, &b.columns()[i], &c.ty, &c.vals, r); if !cfg!(miri) || r.chance(1, 3) { gets(&s, b, i, &c.ty, &c.vals, r); } }
            if !cfg!(miri) || r.chance(1, 3) { walk(&s, b, &p); }
        }
        row += k;
    }
    // what is left of a result after its blocks went
    let left = all.columns().to_vec();
    drop(all);
    drop(blocks);
    if left.len() == t.cols.len() { for (c, m) in left.iter().zip(&t.cols) { iters_complex(&s, c, &m.ty, &m.vals, r); } }
}

/// Blocks made locally, cloned, extended and inserted, possibly with another type.
fn write(ctx: &Ctx, n: u64, r: &mut Rng) {
    let tz = *r.pick(&TZS);
    let rows = if cfg!(miri) { r.range(1, 4) } else { r.range(1, 40) };
    let width = if cfg!(miri) { 4 } else { 1 };
    let cols: Vec<(Ty, Vec<Val>, Ty)> = (0..width).map(|i| if r.chance(1, 2) { loop { let p = crate::c18::gen_pair(r, rows, true); if !cfg!(miri) || bulk(&p.1) < 400 { break p; } } } else { let t = pick_ty(n * width + i, r); (t.clone(), vals_of(r, &t, rows), t) }).collect();
    let hdr = Table { cols: cols.iter().enumerate().map(|(i, c)| Col { name: format!("a{i}"), ty: c.2.clone(), vals: vec![] }).collect() };
    let t = Table { cols: cols.into_iter().enumerate().map(|(i, c)| Col { name: format!("a{i}"), ty: c.0, vals: c.1 }).collect() };
    let b = if r.chance(1, 2) { guard(|| block_by_cols(&t, tz)).ok().flatten() } else { None };
    let Some(mut b) = b.or_else(|| guard(|| block_by_rows(&t, tz)).ok().and_then(|x| x.ok())) else { ctx.count("not_built", 1); return };
    let s = St { ctx, tz };
    let copy = b.clone();
    for (i, c) in t.cols.iter().enumerate() { iters_simple(&s, &b.columns()[i], &c.ty, &c.vals, r); }
    let _ = guard(|| b.push(row(&t, 0, tz)));
    walk(&s, &copy, &t);
    drop(copy);
    for (i, c) in t.cols.iter().enumerate() { gets(&s, &b, i, &c.ty, &c.vals, r); }
    let wr = Mutex::new(r.fork());
    let srv = Server::start(SrvCfg::new(move |c, _| { c.do_insert(&hdr)?; Ok(()) }).wire(move |_| gen_wire(&mut wr.lock().unwrap())).tz(tz.name()));
    let url = srv.url(&format!("{LIMITS}&pool_min=1&pool_max=1{}", if r.chance(1, 2) { "&compression=lz4" } else { "" }));
    ctx.eval();
    ctx.distinct(&("write", t.kinds(), rows));
    let res = block_on(MAX, async { let pool = Pool::new(url); let mut h = handle(&pool).await?; h.insert("t", &b).await.map_err(|e| e.to_string()) });
    ctx.count(match res { Out::Done(Ok(())) => "inserted", _ => "not_inserted" }, 1);
}

/// Blocks and pools shared by threads.
fn share(ctx: &Ctx, n: u64, r: &mut Rng) {
    let tz = *r.pick(&TZS);
    let rows = if cfg!(miri) { 3 } else { r.range(3, 40) };
    let ty = pick_ty(n, r);
    let t = Arc::new(Table { cols: vec![Col { name: "a".into(), vals: vals_of(r, &ty, rows), ty }] });
    let ans = Answer { parts: vec![(*t).clone()], opt: EncOpt { low_extra_keys: false, low_wide: 0 }, noise: 0, tail: true };
    let srv = Server::start(SrvCfg::new(move |c, _| send_answer(c, &ans)).tz(tz.name()));
    let url = srv.url(&format!("{LIMITS}&pool_min=1&pool_max=2"));
    let pool = Pool::new(url);
    let rt = rt_mt(if cfg!(miri) { 1 } else { 2 });
    let fetch = |pool: Pool| guard(|| rt.handle().block_on(async { tokio::time::timeout(MAX, async { let mut h = handle(&pool).await?; h.query("x").fetch_all().await.map_err(|e| e.to_string()) }).await }));
    let Ok(Ok(Ok(all))) = fetch(pool.clone()) else { ctx.count("no_result", 1); return };
    let all = Arc::new(all);
    let k = if cfg!(miri) { 2 } else { 4 };
    ctx.eval();
    ctx.distinct(&("share", t.kinds(), rows));
    std::thread::scope(|sc| {
        for i in 0..k {
            let (all, t, pool, fetch, mut r) = (all.clone(), t.clone(), pool.clone(), &fetch, r.fork());
            sc.spawn(move || {
                let s = St { ctx, tz };
                iters_complex(&s, &all.columns()[0], &t.cols[0].ty, &t.cols[0].vals, &mut r);
                let mut mine = Block::new();
                for c in all.columns() { mine = mine.column(c.name(), c.clone()); }
                let _ = guard(|| mine.push(row(&t, 0, tz)));
                walk(&s, &*all, &t);
                if i > 0 { if let Ok(Ok(Ok(b))) = fetch(pool) { walk(&s, &b, &t); ctx.count("shared_fetches", 1); } }
                drop(mine);
            });
        }
    });
}

/// Results left unread, inserts given up, pools dropped first.
fn leave(ctx: &Ctx, n: u64, r: &mut Rng) {
    let tz = *r.pick(&TZS);
    let ty = pick_ty(n, r);
    let t = Table { cols: vec![Col { name: "a".into(), vals: vals_of(r, &ty, 4), ty }] };
    let parts = split(r, &t, 3);
    let ans = Answer { parts, opt: EncOpt { low_extra_keys: false, low_wide: 0 }, noise: 0, tail: true };
    let wr = Mutex::new(r.fork());
    let srv = Server::start(SrvCfg::new(move |c, _| send_answer(c, &ans)).wire(move |_| gen_wire(&mut wr.lock().unwrap())).tz(tz.name()));
    let url = srv.url(&format!("{LIMITS}&pool_min=1&pool_max=1{}", if r.chance(1, 2) { "&compression=lz4" } else { "" }));
    let after = r.below(3);
    let polls = r.below(12);
    ctx.eval();
    ctx.distinct(&("leave", t.kinds(), after, polls));
    let res = block_on(MAX, async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        let mut held = vec![];
        { let mut s = h.query("x").stream_blocks(); for _ in 0..after { if let Some(Ok(b)) = s.next().await { held.push(b); } } }
        { let mut q = h.query("x"); let mut f = Box::pin(q.fetch_all()); for _ in 0..polls { if futures_util::poll!(&mut f).is_ready() { break; } tokio::task::yield_now().await; } }
        let last = h.query("x").fetch_all().await.map_err(|e| e.to_string());
        drop(h);
        drop(pool);
        Ok::<_, String>((held, last))
    });
    if let Out::Done(Ok((held, last))) = res {
        let s = St { ctx, tz };
        for b in &held { let _ = read_block(b).map(|g| ctx.count("cells", g.rows() as u64)); }
        if let Ok(b) = last { walk(&s, &b, &t); }
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("every case reads a result through all its typed iterators and getters (items kept beyond the iterator), builds, clones, extends and inserts blocks with and without conversion, shares blocks and pools between threads, or gives operations up");
    let w = if cfg!(miri) { 1 } else { 8 };
    let t = ctx.n(20, 200);
    cases(ctx, "read", ctx.n(6000, 60_000), w, secs(t), read);
    cases(ctx, "write", ctx.n(6000, 60_000), w, secs(t), write);
    cases(ctx, "share", ctx.n(1000, 20_000), w, secs(t), share);
    cases(ctx, "leave", ctx.n(3000, 60_000), w, secs(t), leave);
}
