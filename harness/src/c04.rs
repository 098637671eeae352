//! C04: oversized inserts are split without losing or altering rows.
use crate::c01::{gen_insert_ty, judge};
use crate::c02::{gen_result_ty, send_answer, Answer};
use crate::c18::{conv, gen_pair, offered, Built};
use crate::codec::{EncOpt, RxBlock};
use crate::drv::*;
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::{Block, Pool};
use futures_util::StreamExt;
use std::sync::Arc;

const LIMIT: usize = 1 << 20;

fn bx(t: Ty) -> Box<Ty> { Box::new(t) }

/// Every kind of column in turn, then random ones.
fn ty_for(n: u64, r: &mut Rng) -> Ty {
    match n {
        0 => Ty::Str,
        1 => Ty::Array(bx(Ty::U32)),
        2 => Ty::Map(bx(Ty::Str), bx(Ty::U64)),
        3 => Ty::Nullable(bx(Ty::Str)),
        4 => Ty::Low(bx(Ty::Str)),
        5 => Ty::Array(bx(Ty::Nullable(bx(Ty::Str)))),
        6 => Ty::Array(bx(Ty::Array(bx(Ty::U8)))),
        7 => Ty::Map(bx(Ty::U8), bx(Ty::Array(bx(Ty::Str)))),
        8 => Ty::Fixed(5),
        9 => Ty::DateTime64(3, None),
        10 => Ty::Dec(9, 2),
        11 => gen_scalar_kind(r),
        12 => Ty::Agg("sum".into(), bx(Ty::U64)),
        13 => Ty::Nullable(bx(Ty::Dec(18, 4))),
        14 => Ty::Array(bx(Ty::DateTime(None))),
        15 => Ty::DateTime(None),
        16 => Ty::Map(bx(Ty::Str), bx(Ty::Map(bx(Ty::U8), bx(Ty::Str)))),
        17 => Ty::Array(bx(Ty::Map(bx(Ty::Str), bx(Ty::U16)))),
        18 => Ty::Low(bx(Ty::U64)),
        19 => Ty::Date,
        // from 28 on the block comes from a result
        20 | 28 => Ty::Ip4,
        21 | 29 => Ty::Ip6,
        22 | 30 => Ty::Uuid,
        23 | 31 => Ty::Nullable(bx(Ty::Fixed(3))),
        32 => Ty::Fixed(3),
        24 | 33 => Ty::Nullable(bx(Ty::Enum8(gen_enum(r, false, true)))),
        25 | 34 => Ty::Enum16(gen_enum(r, true, true)),
        35 => Ty::Str,
        36 => Ty::Low(bx(Ty::Fixed(4))),
        37 => Ty::Dec(9, 2),
        38 => Ty::DateTime64(6, None),
        39 => Ty::Array(bx(Ty::Fixed(2))),
        26 | 40 => Ty::Nullable(bx(Ty::DateTime(None))),
        41 => Ty::Agg("max".into(), bx(Ty::Str)),
        42 => Ty::Map(bx(Ty::Fixed(2)), bx(Ty::Ip4)),
        43 => Ty::Array(bx(Ty::Nullable(bx(Ty::Str)))),
        n if n >= 28 => loop { let t = gen_result_ty(r); if !matches!(t, Ty::Map(..)) || r.chance(1, 3) { break t; } },
        _ => gen_insert_ty(r),
    }
}
fn gen_scalar_kind(r: &mut Rng) -> Ty { loop { let t = gen_scalar(r); if crate::c01::nested_ok(&t, false, false) { return t; } } }

fn rows_for(r: &mut Rng, thorough: bool) -> usize {
    match r.below(if thorough { 7 } else { 8 }) { 0 => LIMIT + 1, 1 => LIMIT, 2 => 2 * LIMIT, 3 => 2 * LIMIT + 1, 4 => 2 * LIMIT + r.below(1000), 5 if thorough => 3 * LIMIT + 7, _ => LIMIT + 2 + r.below(50_000) }
}

fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let ty = ty_for(n, r);
    let rows = rows_for(r, ctx.thorough).max(if n < 44 { LIMIT + 1 } else { 0 });
    let taken = n >= 28;
    // values repeat with a period that is no divisor of the packet size; the second column numbers the rows
    let seed: Vec<Val> = gen_col(r, &ty, 997).into_iter().map(|v| small(v, 2)).collect();
    let vals: Vec<Val> = (0..rows).map(|i| seed[i % 997].clone()).collect();
    // a dictionary too large for 16-bit references
    let vals = if n == 4 { (0..rows).map(|i| Val::S(format!("v{}", i * 7 % 70_001).into_bytes())).collect() } else if n == 18 { (0..rows).map(|i| Val::U((i * 7 % 70_001) as u128)).collect() } else { vals };
    let tz = *r.pick(&TZS);
    let id: Vec<Val> = (0..rows).map(|i| Val::U(i as u128)).collect();
    let t = Table { cols: vec![Col { name: "v".into(), ty: ty.clone(), vals }, Col { name: "i".into(), ty: Ty::U32, vals: id }] };
    let hdr = t.header();
    let ans = if taken { let k = r.below(3); Some(Answer { parts: split(r, &t, k + 1), opt: EncOpt { low_extra_keys: false, low_wide: 0 }, noise: r.u64(), tail: true }) } else { None };
    let streamed = ans.as_ref().map_or(false, |a| a.parts.len() == 1);
    let srv = Server::start(SrvCfg::new(move |c, q| match &ans { Some(a) if q.sql == "SELECT 1" => send_answer(c, a), _ => c.do_insert(&hdr).map(|_| ()) }).tz(tz.name()));
    let compress = r.chance(1, 2);
    let url = srv.url(&format!("connection_timeout=60s&ping_timeout=60s&query_timeout=300s&insert_timeout=300s&pool_min=1&pool_max=1{}", if compress { "&compression=lz4" } else { "" }));
    let what = format!("{} rows of {}{}, {}", rows, if streamed { " taken from a streamed block" } else if taken { " taken from a result" } else { "" }, ty.name(), if compress { "lz4" } else { "plain" });
    let b = if taken { None } else { Some(match block_by_cols(&t, tz) { Some(b) => b, None => match guard(|| block_by_rows(&t, tz)) { Ok(Ok(b)) => b, Ok(Err(e)) => { ctx.violation("big", n, "push", format!("{what}\npush: {e}")); return; } Err(p) => { ctx.violation("big", n, "push", format!("{what}\npush panicked: {p}")); return; } } }) };
    let res = block_on(secs(300), async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        let b = match b {
            Some(b) => b,
            None if streamed => {
                let mut s = h.query("SELECT 1").stream_blocks();
                let b = s.next().await.ok_or("select: no block")?.map_err(|e| format!("select: {e}"))?;
                if s.next().await.is_some() { return Err("select: more than one block".into()); }
                b
            }
            None => {
                let all = h.query("SELECT 1").fetch_all().await.map_err(|e| format!("select: {e}"))?;
                let mut b = Block::new();
                for c in all.columns() { b = b.column(c.name(), c.clone()); }
                b
            }
        };
        h.insert("t", &b).await.map_err(|e| format!("insert: {e}"))?;
        // the connection is in step afterwards
        h.ping().await.map_err(|e| format!("ping after the insert: {e}"))
    });
    ctx.eval();
    let ds = srv.log.datas();
    let data: Vec<RxBlock> = ds.iter().map(|d| (*d.1).clone()).filter(|d| !d.cols.is_empty() || d.rows > 0).collect();
    ctx.distinct(&(ty.kind(), rows, compress, taken));
    ctx.count("rows", rows as u64);
    ctx.count("packets", data.len() as u64);
    ctx.count(&format!("packets_per_insert_{}", data.len()), 1);
    let bad = srv.log.bad();
    match res {
        Out::Done(Ok(())) => {
            if let Some(e) = bad { ctx.violation("big", n, "malformed", format!("{what}: a packet is not a well-formed block: {e}")); return; }
            if let Some(d) = judge(&t, &data) { ctx.violation("big", n, "data", format!("{what}, received in {} packets of {:?} rows: {d}", data.len(), data.iter().map(|d| d.rows).collect::<Vec<_>>())); return; }
            ctx.sample(|| format!("{what}: packets of {:?} rows", data.iter().map(|d| d.rows).collect::<Vec<_>>()));
        }
        Out::Done(Err(e)) => ctx.violation("big", n, &crate::c02::sig_of(&e), format!("{what}\n{e}\nserver: {bad:?}\n{}", srv.log.trace())),
        Out::Panic(e) => ctx.violation("big", n, "panic", format!("{what}\npanic: {e}\nserver: {bad:?}")),
        Out::Hang => ctx.violation("big", n, "hang", format!("{what}\nno result within 300 s\n{}", srv.log.trace())),
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case inserts one block of 1,048,576 to 3,145,735 rows (one column of a given type with values of period 997, one numbering the rows), made locally or taken from a streamed or fetched result; converted: the column is of one type and the table's of another the driver converts to, the expected values come from a reference conversion; a mock server decodes every packet on its own with a strict decoder, and the concatenation of the packets must equal the block cell by cell; distinct = (type, rows, compression)");
    watchdog(ctx.clone(), secs(400), true);
    cases(ctx, "big", ctx.n(48, 400), 8, secs(ctx.n(200, 1500)), case);
    cases(ctx, "converted", ctx.n(26, 300), 8, secs(ctx.n(200, 1500)), converted);
}

/// The kinds of conversion the adapters make, in turn.
fn kind_ok(n: u64, a: &Ty, b: &Ty) -> bool {
    use Ty::*;
    match n {
        0 => matches!((a, b), (Str, Fixed(_))),
        1 => matches!((a, b), (Nullable(x), Nullable(y)) if **x == Str && matches!(**y, Fixed(_))),
        2 => matches!((a, b), (Array(_), Str)),
        3 => matches!((a, b), (Dec(..), Dec(..))),
        4 => matches!((a, b), (Enum8(_), Enum8(_))),
        5 => matches!((a, b), (Enum16(_), Enum16(_))),
        6 => matches!((a, b), (Nullable(x), Nullable(_)) if matches!(**x, Enum8(_))),
        7 => matches!((a, b), (Nullable(x), Nullable(_)) if matches!(**x, Enum16(_))),
        8 => matches!((a, b), (Str, Ip4)),
        9 => matches!((a, b), (Str, Ip6)),
        10 => matches!((a, b), (Str, Low(x)) if matches!(**x, Fixed(_))),
        11 => matches!((a, b), (DateTime(_), DateTime64(..))),
        12 => matches!((a, b), (DateTime64(p, _), DateTime64(q, _)) if p != q),
        13 => matches!((a, b), (DateTime64(..), DateTime(_))),
        14 => matches!((a, b), (Nullable(x), Nullable(y)) if **x != **y && matches!((&**x, &**y), (DateTime64(..), DateTime64(..)) | (DateTime(_), DateTime64(..)))),
        15 => matches!((a, b), (Array(x), Array(y)) if **x != **y && matches!(**y, DateTime64(..) | DateTime(_))),
        16 => matches!((a, b), (Array(_), Fixed(_))),
        17 => matches!((a, b), (Nullable(_), Nullable(y)) if matches!(**y, Dec(..))),
        18 => matches!((a, b), (x, Low(y)) if x.strip_tz() == y.strip_tz()),
        _ => true,
    }
}

/// Oversized blocks whose columns are converted on the way.
fn converted(ctx: &Ctx, n: u64, r: &mut Rng) {
    let tz = *r.pick(&TZS);
    let mut found = None;
    for _ in 0..20_000 {
        let mut q = r.fork();
        let (a, _, b) = gen_pair(&mut q.clone(), 3, true);
        if a == b || !kind_ok(n, &a, &b) || !offered(&a, &b, Built::Rows) || !crate::c01::nested_ok(&a, false, false) || !crate::c01::nested_ok(&b, false, false) { continue; }
        let (a, v, b) = gen_pair(&mut q, 997, true);
        let v: Vec<Val> = v.into_iter().filter(|v| conv(&a, v, &b).is_some()).map(|v| small(v, 3)).filter(|v| conv(&a, v, &b).is_some()).collect();
        let mut ds: Vec<&Val> = vec![];
        for x in &v { if !ds.contains(&x) { ds.push(x); } if ds.len() > 1 { break; } }
        if a != b && offered(&a, &b, Built::Rows) && kind_ok(n, &a, &b) && ds.len() > 1 { found = Some((a, v, b)); break; }
    }
    let Some((ta, seed, tb)) = found else { ctx.count("no_pair", 1); return };
    let rows = rows_for(r, ctx.thorough).max(LIMIT + 2);
    // no period that would hide a packet that begins at the wrong row
    let m = if LIMIT % seed.len() == 0 && seed.len() > 2 { seed.len() - 1 } else { seed.len() };
    let vals: Vec<Val> = (0..rows).map(|i| seed[i % m].clone()).collect();
    let exp: Vec<Val> = seed.iter().map(|v| conv(&ta, v, &tb).unwrap()).collect();
    let want = Table { cols: vec![Col { name: "v".into(), ty: tb.clone(), vals: (0..rows).map(|i| exp[i % m].clone()).collect() }, Col { name: "i".into(), ty: Ty::U32, vals: (0..rows).map(|i| Val::U(i as u128)).collect() }] };
    let src = Table { cols: vec![Col { name: "v".into(), ty: ta.clone(), vals }, want.cols[1].clone()] };
    let taken = offered(&ta, &tb, Built::Fetched) && r.chance(1, 2);
    let hdr = want.header();
    let ans = if taken { let k = r.below(3); Some(Answer { parts: split(r, &src, k + 1), opt: EncOpt { low_extra_keys: false, low_wide: 0 }, noise: r.u64(), tail: true }) } else { None };
    let srv = Server::start(SrvCfg::new(move |c, q| match &ans { Some(a) if q.sql == "SELECT 1" => send_answer(c, a), _ => c.do_insert(&hdr).map(|_| ()) }).tz(tz.name()));
    let compress = r.chance(1, 2);
    let url = srv.url(&format!("connection_timeout=60s&ping_timeout=60s&query_timeout=300s&insert_timeout=300s&pool_min=1&pool_max=1{}", if compress { "&compression=lz4" } else { "" }));
    let what = format!("{rows} rows of {}{} into {}, {}", ta.name(), if taken { " taken from a result" } else { "" }, tb.name(), if compress { "lz4" } else { "plain" });
    let b = if taken { None } else { match block_by_cols(&src, tz) { Some(b) => Some(b), None => match guard(|| block_by_rows(&src, tz)) { Ok(Ok(b)) => Some(b), e => { ctx.violation("converted", n, "push", format!("{what}\npush: {:?}", e.err())); return; } } } };
    let res = block_on(secs(300), async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        let b = match b {
            Some(b) => b,
            None => {
                let all = h.query("SELECT 1").fetch_all().await.map_err(|e| format!("select: {e}"))?;
                let mut b = Block::new();
                for c in all.columns() { b = b.column(c.name(), c.clone()); }
                b
            }
        };
        h.insert("t", &b).await.map_err(|e| format!("insert: {e}"))?;
        h.ping().await.map_err(|e| format!("ping after the insert: {e}"))
    });
    ctx.eval();
    let ds = srv.log.datas();
    let data: Vec<RxBlock> = ds.iter().map(|d| (*d.1).clone()).filter(|d| !d.cols.is_empty() || d.rows > 0).collect();
    ctx.distinct(&(ta.kind(), tb.kind(), rows, compress, taken));
    ctx.count("rows_converted", rows as u64);
    ctx.count("packets_converted", data.len() as u64);
    let bad = srv.log.bad();
    match res {
        Out::Done(Ok(())) => {
            if let Some(e) = bad { ctx.violation("converted", n, "malformed", format!("{what}: a packet is not a well-formed block: {e}")); return; }
            if let Some(d) = judge(&want, &data) { ctx.violation("converted", n, "data", format!("{what}, received in {} packets of {:?} rows: {d}", data.len(), data.iter().map(|d| d.rows).collect::<Vec<_>>())); return; }
            ctx.sample(|| what.clone());
        }
        Out::Done(Err(e)) => ctx.violation("converted", n, &crate::c02::sig_of(&e), format!("{what}\n{e}\nserver: {bad:?}\n{}", srv.log.trace())),
        Out::Panic(e) => ctx.violation("converted", n, "panic", format!("{what}\npanic: {e}\nserver: {bad:?}")),
        Out::Hang => ctx.violation("converted", n, "hang", format!("{what}\nno result within 300 s")),
    }
}

/// Keep nested values short: there are a million of them.
fn small(v: Val, n: usize) -> Val {
    match v {
        Val::A(mut x) => { x.truncate(n); Val::A(x.into_iter().map(|v| small(v, n)).collect()) }
        Val::M(mut x) => { x.truncate(n); Val::M(x.into_iter().map(|(k, v)| (small(k, n), small(v, n))).collect()) }
        Val::S(mut s) if std::str::from_utf8(&s).is_err() => { s.truncate(24); Val::S(s) }
        v => v,
    }
}
