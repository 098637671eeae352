//! C02: what a query delivers is what the server sent.
use crate::codec::EncOpt;
use crate::drv::*;
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::Pool;
use futures_util::StreamExt;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// What the server will answer for each query text.
#[derive(Clone)]
pub struct Answer { pub parts: Vec<Table>, pub opt: EncOpt, pub noise: u64, pub tail: bool }

pub fn gen_result_ty(r: &mut Rng) -> Ty {
    match r.below(10) {
        0 => { let i = match r.below(6) { 0 => Ty::U64, 1 => Ty::F64, 2 => Ty::Str, 3 => Ty::Nullable(Box::new(Ty::I64)), 4 => Ty::Low(Box::new(Ty::Str)), _ => Ty::Array(Box::new(Ty::U32)) }; Ty::Agg(r.pick(&AGGS).to_string(), Box::new(i)) }
        _ => gen_ty(r, 2),
    }
}

pub fn gen_answer(r: &mut Rng, big: bool) -> Answer {
    let cols = r.range(1, 5);
    let rows = if big { if r.chance(1, 2) { crate::c01::big_rows(r) } else { r.range(1000, 6000) } } else { gen_rows(r) };
    let mut t = if big && r.chance(1, 3) { crate::c01::long_table(r) } else if rows > 10_000 { gen_table(r, cols.min(2), rows, &crate::c01::big_ty) } else { gen_table(r, cols, rows, &gen_result_ty) };
    // results may repeat a column name
    if t.cols.len() > 1 && r.chance(1, 12) { let n = t.cols[0].name.clone(); t.cols[1].name = n; }
    let k = r.range(1, 4);
    let parts = split(r, &t, k);
    Answer { parts, opt: EncOpt { low_extra_keys: r.chance(1, 3), low_wide: r.below(4) as u8 }, noise: r.u64(), tail: r.chance(2, 3) }
}

pub fn send_answer(c: &mut Conn, a: &Answer) -> Result<(), String> {
    let mut r = Rng::new(a.noise);
    let noise = |c: &mut Conn, r: &mut Rng| -> Result<(), String> {
        if r.chance(1, 3) { let b = c.progress_bytes(r.u64(), r.u64() >> 9, r.below(300) as u64); c.send(&b)?; }
        Ok(())
    };
    let h = c.data_bytes(&a.parts[0].header(), &a.opt);
    noise(c, &mut r)?;
    c.send(&h)?;
    for p in &a.parts {
        noise(c, &mut r)?;
        let b = c.data_bytes(p, &a.opt);
        c.send(&b)?;
    }
    if r.chance(1, 2) { let b = c.profile_bytes(a.parts.iter().map(|p| p.rows() as u64).sum()); c.send(&b)?; }
    noise(c, &mut r)?;
    if a.tail { c.send_data(&Table::default())?; }
    c.send_eos()
}

pub fn case(ctx: &Ctx, part: &str, n: u64, r: &mut Rng, big: bool) {
    let nq = r.range(1, 4);
    let answers: HashMap<String, Answer> = (0..nq).map(|i| (format!("SELECT {i}"), if big && n % 12 == 5 && i == 0 { Answer { parts: vec![crate::c01::huge_table(r)], opt: EncOpt::default(), noise: 0, tail: true } } else { gen_answer(r, big) })).collect();
    let ans = Arc::new(answers.clone());
    let wr = Mutex::new(r.fork());
    let rev = *r.pick(&REVS);
    let tz = *r.pick(&TZS);
    let cfg = SrvCfg::new(move |c, q| { let a = ans.get(&q.sql).ok_or("BAD unknown query")?.clone(); send_answer(c, &a) })
        .wire(move |_| { let mut w = wr.lock().unwrap(); if big { let mut x = gen_wire(&mut w); if let Frag::Bytes(_) = x.frag { x.frag = Frag::Random(5000); } if let Frag::Random(k) = x.frag { x.frag = Frag::Random(k.max(1000)); } x } else { gen_wire(&mut w) } })
        .rev(rev).tz(tz.name());
    let srv = Server::start(cfg);
    let compress = r.chance(1, 2);
    let url = srv.url(&format!("{LIMITS}&pool_min=1&pool_max=2{}", if compress { "&compression=lz4" } else { "" }));
    let mut order: Vec<(usize, usize)> = (0..nq).map(|i| (i, r.below(3))).collect();
    order.push((r.below(nq), r.below(3)));
    let brief = answers.values().map(|a| format!("{} in {} blocks", a.parts[0].brief(), a.parts.len())).collect::<Vec<_>>().join(" / ");
    let what = format!("revision {rev}, {}, server zone {}, {brief}", if compress { "lz4" } else { "plain" }, tz.name());
    let o2 = order.clone();
    let res = block_on(MAX, async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        for (i, way) in o2 {
            let sql = format!("SELECT {i}");
            let a = &answers[&sql];
            let full = concat(&a.parts);
            ctx.eval();
            ctx.count("cells_compared", (full.rows() * full.cols.len()) as u64);
            ctx.distinct(&(way, &a.parts, compress));
            match way {
                0 => {
                    let b = h.query(sql.as_str()).fetch_all().await.map_err(|e| format!("fetch_all: {e}"))?;
                    if b.row_count() != full.rows() { return Err(format!("fetch_all: {} rows expected, {} delivered", full.rows(), b.row_count())); }
                    if let Some(d) = diff_table(&full, &read_block(&b)?) { return Err(format!("fetch_all: {d}")); }
                    ctx.count("fetch_all", 1);
                }
                1 => {
                    let mut got: Vec<Table> = vec![];
                    {
                        let mut s = h.query(sql.as_str()).stream_blocks();
                        while let Some(b) = s.next().await { let b = b.map_err(|e| format!("stream_blocks: {e}"))?; got.push(read_block(&b)?); }
                    }
                    let got = if got.is_empty() { full.header() } else { for g in &got { if g.cols.len() != full.cols.len() { return Err(format!("stream_blocks: a block of {} columns", g.cols.len())); } } concat(&got) };
                    if let Some(d) = diff_table(&full, &got) { return Err(format!("stream_blocks: {d}")); }
                    ctx.count("stream_blocks", 1);
                }
                _ => {
                    let mut n = 0;
                    let mut s = h.query(sql.as_str()).stream();
                    while let Some(row) = s.next().await {
                        let row = row.map_err(|e| format!("stream: {e}"))?;
                        if n >= full.rows() { return Err(format!("stream: more than {} rows", full.rows())); }
                        if row.len() != full.cols.len() { return Err(format!("stream: row {n} has {} columns", row.len())); }
                        for (ci, c) in full.cols.iter().enumerate() {
                            if row.name(ci).map_err(|e| e.to_string())? != c.name { return Err(format!("stream: row {n} column {ci} is called {:?}, not {:?}", row.name(ci), c.name)); }
                            let v: Any = row.get(ci).map_err(|e| format!("stream: row {n} column {ci}: {e}"))?;
                            if v.0.norm() != c.vals[n].norm() { return Err(format!("stream: row {n} column {:?} {}: expected {:?}, found {:?}", c.name, c.ty.name(), c.vals[n], v.0)); }
                        }
                        n += 1;
                    }
                    if n != full.rows() { return Err(format!("stream: {n} rows delivered, {} sent", full.rows())); }
                    ctx.count("stream", 1);
                }
            }
        }
        Ok::<(), String>(())
    });
    let bad = srv.log.bad();
    match res {
        Out::Done(Ok(())) => { if let Some(b) = bad { ctx.violation(part, n, "protocol", format!("{what}: the server could not understand the client: {b}")) } else { ctx.sample(|| what.clone()) } }
        Out::Done(Err(e)) => { let sig = sig_of(&e); ctx.violation(part, n, &sig, format!("{what}\n{e}\nserver: {bad:?}\n{}", srv.log.trace())) }
        Out::Panic(e) => ctx.violation(part, n, "panic", format!("{what}\npanic: {e}")),
        Out::Hang => ctx.violation(part, n, "hang", format!("{what}\nno result within {MAX:?}\n{}", srv.log.trace())),
    }
}

pub fn sig_of(e: &str) -> String { e.split(|c| c == ':' || c == ' ').next().unwrap_or("x").to_string() }

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case is one server holding 1-4 generated result tables (all supported types, nestings to depth 2, several blocks, progress and profile packets interleaved, random TCP fragmentation, optional LZ4 in arbitrary frames, several revisions), read through fetch_all, stream_blocks and stream; every cell is compared with the table the server encoded; distinct = distinct (path, blocks, compression)");
    ctx.assume("excluded: LowCardinality inside other types, totals/extremes packets");
    watchdog(ctx.clone(), secs(160), true);
    // one column type at a time, so that each is certainly exercised
    cases(ctx, "small", ctx.n(12_000, 600_000), 8, secs(ctx.n(60, 900)), |ctx, n, r| case(ctx, "small", n, r, false));
    cases(ctx, "big", ctx.n(80, 6000), 8, secs(ctx.n(40, 300)), |ctx, n, r| case(ctx, "big", n, r, true));
}
