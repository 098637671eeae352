//! C01: inserted rows reach the server unchanged.
use crate::codec::RxBlock;
use crate::drv::*;
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::Pool;
use std::sync::{Arc, Mutex};

/// Column names of "INSERT INTO <table> (a, `b`) VALUES".
pub fn insert_columns(sql: &str, table: &str) -> Result<Vec<String>, String> {
    let p = format!("INSERT INTO {table} (");
    let s = sql.strip_prefix(&p).ok_or(format!("unexpected statement {sql:?}"))?;
    let mut out = vec![];
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let ws = |i: &mut usize| while *i < cs.len() && cs[*i] == ' ' { *i += 1 };
    ws(&mut i);
    if i < cs.len() && cs[i] == ')' { i += 1; } else {
        loop {
            ws(&mut i);
            let mut n = String::new();
            if i < cs.len() && (cs[i] == '`' || cs[i] == '"') {
                let q = cs[i];
                i += 1;
                loop {
                    if i >= cs.len() { return Err(format!("unterminated name in {sql:?}")); }
                    if cs[i] == '\\' && i + 1 < cs.len() { n.push(cs[i + 1]); i += 2; continue; }
                    if cs[i] == q { if i + 1 < cs.len() && cs[i + 1] == q { n.push(q); i += 2; continue; } i += 1; break; }
                    n.push(cs[i]);
                    i += 1;
                }
            } else {
                while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_') { n.push(cs[i]); i += 1; }
                // a bare name that starts with a digit is a number
                if n.starts_with(|c: char| c.is_numeric()) && !n.chars().all(|c| c.is_numeric()) { return Err(format!("unquoted column name {n:?} in {sql:?}")); }
                if n.is_empty() { return Err(format!("no column name at {i} in {sql:?}")); }
            }
            out.push(n);
            ws(&mut i);
            match cs.get(i) { Some(',') => { i += 1; } Some(')') => { i += 1; break; } x => return Err(format!("{x:?} after a column name in {sql:?}")) }
        }
    }
    let rest: String = cs[i..].iter().collect();
    if rest.trim() != "VALUES" { return Err(format!("{rest:?} after the column list in {sql:?}")); }
    Ok(out)
}

/// Everything one insert put on the wire, judged against the table it stands for.
pub fn judge(t: &Table, got: &[RxBlock]) -> Option<String> {
    let rows: usize = got.iter().map(|b| b.rows).sum();
    if rows != t.rows() { return Some(format!("{} rows inserted, {rows} received", t.rows())); }
    let mut acc: Vec<Vec<Val>> = vec![vec![]; t.cols.len()];
    for b in got {
        if b.table.cols.len() != t.cols.len() { return Some(format!("{} columns inserted, {} received", t.cols.len(), b.table.cols.len())); }
        for (i, (e, g)) in t.cols.iter().zip(&b.table.cols).enumerate() {
            if e.name != g.name { return Some(format!("column {:?} received as {:?}", e.name, g.name)); }
            if e.ty.strip_tz() != g.ty.strip_tz() { return Some(format!("column {:?} of the table has type {}, the data {}", e.name, e.ty.name(), g.ty.name())); }
            acc[i].extend(g.vals.iter().cloned());
        }
    }
    for (c, a) in t.cols.iter().zip(&acc) { if let Some(d) = diff_vals(&c.vals, a) { return Some(format!("column {:?} {}: {d}", c.name, c.ty.name())); } }
    None
}

/// Types whose conversion inside an array or map the driver does not offer (it reports an error; C18 covers that).
pub fn nested_ok(t: &Ty, arr: bool, map: bool) -> bool {
    match t {
        Ty::Fixed(_) => !arr && !map,
        Ty::Dec(p, _) => *p == 18 || !arr && !map,
        Ty::DateTime(_) | Ty::DateTime64(..) => !map,
        Ty::Nullable(t) => nested_ok(t, arr, map),
        Ty::Array(t) => nested_ok(t, true, map),
        Ty::Map(k, v) => nested_ok(k, arr, true) && nested_ok(v, arr, true),
        _ => true,
    }
}

pub fn gen_insert_ty(r: &mut Rng) -> Ty {
    loop { let t = gen_insert_ty_(r); if nested_ok(&t, false, false) { return t; } }
}

fn gen_insert_ty_(r: &mut Rng) -> Ty {
    match r.below(14) {
        0 => Ty::Agg(r.pick(&AGGS).to_string(), Box::new(match r.below(3) { 0 => Ty::U64, 1 => Ty::F64, _ => Ty::Str })),
        _ => gen_ty(r, 2),
    }
}

/// Row counts around the limits of index widths, length encodings and buffers.
pub fn big_rows(r: &mut Rng) -> usize {
    match r.below(6) { 0 | 1 => r.range(250, 262), 2 => r.range(1000, 5000), 3 => r.range(16380, 16390), _ => r.range(65530, 65542) }
}

/// Column types whose encoding depends on the number of rows or distinct values.
pub fn big_ty(r: &mut Rng) -> Ty {
    match r.below(10) {
        0..=3 => Ty::Low(Box::new(gen_low_inner(r))),
        4 => Ty::Str,
        5 => Ty::Nullable(Box::new(Ty::Str)),
        6 => Ty::Array(Box::new(Ty::U16)),
        7 => Ty::Array(Box::new(Ty::Nullable(Box::new(Ty::Str)))),
        8 => Ty::Map(Box::new(Ty::U8), Box::new(Ty::Str)),
        _ => gen_scalar(r),
    }
}

pub fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let k = r.range(1, 3);
    let cols = r.range(1, 4);
    let tabs: Vec<Table> = (0..k).map(|_| { let rows = gen_rows(r); gen_table(r, cols, rows, &gen_insert_ty) }).collect();
    insert_all(ctx, "ins", n, r, tabs)
}

fn big(ctx: &Ctx, n: u64, r: &mut Rng) {
    let tabs: Vec<Table> = (0..r.range(1, 2)).map(|_| { let rows = big_rows(r); let cols = r.range(1, 2); gen_table(r, cols, rows, &big_ty) }).collect();
    insert_all(ctx, "big", n, r, tabs)
}

/// A cell of many elements, or bytes.
pub fn long_cell(r: &mut Rng, t: &Ty, depth: usize) -> Val {
    let k = match r.below(6) { 0 => r.range(126, 130), 1 => r.range(254, 258), 2 => r.range(16382, 16386), 3 | 4 => r.range(65533, 65539), _ => r.range(70_000, 140_000) };
    match t {
        Ty::Array(e) if depth > 0 && r.chance(1, 2) && matches!(**e, Ty::Array(_)) => { let mut v: Vec<Val> = (0..r.below(4)).map(|_| gen_val(r, e)).collect(); v.push(long_cell(r, e, depth - 1)); v.extend((0..r.below(3)).map(|_| gen_val(r, e))); Val::A(v) }
        Ty::Array(e) => { let k = if matches!(**e, Ty::Array(_)) { k.min(20_000) } else { k }; Val::A((0..k).map(|_| gen_val(r, e)).collect()) }
        Ty::Map(a, b) => Val::M((0..k).map(|i| (many(a, i), gen_val(r, b))).collect()),
        Ty::Nullable(e) => long_cell(r, e, depth),
        Ty::Low(e) => long_cell(r, e, depth),
        Ty::Str => { let c = r.below(256) as u8; Val::S((0..k * *r.pick(&[1usize, 1, 1, 1, 17, 100])).map(|i| c.wrapping_add((i % 251) as u8)).collect()) }
        t => gen_val(r, t),
    }
}

pub fn long_table(r: &mut Rng) -> Table {
    let cols = r.range(1, 2);
    let rows = r.range(1, 5);
    let mut t = gen_table(r, cols, rows, &|r| {
        let s = match r.below(6) { 0 => Ty::U8, 1 => Ty::U64, 2 => Ty::Str, 3 => Ty::Nullable(Box::new(Ty::I32)), 4 => Ty::Date, _ => Ty::Nullable(Box::new(Ty::Str)) };
        match r.below(9) { 0 => Ty::Str, 1 => Ty::Nullable(Box::new(Ty::Str)), 2 => Ty::Map(Box::new(Ty::U32), Box::new(s)), 3 | 4 => Ty::Array(Box::new(Ty::Array(Box::new(s)))), 5 => Ty::Low(Box::new(Ty::Str)), _ => Ty::Array(Box::new(s)) }
    });
    for c in t.cols.iter_mut() { let i = r.below(rows); c.vals[i] = long_cell(r, &c.ty, 1); }
    t
}

/// A text of millions of bytes among others.
pub fn huge_table(r: &mut Rng) -> Table {
    let ty = r.pick(&[Ty::Str, Ty::Nullable(Box::new(Ty::Str)), Ty::Array(Box::new(Ty::Str))]).clone();
    let rows = r.range(1, 4);
    let mut t = gen_table(r, 1, rows, &|_| ty.clone());
    let k = *r.pick(&[1usize << 20, 1 << 21, 1 << 22, 5 << 20]) + r.below(1 << 20);
    let c = r.below(256);
    let v = Val::S((0..k).map(|i| (c + i % 251 + (i >> 18)) as u8).collect());
    let i = r.below(rows);
    t.cols[0].vals[i] = if let Ty::Array(_) = ty { Val::A(vec![Val::S(b"a".to_vec()), v, Val::S(b"".to_vec())]) } else { v };
    t
}

/// Number of elements in all cells together.
pub fn elements(t: &Table) -> usize {
    fn k(v: &Val) -> usize { match v { Val::A(v) => v.iter().map(k).sum(), Val::M(m) => m.len(), Val::S(s) => 1 + s.len() / 1000, _ => 1 } }
    t.cols.iter().flat_map(|c| &c.vals).map(k).sum()
}

fn long(ctx: &Ctx, n: u64, r: &mut Rng) {
    let tabs = vec![if n % 60 == 5 { huge_table(r) } else { long_table(r) }];
    insert_all(ctx, "long", n, r, tabs)
}

/// Blocks of many columns.
fn wide(ctx: &Ctx, n: u64, r: &mut Rng) {
    let cols = *r.pick(&[20usize, 64, 127, 128, 129, 300]);
    let rows = r.range(1, 3);
    let mut t = gen_table(r, cols, rows, &gen_insert_ty);
    for (i, c) in t.cols.iter_mut().enumerate() { c.name = format!("c{i}_{}", "x".repeat(if i % 40 == 7 { 200 } else { 0 })); }
    insert_all(ctx, "wide", n, r, vec![t])
}

fn insert_all(ctx: &Ctx, part: &str, n: u64, r: &mut Rng, tabs: Vec<Table>) {
    let hdrs = Arc::new(tabs.clone());
    let wr = Mutex::new(r.fork());
    let rev = *r.pick(&REVS);
    let tz = *r.pick(&TZS);
    let tc = r.chance(1, 2);
    let cfg = SrvCfg::new(move |c, q| {
        let i: usize = q.sql.strip_prefix("INSERT INTO t").and_then(|s| s.split(' ').next()).and_then(|s| s.parse().ok()).ok_or(format!("BAD statement {}", q.sql))?;
        if tc { send_columns(c)?; }
        c.do_insert(&hdrs[i].header())?;
        Ok(())
    }).wire(move |_| gen_wire(&mut wr.lock().unwrap())).rev(rev).tz(tz.name());
    let srv = Server::start(cfg);
    let compress = r.chance(1, 2);
    let url = srv.url(&format!("{LIMITS}&pool_min=1&pool_max=2{}", if compress { "&compression=lz4" } else { "" }));
    let by_rows: Vec<bool> = tabs.iter().map(|_| r.chance(1, 2)).collect();
    let what = format!("revision {rev}, {}, server zone {}, {}", if compress { "lz4" } else { "plain" }, tz.name(), tabs.iter().map(|t| t.brief()).collect::<Vec<_>>().join(" / "));
    let mut built = vec![];
    for (i, t) in tabs.iter().enumerate() {
        // a block without rows has no columns when built by rows
        let b = if by_rows[i] && t.rows() > 0 { None } else { block_by_cols(t, tz) };
        let (b, how) = match b { Some(b) => (b, "columns"), None if t.rows() == 0 => continue, None => (match guard(|| block_by_rows(t, tz)) { Ok(Ok(b)) => b, Ok(Err(e)) => { ctx.violation(part, n, "push", format!("{what}\npush: {e}")); return; } Err(p) => { ctx.violation(part, n, "push", format!("{what}\npush panicked: {p}")); return; } }, "rows") };
        built.push((i, b, how));
    }
    let log = srv.log.clone();
    let res = block_on(MAX, async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        for (i, b, how) in &built {
            let t = &tabs[*i];
            let mark = log.len();
            h.insert(format!("t{i}"), b).await.map_err(|e| format!("insert of {} built by {how}: {e}", t.brief()))?;
            ctx.eval();
            ctx.count(how, 1);
            ctx.count("cells_compared", (t.rows() * t.cols.len()) as u64);
            ctx.distinct(&(t, compress, how));
            let evs = log.snapshot()[mark..].to_vec();
            let qs: Vec<_> = evs.iter().filter_map(|e| if let Ev::Query(q) = &e.ev { Some(q.clone()) } else { None }).collect();
            let ds: Vec<RxBlock> = evs.iter().filter_map(|e| if let Ev::Data(d) = &e.ev { Some((**d).clone()) } else { None }).collect();
            if qs.len() != 1 { return Err(format!("statements: {} statements for one insert", qs.len())); }
            let names = insert_columns(&qs[0].sql, &format!("t{i}")).map_err(|e| format!("sql: {e}"))?;
            let exp: Vec<String> = t.cols.iter().map(|c| c.name.clone()).collect();
            if names != exp { return Err(format!("names: the statement names {names:?}, the block has {exp:?}")); }
            if ds.last().map(|d| d.rows + d.cols.len()) != Some(0) { return Err("end: no empty block ends the data".into()); }
            let data: Vec<RxBlock> = ds[..ds.len() - 1].to_vec();
            if let Some(d) = judge(t, &data) { return Err(format!("data: {} built by {how}: {d}", t.brief())); }
            if compress != (qs[0].compression == 1) { return Err("compression: flag differs from the configuration".into()); }
        }
        Ok::<(), String>(())
    });
    let bad = srv.log.bad();
    match res {
        Out::Done(Ok(())) => { if let Some(b) = bad { ctx.violation(part, n, "protocol", format!("{what}: the server could not understand the client: {b}")) } else { ctx.sample(|| what.clone()) } }
        Out::Done(Err(e)) => ctx.violation(part, n, &crate::c02::sig_of(&e), format!("{what}\n{e}\nserver: {bad:?}\n{}", srv.log.trace())),
        Out::Panic(e) => ctx.violation(part, n, "panic", format!("{what}\npanic: {e}\nserver: {bad:?}")),
        Out::Hang => ctx.violation(part, n, "hang", format!("{what}\nno result within {MAX:?}\n{}", srv.log.trace())),
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case inserts 1-3 generated blocks (all supported types, nestings to depth 2, built by rows or by typed columns) through one handle; a mock server decodes every packet with an independent strict decoder and every cell, name, type and row count is compared; distinct = distinct (table, compression, way of building)");
    ctx.assume("column names without backticks or backslashes; the table's types equal the block's up to what the driver has no column of its own for (FixedString, LowCardinality, DateTime zones, Decimal precision)");
    watchdog(ctx.clone(), secs(160), true);
    cases(ctx, "big", ctx.n(400, 8000), 8, secs(ctx.n(60, 900)), big);
    cases(ctx, "long", ctx.n(300, 6000), 8, secs(ctx.n(60, 600)), long);
    cases(ctx, "wide", ctx.n(600, 10_000), 8, secs(ctx.n(40, 300)), wide);
    cases(ctx, "ins", ctx.n(40_000, 1_000_000), 8, secs(ctx.n(70, 1200)), case);
}
