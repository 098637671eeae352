//! C15: requests carry exactly what the caller configured.
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::types::Query;
use clickhouse_rs::{Block, Options, Pool};
use futures_util::StreamExt;
use std::collections::BTreeMap;
use std::sync::Arc;
use url::Url;

fn text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => String::new(),
        1 => "имя 日本 😀".into(),
        2 => "a'b\"c\\d\ne\tf\0g".into(),
        3 => "x".repeat(*r.pick(&[127usize, 128, 129, 255, 16383, 16384, 20000])),
        _ => (0..r.range(1, 24)).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
    }
}

#[derive(Clone, Debug)]
enum Set { S(String), B(bool), U(u64), F(f64) }

struct Conf { user: String, pw: String, db: String, compress: bool, sets: BTreeMap<String, (Set, bool)>, ping: bool }

fn conf(r: &mut Rng, k: usize, tagged: bool) -> Conf {
    let mut sets = BTreeMap::new();
    for i in 0..*r.pick(&[0usize, 0, 1, 2, 5, 12]) {
        let name = match r.below(4) { 0 => format!("{}_{k}_{i}", text(r)), 1 => format!("max_threads{k}_{i}"), _ => format!("s{k}_{i}") };
        let v = match r.below(4) { 0 => Set::B(r.chance(1, 2)), 1 => Set::U(match r.below(4) { 0 => 0, 1 => u64::MAX, 2 => r.u64(), _ => r.below(300) as u64 }), 2 => Set::F(*r.pick(&[0.0, 1.0, -1.5, 0.1, 1e21, 1e-9, 123456.789, f64::MAX])), _ => Set::S(text(r)) };
        sets.insert(name, (v, r.chance(1, 2)));
    }
    Conf { user: if tagged { format!("u{k}") } else { text(r) }, pw: text(r), db: text(r), compress: r.chance(1, 2), sets, ping: r.chance(1, 2) }
}

impl Conf {
    fn options(&self, srv: &Server, max: usize) -> Options {
        let base: Options = srv.url(LIMITS).parse().expect("INFRA options");
        let mut o = base.database(&self.db).username(&self.user).password(&self.pw).ping_before_query(self.ping).pool_min(1).pool_max(max);
        if self.compress { o = o.with_compression(); }
        for (k, (v, imp)) in &self.sets {
            o = match v { Set::S(s) => o.with_setting(k, s.as_str(), *imp), Set::B(b) => o.with_setting(k, *b, *imp), Set::U(u) => o.with_setting(k, *u, *imp), Set::F(f) => o.with_setting(k, *f, *imp) };
        }
        o
    }
    /// Compare the settings of a request with the configured ones.
    fn settings(&self, q: &QueryReq, strings: bool) -> Option<String> {
        let mut seen = BTreeMap::new();
        for (k, w) in &q.settings { if seen.insert(k.clone(), w.clone()).is_some() { return Some(format!("setting {k:?} sent twice")); } }
        for (k, (v, imp)) in &self.sets {
            let w = match seen.remove(k) { Some(w) => w, None => return Some(format!("setting {k:?} = {v:?} was not sent")) };
            let txt = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
            let ok = match (&w, v) {
                (SettingWire::Str { important, value }, v) if strings => (*important == *imp as u8) && match v { Set::S(s) => txt(value) == *s, Set::B(b) => txt(value) == b.to_string() || txt(value) == (*b as u8).to_string(), Set::U(u) => txt(value) == u.to_string(), Set::F(f) => txt(value).parse::<f64>() == Ok(*f) },
                (SettingWire::OldStr(x), Set::S(s)) => txt(x) == *s,
                (SettingWire::OldStr(x), Set::F(f)) => txt(x).parse::<f64>() == Ok(*f),
                (SettingWire::OldInt(x), Set::B(b)) => *x == *b as u64,
                (SettingWire::OldInt(x), Set::U(u)) => x == u,
                _ => false,
            };
            if !ok { return Some(format!("setting {k:?} = {v:?} (important: {imp}) was sent as {w:?}")); }
        }
        seen.into_iter().next().map(|(k, w)| format!("setting {k:?} = {w:?} was not configured"))
    }
}

#[derive(Clone, Debug)]
struct Req { kind: u8, sql: String, id: String }

fn header() -> Table { Table { cols: vec![Col { name: "a".into(), ty: Ty::U64, vals: vec![] }, Col { name: "b c".into(), ty: Ty::Str, vals: vec![] }] } }

pub fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let rev = *r.pick(&[54429u64, 54429, 54428, 54420, 54406, 54405, 54401, 54400, 54372, 54371, 54060, 54059, 54058]);
    let strings = rev >= 54429;
    let pools = *r.pick(&[1usize, 1, 2]);
    let confs: Vec<Conf> = (0..pools).map(|k| conf(r, k, pools > 1)).collect();
    let ws = r.u64();
    let mut cfg = SrvCfg::new(|c, q| {
        if q.sql.starts_with("INSERT INTO ") { return c.do_insert(&header()).map(|_| ()); }
        if q.sql.starts_with('S') { let mut t = header(); t.cols[0].vals = vec![Val::U(5)]; t.cols[1].vals = vec![Val::S(b"x".to_vec())]; c.send_data(&header())?; c.send_data(&t)?; }
        c.send_eos()
    }).rev(rev).wire(move |id| gen_wire(&mut Rng::new(ws ^ id)));
    for c in &confs { for (k, (v, _)) in &c.sets { cfg.old_types.insert(k.clone(), match v { Set::S(_) => 's', Set::F(_) => 'f', _ => 'i' }); } }
    let srv = Server::start(cfg);
    let ps: Vec<Pool> = confs.iter().map(|c| Pool::new(c.options(&srv, 2))).collect();
    // every statement is unique so that it can be told which request it was
    let reqs: Vec<(usize, Req)> = (0..r.range(2, 8)).map(|i| {
        let kind = r.below(4) as u8;
        let sql = match kind { 0 | 1 => format!("S{i} {}", text(r)), 2 => format!("X{i} {}", text(r)), _ => format!("t{i} {}", text(r)) };
        (r.below(pools), Req { kind, sql, id: if r.chance(1, 2) { String::new() } else { text(r) } })
    }).collect();
    let close = r.chance(1, 4);
    ctx.eval();
    ctx.distinct(&(rev, pools, confs[0].sets.len(), confs[0].compress, ws));
    let v = |sig: &str, d: String| ctx.violation("requests", n, sig, format!("revision {rev}, {} pools, {} requests: {d}\n{}", pools, reqs.len(), srv.log.trace()));
    let out = block_on(MAX, async {
        let mut hs = vec![];
        for p in &ps { hs.push(handle(p).await?); }
        for (i, (k, q)) in reqs.iter().enumerate() {
            let query = if q.id.is_empty() && i % 2 == 0 { Query::from(q.sql.as_str()) } else { Query::new(&q.sql).id(&q.id) };
            let h = &mut hs[*k];
            match q.kind {
                0 => { h.query(query).fetch_all().await.map_err(|e| e.to_string())?; }
                1 => { let mut s = h.query(query).stream_blocks(); while let Some(b) = s.next().await { b.map_err(|e| e.to_string())?; } }
                2 => h.execute(query).await.map_err(|e| e.to_string())?,
                _ => h.insert(query, Block::new().column("a", vec![i as u64, 2]).column("b c", vec!["x", "y"])).await.map_err(|e| e.to_string())?,
            }
            if close { let p = &ps[*k]; hs[*k] = handle(p).await?; }
        }
        Ok::<_, String>(())
    });
    match out { Out::Done(Ok(())) => {} Out::Done(Err(e)) => return v("failed", format!("{e}; {:?}", srv.log.bad())), Out::Panic(p) => return v("panic", p), Out::Hang => return v("hang", "no end".into()) }
    if let Some(b) = srv.log.bad() { return v("layout", b); }
    // which pool a connection belongs to
    let mut owner: BTreeMap<u64, usize> = BTreeMap::new();
    let mut got = vec![];
    for e in srv.log.snapshot() {
        match &e.ev {
            Ev::Hello(h) => {
                let k = if pools == 1 { 0 } else { match confs.iter().position(|c| c.user == h.user) { Some(k) => k, None => return v("credentials", format!("user {:?} is not configured", h.user)) } };
                owner.insert(e.conn, k);
                let c = &confs[k];
                ctx.count("handshakes compared", 1);
                if (&h.db, &h.user, &h.pw) != (&c.db, &c.user, &c.pw) { return v("credentials", format!("handshake carried {:?}, configured {:?}", (&h.db, &h.user, &h.pw), (&c.db, &c.user, &c.pw))); }
                if h.name.is_empty() || h.rev < 54058 { return v("client", format!("client {:?} revision {}", h.name, h.rev)); }
            }
            Ev::Query(q) => got.push((e.conn, q.clone())),
            Ev::Ping => { if owner.get(&e.conn).map(|k| !confs[*k].ping) == Some(true) { return v("ping", "a ping was sent though the pre-query check is off".into()); } }
            _ => {}
        }
    }
    if got.len() != reqs.len() { return v("count", format!("{} statements arrived for {} requests", got.len(), reqs.len())); }
    for ((conn, q), (k, want)) in got.iter().zip(&reqs) {
        let c = &confs[*k];
        ctx.count("requests compared", 1);
        if owner.get(conn) != Some(k) { return v("pool", format!("a request of pool {k} arrived on a connection of pool {:?}", owner.get(conn))); }
        let sql = if want.kind == 3 { format!("INSERT INTO {} (`a`, `b c`) VALUES", want.sql) } else { want.sql.clone() };
        if q.sql != sql { return v("sql", format!("the server got {:?}, the caller gave {:?}", q.sql, sql)); }
        if q.initial_id != want.id || !(q.query_id.is_empty() || q.query_id == want.id) { return v("id", format!("query ids {:?} / {:?}, the caller gave {:?}", q.query_id, q.initial_id, want.id)); }
        if (q.compression == 1) != c.compress { return v("compression", format!("compression flag {}", q.compression)); }
        if q.kind != 1 || q.stage != 2 || q.iface != 1 { return v("kind", format!("query kind {}, stage {}, interface {}", q.kind, q.stage, q.iface)); }
        if q.quota.as_deref().unwrap_or("") != "" { return v("quota", format!("quota key {:?}", q.quota)); }
        if let Some(d) = c.settings(q, strings) { return v("settings", d); }
        ctx.count("settings compared", c.sets.len() as u64);
    }
}

/// Requests of several tasks over one pool at once: each arrives whole, once.
fn parallel(ctx: &Ctx, n: u64, r: &mut Rng) {
    let c = conf(r, 0, false);
    let ws = r.u64();
    let srv = Server::start(SrvCfg::new(|c, q| {
        if q.sql.starts_with("INSERT INTO ") { return c.do_insert(&header()).map(|_| ()); }
        if q.sql.starts_with('S') { c.send_data(&header())?; }
        c.send_eos()
    }).wire(move |id| gen_wire(&mut Rng::new(ws ^ id))));
    let pool = Pool::new(c.options(&srv, 3));
    let tasks: Vec<Vec<Req>> = (0..r.range(2, 6)).map(|t| (0..r.range(1, 5)).map(|i| { let kind = r.below(3) as u8 + 1; Req { kind, sql: match kind { 1 => format!("S{t}_{i} {}", text(r)), 2 => format!("X{t}_{i} {}", text(r)), _ => format!("t{t}_{i}") }, id: format!("id{t}_{i}{}", text(r)) } }).collect()).collect();
    ctx.eval();
    ctx.distinct(&(ws, tasks.len()));
    let v = |sig: &str, d: String| ctx.violation("parallel", n, sig, format!("{} tasks: {d}\n{}", tasks.len(), srv.log.trace()));
    let rt = rt_mt(3);
    let res = guard(|| rt.block_on(async {
        let js: Vec<_> = tasks.iter().cloned().map(|qs| { let pool = pool.clone(); tokio::spawn(async move {
            for q in qs {
                let mut h = pool.get_handle().await.map_err(|e| e.to_string())?;
                let query = Query::new(&q.sql).id(&q.id);
                match q.kind { 1 => { h.query(query).fetch_all().await.map_err(|e| e.to_string())?; } 2 => h.execute(query).await.map_err(|e| e.to_string())?, _ => h.insert(query, Block::new().column("a", vec![1u64]).column("b c", vec!["x"])).await.map_err(|e| e.to_string())? }
            }
            Ok::<_, String>(())
        }) }).collect();
        for j in js { j.await.map_err(|e| e.to_string())??; }
        Ok::<_, String>(())
    }));
    match res { Ok(Ok(())) => {} Ok(Err(e)) => return v("failed", format!("{e}; {:?}", srv.log.bad())), Err(p) => return v("panic", p) }
    if let Some(b) = srv.log.bad() { return v("layout", b); }
    let mut want: Vec<(String, String)> = tasks.iter().flatten().map(|q| (if q.kind == 3 { format!("INSERT INTO {} (`a`, `b c`) VALUES", q.sql) } else { q.sql.clone() }, q.id.clone())).collect();
    let mut got: Vec<(String, String)> = vec![];
    for (_, q) in srv.log.queries() {
        got.push((q.sql.clone(), q.initial_id.clone()));
        if let Some(d) = c.settings(&q, true) { return v("settings", d); }
    }
    want.sort();
    got.sort();
    ctx.count("requests compared", got.len() as u64);
    if want != got { v("requests", "the statements and ids that arrived are not those the callers gave".into()); }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("strict decoding of every handshake and request at the announced revision: credentials, SQL, id, settings (values, importance, none missing or extra), compression flag equal the configured ones, per request");
    ctx.assume("the caller's id travels as the initial query id; the query id proper may be empty");
    watchdog(ctx.clone(), secs(150), true);
    let t = |a: u64, b: u64| secs(if ctx.thorough { b } else { a });
    cases(ctx, "requests", ctx.n(30_000, 600_000), 12, t(30, 300), case);
    cases(ctx, "parallel", ctx.n(2000, 30_000), 6, t(20, 100), parallel);
}
