//! C06: connections cut at any byte.
use crate::kit::*;
use crate::ops::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::{Block, Pool};
use std::sync::{Arc, Mutex};

const LIM: &str = "connection_timeout=15s&ping_timeout=15s&query_timeout=15s&insert_timeout=15s&execute_timeout=15s&retry_timeout=10ms&send_retries=3";

#[derive(Clone, Copy, Debug, PartialEq)]
enum What { Connect, Op(Op) }
const WHATS: [What; 7] = [What::Connect, What::Op(Op::Ping), What::Op(Op::Fetch), What::Op(Op::Blocks), What::Op(Op::Rows), What::Op(Op::Exec), What::Op(Op::Insert)];

pub fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let what = WHATS[n as usize % 7];
    let ping = (n / 7) % 2 == 0;
    let compress = r.chance(1, 2);
    let frag = if r.chance(1, 2) { Frag::Whole } else { Frag::Random(*r.pick(&[3usize, 40])) };
    let wseed = r.u64();
    let params = format!("{LIM}&pool_min=1&pool_max=2&ping_before_query={ping}{}", if compress { "&compression=lz4" } else { "" });
    // dry run: where do packets end and how long is the exchange?
    let marks = Arc::new(Mutex::new(vec![]));
    let (s2, f2) = (sc.clone(), frag.clone());
    let mk = move |cut: Option<(u64, Cut)>, marks: Option<Arc<Mutex<Vec<(u64, u64)>>>>| {
        let f = f2.clone();
        let mut c = s2.cfg().wire(move |id| Wire { frag: f.clone(), gap: std::time::Duration::ZERO, cut: if id == 0 { cut } else { None }, rng: Rng::new(wseed) });
        c.marks = marks;
        c
    };
    let one = |srv: &Server| -> (Out<Result<Got, String>>, Result<(), String>) {
        let url = srv.url(&params);
        let pool = Pool::new(url);
        let sc = sc.clone();
        let p2 = pool.clone();
        let mut later = Ok(());
        let rt = rt();
        let res = guard(|| rt.block_on(async {
            tokio::time::timeout(secs(60), async {
                let mut h = p2.get_handle().await.map_err(|e| format!("get_handle: {e}"))?;
                match what { What::Connect => Ok(Got::Unit), What::Op(op) => do_op(&mut h, &sc, op, 0, 1000).await.map_err(|e| e.to_string()) }
            }).await
        }));
        let res = match res { Err(p) => Out::Panic(p), Ok(Err(_)) => Out::Hang, Ok(Ok(x)) => Out::Done(x) };
        if !matches!(res, Out::Hang) {
            // the pool must still serve
            let l = guard(|| rt.block_on(async {
                tokio::time::timeout(secs(60), async {
                    let mut last = String::new();
                    for k in 0..4u64 {
                        let mut h = match pool.get_handle().await { Ok(h) => h, Err(e) => { last = format!("get_handle: {e}"); if ping { break; } continue; } };
                        match do_op(&mut h, &sc, Op::Fetch, 1, 2000 + k).await {
                            Ok(g) => return match sc.check(Op::Fetch, 1, 2000 + k, &g) { None => Ok(()), Some(d) => Err(format!("a later query got other data: {d}")) },
                            Err(e) => last = format!("query: {e}"),
                        }
                        if ping { break; }
                    }
                    Err(format!("later requests fail although the server accepts connections: {last}"))
                }).await
            }));
            later = match l { Err(p) => Err(format!("a later request panicked: {p}")), Ok(Err(_)) => Err("a later request hangs".into()), Ok(Ok(x)) => x };
        }
        (res, later)
    };
    {
        let srv = Server::start(mk(None, Some(marks.clone())));
        let (res, later) = one(&srv);
        match (&res, &later) {
            (Out::Done(Ok(g)), Ok(())) => if let What::Op(op) = what { if let Some(d) = sc.check(op, 0, 1000, g) { ctx.violation("cut", n, "undisturbed", format!("{what:?}: {d}")); return; } },
            _ => { ctx.violation("cut", n, "undisturbed", format!("{what:?} ping={ping}: {res:?} / {later:?} without any fault\n{}", srv.log.trace())); return; }
        }
    }
    let ends: Vec<u64> = { let m = marks.lock().unwrap(); m.iter().filter(|m| m.0 == 0).map(|m| m.1).collect() };
    // bytes of the first exchange only: everything sent on connection 0 before the later query's answer
    // replay with the statement count to find the total
    let total = {
        let marks = Arc::new(Mutex::new(vec![]));
        let srv = Server::start(mk(None, Some(marks.clone())));
        let pool = Pool::new(srv.url(&params));
        let s = sc.clone();
        let _ = block_on(secs(60), async { let mut h = pool.get_handle().await.map_err(|e| e.to_string())?; if let What::Op(op) = what { do_op(&mut h, &s, op, 0, 1000).await.map_err(|e| e.to_string())?; } std::mem::forget(h); Ok::<(), String>(()) });
        let m = marks.lock().unwrap();
        m.iter().filter(|m| m.0 == 0).map(|m| m.1).max().unwrap_or(0)
    };
    let mut ks: Vec<u64> = vec![];
    for k in 0..=total {
        let edge = ends.iter().any(|e| k.abs_diff(*e) <= 1) || k <= 1 || k == total;
        if ctx.thorough || edge || r.chance(1, 5) { ks.push(k); }
    }
    // TLS handshakes take their time
    if GLOBAL_TLS.get().is_some() { while ks.len() > 300 { let i = r.below(ks.len() - 1); ks.swap_remove(i); } ks.sort(); }
    for k in ks {
        for kind in [Cut::Fin, Cut::Close, Cut::Rst] {
            if kind != Cut::Fin && !ctx.thorough && r.chance(1, 2) { continue; }
            if ctx.stopped() { return; }
            let srv = Server::start(mk(Some((k, kind)), None));
            let (res, later) = one(&srv);
            let evs = srv.log.snapshot();
            ctx.eval();
            ctx.distinct(&(n, k, kind as u8));
            let desc = || format!("{what:?} ping_before_query={ping} compression={compress} fragmentation={frag:?}: connection 0 cut by {kind:?} after {k} of {total} bytes\n{}", srv.log.trace());
            let on0_only = conns_of(&evs, 1000).iter().all(|c| *c == 0);
            match res {
                Out::Panic(p) => ctx.violation("cut", n, "panic", format!("panic: {p}\n{}", desc())),
                Out::Hang => ctx.violation("cut", n, "hang", format!("no answer within 60s\n{}", desc())),
                Out::Done(Ok(g)) => {
                    ctx.count("delivered", 1);
                    if let What::Op(op) = what {
                        if let Some(d) = sc.check(op, 0, 1000, &g) { ctx.violation("cut", n, "short", format!("success with wrong data: {d}\n{}", desc())); }
                        if op != Op::Ping && k < total && on0_only { ctx.violation("cut", n, "false-success", format!("success although the answer was cut\n{}", desc())); }
                        if op == Op::Insert { if let Err(e) = sc.inserted(&evs, 0, 1000) { ctx.violation("cut", n, "insert", format!("insert reported success, server side: {e}\n{}", desc())); } }
                    }
                }
                Out::Done(Err(e)) => {
                    ctx.count("errors", 1);
                    if k >= total && kind == Cut::Fin { ctx.violation("cut", n, "lost-answer", format!("the complete answer was sent before the close, yet: {e}\n{}", desc())); }
                }
            }
            if let Err(e) = later { ctx.violation("cut", n, "later", format!("{e}\n{}", desc())); }
            if let Some(b) = srv.log.bad() { ctx.violation("cut", n, "protocol", format!("{b}\n{}", desc())); }
        }
    }
    ctx.sample(|| format!("{what:?} ping={ping} compress={compress}: {total} bytes, packets end at {ends:?}"));
}

/// The connection dies while a large insert is being uploaded.
pub fn upload(ctx: &Ctx, n: u64, r: &mut Rng) {
    let rows = r.range(20_000, 60_000);
    let s: String = (0..200).map(|i| (b'a' + (i * 7 % 26) as u8) as char).collect();
    let block = Block::new().column("x", (0..rows as u64).collect::<Vec<_>>()).column("s", (0..rows).map(|i| format!("{i}{s}")).collect::<Vec<_>>());
    let take = r.below(rows * 200);
    let kind = *r.pick(&[Cut::Fin, Cut::Close, Cut::Rst]);
    let compress = r.chance(1, 2);
    let cfg = SrvCfg::new(move |c, q| {
        if q.sql.starts_with("INSERT") && c.id == 0 {
            use crate::model::*;
            let h = Table { cols: vec![Col { name: "x".into(), ty: Ty::U64, vals: vec![] }, Col { name: "s".into(), ty: Ty::Str, vals: vec![] }] };
            c.send_data(&h)?;
            let left = c.swallow(take)?;
            let _ = left;
            return c.cut(kind);
        }
        c.send_eos()
    });
    let srv = Server::start(cfg);
    let pool = Pool::new(srv.url(&format!("{LIM}&pool_min=1&pool_max=2{}", if compress { "&compression=lz4" } else { "" })));
    let rt = rt();
    let res = guard(|| rt.block_on(async { tokio::time::timeout(secs(60), async { let mut h = pool.get_handle().await.map_err(|e| e.to_string())?; h.insert("big", &block).await.map_err(|e| e.to_string()) }).await }));
    let later = guard(|| rt.block_on(async { tokio::time::timeout(secs(60), async { let mut h = pool.get_handle().await.map_err(|e| e.to_string())?; h.execute("later").await.map_err(|e| e.to_string()) }).await }));
    ctx.eval();
    ctx.count("uploads_cut", 1);
    ctx.distinct(&(n, "up"));
    let desc = format!("insert of {rows} rows, compression {compress}, cut by {kind:?} after {take} bytes\n{}", srv.log.trace());
    match res { Err(p) => ctx.violation("upload", n, "panic", format!("panic: {p}\n{desc}")), Ok(Err(_)) => ctx.violation("upload", n, "hang", format!("hang\n{desc}")), Ok(Ok(Ok(()))) => ctx.violation("upload", n, "false-success", format!("success without acknowledgement\n{desc}")), Ok(Ok(Err(_))) => {} }
    match later { Err(p) => ctx.violation("upload", n, "panic", format!("later panic: {p}\n{desc}")), Ok(Ok(Ok(()))) => {}, x => ctx.violation("upload", n, "later", format!("a later statement: {x:?}\n{desc}")) }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case picks an operation, runs it undisturbed to learn the bytes the server sends, then replays it with the connection cut (FIN, close, RST) after k bytes for every packet boundary +-1 and a sample of all other k (all k in the thorough tier); judged: no panic, no hang, success only with the whole answer, complete answers delivered, later requests served; distinct = (case, k, kind)");
    watchdog(ctx.clone(), secs(200), true);
    cases(ctx, "cut", ctx.n(84, 1400), 8, secs(ctx.n(100, 1500)), case);
    cases(ctx, "upload", ctx.n(24, 300), 8, secs(ctx.n(30, 200)), upload);
}
