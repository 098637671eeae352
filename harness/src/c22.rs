//! C22: each statement is executed at most once, and success means acknowledged.
use crate::hist::*;
use crate::kit::*;
use crate::model::*;
use crate::ops::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::{Block, Pool};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// One-to-one matching of a finished call with what the servers received.
/// `evs`: all events of the run; `upto`: how many of them existed when the call returned.
fn match_call(sc: &Scene, evs: &[Event], upto: usize, op: Op, i: usize, tag: u64, ok: bool, never_sent: bool) -> Option<(&'static str, String)> {
    if op == Op::Ping { return None; }
    let qs: Vec<usize> = evs.iter().enumerate().filter(|(_, e)| if let Ev::Query(q) = &e.ev { parse_sql(&q.sql).map(|p| p.2) == Some(tag) } else { false }).map(|(k, _)| k).collect();
    if qs.len() > 1 { return Some(("twice", format!("tag {tag}: the statement of one call was received {} times", qs.len()))); }
    if never_sent && !qs.is_empty() { return Some(("sent", format!("tag {tag}: a statement arrived although the call never got a handle"))); }
    if !ok { return None; }
    let Some(&q) = qs.first() else { return Some(("never", format!("tag {tag}: success was reported, but no server received the statement"))) };
    // acknowledged on the same connection, before anything else was asked there, and before the call returned
    let conn = evs[q].conn;
    for (k, e) in evs.iter().enumerate().skip(q + 1).filter(|(_, e)| e.conn == conn) {
        match &e.ev {
            Ev::Data(_) => continue,
            Ev::Ack if k < upto => {
                if op == Op::Insert { if let Err(e) = sc.inserted(evs, i, tag) { return Some(("data", format!("tag {tag}: success was reported, but {e}"))); } }
                return None;
            }
            Ev::Ack => return Some(("early", format!("tag {tag}: success was reported before the server acknowledged the statement"))),
            x => return Some(("unacknowledged", format!("tag {tag}: success was reported, but the statement was followed by {}", x.tag()))),
        }
    }
    Some(("unacknowledged", format!("tag {tag}: success was reported, but the server never acknowledged the statement")))
}

/// Statements left in the pipes arrive before the connections end.
fn settle(srv: &Server) {
    srv.log.wait(ms(1500), |evs| Log::open_conns(evs).is_empty());
}

fn hist(ctx: &Ctx, n: u64, r: &mut Rng) {
    let plan = gen_plan(r, 7);
    let srv = start(&plan, r.fork());
    match run_plan_marked(&plan, &srv) {
        None => ctx.violation("hist", n, "hang", format!("the history did not end\n{}", describe(&plan, &[], &srv.log))),
        Some(done) => {
            settle(&srv);
            let evs = srv.log.snapshot();
            let mut tags: HashMap<u64, usize> = HashMap::new();
            for e in &evs { if let Ev::Query(q) = &e.ev { if let Some(p) = parse_sql(&q.sql) { *tags.entry(p.2).or_default() += 1; } } }
            let dones: Vec<Done> = done.into_iter().map(|(d, m)| {
                ctx.eval();
                let ok = matches!(d.res, Res::Ok(_));
                let sent = tags.get(&d.s.tag).copied().unwrap_or(0);
                ctx.count(match (ok, sent) { (true, _) => "succeeded", (false, 0) => "failed_before_sending", _ => "failed_after_sending" }, 1);
                ctx.distinct(&(d.s.op, d.s.beh, d.s.act, d.handle_clean, plan.ping, sent, evs.len()));
                (d, m)
            }).map(|(d, m)| {
                if let Some((sig, e)) = match_call(&plan.sc, &evs, m, d.s.op, d.s.i, d.s.tag, matches!(d.res, Res::Ok(_)), matches!(d.res, Res::NoHandle(_))) {
                    ctx.violation("hist", n, sig, format!("{e}\n{}", describe(&plan, &[], &srv.log)));
                }
                d
            }).collect();
            for d in &dones {
                if matches!(d.res, Res::Ok(_)) && d.s.op != Op::Ping && matches!(d.s.beh, Beh::Exc(_) | Beh::Close(..)) {
                    ctx.violation("hist", n, "refused", format!("tag {}: success, although the server {:?}\n{}", d.s.tag, d.s.beh, describe(&plan, &dones, &srv.log)));
                }
            }
            sample(ctx, &plan);
        }
    }
}

/// Faults around the pre-query check and at (re)connection, one call after the other.
pub fn retry(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let ping = r.chance(3, 4);
    let retries = r.range(0, 3);
    let rate = r.range(1, 4) as u64;
    let behs: HashMap<u64, Beh> = (100..110).map(|t| (t, match r.below(8) { 0 | 1 => Beh::Close(r.below(4), r.below(3) as u8), 2 => Beh::Exc(r.below(4)), 3 => Beh::Slow(r.below(3), 3), _ => Beh::Normal })).collect();
    let nz = || Arc::new(Mutex::new(r_fork(n)));
    fn r_fork(n: u64) -> Rng { Rng::new(n ^ 0x5151) }
    let (rp, rh) = (nz(), nz());
    let how = |k: usize| match k % 3 { 0 => Cut::Fin, 1 => Cut::Close, _ => Cut::Rst };
    let rule = r.below(2) as u8;
    let (s2, b2) = (sc.clone(), behs.clone());
    let cfg = SrvCfg::new(move |c, q| serve(&s2, &b2, rule, c, q))
        .ping(move |c| {
            let k = { let mut g = rp.lock().unwrap(); if g.below(10) as u64 >= rate { 99 } else { g.below(12) } };
            match k {
                0..=2 => c.cut(how(k)),
                3..=7 => { c.send(&[4])?; c.cut(how(k)) }
                8 => c.send_exc(1, "DB::Exception", "ping", ""),
                9 => { c.pause(ms(5))?; c.send(&[4]) }
                10 => { c.send(&[4])?; c.pause(ms(2))?; c.cut(Cut::Rst) }
                _ => c.send(&[4]),
            }
        })
        .accept(move |c| { let mut g = rh.lock().unwrap(); if c.id > 0 && (g.below(12) as u64) < rate { let k = g.below(3); drop(g); return c.cut(how(k)); } Ok(()) });
    let srv = Server::start(cfg);
    let two = r.chance(1, 4);
    let srv2 = if two { let (s2, b2) = (sc.clone(), behs.clone()); let mut c = SrvCfg::new(move |c, q| serve(&s2, &b2, rule, c, q)); c.first_conn = 1000; Some(Server::start_with(c, srv.log.clone())) } else { None };
    let alt = srv2.as_ref().map(|s| format!("&alt_hosts={}", s.host())).unwrap_or_default();
    let params = format!("{LIMITS}&pool_min=1&pool_max={}&ping_before_query={ping}&send_retries={retries}&retry_timeout=1ms{alt}", r.range(1, 2));
    let url = srv.url(&params);
    let calls: Vec<(Op, usize, u64, bool)> = (0..r.range(2, 8)).map(|k| (*r.pick(&OPS), r.below(2), 100 + k as u64, r.chance(1, 3))).collect();
    let what = format!("{params}\n{calls:?}\n{behs:?}");
    let log = srv.log.clone();
    let (sc2, c2) = (sc.clone(), calls.clone());
    let res = block_on(MAX, async move {
        let pool = Pool::new(url);
        let mut h = None;
        let mut out = vec![];
        for (op, i, tag, fresh) in c2 {
            if fresh { h = None; }
            if h.is_none() { match pool.get_handle().await { Ok(x) => h = Some(x), Err(_) => { out.push((false, log.len(), true)); continue } } }
            let x = do_op(h.as_mut().unwrap(), &sc2, op, i, tag).await;
            out.push((x.is_ok(), log.len(), false));
            if let Ok(g) = &x { if let Some(e) = sc2.check(op, i, tag, g) { return Err(format!("answer: tag {tag}: {e}")); } }
        }
        Ok(out)
    });
    match res {
        Out::Done(Ok(out)) => {
            settle(&srv);
            let evs = srv.log.snapshot();
            for ((op, i, tag, _), (ok, m, no)) in calls.iter().zip(&out) {
                ctx.eval();
                ctx.count(if *ok { "succeeded" } else if *no { "no_handle" } else { "failed" }, 1);
                ctx.distinct(&(op, ok, behs[tag], ping, retries, evs.len()));
                if let Some((sig, e)) = match_call(&sc, &evs, *m, *op, *i, *tag, *ok, *no) { ctx.violation("retry", n, sig, format!("{e}\n{what}\n{}", srv.log.trace())); return; }
                if *ok && *op != Op::Ping && matches!(behs[tag], Beh::Exc(_) | Beh::Close(..)) { ctx.violation("retry", n, "refused", format!("tag {tag}: success, although the server {:?}\n{what}\n{}", behs[tag], srv.log.trace())); return; }
            }
            ctx.count("reconnects", evs.iter().filter(|e| matches!(e.ev, Ev::Accept)).count() as u64 - 1);
            if let Some(b) = srv.log.bad() { ctx.violation("retry", n, "protocol", format!("the server could not follow the client: {b}\n{what}\n{}", srv.log.trace())); }
        }
        Out::Done(Err(e)) => ctx.violation("retry", n, &crate::c02::sig_of(&e), format!("{e}\n{what}\n{}", srv.log.trace())),
        Out::Panic(e) => ctx.violation("retry", n, "panic", format!("panic: {e}\n{what}\n{}", srv.log.trace())),
        Out::Hang => ctx.violation("retry", n, "hang", format!("no result\n{what}\n{}", srv.log.trace())),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum At { Nowhere, Statement, Header, AfterData }

/// Inserts of several packets, one of which is refused.
pub fn chunks(ctx: &Ctx, n: u64, r: &mut Rng) {
    const LIMIT: usize = 1 << 20;
    let k = r.range(1, 3);
    let rows = LIMIT * (k - 1) + *r.pick(&[1usize, 2, 5000, LIMIT - 1, LIMIT]);
    let at = *r.pick(&[At::Nowhere, At::Statement, At::Header, At::AfterData, At::AfterData]);
    let which = r.below(k);
    let close = r.chance(1, 3);
    let stmts = Arc::new(AtomicUsize::new(0));
    let got = Arc::new(AtomicUsize::new(0));
    let hdr = Table { cols: vec![Col { name: "v".into(), ty: Ty::U8, vals: vec![] }] };
    let (s2, g2) = (stmts.clone(), got.clone());
    let cfg = SrvCfg::new(move |c, _| {
        let me = s2.fetch_add(1, SeqCst) == which;
        let refuse = |c: &mut Conn| if close { c.cut(Cut::Close) } else { c.send_exc(241, "DB::Exception", "Memory limit exceeded", "") };
        if me && at == At::Statement { return refuse(c); }
        c.send_data(&hdr)?;
        if me && at == At::Header {
            // the refusal comes while the data is on its way
            if close { return c.cut(Cut::Close); }
            c.send_exc(241, "DB::Exception", "Memory limit exceeded", "")?;
            c.swallow(3 << 20)?;
            return c.cut(Cut::Close);
        }
        let mut m = 0;
        while let Some(b) = c.recv_data()? { m += b.rows; }
        if me && at == At::AfterData { return refuse(c); }
        g2.fetch_add(m, SeqCst);
        c.send_eos()
    });
    let srv = Server::start(cfg);
    let params = format!("{LIMITS}&pool_min=1&pool_max=1&retry_timeout=1ms&send_retries=2{}", if r.chance(1, 3) { "&compression=lz4" } else { "" });
    let url = srv.url(&params);
    let what = format!("{rows} rows in {k} packets, refused: {at:?} of packet {which}, closing {close}");
    let b = Block::new().column("v", (0..rows).map(|i| i as u8).collect::<Vec<_>>());
    let res = block_on(MAX, async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        Ok::<_, String>(h.insert("t", &b).await.map(|_| ()))
    });
    ctx.eval();
    ctx.count("chunked_inserts", 1);
    ctx.distinct(&(k, rows, at, which, close));
    settle(&srv);
    let (s, g) = (stmts.load(SeqCst), got.load(SeqCst));
    let refused = at != At::Nowhere;
    let exp = if refused { which + 1 } else { k };
    let bad = |sig: &str, e: String| ctx.violation("chunks", n, sig, format!("{what}\n{e}\n{}", srv.log.trace()));
    match res {
        Out::Done(Ok(Ok(()))) if refused => bad("refused", format!("success although a packet was refused; {s} statements, {g} rows acknowledged")),
        Out::Done(Ok(Ok(()))) => if s != exp { bad("count", format!("{s} statements for {exp} packets")) } else if g != rows { bad("rows", format!("{g} rows acknowledged of {rows}")) },
        Out::Done(Ok(Err(e))) if !refused => bad("failure", format!("failed although every packet was accepted: {e}")),
        Out::Done(Ok(Err(_))) => if s > exp { bad("count", format!("{s} statements arrived, the refused one was number {exp}")) },
        Out::Done(Err(e)) => bad("handle", e),
        Out::Panic(e) => bad("panic", e),
        Out::Hang => bad("hang", String::new()),
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("histories of tagged calls with exceptions, closed connections, cancellations and slow answers; call sequences with faults around the pre-query check and reconnection; inserts of 1-3 packets one of which is refused. Every statement received is matched with its call: at most once each, never without a handle, and success only if the acknowledgement was sent on the same connection before the call returned and no packet was refused; distinct = (operation, server behaviour, client behaviour, outcome, events)");
    ctx.assume("statements are counted when the server has read them completely");
    watchdog(ctx.clone(), secs(200), true);
    cases(ctx, "retry", ctx.n(4000, 100_000), 12, secs(ctx.n(60, 900)), retry);
    cases(ctx, "hist", ctx.n(2000, 60_000), 12, secs(ctx.n(60, 900)), hist);
    cases(ctx, "chunks", ctx.n(160, 3000), 6, secs(ctx.n(60, 600)), chunks);
}
