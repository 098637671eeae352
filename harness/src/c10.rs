//! C10: dead connections are replaced before use, within the retry budget.
use crate::kit::*;
use crate::ops::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::Pool;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Death { Fin, Rst, Deaf, Exc, Garbage }
/// What a connection attempt meets while the server is unwell.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Ill { CloseAtAccept, CloseAtHello, ExcAtHello, CloseAtPing, ExcAtPing }
const ILLS: [Ill; 5] = [Ill::CloseAtAccept, Ill::CloseAtHello, Ill::ExcAtHello, Ill::CloseAtPing, Ill::ExcAtPing];

pub fn dead(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let retries = *r.pick(&[0u64, 1, 1, 2, 3, 3, 5]);
    let ill = *r.pick(&ILLS);
    let death = *r.pick(&[Death::Fin, Death::Fin, Death::Rst, Death::Exc, Death::Garbage, Death::Deaf]);
    // how many attempts meet the illness; more than the budget means failure
    let sick = match r.below(5) { 0 => 0, 1 => retries.saturating_sub(1), 2 => retries, 3 => 1000, _ => r.below(retries as usize + 2) as u64 };
    let pause = *r.pick(&[0u64, 30, 80]);
    let idle = *r.pick(&[1usize, 1, 2, 5]);
    let ops: Vec<Op> = (0..2).map(|_| *r.pick(&[Op::Fetch, Op::Blocks, Op::Rows, Op::Exec, Op::Insert])).collect();
    let held = r.chance(1, 2);
    let compress = r.chance(1, 3);
    // phase 0: healthy; phase 1: every connection older than `since` is dead, new ones are sick while `left` > 0
    let phase = Arc::new(AtomicU64::new(0));
    let since = Arc::new(AtomicU64::new(u64::MAX));
    let left = Arc::new(AtomicI64::new(sick as i64));
    let stuck = Arc::new(AtomicU64::new(0));
    let mut cfg = sc.cfg();
    let mine = std::sync::Arc::new(std::sync::Mutex::new(std::collections::HashSet::<u64>::new()));
    { // which attempts are sick
        let (p, l, m) = (phase.clone(), left.clone(), mine.clone());
        cfg = cfg.accept(move |c| {
            if p.load(SeqCst) == 1 && l.fetch_sub(1, SeqCst) > 0 { m.lock().unwrap().insert(c.id); if ill == Ill::CloseAtAccept { return c.cut(Cut::Close); } }
            Ok(())
        });
        let m = mine.clone();
        cfg = cfg.hello(move |c| {
            if m.lock().unwrap().contains(&c.id) { match ill { Ill::CloseAtHello => return c.cut(Cut::Close), Ill::ExcAtHello => return c.send_exc(516, "DB::Exception", "not now", ""), _ => {} } }
            let b = c.hello_bytes();
            c.send(&b)
        });
        let (m, s, k) = (mine.clone(), since.clone(), stuck.clone());
        cfg = cfg.ping(move |c| {
            if c.id < s.load(SeqCst) && s.load(SeqCst) != u64::MAX { k.fetch_add(1, SeqCst); match death { Death::Deaf => { let _ = c.pause(secs(5)); return c.cut(Cut::Close); } Death::Exc => return c.send_exc(1, "DB::Exception", "dead", ""), Death::Garbage => return c.send(&[77]), _ => {} } }
            if m.lock().unwrap().contains(&c.id) { match ill { Ill::CloseAtPing => return c.cut(Cut::Rst), Ill::ExcAtPing => return c.send_exc(2, "DB::Exception", "sick", ""), _ => {} } }
            c.send(&[4])
        });
    }
    let srv = Server::start(cfg);
    let pool = Pool::new(srv.url(&format!("connection_timeout=20s&ping_timeout={}&query_timeout=20s&insert_timeout=20s&execute_timeout=20s&retry_timeout={pause}ms&send_retries={retries}&pool_min={idle}&pool_max={}&ping_before_query=true{}", if death == Death::Deaf { "150ms" } else { "20s" }, idle + 1, if compress { "&compression=lz4" } else { "" })));
    let desc = format!("{idle} idle connections dead by {death:?}, {sick} sick attempts ({ill:?}), send_retries={retries}, retry_timeout={pause}ms, {ops:?}, handle {}", if held { "kept" } else { "from the pool" });
    let what = (death, ill, sick.min(7), retries, idle, held, ops[0]);
    let out = block_on(secs(90), async {
        // fill the pool
        let mut hs = vec![];
        for _ in 0..idle { hs.push(handle(&pool).await?); }
        for h in &mut hs { do_op(h, &sc, Op::Exec, 0, 1).await.map_err(|e| format!("SETUP {e}"))?; }
        let mut h = if held { let h = hs.pop(); drop(hs); h } else { drop(hs); None };
        let before = srv.log.count("accept") as u64;
        since.store(before, SeqCst);
        phase.store(1, SeqCst);
        match death { Death::Fin => srv.kill_all(), Death::Rst => { for i in 0..before { srv.kill(i); } } _ => {} }
        if r.chance(1, 2) { tokio::time::sleep(ms(20)).await; }
        let t0 = Instant::now();
        let mut h = match h.take() { Some(h) => h, None => handle(&pool).await.map_err(|e| format!("SETUP {e}"))? };
        let first = do_op(&mut h, &sc, ops[0], 0, 77).await.map(|g| sc.check(ops[0], 0, 77, &g)).map_err(|e| e.to_string());
        let took = t0.elapsed();
        let accepts: Vec<Instant> = srv.log.snapshot().iter().filter(|e| matches!(e.ev, Ev::Accept) && e.conn >= before).map(|e| e.at).collect();
        // once well, the handle serves again and no further connection is needed
        phase.store(0, SeqCst);
        left.store(0, SeqCst);
        mine.lock().unwrap().clear();
        let a0 = srv.log.count("accept");
        let second = do_op(&mut h, &sc, ops[1], 1, 78).await.map(|g| sc.check(ops[1], 1, 78, &g)).map_err(|e| e.to_string());
        let a1 = srv.log.count("accept");
        Ok::<_, String>((first, took, accepts, second, a1 - a0))
    });
    ctx.eval();
    ctx.distinct(&what);
    let v = |sig: &str, d: String| ctx.violation("dead", n, &format!("{sig}/{death:?}"), format!("{desc}: {d}\n{}", srv.log.trace()));
    let (first, took, accepts, second, again) = match out {
        Out::Panic(p) => return v("panic", format!("panicked: {p}")),
        Out::Hang => return v("hang", "no end after 90 s".into()),
        Out::Done(Err(e)) => { ctx.inconclusive(format!("dead#{n}: {e}")); return; }
        Out::Done(Ok(x)) => x,
    };
    if let Some(b) = srv.log.bad() { return v("bad", b); }
    ctx.count("reconnections", accepts.len() as u64);
    ctx.sample(|| format!("{desc}: {} attempts in {took:?}, {}", accepts.len(), if first.is_ok() { "answered" } else { "error" }));
    let ok = sick < retries;
    match &first {
        Ok(None) if ok => { if accepts.len() as u64 != sick + 1 { v("attempts", format!("{} connections were opened, {} expected", accepts.len(), sick + 1)); } }
        Ok(None) => v("too-many", format!("the operation succeeded although the first {sick} attempts failed; {} connections were opened", accepts.len())),
        Ok(Some(d)) => v("data", format!("other data: {d}")),
        Err(e) if ok => v("gave-up", format!("failed with {e} after {} attempts although attempt {} would have succeeded", accepts.len(), sick + 1)),
        Err(_) => { if accepts.len() as u64 != retries { v("attempts", format!("failed after {} attempts to connect, {retries} configured", accepts.len())); } }
    }
    for w in accepts.windows(2) {
        let d = w[1].duration_since(w[0]);
        if d + ms(3) < ms(pause) { v("pause", format!("attempts {d:?} apart")); break; }
        if d > ms(pause) + secs(8) { v("pause-long", format!("attempts {d:?} apart")); break; }
    }
    if !accepts.is_empty() && took > secs(10) + ms(pause * retries) { v("slow", format!("took {took:?}")); }
    match second {
        Ok(None) => { let want = if first.is_ok() { 0 } else { 1 }; if again > want { v("replaced", format!("the operation after it opened {again} connections, at most {want} expected")); } }
        Ok(Some(d)) => v("data", format!("the operation after it got other data: {d}")),
        Err(e) if retries > 0 || first.is_ok() => v("later", format!("the operation after it failed: {e}")),
        Err(_) => {}
    }
}

/// Healthy connections: pings when asked for, none otherwise, no replacement.
pub fn healthy(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let ping = r.chance(1, 2);
    let srv = Server::start(sc.cfg().wire({ let s = r.u64(); move |id| gen_wire(&mut Rng::new(s ^ id)) }));
    let pool = Pool::new(srv.url(&format!("{LIMITS}&pool_min=1&pool_max=1&ping_before_query={ping}")));
    let ops: Vec<Op> = (0..r.range(2, 9)).map(|_| *r.pick(&[Op::Fetch, Op::Blocks, Op::Rows, Op::Exec, Op::Insert, Op::Ping])).collect();
    let keep = r.chance(1, 2);
    let out = block_on(secs(90), async {
        let mut h = handle(&pool).await?;
        for (k, op) in ops.iter().enumerate() {
            do_op(&mut h, &sc, *op, k % 2, k as u64).await.map_err(|e| format!("{op:?}: {e}"))?;
            if !keep { drop(h); h = handle(&pool).await?; }
        }
        Ok::<_, String>(())
    });
    ctx.eval();
    ctx.distinct(&(ping, keep, ops.clone()));
    let v = |sig: &str, d: String| ctx.violation("healthy", n, sig, format!("ping_before_query={ping}, {ops:?}: {d}\n{}", srv.log.trace()));
    match out { Out::Done(Ok(())) => {} Out::Done(Err(e)) => return v("failed", e), Out::Panic(p) => return v("panic", p), Out::Hang => return v("hang", "no end".into()) }
    let evs = srv.log.snapshot();
    let accepts = srv.log.count("accept");
    if accepts != 1 { return v("replaced", format!("{accepts} connections were opened")); }
    let explicit = ops.iter().filter(|o| **o == Op::Ping).count();
    let pings = evs.iter().filter(|e| matches!(e.ev, Ev::Ping)).count();
    ctx.count("pings_seen", pings as u64);
    let want = if ping { ops.len() } else { explicit };
    if pings != want { return v("pings", format!("{pings} pings arrived, {want} expected")); }
    if ping {
        // each statement directly after a ping
        let seq: Vec<&Ev> = evs.iter().map(|e| &e.ev).filter(|e| matches!(e, Ev::Ping | Ev::Query(_))).collect();
        for (i, e) in seq.iter().enumerate() { if matches!(e, Ev::Query(_)) && (i == 0 || !matches!(seq[i - 1], Ev::Ping)) { return v("order", "a statement arrived without a ping before it".into()); } }
    }
}

/// A server that is not there at all for a while.
pub fn refused(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let mut srv = Server::start(sc.cfg());
    let retries = r.range(1, 4) as u64;
    let pause = 60u64;
    let pool = Pool::new(srv.url(&format!("{LIMITS}&pool_min=1&pool_max=2&ping_before_query=true&retry_timeout={pause}ms&send_retries={retries}")));
    let op = *r.pick(&[Op::Fetch, Op::Blocks, Op::Exec, Op::Insert]);
    let rt = rt();
    let mut h = match rt.block_on(handle(&pool)) { Ok(h) => h, Err(e) => { ctx.inconclusive(e); return; } };
    srv.stop_listening();
    srv.kill_all();
    let t0 = Instant::now();
    let res = guard(|| rt.block_on(async { tokio::time::timeout(secs(60), do_op(&mut h, &sc, op, 0, 5)).await }));
    let took = t0.elapsed();
    ctx.eval();
    ctx.distinct(&(retries, op));
    let v = |sig: &str, d: String| ctx.violation("refused", n, sig, format!("server gone, send_retries={retries}, retry_timeout={pause}ms, {op:?}: {d}"));
    match res {
        Err(p) => return v("panic", p),
        Ok(Err(_)) => return v("hang", "no end after 60 s".into()),
        Ok(Ok(Ok(_))) => return v("success", "succeeded without a server".into()),
        Ok(Ok(Err(_))) => {}
    }
    if took + ms(5) < ms(pause * (retries - 1)) { v("early", format!("gave up after {took:?}")); }
    srv.resume_listening();
    match guard(|| rt.block_on(async { tokio::time::timeout(secs(60), do_op(&mut h, &sc, op, 1, 6)).await })) {
        Err(p) => v("panic", p),
        Ok(Err(_)) => v("hang", "no end after 60 s once the server was back".into()),
        Ok(Ok(Err(e))) => v("later", format!("failed with {e} once the server was back")),
        Ok(Ok(Ok(g))) => if let Some(d) = sc.check(op, 1, 6, &g) { v("data", d) },
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("with the check: dead connection => the operation succeeds iff one of the first send_retries fresh attempts is well, after exactly the attempts needed, at least retry_timeout apart; without it: no ping; healthy connections are never replaced");
    watchdog(ctx.clone(), secs(150), true);
    let t = |a: u64, b: u64| secs(if ctx.thorough { b } else { a });
    cases(ctx, "dead", ctx.n(2500, 30_000), 16, t(50, 300), dead);
    cases(ctx, "healthy", ctx.n(2500, 30_000), 12, t(30, 150), healthy);
    cases(ctx, "refused", ctx.n(60, 600), 8, t(30, 120), refused);
}
