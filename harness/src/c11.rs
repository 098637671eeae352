//! C11: new connections rotate over all configured hosts.
use crate::kit::*;
use crate::ops::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::{Options, Pool};
use std::sync::Arc;
use std::time::Instant;
use url::Url;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Host { Well, CloseAtAccept, ExcAtHello, CloseAtHello, Stalls, Refuses }

/// k hosts; connection ids of host i are i*10000...
fn hosts(sc: &Arc<Scene>, kinds: &[Host], log: &Arc<Log>) -> Vec<Server> {
    kinds.iter().enumerate().map(|(i, k)| {
        let k = *k;
        let mut cfg = sc.cfg();
        cfg.first_conn = i as u64 * 10000;
        match k {
            Host::Well => {}
            Host::CloseAtAccept => cfg = cfg.accept(|c| c.cut(Cut::Close)),
            Host::ExcAtHello => cfg = cfg.hello(|c| c.send_exc(209, "DB::Exception", "no", "")),
            Host::CloseAtHello => cfg = cfg.hello(|c| c.cut(Cut::Close)),
            Host::Stalls => cfg = cfg.hello(|c| { let _ = c.pause(secs(20)); c.cut(Cut::Close) }),
            Host::Refuses => {}
        }
        let mut s = Server::start_with(cfg, log.clone());
        if k == Host::Refuses { s.stop_listening(); }
        s
    }).collect()
}

fn pool_of(r: &mut Rng, srvs: &[Server], params: &str, min: usize, max: usize) -> Pool {
    if r.chance(1, 2) {
        let alt = if srvs.len() > 1 { format!("&alt_hosts={}", srvs[1..].iter().map(|s| s.host()).collect::<Vec<_>>().join(",")) } else { String::new() };
        Pool::new(srvs[0].url(&format!("{params}&pool_min={min}&pool_max={max}{alt}")))
    } else {
        let mut o: Options = srvs[0].url(params).parse().expect("INFRA options");
        o = o.pool_min(min).pool_max(max).alt_hosts(srvs[1..].iter().map(|s| Url::parse(&format!("tcp://{}", s.host())).unwrap()).collect());
        Pool::new(o)
    }
}

fn kinds(r: &mut Rng, k: usize, refuse: bool) -> Vec<Host> {
    let sick = r.chance(1, 2);
    (0..k).map(|_| if sick && r.chance(1, 3) { *r.pick(&[Host::CloseAtAccept, Host::ExcAtHello, Host::CloseAtHello, Host::Stalls, if refuse { Host::Refuses } else { Host::ExcAtHello }]) } else { Host::Well }).collect()
}

/// One request at a time: attempt number i goes to host i mod k, and fails exactly when that host is sick.
pub fn sequence(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let k = r.range(1, 5);
    let ks = kinds(r, k, true);
    let log = Arc::new(Log::default());
    let srvs = hosts(&sc, &ks, &log);
    let total = r.range(k, 4 * k + 3);
    let min = r.below(3);
    let pool = pool_of(r, &srvs, "connection_timeout=250ms&ping_timeout=20s&query_timeout=20s&ping_before_query=false", min, total + 1);
    let keep = r.chance(1, 2) || min > 0;
    let dup = r.chance(1, 3);
    ctx.eval();
    ctx.distinct(&(ks.clone(), total, keep, dup));
    let v = |sig: &str, d: String| ctx.violation("sequence", n, sig, format!("hosts {ks:?}: {d}\n{}", log.trace()));
    let out = block_on(secs(90), async {
        let mut hs = vec![];
        let mut res = vec![];
        for i in 0..total {
            // a clone of the pool shares the rotation
            let p = if dup && i % 2 == 1 { pool.clone() } else { pool.clone() };
            let e = p.get_handle().await;
            res.push(e.is_ok());
            if let Ok(mut h) = e { if i % 3 == 0 { let _ = do_op(&mut h, &sc, Op::Exec, 0, i as u64).await; } if keep { hs.push(h); } }
        }
        res
    });
    let res = match out { Out::Done(x) => x, Out::Panic(p) => return v("panic", p), Out::Hang => return v("hang", "no end".into()) };
    let want: Vec<bool> = (0..total).map(|i| ks[i % k] == Host::Well).collect();
    // with every handle given back at once and pool_min = 0 each request needs a new connection as well
    let seen: Vec<usize> = log.snapshot().iter().filter(|e| matches!(e.ev, Ev::Accept)).map(|e| (e.conn / 10000) as usize).collect();
    let order: Vec<usize> = (0..total).map(|i| i % k).filter(|i| ks[*i] != Host::Refuses).collect();
    ctx.count("connections placed", seen.len() as u64);
    if seen.len() == order.len() && seen != order || seen.len() != order.len() { return v("order", format!("connections were opened on hosts {seen:?}, round-robin is {order:?}")); }
    if res != want { v("outcome", format!("outcomes {res:?}, expected {want:?}")); }
}

/// Many requests at once, connections dying and being replaced: the totals stay balanced.
pub fn balance(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let k = r.range(2, 5);
    let ks = kinds(r, k, false);
    let log = Arc::new(Log::default());
    let srvs = hosts(&sc, &ks, &log);
    let ping = r.chance(1, 2);
    let max = r.range(1, 8);
    let params = format!("connection_timeout=200ms&ping_timeout=20s&query_timeout=20s&execute_timeout=20s&insert_timeout=20s&retry_timeout=1ms&send_retries={}&ping_before_query={ping}", r.below(4));
    let min = r.below(3);
    let pool = pool_of(r, &srvs, &params, min, max);
    let tasks = r.range(1, 9);
    let steps = r.range(1, 8);
    let threads = *r.pick(&[1usize, 4]);
    let seeds: Vec<u64> = (0..tasks).map(|_| r.u64()).collect();
    let killer = r.chance(1, 2);
    ctx.eval();
    ctx.distinct(&(ks.clone(), max, min, tasks, steps, threads, seeds[0]));
    let v = |sig: &str, d: String| ctx.violation("balance", n, sig, format!("hosts {ks:?}, pool_max={max}, pool_min={min}, {tasks} tasks of {steps} requests: {d}"));
    let rt = rt_mt(threads);
    let res = guard(|| rt.block_on(async {
        let mut js = vec![];
        for s in seeds {
            let (pool, sc) = (pool.clone(), sc.clone());
            js.push(tokio::spawn(async move {
                let mut r = Rng::new(s);
                for i in 0..steps {
                    // some requests are given up
                    let d = if r.chance(1, 6) { ms(r.below(6) as u64) } else { secs(60) };
                    let f = async {
                        if let Ok(mut h) = pool.get_handle().await {
                            let op = *r.pick(&[Op::Ping, Op::Exec, Op::Fetch]);
                            let _ = do_op(&mut h, &sc, op, 0, i as u64).await;
                            if r.chance(1, 3) { tokio::time::sleep(ms(r.below(4) as u64)).await; }
                        }
                    };
                    if tokio::time::timeout(d, f).await.is_err() && d == secs(60) { return Err("a request never ended"); }
                }
                Ok(())
            }));
        }
        if killer { for _ in 0..steps { tokio::time::sleep(ms(3)).await; for s in &srvs { s.kill_all(); } } }
        for j in js { match j.await { Ok(Ok(())) => {} Ok(Err(e)) => return Err(e.to_string()), Err(e) => return Err(e.to_string()) } }
        Ok(())
    }));
    match res { Ok(Ok(())) => {} Ok(Err(e)) if e.contains("panic") => return v("panic", e), Ok(Err(e)) => return v("hang", e), Err(p) => return v("panic", p) }
    drop(rt);
    // connections the kernel has accepted may still be waiting to be counted
    let end = Instant::now() + secs(3);
    loop {
        let mut per = vec![0usize; k];
        for e in log.snapshot() { if matches!(e.ev, Ev::Accept) { per[(e.conn / 10000) as usize] += 1; } }
        let (lo, hi) = (*per.iter().min().unwrap(), *per.iter().max().unwrap());
        // the main host comes first
        if hi - lo <= 1 && per.windows(2).all(|w| w[0] >= w[1]) { ctx.count("connections balanced", per.iter().sum::<usize>() as u64); return; }
        if Instant::now() > end { return v("unbalanced", format!("connections per host {per:?}")); }
        std::thread::sleep(ms(20));
    }
}

/// Replacing dead connections follows the same rotation.
pub fn replace(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let k = r.range(2, 4);
    let log = Arc::new(Log::default());
    let srvs = hosts(&sc, &vec![Host::Well; k], &log);
    let pool = pool_of(r, &srvs, "connection_timeout=20s&ping_timeout=20s&query_timeout=20s&execute_timeout=20s&insert_timeout=20s&retry_timeout=1ms&send_retries=3&ping_before_query=true", 1, 2);
    let rounds = r.range(2, 9);
    let ops: Vec<Op> = (0..rounds).map(|_| *r.pick(&[Op::Fetch, Op::Exec, Op::Insert, Op::Blocks])).collect();
    ctx.eval();
    ctx.distinct(&(k, ops.clone()));
    let v = |sig: &str, d: String| ctx.violation("replace", n, sig, format!("{k} hosts, {ops:?}: {d}\n{}", log.trace()));
    let out = block_on(secs(60), async {
        let mut h = handle(&pool).await?;
        for (i, op) in ops.iter().enumerate() {
            do_op(&mut h, &sc, *op, 0, i as u64).await.map_err(|e| format!("{op:?}: {e}"))?;
            for s in &srvs { s.kill_all(); }
        }
        Ok::<_, String>(())
    });
    match out { Out::Done(Ok(())) => {} Out::Done(Err(e)) => return v("failed", e), Out::Panic(p) => return v("panic", p), Out::Hang => return v("hang", "no end".into()) }
    let seen: Vec<usize> = log.snapshot().iter().filter(|e| matches!(e.ev, Ev::Accept)).map(|e| (e.conn / 10000) as usize).collect();
    let want: Vec<usize> = (0..seen.len()).map(|i| i % k).collect();
    ctx.count("connections placed", seen.len() as u64);
    if seen != want { return v("order", format!("connections were opened on hosts {seen:?}, round-robin is {want:?}")); }
    if seen.len() != rounds { v("count", format!("{} connections for {rounds} operations each on a dead connection", seen.len())); }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("connection attempt number i (counted over the pool and its clones) goes to host i mod k of main host followed by alternatives; under concurrency the per-host totals differ by at most one, earlier hosts first; a sick host fails its own turns only");
    watchdog(ctx.clone(), secs(150), true);
    let t = |a: u64, b: u64| secs(if ctx.thorough { b } else { a });
    cases(ctx, "sequence", ctx.n(800, 20_000), 16, t(30, 200), sequence);
    cases(ctx, "replace", ctx.n(600, 10_000), 12, t(20, 100), replace);
    cases(ctx, "balance", ctx.n(500, 10_000), 8, t(30, 200), balance);
}
