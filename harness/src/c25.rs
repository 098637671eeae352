//! C25: what is no longer used is released.
use crate::kit::*;
use crate::memmon;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::{ClientHandle, Pool};
use futures_util::{FutureExt, StreamExt};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

enum Kept { Pool(#[allow(dead_code)] Pool), Handle(#[allow(dead_code)] ClientHandle), Request(#[allow(dead_code)] std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>>) }

/// Everything the client holds is given up in some order; no connection may stay open.
pub fn sockets(ctx: &Ctx, n: u64, r: &mut Rng) {
    let max = r.range(1, 4);
    let min = r.range(0, max);
    let tasks = r.range(1, 8);
    let threads = *r.pick(&[0usize, 0, 2, 4]);
    let (faults, slow, ping) = (r.chance(1, 3), r.chance(1, 2), r.chance(1, 2));
    let hs = Arc::new(AtomicU64::new(r.u64()));
    let mut cfg = SrvCfg::new(crate::c08::serve).hello(move |c| {
        let k = Rng::new(hs.fetch_add(0x9e37, SeqCst)).u64();
        if slow { c.deaf(Duration::from_micros(k % 8000))?; }
        if faults && k % 5 == 0 { return if k % 2 == 0 { c.cut(Cut::Close) } else { c.send_exc(516, "DB::Exception", "not today", "") }; }
        let b = c.hello_bytes();
        c.send(&b)
    });
    let mon = OpenMon::new(usize::MAX);
    cfg.mon = Some(mon.clone());
    let srv = Server::start(cfg);
    let pool = Pool::new(srv.url(&format!("{LIMITS}&pool_min={min}&pool_max={max}&ping_before_query={ping}&retry_timeout=1ms&send_retries=2")));
    let rt = if threads == 0 { rt() } else { rt_mt(threads) };
    let seed = r.u64();
    let iters = r.range(1, 4);
    let kept: Arc<Mutex<Vec<(&'static str, Kept)>>> = Default::default();
    let lent = Arc::new(AtomicUsize::new(0));
    let ended = rt.block_on(async {
        let mut js = vec![];
        for t in 0..tasks {
            let (pool, kept, lent) = (pool.clone(), kept.clone(), lent.clone());
            let mut r = Rng::new(seed ^ (t as u64 * 7919));
            js.push(tokio::spawn(async move {
                let _ = aguard(async {
                    for _ in 0..iters {
                        // a request that is polled a few times and kept, or dropped
                        if r.chance(1, 4) {
                            let p = pool.clone();
                            let mut f: std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> = Box::pin(async move { let _ = p.get_handle().await; });
                            for _ in 0..r.range(1, 3) { if f.as_mut().now_or_never().is_some() { break; } tokio::time::sleep(Duration::from_micros(r.below(1500) as u64)).await; }
                            if r.chance(1, 2) { kept.lock().unwrap().push(("request", Kept::Request(Box::pin(async move { let _ = f; })))); }
                            continue;
                        }
                        let h = match tokio::time::timeout(Duration::from_micros(r.range(500, 30_000) as u64), pool.get_handle()).await { Ok(Ok(h)) => h, _ => continue };
                        let mut h = h;
                        lent.fetch_add(1, SeqCst);
                        match r.below(9) {
                            0 => { let _ = h.execute("EXC").await; }
                            1 => { let _ = h.execute("DIE").await; }
                            2 => { let mut s = h.query("SLOW").stream_blocks(); let _ = s.next().await; }
                            3 => { let _ = tokio::time::timeout(Duration::from_micros(r.below(2000) as u64), h.query("SLOW").fetch_all()).await; }
                            4 => { let _ = tokio::time::timeout(Duration::from_micros(r.below(800) as u64), h.check_connection()).await; }
                            5 => { let _ = h.check_connection().await; }
                            6 => { let _ = h.query("ID").fetch_all().await; }
                            7 => { let mut s = h.query("EXC").stream_blocks(); let _ = s.next().await; }
                            _ => { let _ = h.ping().await; }
                        }
                        if r.chance(1, 4) { kept.lock().unwrap().push(("handle", Kept::Handle(h))); }
                        else if r.chance(1, 2) { tokio::time::sleep(Duration::from_micros(r.below(3000) as u64)).await; }
                    }
                    if r.chance(1, 3) { kept.lock().unwrap().push(("pool", Kept::Pool(pool.clone()))); }
                }).await;
            }));
        }
        let ok = tokio::time::timeout(secs(30), async { for j in js { let _ = j.await; } }).await.is_ok();
        ok
    });
    ctx.eval();
    ctx.count("connections_seen", srv.log.count("accept") as u64);
    ctx.count("handles_lent", lent.load(SeqCst) as u64);
    if !ended { ctx.inconclusive(format!("sockets#{n}: tasks did not end (see C09)")); rt.shutdown_timeout(ms(100)); return; }
    let before = crate::c08::info(&pool);
    let mut all = std::mem::take(&mut *kept.lock().unwrap());
    all.push(("pool", Kept::Pool(pool)));
    r.shuffle(&mut all);
    let order: Vec<&str> = all.iter().map(|x| x.0).collect();
    ctx.distinct(&(max, min, threads, ping, faults, slow, order.clone(), before.idle, before.new, before.ongoing));
    if before.known() {
        ctx.count("pending_connection_at_drop", before.new as u64);
        ctx.count("idle_connections_at_drop", before.idle as u64);
    }
    ctx.count("handles_at_drop", order.iter().filter(|x| **x == "handle").count() as u64);
    let live = mon.open().len();
    ctx.count("open_before_drop", live as u64);
    let inside = r.chance(1, 2);
    if inside { rt.block_on(async { drop(all); tokio::task::yield_now().await; }); } else { drop(all); }
    let t0 = Instant::now();
    // the runtime stays: what is still open is held by something that leaked
    while !mon.open().is_empty() && t0.elapsed() < secs(4) { rt.block_on(async { tokio::time::sleep(ms(2)).await }); }
    let o = mon.open();
    if !o.is_empty() {
        ctx.violation("sockets", n, "leak", format!("pool, handles and requests are all gone, but {} of {live} connections stay open\npool_min={min} pool_max={max} ping_before_query={ping}, {tasks} tasks on {threads} threads, slow handshakes {slow}, failing handshakes {faults}; given up in the order {order:?}; the pool before: {before:?}\n{}", o.len(), srv.log.trace()));
    }
    if threads > 0 { rt.shutdown_timeout(ms(500)); }
}

type Work = (&'static str, fn(&Ctx, u64, &mut Rng));
const WORK: [Work; 12] = [
    ("histories", crate::c05::case), ("inserts", crate::c01::case), ("results", |c, n, r| crate::c02::case(c, "small", n, r, false)),
    ("malformed answers", crate::c07::case), ("corrupted frames", |c, n, r| crate::c14::corrupt(c, n, r, false)), ("exceptions", crate::c12::case),
    ("requests", crate::c15::case), ("dead connections", crate::c10::dead), ("histories", crate::c05::case), ("readers", crate::c03::case),
    ("blocks", crate::c17::local), ("conversions", crate::c18::case),
];

/// The same work over and over must not use more and more memory.
fn memory(ctx: &Ctx, n: u64, r: &mut Rng) {
    let seed = r.u64();
    const N: usize = 24;
    let mut v: Vec<(i64, i64)> = Vec::with_capacity(N);
    let (what, f) = WORK[n as usize % WORK.len()];
    let once = || {
        let scratch = Ctx::new("C25", false, 0, None, "/nonexistent");
        let ok = guard(|| f(&scratch, n, &mut Rng::new(seed))).is_ok();
        ok && !scratch.stopped()
    };
    memmon::COUNTING.store(true, SeqCst);
    let mut ok = true;
    let t0 = Instant::now();
    for _ in 0..N { if t0.elapsed() < secs(30) { ok = ok && once(); } v.push(memmon::in_use()); }
    let late = t0.elapsed() >= secs(30);
    memmon::COUNTING.store(false, SeqCst);
    ctx.eval();
    if late { ctx.count("repetitions cut short", 1); return; }
    if !ok { ctx.inconclusive(format!("memory#{n}: the work ({what}) did not end well")); return; }
    let low = |s: &[(i64, i64)]| (s.iter().map(|x| x.0).min().unwrap(), s.iter().map(|x| x.1).min().unwrap());
    let (a, b, c) = (low(&v[N / 4..N / 2]), low(&v[N / 2..3 * N / 4]), low(&v[3 * N / 4..]));
    ctx.distinct(&(what, seed));
    ctx.count("repetitions", N as u64);
    if std::env::var("VP_MEM").is_ok() { eprintln!("memory#{n} {what}: {:?}", [0, 6, 12, 18, 23].map(|i| (v[i].0 - v[0].0, v[i].1 - v[0].1))); }
    let grows = |x: (i64, i64), y: (i64, i64)| y.1 - x.1 >= (N / 4) as i64 / 2 && y.0 > x.0;
    if grows(a, b) && grows(b, c) { ctx.violation("memory", n, "growth", format!("the same work ({what}), done {N} times from the making of the pool to the end, leaves more allocations behind each time: bytes and blocks in use after each repetition {v:?}")); }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("sockets: 1-8 tasks use a pool (requests completed, abandoned while connecting or kept; failing and slow handshakes; broken connections, cancelled operations, abandoned streams, handles kept), then pool, handles and requests are dropped in a random order: every connection must be closed. memory: random cases of twelve workloads (histories, inserts, results, readers, conversions, malformed and corrupted answers, exceptions, dead connections), each done 24 times from making the pool to dropping it while the allocator counts; the allocations left must not grow with the repetitions. distinct = combinations of settings, order of dropping and state of the pool");
    watchdog(ctx.clone(), secs(200), true);
    cases(ctx, "sockets", ctx.n(2500, 60_000), 12, secs(ctx.n(60, 900)), sockets);
    cases(ctx, "memory", ctx.n(72, 3000), 1, secs(ctx.n(60, 900)), memory);
}
