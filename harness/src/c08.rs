//! C08: a pool never exceeds its limits.
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::Pool;
use futures_util::StreamExt;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Default, Clone)]
pub struct Info { pub new: usize, pub idle: usize, pub tasks: usize, pub ongoing: usize }

impl Info {
    /// Does the pool report its counters in the way known here?
    pub fn known(&self) -> bool { [self.new, self.idle, self.ongoing].iter().all(|x| *x != usize::MAX) }
}

/// The counters the pool reports about itself.
pub fn info(p: &Pool) -> Info {
    let s = format!("{p:?}");
    let f = |k: &str| -> usize { s.split(k).nth(1).map(|r| r.trim_start_matches(|c: char| !c.is_ascii_digit()).chars().take_while(|c| c.is_ascii_digit()).collect::<String>()).and_then(|x| x.parse().ok()).unwrap_or(usize::MAX) };
    Info { new: f("new connections count"), idle: f("idle connections count"), tasks: f("tasks count"), ongoing: f("ongoing connections count") }
}

pub fn conn_id_table(id: u64) -> Table { Table { cols: vec![Col { name: "id".into(), ty: Ty::U64, vals: vec![Val::U(id as u128)] }] } }

/// Queries: "ID" answers the connection id, "SLOW n" a slow stream, "EXC" an exception, "DIE" closes.
pub fn serve(c: &mut Conn, q: &QueryReq) -> Result<(), String> {
    let id = c.id;
    let t = conn_id_table(id);
    match q.sql.as_str() {
        "ID" => { c.send_data(&t.header())?; c.send_data(&t)?; c.send_eos() }
        "EXC" => c.send_exc(42, "DB::Exception", "no", ""),
        "DIE" => c.cut(Cut::Close),
        "SLOW" => { c.send_data(&t.header())?; for _ in 0..3 { if c.check_cancel()? { break; } c.send_data(&t)?; c.pause(ms(3))?; } c.send_eos() }
        s => Err(format!("BAD statement {s:?}")),
    }
}

pub fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let max = r.range(1, 4);
    let min = r.range(0, max);
    let tasks = r.range(2, 24);
    let threads = *r.pick(&[0usize, 2, 4, 8]);
    let ping = r.chance(2, 3);
    let faults = r.chance(1, 2);
    let slow = r.chance(1, 2);
    let hs = Arc::new(AtomicU64::new(r.u64()));
    let healthy = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mon = OpenMon::new(max);
    let h2 = healthy.clone();
    let mut cfg = SrvCfg::new(serve).hello(move |c| {
        let k = Rng::new(hs.fetch_add(0x9e37, SeqCst)).u64();
        if !h2.load(SeqCst) {
            if slow { c.deaf(Duration::from_micros(k % 6000))?; }
            if faults && k % 5 == 0 { return if k % 2 == 0 { c.cut(Cut::Close) } else { c.send_exc(516, "DB::Exception", "not today", "") }; }
        }
        let b = c.hello_bytes();
        c.send(&b)
    });
    cfg.mon = Some(mon.clone());
    let srv = Server::start(cfg);
    let params = format!("{LIMITS}&pool_min={min}&pool_max={max}&ping_before_query={ping}&retry_timeout=1ms&send_retries=2");
    let pool = Pool::new(srv.url(&params));
    let held = Arc::new(AtomicUsize::new(0));
    let in_use = Arc::new(AtomicUsize::new(0));
    let owners: Arc<Mutex<HashMap<u64, usize>>> = Default::default();
    let bad: Arc<Mutex<Vec<(String, String)>>> = Default::default();
    let lent = Arc::new(AtomicU64::new(0));
    let peak = Arc::new(AtomicUsize::new(0));
    let rt = if threads == 0 { rt() } else { rt_mt(threads) };
    let seed = r.u64();
    let iters = r.range(3, 10);
    let what = format!("pool_min={min} pool_max={max} ping_before_query={ping}, {tasks} tasks on {threads} threads, slow handshakes {slow}, failing handshakes {faults}");
    let ended = rt.block_on(async {
        let mut js = vec![];
        for t in 0..tasks {
            let (pool, held, in_use, owners, bad, lent, peak) = (pool.clone(), held.clone(), in_use.clone(), owners.clone(), bad.clone(), lent.clone(), peak.clone());
            let mut r = Rng::new(seed ^ (t as u64 * 7919));
            js.push(tokio::spawn(async move {
                let r0 = aguard(async {
                    for _ in 0..iters {
                        let got = if r.chance(1, 5) {
                            match tokio::time::timeout(Duration::from_micros(r.below(4000) as u64), pool.get_handle()).await { Ok(x) => x, Err(_) => continue }
                        } else { pool.get_handle().await };
                        let mut h = match got { Ok(h) => h, Err(_) => continue };
                        in_use.fetch_add(1, SeqCst);
                        lent.fetch_add(1, SeqCst);
                        let mut mine = None;
                        if let Ok(b) = h.query("ID").fetch_all().await {
                            if let Ok(id) = b.get::<u64, _>(0, 0) {
                                if let Some(o) = owners.lock().unwrap().insert(id, t) { bad.lock().unwrap().push(("shared".into(), format!("connection {id} is lent to tasks {o} and {t} at once"))); }
                                mine = Some(id);
                                // a handle that has just answered has a connection of its own
                                let k = held.fetch_add(1, SeqCst) + 1;
                                peak.fetch_max(k, SeqCst);
                                if k > max { bad.lock().unwrap().push(("handles".into(), format!("{k} working handles lent at once"))); }
                            }
                        }
                        if r.chance(1, 2) { tokio::time::sleep(Duration::from_micros(r.below(3000) as u64)).await } else { tokio::task::yield_now().await }
                        if let Some(id) = mine { owners.lock().unwrap().remove(&id); held.fetch_sub(1, SeqCst); }
                        match r.below(8) {
                            0 => { let _ = h.execute("EXC").await; }
                            1 => { let _ = h.execute("DIE").await; }
                            2 => { let mut s = h.query("SLOW").stream_blocks(); let _ = s.next().await; }
                            3 => { let _ = tokio::time::timeout(Duration::from_micros(r.below(2000) as u64), h.query("SLOW").fetch_all()).await; }
                            4 => { let _ = tokio::time::timeout(Duration::from_micros(r.below(800) as u64), h.execute("SLOW")).await; }
                            5 => { let mut s = h.query("EXC").stream_blocks(); let _ = s.next().await; }
                            _ => {}
                        }
                        in_use.fetch_sub(1, SeqCst);
                        drop(h);
                    }
                }).await;
                if let Err(p) = r0 { bad.lock().unwrap().push(("panic".into(), format!("panic: {p}"))); }
            }));
        }
        tokio::time::timeout(secs(30), async { for j in js { let _ = j.await; } }).await.is_ok()
    });
    ctx.eval();
    ctx.count("handles_lent", lent.load(SeqCst));
    ctx.count("connections_seen", srv.log.count("accept") as u64);
    ctx.distinct(&(max, min, threads, peak.load(SeqCst), srv.log.len(), lent.load(SeqCst)));
    let mut fail = |sig: &str, d: String| ctx.violation("stress", n, sig, format!("{d}\n{what}\n{pool:?}"));
    if let Some((s, d)) = bad.lock().unwrap().first() { fail(s, d.clone()); return; }
    if let (false, Some(e)) = (ended, mon.excess.lock().unwrap().clone()) { fail("excess", e); rt.shutdown_timeout(ms(100)); return; }
    if !ended {
        std::thread::sleep(ms(200));
        let (i, k) = (info(&pool), in_use.load(SeqCst));
        if i.known() && i.ongoing != k { fail("budget", format!("{k} handles are lent, but the pool counts {} in use and lends no more", i.ongoing)); rt.shutdown_timeout(ms(100)); return; }
    }
    if !ended { ctx.inconclusive(format!("stress#{n}: tasks did not end (see C09)")); rt.shutdown_timeout(ms(100)); return; }
    // everything is back
    let i = info(&pool);
    if i.known() && i.ongoing != 0 { fail("ongoing", format!("no handle is lent, but the pool reports {} in use", i.ongoing)); return; }
    if i.known() && i.idle > min { fail("idle", format!("{} idle connections kept, the minimum is {min}", i.idle)); return; }
    // a connection still being opened may exist besides the idle ones
    let allowed = if i.known() { i.idle + i.new } else { max };
    let t0 = Instant::now();
    while mon.open().len() > allowed && t0.elapsed() < secs(10) { std::thread::sleep(ms(2)); }
    let o = mon.open();
    if o.len() > allowed { fail("leak", format!("all handles are back and the pool counts {} idle and {} new connections, but {} stay open", i.idle, i.new, o.len())); return; }
    // the whole budget is available again
    healthy.store(true, SeqCst);
    let budget = guard(|| rt.block_on(async {
        let mut hs = vec![];
        for k in 0..max {
            let mut tries = 0;
            loop {
                match tokio::time::timeout(secs(25), pool.get_handle()).await {
                    Err(_) => return Err(format!("only {k} of {max} handles can be lent afterwards")),
                    Ok(Err(e)) => { tries += 1; if tries > 3 { return Err(format!("get_handle afterwards: {e}")); } }
                    Ok(Ok(h)) => { hs.push(h); break; }
                }
            }
        }
        if tokio::time::timeout(ms(15), pool.get_handle()).await.is_ok() { return Err(format!("{} handles can be lent at once", max + 1)); }
        let mut ids = vec![];
        for h in hs.iter_mut() { match h.query("ID").fetch_all().await { Ok(b) => ids.push(b.get::<u64, _>(0, 0).unwrap_or(0)), Err(e) => if ping { return Err(format!("a fresh handle does not work: {e}")) } } }
        ids.sort();
        let k = ids.len();
        ids.dedup();
        if ids.len() != k { return Err("two handles share one connection".into()); }
        drop(hs);
        Ok(())
    }));
    match budget { Err(p) => { fail("panic", format!("panic: {p}")); return; } Ok(Err(e)) => { fail("budget", e); return; } Ok(Ok(())) => {} }
    let i = info(&pool);
    if i.known() && (i.ongoing != 0 || i.idle > min) { fail("after", format!("all handles are back: {i:?}, the minimum is {min}")); return; }
    if let Some(e) = mon.excess.lock().unwrap().clone() { fail("excess", e); return; }
    if let Some(b) = srv.log.bad() { fail("protocol", b); return; }
    ctx.count("peak_open_sum", mon.peak.load(SeqCst));
    ctx.count("peak_held_sum", peak.load(SeqCst) as u64);
    ctx.sample(|| format!("{what}: {} lent, peak {} held, {} connections, peak {} open", lent.load(SeqCst), peak.load(SeqCst), srv.log.count("accept"), mon.peak.load(SeqCst)));
    if threads > 0 { rt.shutdown_timeout(ms(500)); }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case is a stress run of 2-24 tasks on 0-8 worker threads over a pool of 1-4 connections with slow, failing and cancelled connects, broken connections, abandoned streams and exceptions; the kernel's view of open connections is sampled at every accept, connection ids reveal double lending, and at rest the pool's counters, the open connections and the restored budget are checked; distinct = (limits, threads, peak, events, loans)");
    watchdog(ctx.clone(), secs(200), false);
    cases(ctx, "stress", ctx.n(400, 12_000), 6, secs(ctx.n(70, 1500)), case);
}
