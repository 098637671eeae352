//! C09: waiting for a pooled connection always ends.
use crate::c08::{info, serve};
use crate::kit::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::{errors::Result as ChResult, ClientHandle, Pool};
use futures_util::task::ArcWake;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

struct Flag { woken: AtomicBool, wakes: Arc<AtomicU64>, bell: Arc<tokio::sync::Notify> }
impl ArcWake for Flag {
    fn wake_by_ref(s: &Arc<Self>) { s.woken.store(true, SeqCst); s.wakes.fetch_add(1, SeqCst); s.bell.notify_one(); }
}

struct Req { id: u64, fut: Pin<Box<dyn Future<Output = ChResult<ClientHandle>> + Send>>, flag: Arc<Flag> }

/// How the server treats the next handshakes.
const OPEN: u8 = 0;
const HELD: u8 = 1;
const CLOSE: u8 = 2;
const EXC: u8 = 3;
const MUTE: u8 = 4;

struct World {
    pool: Pool, reqs: Vec<Req>, held: Vec<(u64, ClientHandle)>, next: u64, script: Vec<String>,
    bell: Arc<tokio::sync::Notify>, wakes: Arc<AtomicU64>, ok: u64, err: u64, cancelled: u64,
}

impl World {
    fn poll_one(&mut self, i: usize) {
        self.reqs[i].flag.woken.store(false, SeqCst);
        let w = futures_util::task::waker(self.reqs[i].flag.clone());
        let mut cx = Context::from_waker(&w);
        match self.reqs[i].fut.as_mut().poll(&mut cx) {
            Poll::Pending => {}
            Poll::Ready(Ok(h)) => { let q = self.reqs.remove(i); self.script.push(format!("  request {} -> handle", q.id)); self.held.push((q.id, h)); self.ok += 1; }
            Poll::Ready(Err(e)) => { let q = self.reqs.remove(i); self.script.push(format!("  request {} -> error {}", q.id, e.to_string().chars().take(60).collect::<String>())); self.err += 1; }
        }
    }
    /// Poll woken requests, in random order, for some time; until nothing is woken for `quiet`.
    async fn settle(&mut self, r: &mut Rng, quiet: Duration, max: Duration) {
        let end = Instant::now() + max;
        loop {
            let w: Vec<usize> = (0..self.reqs.len()).filter(|i| self.reqs[*i].flag.woken.load(SeqCst)).collect();
            if !w.is_empty() { let i = *r.pick(&w); self.poll_one(i); if Instant::now() > end { return; } continue; }
            if Instant::now() > end { return; }
            if tokio::time::timeout(quiet, self.bell.notified()).await.is_err() && !self.reqs.iter().any(|q| q.flag.woken.load(SeqCst)) { return; }
        }
    }
    fn request(&mut self) {
        let flag = Arc::new(Flag { woken: AtomicBool::new(true), wakes: self.wakes.clone(), bell: self.bell.clone() });
        self.script.push(format!("request {}", self.next));
        self.reqs.push(Req { id: self.next, fut: Box::pin(self.pool.get_handle()), flag });
        self.next += 1;
    }
}

pub fn scripted(ctx: &Ctx, n: u64, r: &mut Rng) {
    let max = r.range(1, 3);
    let min = r.range(0, max);
    let mode = Arc::new(AtomicU8::new(OPEN));
    let m2 = mode.clone();
    let mut srv = Server::start(SrvCfg::new(serve).hello(move |c| {
        let m = m2.load(SeqCst);
        match m {
            CLOSE => return c.cut(Cut::Close),
            EXC => return c.send_exc(516, "DB::Exception", "not today", ""),
            MUTE => { c.pause(secs(30))?; return Err("close".into()); }
            _ => {}
        }
        while m2.load(SeqCst) == HELD { if c.pause(ms(1))? { return Err("close".into()); } }
        let b = c.hello_bytes();
        c.send(&b)
    }));
    let short = r.chance(1, 3);
    let ct = if short { "40ms" } else { "60s" };
    let pool = Pool::new(srv.url(&format!("{}&connection_timeout={ct}&pool_min={min}&pool_max={max}&ping_before_query=false", LIMITS.replace("connection_timeout=60s&", ""))));
    let steps = r.range(4, 40);
    let what = format!("pool_min={min} pool_max={max} connection_timeout={ct}");
    let rt = rt();
    let out = guard(|| rt.block_on(async {
        let mut w = World { pool: pool.clone(), reqs: vec![], held: vec![], next: 0, script: vec![], bell: Arc::new(tokio::sync::Notify::new()), wakes: Default::default(), ok: 0, err: 0, cancelled: 0 };
        let mut listening = true;
        for _ in 0..steps {
            match r.below(16) {
                0..=4 => w.request(),
                5 | 6 if !w.reqs.is_empty() => { let i = r.below(w.reqs.len()); let q = w.reqs.remove(i); w.script.push(format!("cancel {}", q.id)); w.cancelled += 1; drop(q); }
                7..=9 if !w.held.is_empty() => { let i = r.below(w.held.len()); let (id, h) = w.held.remove(i); w.script.push(format!("return {id}")); drop(h); }
                10 if !w.held.is_empty() => {
                    let i = r.below(w.held.len());
                    let (id, mut h) = w.held.remove(i);
                    w.script.push(format!("break and return {id}"));
                    let _ = match r.below(3) { 0 => h.execute("DIE").await, 1 => h.execute("EXC").await, _ => tokio::time::timeout(Duration::from_micros(300), h.execute("SLOW")).await.unwrap_or(Ok(())) };
                    drop(h);
                }
                11 => { let m = *r.pick(&[OPEN, OPEN, HELD, HELD, CLOSE, EXC]); mode.store(m, SeqCst); w.script.push(format!("handshakes: {}", ["answered", "held back", "closed", "refused", "ignored"][m as usize])); }
                12 if short => { mode.store(MUTE, SeqCst); w.script.push("handshakes: ignored".into()); }
                13 if r.chance(1, 2) => { if listening { srv.stop_listening(); w.script.push("server stops listening".into()); } else { srv.resume_listening(); w.script.push("server listens".into()); } listening = !listening; }
                14 => { w.script.push("wait".into()); w.settle(r, ms(4), ms(60)).await; }
                _ => {
                    // let some, not all, of the woken requests run
                    let k = r.below(3);
                    for _ in 0..k { let v: Vec<usize> = (0..w.reqs.len()).filter(|i| w.reqs[*i].flag.woken.load(SeqCst)).collect(); if v.is_empty() { break; } let i = *r.pick(&v); w.poll_one(i); }
                    if r.chance(1, 2) { tokio::time::sleep(Duration::from_micros(r.below(1500) as u64)).await; }
                }
            }
        }
        if !listening { srv.resume_listening(); w.script.push("server listens".into()); }
        mode.store(OPEN, SeqCst);
        w.script.push("handshakes: answered; everything woken runs".into());
        let mut checks = 0;
        // from now on the server answers everything: return handles one by one and look at the waiting requests
        loop {
            let t0 = Instant::now();
            loop {
                w.settle(r, ms(3), secs(20)).await;
                if w.reqs.is_empty() || w.held.len() >= max || t0.elapsed() > secs(8) { break; }
            }
            checks += 1;
            if !w.reqs.is_empty() && w.held.len() < max {
                let left: Vec<u64> = w.reqs.iter().map(|q| q.id).collect();
                let before = info(&pool);
                for q in &w.reqs { q.flag.woken.store(true, SeqCst); }
                w.script.push("  (all waiting requests are polled although nothing woke them)".into());
                w.settle(r, ms(50), secs(5)).await;
                let rest = w.reqs.len();
                return Err(format!("requests {left:?} wait although only {} of {max} connections are in use and the server answers; nothing wakes them\nthe pool before: {before:?}; after polling them anyway {rest} still wait\n{}", w.held.len(), w.script.join("\n")));
            }
            if w.held.is_empty() { break; }
            let i = r.below(w.held.len());
            let (id, h) = w.held.remove(i);
            w.script.push(format!("return {id}"));
            drop(h);
        }
        Ok((w.ok, w.err, w.cancelled, w.wakes.load(SeqCst), checks, w.script))
    }));
    ctx.eval();
    match out {
        Err(p) => ctx.violation("scripted", n, "panic", format!("panic: {p}\n{what}")),
        Ok(Err(e)) => ctx.violation("scripted", n, "stuck", format!("{e}\n{what}")),
        Ok(Ok((ok, err, cancelled, wakes, checks, script))) => {
            ctx.count("handles", ok);
            ctx.count("failed_requests", err);
            ctx.count("cancelled_requests", cancelled);
            ctx.count("wakeups", wakes);
            ctx.count("quiescent_points_checked", checks);
            ctx.distinct(&script);
            ctx.sample(|| format!("{what}: {}", script.join("; ")));
        }
    }
    drop(pool);
}

fn stress(ctx: &Ctx, n: u64, r: &mut Rng) {
    let max = r.range(1, 4);
    let min = r.range(0, max);
    let tasks = r.range(2, 30);
    let threads = r.range(2, 8);
    let faults = r.chance(1, 2);
    let slow = r.chance(1, 3);
    let hs = Arc::new(AtomicU64::new(r.u64()));
    let srv = Server::start(SrvCfg::new(serve).hello(move |c| {
        let k = Rng::new(hs.fetch_add(0x9e37, SeqCst)).u64();
        if slow { c.deaf(Duration::from_micros(k % 5000))?; }
        if faults && k % 3 == 0 { return if k % 2 == 0 { c.cut(Cut::Close) } else { c.send_exc(516, "DB::Exception", "not today", "") }; }
        let b = c.hello_bytes();
        c.send(&b)
    }));
    let pool = Pool::new(srv.url(&format!("{LIMITS}&pool_min={min}&pool_max={max}&ping_before_query=false")));
    let what = format!("pool_min={min} pool_max={max}, {tasks} tasks on {threads} threads, slow handshakes {slow}, failing handshakes {faults}");
    let rt = rt_mt(threads);
    let seed = r.u64();
    let iters = r.range(5, 30);
    let done = Arc::new(AtomicUsize::new(0));
    let held = Arc::new(AtomicUsize::new(0));
    let (handles, failed, cancelled) = (Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)), Arc::new(AtomicU64::new(0)));
    let bad: Arc<Mutex<Option<String>>> = Default::default();
    let ended = rt.block_on(async {
        let mut js = vec![];
        for t in 0..tasks {
            let (pool, done, held, bad) = (pool.clone(), done.clone(), held.clone(), bad.clone());
            let (handles, failed, cancelled) = (handles.clone(), failed.clone(), cancelled.clone());
            let mut r = Rng::new(seed ^ (t as u64 * 7919));
            js.push(tokio::spawn(async move {
                let r0 = aguard(async {
                    for _ in 0..iters {
                        let got = if r.chance(1, 3) {
                            let d = if r.chance(1, 3) { Duration::ZERO } else { Duration::from_micros(r.below(2000) as u64) };
                            match tokio::time::timeout(d, pool.get_handle()).await { Ok(x) => x, Err(_) => { cancelled.fetch_add(1, SeqCst); continue } }
                        } else { pool.get_handle().await };
                        match got {
                            Err(_) => { failed.fetch_add(1, SeqCst); }
                            Ok(mut h) => {
                                held.fetch_add(1, SeqCst);
                                handles.fetch_add(1, SeqCst);
                                match r.below(6) {
                                    0 => tokio::time::sleep(Duration::from_micros(r.below(1500) as u64)).await,
                                    1 => { let _ = h.execute("EXC").await; }
                                    2 => { let _ = tokio::time::timeout(Duration::from_micros(r.below(500) as u64), h.execute("SLOW")).await; }
                                    3 => tokio::task::yield_now().await,
                                    _ => {}
                                }
                                held.fetch_sub(1, SeqCst);
                                drop(h);
                            }
                        }
                    }
                }).await;
                if let Err(p) = r0 { bad.lock().unwrap().get_or_insert(p); }
                done.fetch_add(1, SeqCst);
            }));
        }
        // no progress at all for 25 s means that the remaining requests wait for ever
        let mut last = (0u64, Instant::now());
        loop {
            tokio::time::sleep(ms(1)).await;
            if js.iter().all(|j| j.is_finished()) { return true; }
            let k = handles.load(SeqCst) + failed.load(SeqCst) + cancelled.load(SeqCst) + done.load(SeqCst) as u64;
            if k != last.0 { last = (k, Instant::now()); }
            if last.1.elapsed() > secs(25) { return false; }
        }
    });
    ctx.eval();
    ctx.count("stress_handles", handles.load(SeqCst));
    ctx.count("stress_failed", failed.load(SeqCst));
    ctx.count("stress_cancelled", cancelled.load(SeqCst));
    ctx.distinct(&(max, min, tasks, handles.load(SeqCst), failed.load(SeqCst), cancelled.load(SeqCst)));
    if let Some(p) = bad.lock().unwrap().clone() { ctx.violation("stress", n, "panic", format!("panic: {p}\n{what}")); }
    if !ended {
        ctx.violation("stress", n, "stuck", format!("{} of {tasks} tasks still wait for a handle with {} of {max} handles in use, and nothing has happened for 25 s\n{what}\n{pool:?}", tasks - done.load(SeqCst), held.load(SeqCst)));
    }
    rt.shutdown_timeout(ms(200));
}

/// Requests that have gone leave a connection attempt behind; that it fails is not a later request's failure.
pub fn stale(ctx: &Ctx, n: u64, r: &mut Rng) {
    let (max, gone, early, how) = (r.range(1, 3), r.range(1, 3), r.chance(1, 2), r.below(3));
    let go = Arc::new(AtomicBool::new(false));
    let g = go.clone();
    let srv = Server::start(SrvCfg::new(serve).hello(move |c| {
        if c.id == 0 {
            for _ in 0..5000 { if g.load(SeqCst) { break; } std::thread::sleep(ms(1)); }
            match how { 0 => return c.cut(Cut::Close), 1 => return c.send_exc(516, "DB::Exception", "not today", ""), _ => { return c.send(&[0x77; 9]); } }
        }
        let b = c.hello_bytes();
        c.send(&b)
    }));
    let pool = Pool::new(srv.url(&format!("{LIMITS}&pool_min=1&pool_max={max}&send_retries=0&retry_timeout=0s")));
    let (polls, rests) = (r.range(1, 4), r.below(3) as u64);
    let out = block_on(secs(40), async {
        {
            let mut reqs: Vec<_> = (0..gone).map(|_| Box::pin(pool.get_handle())).collect();
            let t0 = Instant::now();
            let mut k = 0;
            // until the handshake is under way
            while k < polls || srv.log.count("hello") == 0 {
                for q in reqs.iter_mut() { if futures_util::FutureExt::now_or_never(q.as_mut()).is_some() { return Err("INFRA an attempt ended early".to_string()); } }
                tokio::time::sleep(ms(1)).await;
                k += 1;
                if t0.elapsed() > secs(4) { return Err("INFRA no handshake".to_string()); }
            }
            while reqs.len() > 0 { let i = reqs.len() / 2; drop(reqs.remove(i)); }
        }
        if early { go.store(true, SeqCst); tokio::time::sleep(ms(rests)).await; }
        let q = pool.get_handle();
        let g2 = go.clone();
        let late = async move { if !early { tokio::time::sleep(ms(2 + rests)).await; g2.store(true, SeqCst); } };
        let (h, _) = futures_util::future::join(q, late).await;
        match h {
            Err(e) => Err(format!("the request failed: {e}")),
            Ok(mut h) => match h.query("ID").fetch_all().await { Ok(b) if b.get::<u64, _>(0, 0).ok() != Some(0) => Ok(()), Ok(_) => Err("a connection that was refused was used".into()), Err(e) => Err(format!("the handle does not work: {e}")) },
        }
    });
    go.store(true, SeqCst);
    ctx.eval();
    ctx.count("stale_attempts", 1);
    ctx.distinct(&(max, gone, early, how, polls, rests));
    let what = format!("{gone} requests were given up while the first connection was being opened; it then {}, {}; every later connection works\n{}", ["is closed", "is refused", "gets garbage"][how], if early { "before the next request" } else { "while the next request waits" }, srv.log.trace());
    match out {
        Out::Done(Ok(())) => {}
        Out::Done(Err(e)) if e.starts_with("INFRA") => ctx.inconclusive(format!("stale#{n}: {e}")),
        Out::Done(Err(e)) => ctx.violation("stale", n, "stale", format!("{e}\n{what}")),
        Out::Panic(e) => ctx.violation("stale", n, "panic", format!("{e}\n{what}")),
        Out::Hang => ctx.violation("stale", n, "hang", format!("the request did not end\n{what}")),
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("scripted: a case is a random script of requests, cancellations, returns, broken connections, held back, failing and ignored handshakes and refused connects, run by an executor that polls a request only when its waker was called; then, with the server answering everything, no request may stay pending while fewer than pool_max handles are lent; distinct = script with outcomes. stress: tasks on several threads must all get through");
    ctx.assume("a request that its task was woken for is polled eventually");
    watchdog(ctx.clone(), secs(150), true);
    cases(ctx, "scripted", ctx.n(2500, 60_000), 8, secs(ctx.n(50, 900)), scripted);
    cases(ctx, "stale", ctx.n(400, 8_000), 16, secs(ctx.n(30, 200)), stale);
    cases(ctx, "stress", ctx.n(200, 8_000), 4, secs(ctx.n(40, 600)), stress);
}
