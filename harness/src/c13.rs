//! C13: configured time limits bound every operation.
use crate::kit::*;
use crate::ops::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::errors::{DriverError, Error};
use clickhouse_rs::{Options, Pool};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Lim { Conn, Ping, Query, Insert, Exec }
const LIMS: [Lim; 5] = [Lim::Conn, Lim::Ping, Lim::Query, Lim::Insert, Lim::Exec];

/// connection, ping, query, insert, execute; None = "none"
fn options(r: &mut Rng, srv: &Server, lims: [Option<Duration>; 5], ping: bool, extra: &str) -> Pool {
    if r.chance(1, 2) {
        let f = |d: Option<Duration>| d.map(|d| format!("{}ms", d.as_millis())).unwrap_or("none".into());
        Pool::new(srv.url(&format!("connection_timeout={}&ping_timeout={}&query_timeout={}&insert_timeout={}&execute_timeout={}&ping_before_query={ping}{extra}", f(lims[0]), f(lims[1]), f(lims[2]), f(lims[3]), f(lims[4]))))
    } else {
        let o: Options = srv.url(&extra[1..]).parse().expect("INFRA options");
        Pool::new(o.connection_timeout(lims[0].unwrap()).ping_timeout(lims[1].unwrap()).query_timeout(lims[2].unwrap()).insert_timeout(lims[3]).execute_timeout(lims[4]).ping_before_query(ping))
    }
}

const BAD: u64 = 1_000_000;
/// How late the machine may make us.
const SLACK: Duration = Duration::from_secs(9);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Stall { Silent, Partial, Drip, Deaf }

/// The server's answer is held back at a stage: silently, in the middle of a packet, or while progress keeps arriving.
fn hold(c: &mut Conn, stall: Stall, d: Duration, frac: &[u8]) -> Result<(), String> {
    match stall {
        Stall::Silent => { c.deaf(d)?; }
        Stall::Deaf => { c.deaf(d)?; }
        Stall::Partial => { let k = frac.len() / 2; c.send(&frac[..k])?; c.deaf(d)?; c.send(&frac[k..])?; return Ok(()); }
        Stall::Drip => { let end = Instant::now() + d; while Instant::now() < end { let b = c.progress_bytes(1, 2, 3); c.send(&b)?; c.deaf(ms(15))?; } }
    }
    if !frac.is_empty() { c.send(frac)?; }
    Ok(())
}

struct Late { sc: Arc<Scene>, stage: usize, stall: Stall, delay: Duration }
impl Late {
    /// Answers statements with tag >= BAD late, the others at once.
    fn serve(&self, c: &mut Conn, q: &QueryReq) -> Result<(), String> {
        match parse_sql(&q.sql) {
            Some((Kind::Select, i, tag)) if tag >= BAD => {
                let a = self.sc.answer(i, tag);
                let h = c.data_bytes(&a.parts[0].header(), &a.opt);
                if self.stage == 0 { hold(c, self.stall, self.delay, &h)?; } else { c.send(&h)?; }
                for (k, p) in a.parts.iter().filter(|p| p.rows() > 0).enumerate() {
                    let b = c.data_bytes(p, &a.opt);
                    if self.stage == 1 && k == 0 { hold(c, self.stall, self.delay, &b)?; } else { c.send(&b)?; }
                }
                if self.stage > 1 { hold(c, if self.stall == Stall::Partial { Stall::Silent } else { self.stall }, self.delay, &[])?; }
                c.send_eos()
            }
            Some((Kind::Exec, _, tag)) if tag >= BAD => { hold(c, if self.stall == Stall::Partial { Stall::Silent } else { self.stall }, self.delay, &[])?; c.send_eos() }
            Some((Kind::Insert, i, tag)) if tag >= BAD => {
                let t = self.sc.table(i, tag).header();
                let h = c.data_bytes(&t, &Default::default());
                let s = if self.stall == Stall::Drip { Stall::Silent } else { self.stall };
                if self.stage == 0 { hold(c, s, self.delay, &h)?; } else { c.send(&h)?; }
                while c.recv_data()?.is_some() {}
                if self.stage > 0 { hold(c, if s == Stall::Partial { Stall::Silent } else { s }, self.delay, &[])?; }
                c.send_eos()
            }
            _ => self.sc.serve(c, q),
        }
    }
}

fn op_of(l: Lim) -> Option<Op> { match l { Lim::Conn => None, Lim::Ping => Some(Op::Ping), Lim::Query => Some(Op::Fetch), Lim::Insert => Some(Op::Insert), Lim::Exec => Some(Op::Exec) } }

fn is_timeout(e: &Error) -> bool { matches!(e, Error::Driver(DriverError::Timeout)) || matches!(e, Error::Io(x) if x.kind() == std::io::ErrorKind::TimedOut) }

struct Setup { srv: Server, gate: Arc<AtomicBool>, sc: Arc<Scene> }
fn setup(r: &mut Rng, stage: usize, stall: Stall, delay: Duration, hello_sleep: Duration, once: bool) -> Setup {
    let sc = Arc::new(Scene::gen(r));
    let late = Late { sc: sc.clone(), stage, stall, delay };
    // whether handshakes and pings are held back
    let gate = Arc::new(AtomicBool::new(false));
    let (g1, g2) = (gate.clone(), gate.clone());
    let first = AtomicU64::new(0);
    let srv = Server::start(SrvCfg::new(move |c, q| late.serve(c, q)).hello(move |c| {
        let b = c.hello_bytes();
        if g1.load(SeqCst) && !(once && first.fetch_add(1, SeqCst) > 0) { if stall == Stall::Partial { c.send(&b[..5])?; c.deaf(hello_sleep)?; return c.send(&b[5..]); } c.deaf(hello_sleep)?; }
        c.send(&b)
    }).ping(move |c| { if g2.load(SeqCst) { c.deaf(hello_sleep)?; } c.send(&[4]) }));
    Setup { srv, gate, sc }
}

/// The server stalls: a timeout error after the operation's own limit, and nothing left behind.
pub fn stalls(ctx: &Ctx, n: u64, r: &mut Rng) {
    let lim = *r.pick(&LIMS);
    let l = ms(r.range(80, 400) as u64);
    let stage = r.below(3);
    let stall = *r.pick(&[Stall::Silent, Stall::Partial, Stall::Drip]);
    // the answer comes at some time after the limit, or only when the server is shut down
    let late = if r.chance(1, 2) { l + ms(r.range(100, 500) as u64) } else { secs(100) };
    let s = setup(r, stage, stall, late, late, false);
    let mut lims = [Some(secs(40)); 5];
    lims[LIMS.iter().position(|x| *x == lim).unwrap()] = Some(l);
    // a connection whose answer never comes costs a later operation its ping limit
    if late > secs(50) && lim != Lim::Ping { lims[1] = Some(ms(1500)); }
    if lim != Lim::Insert && r.chance(1, 4) { lims[3] = None; }
    if lim != Lim::Exec && r.chance(1, 4) { lims[4] = None; }
    let ping = lim != Lim::Ping && lim != Lim::Conn && r.chance(1, 2);
    let compress = r.chance(1, 4);
    let pool = options(r, &s.srv, lims, ping, &format!("&pool_min=1&pool_max=1&retry_timeout=1ms&send_retries=2{}", if compress { "&compression=lz4" } else { "" }));
    let mut again: Vec<Op> = (0..2).map(|_| *r.pick(&[Op::Fetch, Op::Exec, Op::Insert, Op::Rows, Op::Blocks])).collect();
    // without the check the next operation itself waits for the rest of the answer: take one with a short limit
    if lim == Lim::Query && !ping && late > secs(50) { again[0] = Op::Fetch; }
    let keep = ping && r.chance(1, 2);
    ctx.eval();
    ctx.distinct(&(lim, stage, stall, ping, late > secs(50), l.as_millis() as u64 / 40));
    ctx.count(&format!("stalled {lim:?}"), 1);
    let desc = format!("{lim:?} limit {l:?}, {stall:?} stall at stage {stage} for {late:?}, ping_before_query={ping}");
    let v = |sig: &str, d: String| ctx.violation("stalls", n, sig, format!("{desc}: {d}\n{}", s.srv.log.trace()));
    let out = block_on(secs(100), async {
        let mut h = None;
        if lim != Lim::Conn { h = Some(handle(&pool).await.map_err(|e| ("SETUP", e))?); }
        if lim == Lim::Conn || lim == Lim::Ping { s.gate.store(true, SeqCst); }
        let t0 = Instant::now();
        let e = match op_of(lim) {
            None => pool.get_handle().await.err(),
            Some(op) => do_op(h.as_mut().unwrap(), &s.sc, op, 0, BAD).await.err(),
        };
        let took = t0.elapsed();
        match e {
            None => return Err(("success", format!("succeeded after {took:?}"))),
            Some(e) if !is_timeout(&e) => return Err(("kind", format!("failed after {took:?} with {e}"))),
            Some(_) => {}
        }
        if took + ms(5) < l { return Err(("early", format!("timed out after {took:?}"))); }
        if took > l + SLACK { return Err(("late", format!("timed out only after {took:?}"))); }
        s.gate.store(false, SeqCst);
        // the answer may be under way while the next operations run, or have arrived before them
        if r.chance(1, 2) { tokio::time::sleep(ms(r.range(0, 700) as u64)).await; }
        let mut h = if keep { h.unwrap() } else { drop(h); pool.get_handle().await.map_err(|e| ("later handle", e.to_string()))? };
        for (k, op) in again.iter().enumerate() {
            if k == 1 && !ping { drop(h); h = pool.get_handle().await.map_err(|e| ("later handle", e.to_string()))?; }
            match do_op(&mut h, &s.sc, *op, k, 7 + k as u64).await { Ok(g) => if let Some(d) = s.sc.check(*op, k, 7 + k as u64, &g) { return Err(("leftover", d)); },
                // the rest of the abandoned answer is still awaited within the limit of the later operation
                Err(e) if is_timeout(&e) && lim == Lim::Query && k == 0 => { ctx.count("later operation timed out", 1); drop(h); h = pool.get_handle().await.map_err(|e| ("later handle", e.to_string()))?; }
                Err(e) => return Err(("later", format!("{op:?} after the timeout failed: {e}"))) }
        }
        Ok(took)
    });
    match out { Out::Done(Ok(_)) => ctx.count("timeouts observed", 1), Out::Done(Err(("SETUP", e))) => ctx.inconclusive(e), Out::Done(Err((k, d))) => v(k, d), Out::Panic(p) => v("panic", p), Out::Hang => v("hang", "no end after 100 s".into()) }
}

/// Answers that take longer than every other limit but not than the operation's own are delivered.
pub fn in_time(ctx: &Ctx, n: u64, r: &mut Rng) {
    let lim = *r.pick(&LIMS);
    let delay = ms(r.range(1000, 1300) as u64);
    let small = ms(800);
    let stage = r.below(3);
    let stall = *r.pick(&[Stall::Silent, Stall::Partial, Stall::Drip]);
    let s = setup(r, stage, stall, delay, delay, true);
    let none = matches!(lim, Lim::Insert | Lim::Exec) && r.chance(1, 2);
    let mut lims = [Some(small); 5];
    lims[LIMS.iter().position(|x| *x == lim).unwrap()] = if none { None } else { Some(secs(40)) };
    let pool = options(r, &s.srv, lims, false, "&pool_min=1&pool_max=2&retry_timeout=1ms&send_retries=1");
    ctx.eval();
    ctx.distinct(&(lim, stage, stall, none, delay.as_millis() as u64 / 20));
    ctx.count(&format!("answered {lim:?}{}", if none { " without limit" } else { "" }), 1);
    let desc = format!("{lim:?} limit {}, other limits {small:?}, {stall:?} stall at stage {stage} for {delay:?}", if none { "none" } else { "40 s" });
    let v = |sig: &str, d: String| ctx.violation("in_time", n, sig, format!("{desc}: {d}\n{}", s.srv.log.trace()));
    let out = block_on(secs(100), async {
        let mut h = None;
        if lim != Lim::Conn { h = Some(handle(&pool).await.map_err(|e| ("SETUP", e))?); }
        if lim == Lim::Conn || lim == Lim::Ping { s.gate.store(true, SeqCst); }
        let t0 = Instant::now();
        match op_of(lim) {
            None => { pool.get_handle().await.map_err(|e| ("cut short", format!("failed after {:?} with {e}", t0.elapsed())))?; }
            Some(op) => { let g = do_op(h.as_mut().unwrap(), &s.sc, op, 0, BAD).await.map_err(|e| ("cut short", format!("failed after {:?} with {e}", t0.elapsed())))?; if let Some(d) = s.sc.check(op, 0, BAD, &g) { return Err(("data", d)); } }
        }
        Ok(())
    });
    match out { Out::Done(Ok(_)) => ctx.count("late answers delivered", 1), Out::Done(Err(("SETUP", e))) => ctx.inconclusive(e), Out::Done(Err((k, d))) => v(k, d), Out::Panic(p) => v("panic", p), Out::Hang => v("hang", "no end after 100 s".into()) }
}

/// Replacing a dead connection: each fresh attempt has the connection limit; the operation's own limit covers all of it.
pub fn reconnect(ctx: &Ctx, n: u64, r: &mut Rng) {
    let op = *r.pick(&[Op::Fetch, Op::Insert, Op::Exec]);
    let own = r.chance(1, 2);
    let l = ms(r.range(100, 300) as u64);
    let tries = r.range(1, 2) as u32;
    let s = setup(r, 0, Stall::Silent, secs(100), secs(100), false);
    let mut lims = [Some(secs(40)); 5];
    if own { lims[match op { Op::Fetch => 2, Op::Insert => 3, _ => 4 }] = Some(l); } else { lims[0] = Some(l); }
    let pool = options(r, &s.srv, lims, true, &format!("&pool_min=1&pool_max=2&retry_timeout=1ms&send_retries={tries}"));
    ctx.eval();
    ctx.distinct(&(op, own, tries, l.as_millis() as u64 / 10));
    ctx.count(if own { "reconnect within own limit" } else { "reconnect within connection limit" }, 1);
    let desc = format!("{op:?} on a dead connection, {} limit {l:?}, {tries} retries, the server stalls in the handshake", if own { "own" } else { "connection" });
    let v = |sig: &str, d: String| ctx.violation("reconnect", n, sig, format!("{desc}: {d}\n{}", s.srv.log.trace()));
    let out = block_on(secs(100), async {
        let mut h = handle(&pool).await.map_err(|e| ("SETUP", e))?;
        s.gate.store(true, SeqCst);
        s.srv.kill_all();
        let t0 = Instant::now();
        let e = do_op(&mut h, &s.sc, op, 0, 3).await.err();
        let took = t0.elapsed();
        let want = if own { l } else { l * tries };
        match e { None => return Err(("success", "succeeded".to_string())), Some(e) if !is_timeout(&e) => return Err(("kind", format!("failed after {took:?} with {e}"))), Some(_) => {} }
        if took + ms(8) < want { return Err(("early", format!("timed out after {took:?}"))); }
        if took > want + SLACK { return Err(("late", format!("timed out only after {took:?}"))); }
        Ok(())
    });
    match out { Out::Done(Ok(_)) => ctx.count("timeouts observed", 1), Out::Done(Err(("SETUP", e))) => ctx.inconclusive(e), Out::Done(Err((k, d))) => v(k, d), Out::Panic(p) => v("panic", p), Out::Hang => v("hang", "no end after 100 s".into()) }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a stalled connect, ping, fetch, insert or execute fails with a timeout error not before its own limit and not much after it (all other limits far away); one answered later than every other limit but within its own, or with its limit disabled, succeeds; later operations get their own answers");
    ctx.assume("limits apply to opening one connection, a ping, fetch_all, insert and execute; waiting for a free pool slot and the streaming reads have none");
    watchdog(ctx.clone(), secs(150), true);
    let t = |a: u64, b: u64| secs(if ctx.thorough { b } else { a });
    cases(ctx, "in_time", ctx.n(200, 4_000), 32, t(30, 200), in_time);
    cases(ctx, "stalls", ctx.n(700, 20_000), 32, t(40, 300), stalls);
    cases(ctx, "reconnect", ctx.n(200, 4_000), 24, t(30, 150), reconnect);
}
