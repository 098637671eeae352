//! C12: server exceptions are reported faithfully and leave the handle usable.
use crate::drv::diff_table;
use crate::kit::*;
use crate::model::*;
use crate::ops::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::errors::Error;
use clickhouse_rs::Pool;
use futures_util::StreamExt;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Exc { code: u32, name: String, msg: String, stack: String, nested: bool }

fn text(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "DB::Exception: Table default.t doesn't exist. ".into(),
        2 => "код ошибки: 日本 😀 \"quoted\" 'x' \\ \n\t\0 %s {}".into(),
        3 => "x".repeat(r.range(100, 40_000)),
        4 => "é".repeat(r.range(60, 70)),
        _ => (0..r.range(1, 30)).map(|_| (b' ' + r.below(95) as u8) as char).collect(),
    }
}

impl Exc {
    fn gen(r: &mut Rng) -> Exc {
        let code = match r.below(5) { 0 => 0, 1 => u32::MAX, 2 => r.u64() as u32, _ => r.below(1000) as u32 };
        Exc { code, name: if r.chance(1, 2) { "DB::Exception".into() } else { text(r) }, msg: text(r), stack: text(r), nested: r.chance(1, 4) }
    }
    fn send(&self, c: &mut Conn) -> Result<(), String> {
        let mut b = exception(self.code, &self.name, &self.msg, &self.stack);
        if self.nested { *b.last_mut().unwrap() = 1; b.extend(&exception(1, "Nested", "inner", "inner stack")[1..]); }
        c.log.push(c.id, Ev::Exc);
        c.send(&b)
    }
    fn same(&self, e: &Error) -> Option<String> {
        match e {
            Error::Server(s) if s.code == self.code && s.name == self.name && s.message == self.msg && s.stack_trace == self.stack => None,
            Error::Server(s) => Some(format!("reported code {} name {:?} message {:?} ({} bytes) stack {:?}, the server sent {} {:?} {:?} ({} bytes) {:?}", s.code, s.name, cut(&s.message), s.message.len(), cut(&s.stack_trace), self.code, self.name, cut(&self.msg), self.msg.len(), cut(&self.stack))),
            e => Some(format!("reported as {}", cut(&e.to_string()))),
        }
    }
}
fn cut(s: &str) -> String { s.chars().take(80).collect() }

fn noise(c: &mut Conn, r: &mut Rng) -> Result<(), String> {
    for _ in 0..r.below(3) { let b = if r.chance(1, 2) { c.progress_bytes(r.u64() >> 20, 3, 4) } else { c.profile_bytes(7) }; c.send(&b)?; }
    Ok(())
}

const BAD: u64 = 1_000_000;

pub fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let exc = Arc::new(Exc::gen(r));
    let op = *r.pick(&[Op::Ping, Op::Fetch, Op::Blocks, Op::Rows, Op::Exec, Op::Insert, Op::Fetch, Op::Insert]);
    let pos = r.below(4);
    let ping = op != Op::Ping && r.chance(2, 3);
    let rev = *r.pick(&REVS);
    let compress = r.chance(1, 3);
    let max = r.range(1, 3);
    let ping_bad = Arc::new(AtomicBool::new(false));
    let ws = r.u64();
    let ns = r.u64();
    let cfg = {
        let (s2, e2) = (sc.clone(), exc.clone());
        let (e3, pb) = (exc.clone(), ping_bad.clone());
        SrvCfg::new(move |c, q| {
            match parse_sql(&q.sql) {
                Some((kind, i, tag)) if tag >= BAD => {
                    let mut r = Rng::new(ns);
                    match kind {
                        Kind::Select => {
                            if pos > 0 { c.send_data(&s2.answer(i, tag).parts[0].header())?; noise(c, &mut r)?; }
                            for p in s2.answer(i, tag).parts.iter().take(pos.saturating_sub(1)) { if p.rows() > 0 { c.send_data(p)?; noise(c, &mut r)?; } }
                            e2.send(c)
                        }
                        Kind::Exec => { if pos > 1 { noise(c, &mut r)?; } e2.send(c) }
                        Kind::Insert => {
                            if pos == 0 { return e2.send(c); }
                            if pos == 1 { send_columns(c)?; return e2.send(c); }
                            c.send_data(&s2.table(i, tag).header())?;
                            while c.recv_data()?.is_some() {}
                            e2.send(c)
                        }
                    }
                }
                _ => s2.serve(c, q),
            }
        }).rev(rev).wire(move |id| gen_wire(&mut Rng::new(ws ^ id))).ping(move |c| if pb.swap(false, SeqCst) { e3.send(c) } else { c.send(&[4]) })
    };
    let srv = Server::start(cfg);
    let min = r.below(max + 1);
    let pool = Pool::new(srv.url(&format!("{LIMITS}&pool_min={min}&pool_max={max}&ping_before_query={ping}&retry_timeout=1ms{}", if compress { "&compression=lz4" } else { "" })));
    let times = r.range(1, 5);
    let good: Vec<Op> = (0..3).map(|_| *r.pick(&OPS)).collect();
    ctx.eval();
    ctx.distinct(&(exc.code, exc.msg.len(), op, pos, ping, rev, compress, times, max, min));
    ctx.count(&format!("{op:?} at {pos}"), 1);
    let desc = format!("{op:?}, exception at stage {pos}{}, ping_before_query={ping}, compression={compress}, revision {rev}, pool_min={min} pool_max={max}, {times} times", if exc.nested { " with a nested one" } else { "" });
    let v = |sig: &str, d: String| ctx.violation("ops", n, sig, format!("{desc}: {d}\n{}", srv.log.trace()));
    let out = block_on(MAX, async {
        let mut h = handle(&pool).await.map_err(|e| ("handle", e))?;
        for t in 0..times {
            if op == Op::Ping { ping_bad.store(true, SeqCst); }
            let tag = BAD + t as u64;
            let e = if op == Op::Blocks {
                // the blocks before the exception are delivered
                let mut s = h.query(sql_of(op, 0, tag)).stream_blocks();
                let mut got = vec![];
                let e = loop { match s.next().await { Some(Ok(b)) => got.push(crate::drv::read_block(&b).map_err(|e| ("block", e.to_string()))?), Some(Err(e)) => break Some(e), None => break None } };
                let want: Vec<Table> = sc.answer(0, tag).parts.into_iter().take(pos.saturating_sub(1)).filter(|p| p.rows() > 0).collect();
                if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| diff_table(b, a).is_some()) { return Err(("before", format!("{} blocks were delivered before the exception, the server sent {}", got.len(), want.len()))); }
                e
            } else { do_op(&mut h, &sc, op, 0, tag).await.err() };
            match e {
                None => return Err(("success", "an operation answered with an exception succeeded".into())),
                Some(e) => if let Some(d) = exc.same(&e) { return Err(("report", d)); },
            }
            // the handle (with the check on) and the pool go on
            for (k, g) in good.iter().enumerate() {
                if !ping && k == 0 { drop(h); h = handle(&pool).await.map_err(|e| ("later handle", e))?; }
                let tag = (t * 10 + k) as u64 + 1;
                let g = if *g == Op::Ping && ping { Op::Exec } else { *g };
                match do_op(&mut h, &sc, g, k % 2, tag).await { Ok(x) => if let Some(d) = sc.check(g, k % 2, tag, &x) { return Err(("later data", d)); }, Err(e) => return Err(("later", format!("{g:?} after the exception failed: {e}"))) }
            }
            if t % 2 == 1 { drop(h); h = handle(&pool).await.map_err(|e| ("later handle", e))?; }
        }
        Ok(())
    });
    match out { Out::Done(Ok(())) => ctx.count("exceptions compared", times as u64), Out::Done(Err((s, d))) => v(s, d), Out::Panic(p) => v("panic", p), Out::Hang => v("hang", "no end".into()) }
    if let Some(b) = srv.log.bad() { v("protocol", b); }
}

/// Exceptions in the handshake.
pub fn hello(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let exc = Arc::new(Exc::gen(r));
    let bad = Arc::new(AtomicBool::new(true));
    let (b2, e2) = (bad.clone(), exc.clone());
    let ws = r.u64();
    let srv = Server::start(sc.cfg().wire(move |id| gen_wire(&mut Rng::new(ws ^ id))).hello(move |c| if b2.load(SeqCst) { e2.send(c) } else { let b = c.hello_bytes(); c.send(&b) }));
    let max = r.range(1, 3);
    let pool = Pool::new(srv.url(&format!("{LIMITS}&pool_min=1&pool_max={max}&retry_timeout=1ms")));
    let times = r.range(1, 6);
    ctx.eval();
    ctx.distinct(&(exc.clone(), times));
    let v = |sig: &str, d: String| ctx.violation("hello", n, sig, format!("exception in the handshake, pool_max={max}: {d}\n{}", srv.log.trace()));
    let out = block_on(MAX, async {
        for _ in 0..times {
            match pool.get_handle().await { Ok(_) => return Err(("success", "a handle was given out".to_string())), Err(e) => if let Some(d) = exc.same(&e) { return Err(("report", d)); } }
        }
        bad.store(false, SeqCst);
        let mut hs = vec![];
        for _ in 0..max { hs.push(pool.get_handle().await.map_err(|e| ("later", e.to_string()))?); }
        for h in &mut hs { do_op(h, &sc, Op::Fetch, 0, 1).await.map_err(|e| ("later", e.to_string()))?; }
        Ok(())
    });
    match out { Out::Done(Ok(())) => ctx.count("exceptions compared", times as u64), Out::Done(Err((s, d))) => v(s, d), Out::Panic(p) => v("panic", p), Out::Hang => v("hang", "no end".into()) }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("an operation the server answers with an exception fails with Error::Server carrying the sent code, name, message and stack trace; blocks sent before it are delivered; later operations on the handle (pre-query check on) and on handles of the pool succeed with their own answers");
    ctx.assume("without the pre-query check the handle that met the exception is given back and a new one taken");
    watchdog(ctx.clone(), secs(150), true);
    let t = |a: u64, b: u64| secs(if ctx.thorough { b } else { a });
    cases(ctx, "ops", ctx.n(2500, 40_000), 12, t(40, 300), case);
    cases(ctx, "hello", ctx.n(400, 6_000), 12, t(20, 100), hello);
}
