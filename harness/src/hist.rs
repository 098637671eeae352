//! Random histories of operations over a pool, with server faults and abandoned requests; used by C05 and C22.
use crate::kit::*;
use crate::model::*;
use crate::ops::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::errors::{DriverError, Error};
use clickhouse_rs::Pool;
use futures_util::StreamExt;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// The executor the client's tasks run on: that of the driver's own runtime.
#[cfg(not(feature = "async_std"))]
mod ex {
    pub use tokio::{spawn, time::{sleep, timeout}};
    pub fn block_on<T>(rt: &tokio::runtime::Runtime, f: impl std::future::Future<Output = T>) -> T { rt.block_on(f) }
}
#[cfg(feature = "async_std")]
mod ex {
    pub use async_std::{future::timeout, task::{sleep, spawn}};
    pub fn block_on<T>(_: &tokio::runtime::Runtime, f: impl std::future::Future<Output = T>) -> T { async_std::task::block_on(f) }
}

/// How the server treats one statement.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Beh { Normal, Exc(usize), Slow(usize, u64), Close(usize, u8) }

/// What the client does with one request.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act { Finish, Abandon(usize), Cancel(u64), Unpolled }

#[derive(Clone, Debug)]
pub struct Step { pub tag: u64, pub op: Op, pub i: usize, pub beh: Beh, pub act: Act, pub fresh: bool, pub sleep: u64 }

#[derive(Debug)]
pub enum Res { Ok(Got), Partial(Vec<Table>), Server(u32, String), Timeout, Err(String), Cancelled, NoHandle(String), Panic(String) }

pub struct Plan { pub tasks: Vec<Vec<Step>>, pub sc: Arc<Scene>, pub params: String, pub ping: bool, pub short: bool, pub closes: bool, pub threads: usize, pub cancel_rule: u8, pub rev: u64 }

pub fn gen_plan(r: &mut Rng, closes_w: usize) -> Plan {
    let sc = Arc::new(Scene::gen(r));
    let nt = *r.pick(&[1usize, 1, 2, 3]);
    let ping = r.chance(1, 2);
    let short = r.chance(1, 5);
    let mut tag = 100;
    let mut tasks = vec![];
    let closing = r.chance(closes_w, 10);
    for _ in 0..nt {
        let mut v = vec![];
        for k in 0..r.range(2, 7) {
            tag += 1;
            let op = *r.pick(&OPS);
            let beh = match r.below(12) {
                0 | 1 => Beh::Exc(r.below(4)),
                2 | 3 | 4 => Beh::Slow(r.below(4), r.range(1, 30) as u64),
                5 | 6 if closing => Beh::Close(r.below(4), r.below(3) as u8),
                _ => Beh::Normal,
            };
            let act = match r.below(10) {
                0 | 1 if matches!(op, Op::Blocks | Op::Rows) => Act::Abandon(r.below(4)),
                2 => Act::Cancel(r.range(0, 20) as u64),
                3 if matches!(op, Op::Blocks | Op::Rows) => Act::Unpolled,
                4 if matches!(op, Op::Blocks | Op::Rows) => Act::Abandon(r.below(3)),
                _ => Act::Finish,
            };
            v.push(Step { tag, op, i: r.below(2), beh, act, fresh: k == 0 || r.chance(1, 2), sleep: if r.chance(1, 3) { r.range(0, 15) as u64 } else { 0 } });
        }
        tasks.push(v);
    }
    let max = r.range(1, 3);
    let min = r.range(0, max);
    let lim = if short { "connection_timeout=60s&ping_timeout=60s&query_timeout=20ms&insert_timeout=20ms&execute_timeout=20ms" } else { LIMITS };
    let params = format!("{lim}&pool_min={min}&pool_max={max}&ping_before_query={ping}&retry_timeout=5ms&send_retries=3{}", if r.chance(1, 2) { "&compression=lz4" } else { "" });
    Plan { tasks, sc, params, ping, short, closes: closing, threads: *r.pick(&[0usize, 0, 2, 4]), cancel_rule: r.below(2) as u8, rev: *r.pick(&[54429u64, 54429, 54406]) }
}

fn act_at(c: &mut Conn, beh: Beh, at: usize, tag: u64) -> Result<bool, String> {
    match beh {
        Beh::Exc(k) if k == at => { c.send_exc(5000 + tag as u32, "DB::Exception", &format!("failed tag {tag}"), "0. here")?; return Ok(true); }
        Beh::Close(k, how) if k == at => return c.cut(match how { 0 => Cut::Fin, 1 => Cut::Close, _ => Cut::Rst }).map(|_| true),
        Beh::Slow(k, ms) if k == at => { c.pause(Duration::from_millis(ms))?; }
        _ => {}
    }
    Ok(false)
}

pub fn serve(sc: &Scene, behs: &HashMap<u64, Beh>, rule: u8, c: &mut Conn, q: &QueryReq) -> Result<(), String> {
    let (kind, i, tag) = parse_sql(&q.sql).ok_or(format!("BAD statement {:?}", q.sql))?;
    let beh = *behs.get(&tag).unwrap_or(&Beh::Normal);
    match kind {
        Kind::Select => {
            let a = sc.answer(i, tag);
            let mut bs = vec![c.data_bytes(&a.parts[0].header(), &a.opt)];
            for p in &a.parts { bs.push(c.data_bytes(p, &a.opt)); }
            let last = bs.len();
            // a fault point beyond the end means "just before the end"
            let beh = match beh { Beh::Exc(k) => Beh::Exc(k.min(last)), Beh::Close(k, h) => Beh::Close(k.min(last), h), b => b };
            for (k, b) in bs.iter().enumerate() {
                if rule == 0 && c.check_cancel()? { return c.send_eos(); }
                if act_at(c, beh, k, tag)? { return Ok(()); }
                if rule == 0 && c.check_cancel()? { return c.send_eos(); }
                let p = c.progress_bytes(tag, 1, 1);
                c.send(&p)?;
                c.send(b)?;
            }
            if act_at(c, beh, last, tag)? { return Ok(()); }
            c.send_eos()
        }
        Kind::Exec => {
            let beh = match beh { Beh::Exc(k) => Beh::Exc(k.min(1)), Beh::Close(k, h) => Beh::Close(k.min(1), h), b => b };
            if act_at(c, beh, 0, tag)? { return Ok(()); }
            let p = c.progress_bytes(tag, 1, 1);
            c.send(&p)?;
            if act_at(c, beh, 1, tag)? { return Ok(()); }
            c.send_eos()
        }
        Kind::Insert => {
            let beh = match beh { Beh::Exc(k) => Beh::Exc(k % 2), Beh::Close(k, h) => Beh::Close(k % 2, h), b => b };
            if act_at(c, beh, 0, tag)? { return Ok(()); }
            c.send_data(&sc.table(i, tag).header())?;
            while c.recv_data()?.is_some() {}
            if c.cancelled { c.cancelled = false; }
            if act_at(c, beh, 1, tag)? { return Ok(()); }
            c.send_eos()
        }
    }
}

fn classify(r: Result<Got, Error>) -> Res {
    match r {
        Ok(g) => Res::Ok(g),
        Err(Error::Server(e)) => Res::Server(e.code, e.message),
        Err(Error::Driver(DriverError::Timeout)) => Res::Timeout,
        Err(e) => Res::Err(e.to_string()),
    }
}

async fn step(h: &mut clickhouse_rs::ClientHandle, sc: &Scene, s: &Step) -> Res {
    match s.act {
        Act::Finish => match aguard(do_op(h, sc, s.op, s.i, s.tag)).await { Ok(x) => classify(x), Err(p) => Res::Panic(p) },
        Act::Cancel(ms) => match aguard(ex::timeout(Duration::from_millis(ms), do_op(h, sc, s.op, s.i, s.tag))).await { Ok(Ok(x)) => classify(x), Ok(Err(_)) => Res::Cancelled, Err(p) => Res::Panic(p) },
        Act::Unpolled => { let sql = sql_of(s.op, s.i, s.tag); drop(h.query(sql.as_str()).stream_blocks()); Res::Cancelled }
        Act::Abandon(n) => {
            let sql = sql_of(s.op, s.i, s.tag);
            let r = aguard(async {
                let mut got = vec![];
                if s.op == Op::Blocks {
                    let mut st = h.query(sql.as_str()).stream_blocks();
                    for _ in 0..n { match st.next().await { Some(Ok(b)) => got.push(crate::drv::read_block(&b).map_err(Error::from)?), Some(Err(e)) => return Err(e), None => break } }
                } else {
                    let mut st = h.query(sql.as_str()).stream();
                    for _ in 0..n {
                        match st.next().await {
                            Some(Ok(row)) => { let mut t = sc.answer(s.i, s.tag).parts[0].header(); if row.len() != t.cols.len() { return Err(Error::from("HARNESS width".to_string())); } for (ci, c) in t.cols.iter_mut().enumerate() { c.vals.push(row.get::<crate::drv::Any, _>(ci)?.0); } got.push(t) }
                            Some(Err(e)) => return Err(e),
                            None => break,
                        }
                    }
                }
                Ok(got)
            }).await;
            match r { Err(p) => Res::Panic(p), Ok(Ok(v)) => Res::Partial(v), Ok(Err(e)) => classify(Err(e)) }
        }
    }
}

pub struct Done { pub s: Step, pub res: Res, pub handle_clean: bool }

pub enum Ran { Ok(Vec<Done>), Hang }

pub fn run_plan(plan: &Plan, srv: &Server) -> Ran { match run_plan_marked(plan, srv) { Some(v) => Ran::Ok(v.into_iter().map(|x| x.0).collect()), None => Ran::Hang } }

/// Each finished operation with the number of server events there were when it returned.
pub fn run_plan_marked(plan: &Plan, srv: &Server) -> Option<Vec<(Done, usize)>> {
    let rt = if plan.threads == 0 { rt() } else { rt_mt(plan.threads) };
    let out = Arc::new(Mutex::new(vec![]));
    let pool = Pool::new(srv.url(&plan.params));
    let res = ex::block_on(&rt, async {
        let mut js = vec![];
        for t in &plan.tasks {
            let (pool, t, sc, out, log) = (pool.clone(), t.clone(), plan.sc.clone(), out.clone(), srv.log.clone());
            js.push(ex::spawn(async move {
                let mut h = None;
                let mut clean = true;
                for s in t {
                    if s.fresh { h = None; }
                    if s.sleep > 0 { ex::sleep(Duration::from_millis(s.sleep)).await; }
                    if h.is_none() {
                        clean = true;
                        match aguard(async { pool.get_handle().await }).await {
                            Ok(Ok(x)) => h = Some(x),
                            Ok(Err(e)) => { out.lock().unwrap().push((Done { s, res: Res::NoHandle(e.to_string()), handle_clean: true }, log.len())); continue; }
                            Err(p) => { out.lock().unwrap().push((Done { s, res: Res::Panic(p), handle_clean: true }, log.len())); continue; }
                        }
                    }
                    let res = step(h.as_mut().unwrap(), &sc, &s).await;
                    let was = clean;
                    clean = clean && matches!(res, Res::Ok(_));
                    let m = log.len();
                    out.lock().unwrap().push((Done { s, res, handle_clean: was }, m));
                }
            }));
        }
        ex::timeout(secs(90), async { for j in js { let _ = j.await; } }).await
    });
    drop(pool);
    if plan.threads > 0 { rt.shutdown_timeout(secs(1)); }
    if res.is_err() { return None; }
    let v = std::mem::take(&mut *out.lock().unwrap());
    Some(v)
}

pub fn describe(plan: &Plan, done: &[Done], log: &Log) -> String {
    let mut s = format!("url parameters: {}\nthreads {}, server reacts to Cancel: {}\n", plan.params, plan.threads, plan.cancel_rule == 0);
    for (k, t) in plan.tasks.iter().enumerate() {
        for x in t {
            let d = done.iter().find(|d| d.s.tag == x.tag).map(|d| format!("{:?}", d.res).chars().take(200).collect::<String>()).unwrap_or("(did not end)".into());
            s.push_str(&format!("  task {k}{}: {:?} tag {} server {:?} client {:?} -> {d}\n", if x.fresh { " new handle" } else { "" }, x.op, x.tag, x.beh, x.act));
        }
    }
    s + &log.trace()
}

pub fn start(plan: &Plan, wire_rng: Rng) -> Server {
    let behs: HashMap<u64, Beh> = plan.tasks.iter().flatten().map(|s| (s.tag, s.beh)).collect();
    let (sc, rule) = (plan.sc.clone(), plan.cancel_rule);
    let wr = Mutex::new(wire_rng);
    Server::start(SrvCfg::new(move |c, q| serve(&sc, &behs, rule, c, q)).rev(plan.rev).wire(move |_| gen_wire(&mut wr.lock().unwrap())))
}

/// C05's judgement of one finished operation.
pub fn judge_response(plan: &Plan, d: &Done) -> Option<(&'static str, String)> {
    let (sc, s) = (&plan.sc, &d.s);
    let in_order = |got: &[Table]| -> Option<String> {
        if got.is_empty() { return None; }
        let exp = concat(&sc.answer(s.i, s.tag).parts);
        let g = concat(got);
        if g.rows() > exp.rows() { return Some("more rows than the answer has".into()); }
        crate::drv::diff_table(&exp.slice(0, g.rows()), &g)
    };
    match &d.res {
        Res::Ok(g) => {
            if let Some(x) = sc.check(s.op, s.i, s.tag, g) { return Some(("other-answer", format!("tag {}: the data is not the answer to this request: {x}", s.tag))); }
            if s.op != Op::Ping && matches!(s.beh, Beh::Exc(_)) { return Some(("false-success", format!("tag {}: success, but the server answered with an exception", s.tag))); }
            None
        }
        Res::Partial(v) => in_order(v).map(|x| ("other-answer", format!("tag {}: a streamed part is not the answer to this request: {x}", s.tag))),
        Res::Server(code, msg) => if *code != 5000 + s.tag as u32 || *msg != format!("failed tag {}", s.tag) || s.op == Op::Ping { Some(("other-exception", format!("tag {}: got the exception {code} {msg:?}, which answers another request", s.tag))) } else { None },
        Res::Panic(p) => Some(("panic", format!("tag {}: panic: {p}", s.tag))),
        Res::Timeout if !plan.short && s.op != Op::Ping => Some(("late", format!("tag {}: timed out although the server answered every request", s.tag))),
        Res::Err(e) => {
            if e.contains("HARNESS") { return Some(("other-answer", format!("tag {}: {e}", s.tag))); }
            // an abandoned request that ended in an exception leaves a connection which only the pre-query check replaces
            let stale = !plan.ping && plan.tasks.iter().flatten().any(|x| matches!(x.beh, Beh::Exc(_)) && !matches!(x.act, Act::Finish) || plan.short);
            if stale && e.contains("Connection broken") { return None; }
            // an undisturbed connection: an I/O or protocol error would be about somebody else's bytes
            if !plan.closes && (plan.ping || d.handle_clean) && matches!(s.act, Act::Finish) && !matches!(s.op, Op::Ping) {
                return Some(("foreign-error", format!("tag {}: {e}, although the server sent a proper answer to this request", s.tag)));
            }
            None
        }
        Res::NoHandle(e) if !plan.closes => Some(("no-handle", format!("tag {}: no handle: {e}", s.tag))),
        _ => None,
    }
}

pub fn sample(ctx: &Ctx, plan: &Plan) {
    ctx.sample(|| plan.tasks.iter().map(|t| t.iter().map(|s| format!("{:?}/{:?}/{:?}", s.op, s.beh, s.act)).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" || "));
}
