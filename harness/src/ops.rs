//! Operations with recognisable answers: every request carries a tag and every answer repeats it.
use crate::c02::{send_answer, Answer};
use crate::codec::{EncOpt, RxBlock};
use crate::drv::*;
use crate::kit::*;
use crate::model::*;
use crate::rng::Rng;
use crate::server::*;
use clickhouse_rs::errors::Error;
use clickhouse_rs::ClientHandle;
use futures_util::StreamExt;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op { Ping, Fetch, Blocks, Rows, Exec, Insert }
pub const OPS: [Op; 6] = [Op::Ping, Op::Fetch, Op::Blocks, Op::Rows, Op::Exec, Op::Insert];

#[derive(Clone, Debug, PartialEq)]
pub enum Got { Unit, Table(Table) }

/// Small tables of plain types; answer i / table i.
#[derive(Clone)]
pub struct Scene { pub answers: Vec<Answer>, pub tables: Vec<Table> }

pub fn plain_ty(r: &mut Rng) -> Ty {
    match r.below(7) { 0 => Ty::U64, 1 => Ty::I32, 2 => Ty::F64, 3 => Ty::Nullable(Box::new(Ty::I32)), 4 => Ty::Array(Box::new(Ty::Str)), 5 => Ty::Low(Box::new(Ty::Str)), _ => Ty::Str }
}

pub fn plain_table(r: &mut Rng, cols: usize, rows: usize) -> Table {
    let mut t = Table::default();
    for i in 0..cols {
        let ty = plain_ty(r);
        let mut vals = gen_col(r, &ty, rows);
        for v in &mut vals { if let Val::S(s) = v { s.truncate(12); } }
        t.cols.push(Col { name: format!("c{i}"), ty, vals });
    }
    t
}

pub fn with_tag(t: &Table, tag: u64) -> Table {
    let mut t = t.clone();
    let n = t.rows();
    t.cols.push(Col { name: "tag".into(), ty: Ty::U64, vals: vec![Val::U(tag as u128); n] });
    t
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind { Select, Exec, Insert }

/// What a statement of ours asks for.
pub fn parse_sql(sql: &str) -> Option<(Kind, usize, u64)> {
    let num = |s: &str| s.parse::<u64>().ok();
    if let Some(r) = sql.strip_prefix("INSERT INTO t") {
        let (a, b) = r.split(' ').next()?.split_once('_')?;
        return Some((Kind::Insert, num(a)? as usize, num(b)?));
    }
    let w: Vec<&str> = sql.split(' ').collect();
    if w.len() != 4 || w[2] != "tag" { return None; }
    let k = match w[0] { "SELECT" => Kind::Select, "EXEC" => Kind::Exec, _ => return None };
    Some((k, num(w[1])? as usize, num(w[3])?))
}

impl Scene {
    pub fn gen(r: &mut Rng) -> Scene {
        let answers = (0..2).map(|_| {
            let (c, n) = (r.range(1, 3), r.range(1, 6));
            let t = plain_table(r, c, n);
            let k = r.range(1, 3);
            Answer { parts: split(r, &t, k), opt: EncOpt::default(), noise: r.u64(), tail: r.chance(1, 2) }
        }).collect();
        let tables = (0..2).map(|_| { let (c, n) = (r.range(1, 3), r.range(1, 6)); plain_table(r, c, n) }).collect();
        Scene { answers, tables }
    }
    pub fn answer(&self, i: usize, tag: u64) -> Answer {
        let mut a = self.answers[i].clone();
        a.parts = a.parts.iter().map(|p| with_tag(p, tag)).collect();
        a
    }
    pub fn table(&self, i: usize, tag: u64) -> Table { with_tag(&self.tables[i], tag) }
    /// The well-behaved server.
    pub fn serve(&self, c: &mut Conn, q: &QueryReq) -> Result<(), String> {
        match parse_sql(&q.sql) {
            Some((Kind::Select, i, tag)) => send_answer(c, &self.answer(i, tag)),
            Some((Kind::Exec, _, _)) => { let b = c.progress_bytes(1, 2, 3); c.send(&b)?; c.send_eos() }
            Some((Kind::Insert, i, tag)) => c.do_insert(&self.table(i, tag).header()).map(|_| ()),
            None => Err(format!("BAD statement {:?}", q.sql)),
        }
    }
    pub fn cfg(self: &Arc<Self>) -> SrvCfg { let s = self.clone(); SrvCfg::new(move |c, q| s.serve(c, q)) }
    pub fn expected(&self, op: Op, i: usize, tag: u64) -> Got {
        match op { Op::Fetch | Op::Blocks | Op::Rows => Got::Table(concat(&self.answer(i, tag).parts)), _ => Got::Unit }
    }
    pub fn check(&self, op: Op, i: usize, tag: u64, got: &Got) -> Option<String> {
        match (self.expected(op, i, tag), got) {
            (Got::Unit, Got::Unit) => None,
            (Got::Table(e), Got::Table(g)) => diff_table(&e, g),
            _ => Some("wrong kind of answer".into()),
        }
    }
    /// The rows of an insert as the server received them on one connection (between its statement and its acknowledgement).
    pub fn inserted(&self, evs: &[Event], i: usize, tag: u64) -> Result<(), String> {
        let mut acks = 0;
        for (k, e) in evs.iter().enumerate() {
            if let Ev::Query(q) = &e.ev {
                if parse_sql(&q.sql) != Some((Kind::Insert, i, tag)) { continue; }
                let mut ds: Vec<RxBlock> = vec![];
                for x in evs[k + 1..].iter().filter(|x| x.conn == e.conn) {
                    match &x.ev {
                        Ev::Data(d) => if d.cols.len() + d.rows > 0 { ds.push((**d).clone()) },
                        Ev::Ack => { acks += 1; if let Some(d) = crate::c01::judge(&self.table(i, tag), &ds) { return Err(d); } break; }
                        _ => break,
                    }
                }
            }
        }
        if acks == 1 { Ok(()) } else { Err(format!("{acks} acknowledged statements for the insert")) }
    }
}

pub fn sql_of(op: Op, i: usize, tag: u64) -> String {
    match op { Op::Exec => format!("EXEC {i} tag {tag}"), Op::Insert => format!("t{i}_{tag}"), _ => format!("SELECT {i} tag {tag}") }
}

/// Run one operation to its end.
pub async fn do_op(h: &mut ClientHandle, sc: &Scene, op: Op, i: usize, tag: u64) -> Result<Got, Error> {
    let sql = sql_of(op, i, tag);
    match op {
        Op::Ping => h.ping().await.map(|_| Got::Unit),
        Op::Exec => h.execute(sql.as_str()).await.map(|_| Got::Unit),
        Op::Insert => {
            let b = block_by_rows(&sc.table(i, tag), chrono_tz::Tz::UTC)?;
            h.insert(sql, b).await.map(|_| Got::Unit)
        }
        Op::Fetch => {
            let b = h.query(sql.as_str()).fetch_all().await?;
            read_block(&b).map(Got::Table).map_err(Error::from)
        }
        Op::Blocks => {
            let mut got: Vec<Table> = vec![];
            let mut s = h.query(sql.as_str()).stream_blocks();
            while let Some(b) = s.next().await { got.push(read_block(&b?)?); }
            Ok(Got::Table(if got.is_empty() { sc.answer(i, tag).parts[0].header() } else { concat(&got) }))
        }
        Op::Rows => {
            let mut t = sc.answer(i, tag).parts[0].header();
            let mut s = h.query(sql.as_str()).stream();
            while let Some(row) = s.next().await {
                let row = row?;
                if row.len() != t.cols.len() { return Err(Error::from(format!("HARNESS row of {} columns", row.len()))); }
                for (ci, c) in t.cols.iter_mut().enumerate() { let v: Any = row.get(ci)?; c.vals.push(v.0); }
            }
            Ok(Got::Table(t))
        }
    }
}

/// Did the server get statement `tag` (of any kind), on which connections?
pub fn conns_of(evs: &[Event], tag: u64) -> Vec<u64> {
    evs.iter().filter_map(|e| if let Ev::Query(q) = &e.ev { parse_sql(&q.sql).filter(|p| p.2 == tag).map(|_| e.conn) } else { None }).collect()
}
