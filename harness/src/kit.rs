//! Shared workload pieces.
use crate::model::*;
use crate::rng::Rng;
use crate::server::*;
use clickhouse_rs::{ClientHandle, Pool};
use std::time::Duration;

pub fn secs(n: u64) -> Duration { Duration::from_secs(n) }
pub fn ms(n: u64) -> Duration { Duration::from_millis(n) }

/// Generous limits, so that only real stalls reach them.
#[cfg(miri)]
pub const LIMITS: &str = "connection_timeout=9000s&ping_timeout=9000s&query_timeout=9000s&insert_timeout=9000s&execute_timeout=9000s";
#[cfg(miri)]
pub const MAX: Duration = Duration::from_secs(9999);
#[cfg(not(miri))]
pub const LIMITS: &str = "connection_timeout=60s&ping_timeout=60s&query_timeout=60s&insert_timeout=60s&execute_timeout=60s";
#[cfg(not(miri))]
pub const MAX: Duration = Duration::from_secs(75);

pub fn gen_colname(r: &mut Rng, i: usize) -> String {
    match r.below(8) {
        0 => format!("колонка_{i}"),
        1 => format!("a.b c{i}"),
        2 => format!("\"q\"{i}"),
        3 => format!("名{i}"),
        4 => format!("{}{i}", ["1", "1a", "2 b", "3_"][i % 4]),
        5 => format!("it's {i}, (x)"),
        _ => format!("c{i}"),
    }
}

pub fn gen_table(r: &mut Rng, cols: usize, rows: usize, ty: &dyn Fn(&mut Rng) -> Ty) -> Table {
    let mut t = Table::default();
    for i in 0..cols {
        let ty = ty(r);
        let vals = gen_col(r, &ty, rows);
        let mut name = gen_colname(r, i);
        // almost the name of an earlier column
        if i > 0 && r.chance(1, 5) {
            let n = t.cols[r.below(i)].name.clone();
            let twin = match r.below(6) {
                0 => n.to_uppercase(), 1 => n.to_lowercase(), 2 => format!("{n} "), 3 => format!(" {n}"), 4 => format!("{n}{n}"),
                _ => { let mut x = n.clone(); x.pop(); x }
            };
            if !twin.chars().all(|c| c.is_numeric()) && !t.cols.iter().any(|c| c.name == twin) { name = twin; }
        }
        t.cols.push(Col { name, ty, vals });
    }
    // (a later name of its own may meet a twin)
    for i in 1..t.cols.len() { while t.cols[..i].iter().any(|c| c.name == t.cols[i].name) { t.cols[i].name.push('_'); } }
    t
}

pub fn gen_rows(r: &mut Rng) -> usize {
    match r.below(12) { 0 => 0, 1 | 2 => 1, 3 => *r.pick(&[127usize, 128, 129, 255, 256, 257, 300]), 4 => r.range(20, 80), _ => r.range(2, 12) }
}

pub fn concat(parts: &[Table]) -> Table {
    let mut t = parts[0].clone();
    for p in &parts[1..] { for (a, b) in t.cols.iter_mut().zip(&p.cols) { a.vals.extend(b.vals.iter().cloned()); } }
    t
}

/// What servers announce: around every revision at which the protocol changed, and newer than the client.
pub const REVS: [u64; 20] = [54429, 54429, 54429, 54429, 54450, 54428, 54420, 54419, 54406, 54401, 54400, 54372, 54371, 54060, 54059, 54058, 54057, 51554, 51553, 54429];

pub fn gen_wire(r: &mut Rng) -> Wire {
    let frag = match r.below(6) { 0 | 1 => Frag::Whole, 2 => Frag::Bytes(r.range(1, 7)), 3 => Frag::Bytes(r.range(8, 2000)), _ => Frag::Random(*r.pick(&[3usize, 17, 100, 1500, 9000])) };
    let gap = if r.chance(1, 8) { Duration::from_micros(50) } else { Duration::ZERO };
    Wire { frag, gap, cut: None, rng: r.fork() }
}

pub fn send_columns(c: &mut Conn) -> Result<(), String> {
    let mut o = vec![11];
    crate::codec::string(&mut o, b"");
    crate::codec::string(&mut o, b"columns format version: 1\n1 columns:\n`a` UInt8\n");
    c.send(&o)
}

pub async fn handle(pool: &Pool) -> Result<ClientHandle, String> { pool.get_handle().await.map_err(|e| format!("get_handle: {e}")) }

/// Split the rows of a table into consecutive parts (possibly empty ones).
pub fn split(r: &mut Rng, t: &Table, k: usize) -> Vec<Table> {
    let n = t.rows();
    let mut cuts: Vec<usize> = (0..k - 1).map(|_| r.below(n + 1)).collect();
    cuts.sort();
    cuts.push(n);
    let mut a = 0;
    let mut v = vec![];
    for c in cuts { v.push(t.slice(a, c)); a = c; }
    v
}
