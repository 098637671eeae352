//! C14: corrupted compressed data is never accepted; intact frames carry exactly the block.
use crate::c01::{gen_insert_ty, judge};
use crate::c02::{gen_answer, gen_result_ty, sig_of, Answer};
use crate::codec::*;
use crate::drv::*;
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::{Block, Pool};
use futures_util::StreamExt;
use std::sync::{Arc, Mutex};

/// The bytes of a compressed answer and where its frames lie: (start, end, block number).
#[derive(Clone)]
struct Stream { bytes: Vec<u8>, frames: Vec<(usize, usize, usize)> }

fn stream(a: &Answer, r: &mut Rng, empties: bool) -> Stream {
    let mut s = Stream { bytes: vec![], frames: vec![] };
    let mut blocks = vec![a.parts[0].header()];
    blocks.extend(a.parts.iter().cloned());
    for (k, b) in blocks.iter().enumerate() {
        s.bytes.push(1);
        string(&mut s.bytes, b"");
        let raw = enc_block(b, &a.opt);
        let max = match r.below(4) { 0 => 1 << 20, 1 => r.range(1, 40), 2 => 1 + r.below(raw.len()), _ => raw.len() / 2 + 1 };
        let mut cuts: Vec<&[u8]> = raw.chunks(max.max(raw.len() / 40).max(1)).collect();
        if empties && r.chance(1, 3) { let i = r.below(cuts.len()); cuts.insert(i, &[]); }
        for c in cuts { let f = frame(c, Some(r)); let at = s.bytes.len(); s.bytes.extend(&f); s.frames.push((at, s.bytes.len(), k)); }
    }
    s.bytes.push(5);
    s
}

#[derive(Clone, Debug)]
enum Mut { Flip(usize, u8), Set(usize, u8), Add(usize, u8), Del(usize), Ins(usize, u8), Swap(usize, usize), Mix(usize, usize), Zero(usize, usize), Seal(usize, usize, Lie) }
/// A frame that contradicts itself, under a checksum of its own.
#[derive(Clone, Debug)]
enum Lie { Size(i64), Method(u8), Short(usize) }

fn apply(s: &Stream, m: &Mut) -> Vec<u8> {
    let mut b = s.bytes.clone();
    match *m {
        Mut::Flip(i, bit) => b[i] ^= 1 << bit,
        Mut::Set(i, v) => b[i] = v,
        Mut::Add(i, v) => b[i] = b[i].wrapping_add(v),
        Mut::Del(i) => { b.remove(i); }
        Mut::Ins(i, v) => b.insert(i, v),
        Mut::Swap(i, j) => b.swap(i, j),
        // the checksum of one frame before the contents of another
        Mut::Mix(i, j) => { let (a, c) = (s.bytes[i..i + 16].to_vec(), s.bytes[j..j + 16].to_vec()); b[i..i + 16].copy_from_slice(&c); b[j..j + 16].copy_from_slice(&a); }
        Mut::Seal(x, z, ref lie) => {
            let mut body = s.bytes[x + 16..z].to_vec();
            match *lie {
                Lie::Size(d) => { let n = u32::from_le_bytes(body[5..9].try_into().unwrap()) as i64 + d; body[5..9].copy_from_slice(&(n.max(0) as u32).to_le_bytes()); }
                Lie::Method(m) => body[0] = m,
                Lie::Short(k) => { let n = (body.len() - k.min(body.len() - 9)).max(9); body.truncate(n); body[1..5].copy_from_slice(&(n as u32).to_le_bytes()); }
            }
            let (lo, hi) = crate::city::city128(&body);
            let mut f = lo.to_le_bytes().to_vec();
            f.extend(hi.to_le_bytes());
            f.extend(body);
            b.splice(x..z, f);
        }
        Mut::Zero(i, n) => { for x in &mut b[i..i + n] { *x = 0; } }
    }
    b
}
fn gen_mut(r: &mut Rng, s: &Stream) -> (Mut, usize) {
    let fi = r.below(s.frames.len());
    let (a, z, k) = s.frames[fi];
    let i = if r.chance(1, 2) { a + r.below((z - a).min(26)) } else { a + r.below(z - a) };
    let m = match r.below(15) {
        12 => Mut::Seal(a, z, Lie::Size(*r.pick(&[-1i64, 1, 1, 2, 7, 8, 255, 65_536, -8]))),
        13 => Mut::Seal(a, z, Lie::Method(*r.pick(&[0u8, 1, 0x80, 0x81, 0x83, 0x90, 0x92, 0xff]))),
        14 => Mut::Seal(a, z, Lie::Short(r.range(1, 12))),
        0 => Mut::Set(i, 0), 1 => Mut::Set(i, 0xff), 2 => Mut::Add(i, 1), 3 => Mut::Add(i, 255), 4 => Mut::Del(i), 5 => Mut::Ins(i, r.u64() as u8),
        6 => Mut::Swap(i, a + r.below(z - a)),
        7 if s.frames.len() > 1 => { let fj = r.below(s.frames.len()); return (Mut::Mix(a, s.frames[fj].0), k.min(s.frames[fj].2)); }
        8 => Mut::Zero(a, 16),
        _ => Mut::Flip(i, r.below(8) as u8),
    };
    (m, k)
}

/// Run one query whose answer is `bytes`; only blocks before `k` may come out of it.
async fn outcome(pool: &Pool, way: usize, a: &Answer, k: usize) -> Result<(), String> {
    let mut h = handle(pool).await?;
    let before = |rows: usize| -> usize { let _ = rows; a.parts[..k.saturating_sub(1).min(a.parts.len())].iter().map(|p| p.rows()).sum() };
    match way {
        0 => match h.query("x").fetch_all().await { Ok(b) => Err(format!("accepted: fetch_all returned a block of {} rows", b.row_count())), Err(_) => Ok(()) },
        1 => {
            let mut rows = 0;
            let mut s = h.query("x").stream_blocks();
            loop { match s.next().await { None => return Err(format!("accepted: stream_blocks ended normally after {rows} rows")), Some(Err(_)) => return Ok(()), Some(Ok(b)) => { rows += b.row_count(); if rows > before(0) { return Err(format!("accepted: stream_blocks delivered {rows} rows, only {} were intact", before(0))); } } } }
        }
        _ => {
            let mut rows = 0;
            let mut s = h.query("x").stream();
            loop { match s.next().await { None => return Err(format!("accepted: stream ended normally after {rows} rows")), Some(Err(_)) => return Ok(()), Some(Ok(_)) => { rows += 1; if rows > before(0) { return Err(format!("accepted: stream delivered {rows} rows, only {} were intact", before(0))); } } } }
        }
    }
}

fn small_answer(r: &mut Rng) -> Answer {
    let mut a = gen_answer(r, false);
    let cols = r.range(1, 2);
    let rows = r.range(1, 10);
    let t = gen_table(r, cols, rows, &gen_result_ty);
    let k = r.range(1, 2);
    a.parts = split(r, &t, k);
    a
}

pub fn corrupt(ctx: &Ctx, n: u64, r: &mut Rng, every: bool) {
    let part = if every { "bytes" } else { "corrupt" };
    let a = if every { let ty = r.pick(&[Ty::U32, Ty::Str, Ty::Nullable(Box::new(Ty::U8)), Ty::Array(Box::new(Ty::U16))]).clone(); let t = gen_table(r, 1, 3, &|_| ty.clone()); Answer { parts: vec![Table { cols: t.cols.into_iter().map(|mut c| { for v in &mut c.vals { if let Val::S(s) = v { s.truncate(9); } } c }).collect() }], opt: EncOpt::default(), noise: 0, tail: false } } else { small_answer(r) };
    let s = stream(&a, r, false);
    let muts: Vec<(Mut, usize)> = if every { let mut v = vec![]; for &(x, z, k) in &s.frames { for i in x..z { for bit in 0..8 { v.push((Mut::Flip(i, bit), k)); } } } v } else { (0..24).map(|_| gen_mut(r, &s)).collect() };
    // a deletion or insertion among equal bytes changes only what follows
    let intact = |b: &[u8]| { let p = b.iter().zip(&s.bytes).take_while(|(x, y)| x == y).count(); s.frames.iter().filter(|f| f.1 > p).map(|f| f.2).min().unwrap_or(usize::MAX) };
    let muts: Vec<_> = muts.into_iter().filter(|(m, _)| apply(&s, m) != s.bytes).map(|(m, _)| { let k = intact(&apply(&s, &m)); (m, k) }).collect();
    let plan: Arc<Vec<Vec<u8>>> = Arc::new(muts.iter().map(|(m, _)| apply(&s, m)).collect());
    let p2 = plan.clone();
    let cur = Arc::new(Mutex::new(0usize));
    let c2 = cur.clone();
    let wr = Mutex::new(r.fork());
    let srv = Server::start(SrvCfg::new(move |c, _| { let i = *c2.lock().unwrap(); c.send(&p2[i])?; c.cut(Cut::Fin) }).wire(move |_| if every { Wire::whole() } else { let mut w = gen_wire(&mut wr.lock().unwrap()); if let Frag::Bytes(k) = w.frag { w.frag = Frag::Bytes(k.max(20)) } w.gap = std::time::Duration::ZERO; w }));
    let url = srv.url(&format!("{LIMITS}&pool_min=0&pool_max=2&compression=lz4"));
    let ways: Vec<usize> = muts.iter().map(|_| r.below(3)).collect();
    let what = a.parts[0].brief();
    let res = block_on(secs(120), async {
        let pool = Pool::new(url);
        for (i, (m, k)) in muts.iter().enumerate() {
            *cur.lock().unwrap() = i;
            let o = match tokio::time::timeout(secs(40), aguard(outcome(&pool, ways[i], &a, *k))).await { Err(_) => Err("hang: no result within 40 s".to_string()), Ok(Err(p)) => Err(format!("panic: {p}")), Ok(Ok(x)) => x };
            ctx.eval();
            if let Err(e) = o { return Err(format!("{e}\nchange {m:?} in frames {:?} of {} bytes", s.frames, s.bytes.len())); }
            let kind = format!("{m:?}");
            ctx.count(&format!("change_{}", kind.split('(').next().unwrap()), 1);
            ctx.distinct(&(&s.bytes, kind));
        }
        Ok(())
    });
    match res { Out::Done(Ok(())) => ctx.sample(|| format!("{what}: {} changes rejected", muts.len())), Out::Done(Err(e)) => ctx.violation(part, n, &sig_of(&e), format!("{what}\n{e}")), Out::Panic(e) => ctx.violation(part, n, "panic", format!("{what}\n{e}")), Out::Hang => ctx.inconclusive(format!("{part}#{n}: not done within 120 s")) }
}

/// Intact frames, however cut: the same block as uncompressed.
fn intact(ctx: &Ctx, n: u64, r: &mut Rng) {
    let a = gen_answer(r, r.clone().chance(1, 30));
    let s = Arc::new(stream(&a, r, true));
    let s2 = s.clone();
    let a2 = a.clone();
    let wr = Mutex::new(r.fork());
    // the client reads a block anew with every piece of it that arrives
    let least = a.parts.iter().map(|p| enc_block(p, &a.opt).len()).max().unwrap_or(0) / 20;
    let srv = Server::start(SrvCfg::new(move |c, q| if q.compression == 1 { c.send(&s2.bytes) } else { crate::c02::send_answer(c, &a2) }).wire(move |_| { let mut w = gen_wire(&mut wr.lock().unwrap()); match w.frag { Frag::Bytes(k) => w.frag = Frag::Bytes(k.max(5).max(least)), Frag::Random(k) if k < least * 2 => w.frag = Frag::Bytes(least), _ => {} } w }));
    let full = concat(&a.parts);
    let what = format!("{} in {} frames", full.brief(), s.frames.len());
    let urls = [srv.url(&format!("{LIMITS}&compression=lz4&pool_min=1&pool_max=1")), srv.url(&format!("{LIMITS}&pool_min=1&pool_max=1"))];
    let res = block_on(MAX, async {
        for u in urls {
            let pool = Pool::new(u.as_str());
            let mut h = handle(&pool).await?;
            let b = h.query("x").fetch_all().await.map_err(|e| format!("fetch_all: {e}"))?;
            if let Some(d) = diff_table(&full, &read_block(&b)?) { return Err(format!("differs: {d} ({})", if u.contains("lz4") { "compressed" } else { "plain" })); }
        }
        Ok(())
    });
    ctx.eval();
    ctx.count("frames", s.frames.len() as u64);
    ctx.distinct(&("intact", &s.bytes));
    match res { Out::Done(Ok(())) => {} Out::Done(Err(e)) => ctx.violation("intact", n, &sig_of(&e), format!("{what}\n{e}")), Out::Panic(e) => ctx.violation("intact", n, "panic", format!("{what}\n{e}")), Out::Hang => ctx.violation("intact", n, "hang", what) }
}

/// What the client sends: independent checksum and LZ4 decoding.
fn sent(ctx: &Ctx, n: u64, r: &mut Rng) {
    let t = match r.below(4) {
        // incompressible, highly compressible, or mixed bulk
        0 => { let k = *r.pick(&[1usize, 100, 4096, 65_535, 65_536, 300_000, 2_000_000]); Table { cols: vec![Col { name: "s".into(), ty: Ty::Str, vals: (0..3).map(|i| Val::S(if i == 1 { vec![7; k] } else { r.bytes(k) })).collect() }] } }
        1 => { let k = r.range(1, 60_000); let m = *r.pick(&[1usize, 2, 3, 17, 255, 256, 65_536]); Table { cols: vec![Col { name: "n".into(), ty: Ty::U64, vals: (0..k).map(|i| Val::U((i % m) as u128)).collect() }] } }
        _ => { let rows = gen_rows(r).max(1); let cols = r.range(1, 4); gen_table(r, cols, rows, &gen_insert_ty) }
    };
    let hdr = t.header();
    let srv = Server::start(SrvCfg::new(move |c, _| c.do_insert(&hdr).map(|_| ())));
    let what = t.brief();
    let tz = *r.pick(&TZS);
    let b: Block = match block_by_cols(&t, tz) { Some(b) => b, None => match guard(|| block_by_rows(&t, tz)) { Ok(Ok(b)) => b, x => { ctx.violation("sent", n, "push", format!("{what}\n{:?}", x.err())); return; } } };
    let url = srv.url(&format!("{LIMITS}&compression=lz4&pool_min=1&pool_max=1"));
    let res = block_on(MAX, async { let pool = Pool::new(url); let mut h = handle(&pool).await?; h.insert("t", &b).await.map_err(|e| format!("insert: {e}")) });
    ctx.eval();
    ctx.distinct(&("sent", &t));
    let bad = srv.log.bad();
    let ds: Vec<RxBlock> = srv.log.datas().iter().map(|d| (*d.1).clone()).filter(|d| !d.cols.is_empty()).collect();
    ctx.count("client_frames", ds.iter().map(|d| d.frames.len() as u64).sum());
    ctx.count("client_bytes", ds.iter().flat_map(|d| d.frames.iter().map(|f| f.1 as u64)).sum());
    match res {
        Out::Done(Ok(())) => { if let Some(e) = bad { ctx.violation("sent", n, "frame", format!("{what}\nthe client's frames do not decode: {e}")); } else if let Some(d) = judge(&t, &ds) { ctx.violation("sent", n, "data", format!("{what}\n{d}")); } else if ds.iter().any(|d| d.frames.is_empty()) { ctx.violation("sent", n, "plain", format!("{what}\nthe block was sent uncompressed")); } }
        Out::Done(Err(e)) => ctx.violation("sent", n, "insert", format!("{what}\n{e}\n{bad:?}")),
        Out::Panic(e) => ctx.violation("sent", n, "panic", format!("{what}\n{e}")),
        Out::Hang => ctx.violation("sent", n, "hang", what),
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("bytes: every bit of every frame of a short compressed answer is flipped in turn; corrupt: 24 random changes (bits, bytes, insertions, deletions, swaps, exchanged checksums, and frames with a valid checksum whose size, method or payload contradict each other) per generated answer; the query must fail and deliver nothing of the changed block. intact: answers cut into arbitrary frames (also empty ones) equal the model and the uncompressed answer. sent: the client's frames decode under an independent LZ4 and CityHash to the exact block. distinct = distinct (stream, change) or table");
    watchdog(ctx.clone(), secs(160), true);
    cases(ctx, "bytes", ctx.n(16, 400), 8, secs(ctx.n(60, 600)), |c, n, r| corrupt(c, n, r, true));
    cases(ctx, "corrupt", ctx.n(700, 30_000), 8, secs(ctx.n(60, 900)), |c, n, r| corrupt(c, n, r, false));
    cases(ctx, "intact", ctx.n(900, 20_000), 8, secs(ctx.n(50, 400)), intact);
    cases(ctx, "sent", ctx.n(900, 20_000), 8, secs(ctx.n(50, 400)), sent);
}
