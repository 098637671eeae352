//! C07: server responses that violate the protocol are refused; nothing panics, spins or allocates as told.
use crate::c02::{gen_answer, gen_result_ty};
use crate::codec::*;
use crate::drv::read_block;
use crate::kit::*;
use crate::memmon;
use crate::model::*;
use crate::ops::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::Pool;
use futures_util::StreamExt;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Stage { Hello, Ping, Query, Exec, Header, Ack }
const STAGES: [Stage; 6] = [Stage::Hello, Stage::Ping, Stage::Query, Stage::Exec, Stage::Header, Stage::Ack];

#[derive(Clone, Debug)]
struct Mal { sig: &'static str, what: String, bytes: Vec<u8>, stalls: bool, must_err: bool, fetch_only: bool }
fn mal(sig: &'static str, what: impl Into<String>, bytes: Vec<u8>) -> Mal { Mal { sig, what: what.into(), bytes, stalls: false, must_err: true, fetch_only: false } }
impl Mal { fn stalls(mut self) -> Mal { self.stalls = true; self } }

const LIMIT: usize = 64 << 20;

fn uv(x: u64) -> Vec<u8> { let mut o = vec![]; uvarint(&mut o, x); o }
fn st(b: &[u8]) -> Vec<u8> { let mut o = vec![]; string(&mut o, b); o }
fn cat(parts: &[&[u8]]) -> Vec<u8> { parts.concat() }
const INFO: [u8; 8] = [1, 0, 2, 0xff, 0xff, 0xff, 0xff, 0];

/// A data packet around a raw block.
fn packet(raw: &[u8], compress: bool) -> Vec<u8> {
    let mut o = vec![1, 0];
    if compress { o.extend(frames(raw, None, 1 << 20)); } else { o.extend_from_slice(raw); }
    o
}
fn raw_block(cols: u64, rows: u64, body: &[u8]) -> Vec<u8> { cat(&[&INFO, &uv(cols), &uv(rows), body]) }
fn column(name: &[u8], ty: &[u8], data: &[u8]) -> Vec<u8> { cat(&[&st(name), &st(ty), data]) }

const BAD_TYPES: &[&str] = &["", " ", "Foo", "UInt", "UInt7", "UInt256", "8", "(", ")", "()", "Nullable", "Nullable(", "Nullable)", "Nullable()", "Nullable(Nullable(Int8))", "Nullable(Int8", "NullableInt8)", "Nullable(Foo)",
    "Array", "Array(", "Array()", "Array(Foo)", "Array(UInt8", "Array UInt8)", "Map", "Map(", "Map()", "Map(String)", "Map(String,)", "Map(,String)", "Map(Foo, Int8)", "Map(Int8, Foo)", "Map(Int8 Int8)", "Ma", "Map)",
    "FixedString", "FixedString(", "FixedString()", "FixedString(0)", "FixedString(-1)", "FixedString(99999999999999999999)", "FixedString(x)", "FixedString(3", "FixedString 3)",
    "Decimal", "Decimal(", "Decimal()", "Decimal(77, 2)", "Decimal(9, 10)", "Decimal32(10)", "Decimal64(19)", "Decimal32(200)", "Decimal)9, 2(", "Decimal128(3)", "Decimal(9,2,1)", "Decimal(-1, 0)", "Decimal(9 2)", "Decimal(,)xxxx", "Decimal99(2)aaaa",
    "Enum8", "Enum8()", "Enum8('a' = 128)", "Enum8('a' = -129)", "Enum8('a' = 1", "Enum8('a')", "Enum8(a = 1)", "Enum8('a = 1)", "Enum8('a' = 99999)", "Enum16('a' = 40000)", "Enum16('a' = 1,)", "Enum16('a' = )", "Enum('a' = 1)x",
    "DateTime('Nowhere/City')", "DateTime(", "DateTime('UTC'", "DateTime(3)x", "DateTime64", "DateTime64()", "DateTime64(10)", "DateTime64(19)", "DateTime64(20)", "DateTime64(4000000000)", "DateTime64(99999999999)", "DateTime64(3, 'X')", "DateTime64(-1)", "DateTime64('UTC')",
    "LowCardinality", "LowCardinality(", "LowCardinality)", "LowCardinality()", "LowCardinality(Foo)", "LowCardinalityé", "LowCardinality(é", "LowCardinality)(", "SimpleAggregateFunction", "SimpleAggregateFunction(", "SimpleAggregateFunction()", "SimpleAggregateFunction(foo, Int8)", "SimpleAggregateFunction(sum)", "SimpleAggregateFunction(sum, Foo)",
    "Tuple(Int8)", "AggregateFunction(sum, UInt64)", "Nullableé", "Nullable(é", "Nullableéé)", "Arrayé(Int8)", "Array(é", "Mapé", "Map(é", "FixedStringé", "FixedString(é", "Decimalé(9, 2)", "é", "日本語", "Int8\0", "Nothing", "Point", "Int8 Int8", "Array(Nullable(", "Map(Array(", "Array(Map(String, Int8)", "Nullable(Array(Foo))"];

fn bad_uvarint(r: &mut Rng) -> Vec<u8> {
    match r.below(5) { 0 => { let mut v = vec![0xff; 9]; v.push(2); v } 1 => vec![0xff; 24], 2 => { let mut v = vec![0x80; 30]; v.push(0); v } 3 => { let mut v = vec![0x80; 10]; v.push(1); v } _ => { let mut v = vec![0xff; 9]; v.push(0x7f); v } }
}

fn sizes(r: &mut Rng) -> u64 { *r.pick(&[1u64 << 27, 1 << 31, (1 << 32) + 7, 1 << 40, 1 << 47, 1 << 59, 1 << 60, 1 << 61, (1 << 61) + 1, 1 << 62, 1 << 63, (1 << 63) + 1, u64::MAX - 7, u64::MAX]) }

/// A block that violates the native format.
fn bad_block(r: &mut Rng, compress: bool) -> Mal {
    let eos = |mut b: Vec<u8>| { b.push(5); b };
    match r.below(17) {
        0 | 1 | 2 => {
            let t = if r.chance(1, 12) { b"\xff\xfeInt8".to_vec() } else { r.pick(BAD_TYPES).as_bytes().to_vec() };
            let t = match r.below(6) { 0 => cat(&[b"Array(", &t, b")"]), 1 => cat(&[b"Map(String, ", &t, b")"]), 2 => cat(&[b"SimpleAggregateFunction(any, ", &t, b")"]), _ => t };
            // what makes the inner name bad may make the outer one good; only keep those that are bad for us too
            let ok = std::str::from_utf8(&t).ok().map(|s| parse_ty(s).is_ok()).unwrap_or(false);
            let t = if ok { b"Foo".to_vec() } else { t };
            mal("type", format!("column type {:?}", String::from_utf8_lossy(&t)), eos(packet(&raw_block(1, 0, &column(b"x", &t, b"")), compress)))
        }
        3 => {
            let d = *r.pick(&[200usize, 3000, 100_000]);
            let (a, z) = *r.pick(&[("Array(", ")"), ("Nullable(", ")"), ("LowCardinality(", ")"), ("Map(String, ", ")"), ("SimpleAggregateFunction(any, ", ")"), ("Nullable(Array(", "))")]);
            let t = format!("{}Int8{}", a.repeat(d), z.repeat(d));
            mal("deep-type", format!("column type {a:?} nested {d} times"), eos(packet(&raw_block(1, 0, &column(b"x", t.as_bytes(), b"")), compress)))
        }
        4 => {
            let v = bad_uvarint(r);
            let z = vec![0u8; 600];
            let raw = match r.below(6) { 0 => cat(&[&v, &z]), 1 => cat(&[&INFO, &v, &z]), 2 => cat(&[&INFO, &[1], &v, &z]), 3 => cat(&[&INFO, &[1, 1], &v, &z]), 4 => cat(&[&INFO, &[1, 1], &st(b"x"), &v, &z]), _ => raw_block(1, 1, &column(b"x", b"String", &cat(&[&v, &z]))) };
            mal("uvarint", format!("variable-length integer {v:02x?} in a block"), packet(&raw, compress))
        }
        5 => {
            // dictionary trouble
            let keys = cat(&[&3u64.to_le_bytes(), &st(b"a"), &st(b"b"), &st(b"c")]);
            let (version, flags, rows, idx): (u64, u64, u64, Vec<u8>) = match r.below(9) {
                0 => (1, 0x600, 4, vec![0, 1, 2, 3]), 1 => (1, 0x600, 4, vec![255, 1, 2, 0]), 2 => (1, 0x601, 4, [0u16, 1, 300, 2].iter().flat_map(|x| x.to_le_bytes()).collect()), 3 => (1, 0x603, 4, [0u64, 1, 2, 1 << 63].iter().flat_map(|x| x.to_le_bytes()).collect()),
                4 => (1, 0x600, 3, vec![0, 1, 2]), 5 => (1, 0x600, 5, vec![0, 1, 2, 1, 1]), 6 => (2, 0x600, 4, vec![0, 1, 2, 1]), 7 => (1, *r.pick(&[0x604u64, 0x6ff, 0x100, 0x700, 0x500]), 4, vec![0, 1, 2, 1]), _ => (1, 0x600, 0, vec![]),
            };
            let body = cat(&[&version.to_le_bytes(), &flags.to_le_bytes(), &keys, &rows.to_le_bytes(), &idx]);
            let two = r.chance(1, 2);
            let cols = cat(&[&column(b"x", b"LowCardinality(String)", &body), &if two { column(b"y", b"UInt8", &[1, 2, 3, 4]) } else { vec![] }]);
            mal("dictionary", format!("dictionary of 3, 4 rows announced, version {version} flags {flags:#x} key rows {rows} keys {idx:?}"), eos(packet(&raw_block(1 + two as u64, 4, &cols), compress)))
        }
        6 => {
            // offsets that decrease
            let off = match r.below(4) { 0 => vec![2u64, 1, 3], 1 => vec![3, 0, 3], 2 => vec![u64::MAX, 0, 3], _ => vec![3, 2, 1] };
            let ob: Vec<u8> = off.iter().flat_map(|x| x.to_le_bytes()).collect();
            let n = *off.last().unwrap() as usize;
            let (t, d): (&str, Vec<u8>) = if r.chance(1, 2) { ("Array(UInt8)", vec![7; n]) } else { ("Map(UInt8, UInt8)", vec![7; 2 * n]) };
            mal("offsets", format!("{t} with offsets {off:?}"), eos(packet(&raw_block(1, 3, &column(b"x", t.as_bytes(), &cat(&[&ob, &d]))), compress)))
        }
        7 | 8 => {
            // a row count that cannot be true
            let n = sizes(r);
            let ty = gen_result_ty(r);
            let body = column(b"x", ty.name().as_bytes(), &vec![0u8; r.below(300)]);
            mal("rows", format!("{n} rows of {} announced", ty.name()), packet(&raw_block(1, n, &body), compress)).stalls()
        }
        9 => {
            let n = sizes(r);
            let off = cat(&[&0u64.to_le_bytes(), &n.to_le_bytes()]);
            let t = *r.pick(&["Array(UInt8)", "Array(String)", "Array(UInt64)", "Array(FixedString(9))", "Array(IPv6)", "Array(Nullable(UInt32))", "Array(Array(UInt8))", "Map(String, UInt64)", "Map(UInt8, String)", "Array(Decimal(9, 2))", "Array(DateTime)", "Array(Enum8('a' = 1))"]);
            mal("array-size", format!("{t} with {n} elements announced"), packet(&raw_block(1, 2, &column(b"x", t.as_bytes(), &cat(&[&off, &[0; 64]]))), compress)).stalls()
        }
        10 => {
            let n = sizes(r);
            let (what, raw) = match r.below(5) {
                0 => ("a string cell", raw_block(1, 2, &column(b"x", b"String", &cat(&[&uv(n), &[65; 40]])))),
                1 => ("a column name", cat(&[&INFO, &[1, 2], &uv(n), &[65; 40]])),
                2 => ("a column type", cat(&[&INFO, &[1, 2], &st(b"x"), &uv(n), &[65; 40]])),
                3 => ("the column count", cat(&[&INFO, &uv(n), &[2], &column(b"x", b"UInt8", &[1, 2])])),
                _ => ("a dictionary", raw_block(1, 2, &column(b"x", b"LowCardinality(String)", &cat(&[&1u64.to_le_bytes(), &0x600u64.to_le_bytes(), &n.to_le_bytes(), &[0; 40]])))),
            };
            mal("size", format!("{what} of size {n}"), packet(&raw, compress)).stalls()
        }
        11 => {
            let n = *r.pick(&[1u64 << 40, 1 << 62, 1 << 63, u64::MAX]);
            mal("fixed-size", format!("3 rows of FixedString({n})"), packet(&raw_block(1, 3, &column(b"x", format!("FixedString({n})").as_bytes(), &[65; 40])), compress)).stalls()
        }
        12 => {
            let raw = if r.chance(1, 2) { raw_block(1, 0, &column(b"\xc3\x28", b"UInt8", b"")) } else { raw_block(2, 1, &cat(&[&column(b"x", b"UInt8", b"\x01"), &column(b"\xff", b"UInt8", b"\x02")])) };
            mal("utf8", "column name that is not UTF-8", eos(packet(&raw, compress)))
        }
        13 => {
            let f = *r.pick(&[3u64, 4, 77, 300, u64::MAX]);
            mal("block-info", format!("block info field {f}"), eos(packet(&cat(&[&uv(f), &[0], &raw_block(1, 0, &column(b"x", b"UInt8", b""))]), compress)))
        }
        14 => {
            // columns that change between the blocks of one result
            let a = packet(&raw_block(1, 2, &column(b"x", b"UInt8", &[1, 2])), compress);
            let b = match r.below(4) {
                0 => packet(&raw_block(1, 2, &column(b"x", b"UInt16", &[1, 0, 2, 0])), compress),
                1 => packet(&raw_block(2, 2, &cat(&[&column(b"x", b"UInt8", &[1, 2]), &column(b"y", b"UInt8", &[1, 2])])), compress),
                2 => packet(&raw_block(1, 2, &column(b"x", b"Nullable(UInt8)", &[0, 0, 1, 2])), compress),
                _ => packet(&raw_block(1, 2, &column(b"x", b"String", &[1, 65, 0])), compress),
            };
            let mut m = mal("columns-change", "two blocks with different columns", eos(if r.chance(1, 2) { cat(&[&a, &b]) } else { cat(&[&b, &a]) }));
            m.fetch_only = true;
            m
        }
        15 if compress => {
            // frames with a correct checksum but sizes or contents that are not true
            let raw = raw_block(1, 4, &column(b"x", b"UInt8", &[1, 2, 3, 4]));
            let f = frame(&raw, None);
            let sum = |body: &[u8]| { let h = crate::city::city128(body); cat(&[&h.0.to_le_bytes(), &h.1.to_le_bytes(), body]) };
            let comp = u32::from_le_bytes(f[17..21].try_into().unwrap());
            let (what, bad): (String, Vec<u8>) = match r.below(8) {
                0 => { let c = r.below(9) as u32; let mut b = vec![0x82]; b.extend(c.to_le_bytes()); b.extend(4u32.to_le_bytes()); let h = sum(&b[..(c as usize).min(9)]); (format!("frame of {c} bytes in all"), cat(&[&h[..16], &b, &[0; 64]])) }
                1 => { let o = raw.len() as u32 + 1 + r.below(40) as u32; let mut b = f[16..].to_vec(); b[5..9].copy_from_slice(&o.to_le_bytes()); (format!("frame claiming {o} bytes, holding {}", raw.len()), sum(&b)) }
                2 => { let o = raw.len() as u32 - 1; let mut b = f[16..].to_vec(); b[5..9].copy_from_slice(&o.to_le_bytes()); (format!("frame claiming {o} bytes, holding {}", raw.len()), sum(&b)) }
                3 => { let o = *r.pick(&[1u32 << 30, (1 << 30) + 1, 1 << 31, u32::MAX]); let mut b = f[16..].to_vec(); b[5..9].copy_from_slice(&o.to_le_bytes()); (format!("frame claiming {o} bytes"), sum(&b)) }
                4 => { let mut b = f[16..].to_vec(); b[0] = *r.pick(&[0x02u8, 0x90, 0x91, 0, 0xff]); (format!("compression method {:#x}", b[0]), sum(&b)) }
                5 => { let mut b = f[16..].to_vec(); let n = b.len(); for x in &mut b[9..n] { *x = 0xff; } ("frame whose contents are not LZ4".into(), sum(&b)) }
                6 => { let c = (1u32 << 30) + 1 + r.below(1 << 20) as u32; let mut b = f[16..].to_vec(); b[1..5].copy_from_slice(&c.to_le_bytes()); (format!("frame of {c} bytes"), sum(&b)) }
                _ => { let mut b = vec![0x82]; b.extend((comp + 4).to_le_bytes()); b.extend((raw.len() as u32).to_le_bytes()); b.extend(&f[25..]); b.extend([0, 0, 0, 0]); ("frame with bytes after the end of its LZ4 block".into(), sum(&b)) }
            };
            mal("frame", what, eos(cat(&[&[1, 0], &bad])))
        }
        15 => {
            let v = bad_uvarint(r);
            mal("uvarint", format!("table name length {v:02x?}"), cat(&[&[1], &v, &[0; 80]]))
        }
        _ if compress => {
            let c = *r.pick(&[1u32 << 26, (1 << 30) - 1, 1 << 30]);
            mal("frame-size", format!("frame of {c} bytes announced"), cat(&[&[1, 0], &[7; 16], &[0x82], &c.to_le_bytes(), &100u32.to_le_bytes(), &[1; 50]])).stalls()
        }
        _ => {
            let n = sizes(r);
            mal("size", format!("table name of size {n}"), cat(&[&[1], &uv(n), &[65; 2000]])).stalls()
        }
    }
}

fn gen_mal(r: &mut Rng, stage: Stage, compress: bool) -> Mal {
    let hi = hello(b"MockHouse", 21, 3, 54429, b"UTC", b"mock");
    let dat = || packet(&raw_block(1, 1, &column(b"x", b"UInt8", &[1])), compress);
    let which = r.below(if stage == Stage::Hello { 6 } else { 10 });
    match (which, stage) {
        (0, _) => {
            let code = *r.pick(&[9u64, 10, 12, 13, 14, 42, 127, 128, 300, 1 << 32, u64::MAX]);
            mal("unknown-packet", format!("packet kind {code}"), cat(&[&uv(code), &[0; 40]]))
        }
        (1, _) => {
            let (n, b): (&str, Vec<u8>) = match stage {
                Stage::Hello => match r.below(3) { 0 => ("pong", vec![4]), 1 => ("end of stream", vec![5]), _ => ("data", dat()) },
                Stage::Ping => match r.below(3) { 0 => ("hello", hi), 1 => ("end of stream", vec![5]), _ => ("data", dat()) },
                Stage::Query | Stage::Exec => match r.below(2) { 0 => ("hello", cat(&[&hi, &[5]])), _ => ("pong", vec![4, 5]) },
                Stage::Header => match r.below(3) { 0 => ("hello", cat(&[&hi, &dat(), &[5]])), 1 => ("pong", cat(&[&[4], &dat(), &[5]])), _ => ("end of stream", vec![5]) },
                Stage::Ack => match r.below(3) { 0 => ("hello", cat(&[&hi, &[5]])), 1 => ("pong", vec![4, 5]), _ => ("data", cat(&[&dat(), &[5]])) },
            };
            mal("unexpected-packet", format!("{n} packet"), b)
        }
        (2, _) => { let v = bad_uvarint(r); mal("uvarint", format!("packet kind {v:02x?}"), cat(&[&v, &[0; 40]])) }
        (3, _) => {
            // exceptions and their texts
            let bad = match r.below(3) { 0 => cat(&[&uv(sizes(r)), &[65; 100]]), 1 => cat(&[&bad_uvarint(r), &[0; 40]]), _ => st(b"\xff\xfe") };
            let k = r.below(3);
            let mut o = vec![2];
            o.extend(60u32.to_le_bytes());
            for i in 0..3 { if i == k { o.extend(&bad); } else { o.extend(st(b"DB::Exception")); } }
            o.push(0);
            mal("exception", format!("exception with text {k} malformed: {:02x?}", &bad[..bad.len().min(12)]), o).stalls()
        }
        (4, Stage::Hello) => {
            let tz = *r.pick(&["Nowhere/City", "", " ", "UTC+3x", "\u{0}", "Europe", "europe/moscowx"]);
            mal("time-zone", format!("server time zone {tz:?}"), hello(b"ClickHouse", 21, 1, 54429, tz.as_bytes(), b"x"))
        }
        (_, Stage::Hello) => {
            let (w, b) = match r.below(5) {
                0 => ("name", hello(b"\xff\xff", 21, 1, 54429, b"UTC", b"x")), 1 => ("display name", hello(b"CH", 21, 1, 54429, b"UTC", b"\xfe")), 2 => ("time zone", hello(b"CH", 21, 1, 54429, b"\xff", b"x")),
                3 => ("name size", cat(&[&[0], &uv(sizes(r)), &[65; 900]])), _ => ("version", cat(&[&[0], &st(b"CH"), &bad_uvarint(r), &[1; 50]])),
            };
            mal("hello", format!("greeting with a malformed {w}"), b).stalls()
        }
        (_, Stage::Ping) => { let v = bad_uvarint(r); mal("progress", "progress with a malformed count", cat(&[&[3], &v, &[0; 40]])) }
        (4, Stage::Query) | (4, Stage::Exec) | (4, Stage::Header) | (4, Stage::Ack) => { let v = bad_uvarint(r); let k = *r.pick(&[3u8, 6]); mal("progress", format!("packet {k} with a malformed count"), cat(&[&[k], &v, &[0; 80]])) }
        _ => bad_block(r, compress),
    }
}

fn hello(name: &[u8], maj: u64, min: u64, rev: u64, tz: &[u8], disp: &[u8]) -> Vec<u8> {
    cat(&[&[0], &st(name), &uv(maj), &uv(min), &uv(rev), &st(tz), &st(disp), &uv(3)])
}

fn stage_op(stage: Stage, r: &mut Rng) -> Op {
    match stage { Stage::Hello | Stage::Query => *r.pick(&[Op::Fetch, Op::Blocks, Op::Rows]), Stage::Ping => Op::Ping, Stage::Exec => Op::Exec, Stage::Header | Stage::Ack => Op::Insert }
}

struct Trial { ping: bool, out: Out<Result<(), String>>, bad_conn: i64, reused: Option<String>, largest: usize, later_ok: bool, elapsed: std::time::Duration }

/// One operation whose answer on the first connection that reaches `stage` is what `mk` makes.
fn trial(r: &mut Rng, stage: Stage, op: Op, compress: bool, lim: u64, prefix: bool, m: &Mal) -> Trial {
    let sc = Arc::new(Scene::gen(r));
    let bad = Arc::new(AtomicI64::new(-1));
    let mut cfg = sc.cfg();
    let close = r.chance(1, 4) || (m.stalls && matches!(op, Op::Blocks | Op::Rows));
    let strike = { let (bad, m) = (bad.clone(), m.clone()); Arc::new(move |c: &mut Conn| -> Result<bool, String> {
        if bad.compare_exchange(-1, c.id as i64, SeqCst, SeqCst).is_err() { return Ok(false); }
        c.send(&m.bytes)?;
        if close { let _ = c.pause(ms(20)); c.cut(Cut::Fin)?; }
        Ok(true)
    }) };
    match stage {
        Stage::Hello => { let s = strike.clone(); cfg = cfg.hello(move |c| { if !s(c)? { let b = c.hello_bytes(); c.send(&b)?; } Ok(()) }); }
        Stage::Ping => { let s = strike.clone(); cfg = cfg.ping(move |c| { if !s(c)? { c.send(&[4])?; } Ok(()) }); }
        _ => {
            let plain = cfg.on_query.clone();
            let bad = bad.clone();
            let (s, sc) = (strike.clone(), sc.clone());
            cfg.on_query = Arc::new(move |c: &mut Conn, q: &QueryReq| {
                if bad.load(SeqCst) >= 0 { return plain(c, q); }
                match stage {
                    Stage::Ack => {
                        let t = with_tag(&sc.tables[0], 0).header();
                        c.send_data(&t)?;
                        while let Some(b) = c.recv_data()? { if b.cols.is_empty() { break; } }
                        s(c)?;
                    }
                    Stage::Query if prefix => { let t = sc.answers[0].parts[0].header(); c.send_data(&t)?; s(c)?; }
                    _ => { s(c)?; }
                }
                Ok(())
            });
        }
    }
    let srv = Server::start(cfg);
    let ping = stage == Stage::Ping && r.chance(1, 2);
    let op = if ping { Op::Fetch } else { op };
    let url = srv.url(&format!("connection_timeout={lim}ms&ping_timeout={lim}ms&query_timeout={lim}ms&insert_timeout={lim}ms&execute_timeout={lim}ms&retry_timeout=5ms&send_retries=1&pool_min=1&pool_max=1&ping_before_query={ping}{}", if compress { "&compression=lz4" } else { "" }));
    let t0 = std::time::Instant::now();
    // a thread with the stack of an ordinary one
    let s2 = sc.clone();
    let (out, largest, later_ok) = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || {
        let pool = Pool::new(url);
        let rt = rt();
        memmon::reset();
        let res = guard(|| rt.block_on(async { tokio::time::timeout(secs(60), async {
            let mut h = handle(&pool).await?;
            let x = once(&mut h, &s2, op).await;
            drop(h);
            x
        }).await }));
        let largest = memmon::largest();
        let out = match res { Err(p) => Out::Panic(p), Ok(Err(_)) => Out::Hang, Ok(Ok(x)) => Out::Done(x) };
        let mut ok = false;
        if matches!(out, Out::Done(_)) {
            let _ = guard(|| rt.block_on(async { tokio::time::timeout(secs(30), async { for k in 0..3u64 { if let Ok(mut h) = pool.get_handle().await { if let Ok(g) = do_op(&mut h, &s2, Op::Fetch, 1, 500 + k).await { ok = s2.check(Op::Fetch, 1, 500 + k, &g).is_none(); break; } } } }).await }));
        }
        (out, largest, ok)
    }).unwrap().join()).unwrap_or((Out::Panic("client thread died".into()), 0, false));
    let elapsed = t0.elapsed();
    // after the malformed bytes nothing but a cancellation may arrive on that connection
    let evs = srv.log.snapshot();
    let mut reused = None;
    let bc = bad.load(SeqCst);
    if bc >= 0 {
        let mine: Vec<&Event> = evs.iter().filter(|e| e.conn as i64 == bc).collect();
        let queries = mine.iter().filter(|e| matches!(e.ev, Ev::Query(_))).count();
        let pings = mine.iter().filter(|e| matches!(e.ev, Ev::Ping)).count();
        let (mq, mp) = match stage { Stage::Hello => (0, 0), Stage::Ping => (0, 1), _ => (1, 0) };
        if queries > mq || pings > mp { reused = Some(format!("{queries} queries and {pings} pings arrived on the connection: {}", srv.log.trace())); }
    }
    Trial { ping, out, bad_conn: bc, reused, largest, later_ok, elapsed }
}

async fn once(h: &mut clickhouse_rs::ClientHandle, sc: &Scene, op: Op) -> Result<(), String> {
    match op {
        Op::Fetch => { let b = h.query("SELECT 0 tag 0").fetch_all().await.map_err(|e| e.to_string())?; let _ = read_block(&b); Ok(()) }
        Op::Blocks => { let mut s = h.query("SELECT 0 tag 0").stream_blocks(); while let Some(b) = s.next().await { let b = b.map_err(|e| e.to_string())?; let _ = read_block(&b); } Ok(()) }
        Op::Rows => { let mut s = h.query("SELECT 0 tag 0").stream(); while let Some(b) = s.next().await { b.map_err(|e| e.to_string())?; } Ok(()) }
        _ => do_op(h, sc, op, 0, 0).await.map(|_| ()).map_err(|e| e.to_string()),
    }
}

fn judge(ctx: &Ctx, part: &str, n: u64, stage: Stage, op: Op, compress: bool, m: &Mal, t: &Trial, random: bool) {
    if t.bad_conn < 0 { ctx.inconclusive(format!("{part}#{n}: the server never got to the {stage:?} stage")); return; }
    ctx.eval();
    let d = format!("{stage:?} stage, {op:?}, compression {compress}: {}", m.what);
    let v = |sig: &str, text: String| ctx.violation(part, n, &format!("{sig}/{stage:?}/{}", m.sig), format!("{d}: {text}"));
    match &t.out {
        Out::Panic(p) => v("panic", format!("panicked: {p}")),
        Out::Hang => v("hang", "the operation had not ended after 60 s".into()),
        Out::Done(Ok(())) if !random && m.must_err && !t.ping => v("accepted", "the operation succeeded".into()),
        _ => {}
    }
    if t.largest > LIMIT { v("memory", format!("a single allocation of {} bytes was requested for an answer of {} bytes", t.largest, m.bytes.len())); }
    if !random { if let Some(x) = &t.reused { v("reused", x.clone()); } }
    ctx.count(if t.later_ok { "later_operation_ok" } else { "later_operation_failed" }, 1);
}

pub fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let stage = STAGES[[0, 1, 2, 2, 2, 2, 3, 4, 4, 5][n as usize % 10]];
    let compress = r.chance(1, 2);
    let op = stage_op(stage, r);
    let m = gen_mal(r, stage, compress);
    let prefix = r.chance(1, 2) && !m.fetch_only;
    if m.fetch_only && stage != Stage::Query { return; }
    let t = trial(r, stage, op, compress, if m.stalls { 400 } else { 20_000 }, prefix, &m);
    ctx.distinct(&(stage, m.what.clone(), compress));
    ctx.count(&format!("kind_{}", m.sig), 1);
    ctx.sample(|| format!("{stage:?} {op:?}: {} -> {}", m.what, match &t.out { Out::Done(Err(e)) => e.chars().take(90).collect::<String>(), x => format!("{x:?}") }));
    judge(ctx, "malformed", n, stage, op, compress, &m, &t, false);
}

#[derive(Clone, Debug)]
enum Edit { Flip(u8), Set(u8), Ins(u8), Del, Big }

fn fuzz(ctx: &Ctx, n: u64, r: &mut Rng) {
    let compress = r.chance(1, 3);
    let a = gen_answer(r, false);
    let op = *r.pick(&[Op::Fetch, Op::Blocks, Op::Rows]);
    // the raw bytes of each block are mutated before framing, so that checksums are right
    let nm = 1 + r.below(3);
    let mut blocks = vec![a.parts[0].header()];
    blocks.extend(a.parts.iter().cloned());
    let mut raws: Vec<Vec<u8>> = blocks.iter().map(|b| enc_block(b, &a.opt)).collect();
    let mut log = vec![];
    for _ in 0..nm {
        let k = r.below(raws.len());
        if raws[k].is_empty() { continue; }
        let i = if r.chance(1, 3) { r.below(raws[k].len().min(40)) } else { r.below(raws[k].len()) };
        let e = match r.below(6) { 0 => Edit::Set(*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff])), 1 => Edit::Ins(r.u64() as u8), 2 => Edit::Del, 3 => Edit::Big, _ => Edit::Flip(r.below(8) as u8) };
        match &e {
            Edit::Flip(b) => raws[k][i] ^= 1 << b,
            Edit::Set(b) => raws[k][i] = *b,
            Edit::Ins(b) => raws[k].insert(i, *b),
            Edit::Del => { raws[k].remove(i); }
            Edit::Big => { let v = uv(sizes(r)); raws[k].splice(i..i + 1, v); }
        }
        log.push(format!("block {k} byte {i} {e:?}"));
    }
    let mut bytes = vec![];
    for raw in &raws { bytes.extend(packet(raw, compress)); }
    bytes.push(5);
    let what = format!("{} with {}", a.parts[0].brief(), log.join(", "));
    ctx.distinct(&bytes);
    let m = Mal { sig: "fuzz", what, bytes, stalls: true, must_err: false, fetch_only: false };
    let t = trial(r, Stage::Query, op, compress, 250, false, &m);
    if let Out::Done(x) = &t.out { ctx.count(if x.is_ok() { "fuzz_accepted" } else { "fuzz_refused" }, 1); }
    judge(ctx, "fuzz", n, Stage::Query, op, compress, &m, &t, true);
}

/// Type names with small edits, in a header without rows.
fn names(ctx: &Ctx, n: u64, r: &mut Rng) {
    let ty = gen_ty(r, 2);
    let mut cs: Vec<char> = ty.name().chars().collect();
    for _ in 0..1 + r.below(3) {
        let i = r.below(cs.len().max(1));
        match r.below(5) {
            0 if i < cs.len() => { cs.remove(i); }
            1 if i < cs.len() => { cs[i] = *r.pick(&['(', ')', ',', '\'', ' ', 'é', '0', '-', '\\', '=', '日']); }
            2 if i < cs.len() => { cs.truncate(i); }
            3 => { let j = r.below(cs.len().max(1)); if i < cs.len() { let c = cs[i]; cs.insert(j, c); } }
            _ => cs.insert(i.min(cs.len()), *r.pick(&['(', ')', ',', '\'', ' ', 'é', '9', '-', '\\', '='])),
        }
    }
    let name: String = cs.into_iter().collect();
    ctx.distinct(&name);
    let bytes = cat(&[&packet(&raw_block(1, 0, &column(b"x", name.as_bytes(), b"")), false), &[5]]);
    let m = Mal { sig: "name", what: format!("column type {name:?}"), bytes, stalls: false, must_err: false, fetch_only: false };
    let t = trial(r, Stage::Query, Op::Fetch, false, 20_000, false, &m);
    judge(ctx, "names", n, Stage::Query, Op::Fetch, false, &m, &t, true);
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("an operation answered with malformed data returns an error; it neither panics, hangs nor requests more than 64 MB at once for answers of less than 1 MB, and no later request travels on that connection");
    ctx.assume("answers of this check are smaller than 1 MB; responses that only leave out data are ended by the operation's time limit");
    watchdog(ctx.clone(), secs(120), true);
    cases(ctx, "malformed", ctx.n(14_000, 150_000), 16, secs(if ctx.thorough { 500 } else { 60 }), case);
    cases(ctx, "names", ctx.n(3000, 40_000), 12, secs(if ctx.thorough { 120 } else { 20 }), names);
    cases(ctx, "fuzz", ctx.n(14_000, 120_000), 24, secs(if ctx.thorough { 250 } else { 60 }), fuzz);
}
