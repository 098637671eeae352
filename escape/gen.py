#!/usr/bin/env python3
"""Writes src/bin/*.rs: programs that try to use what a block lent after the block is gone or changed.
The compiler may refuse each of them; one that it accepts is run under AddressSanitizer and must be clean."""
import os, glob
here = os.path.dirname(os.path.abspath(__file__))
for f in glob.glob(here + '/src/bin/*.rs'): os.unlink(f)
PRE = '''#![allow(unused)]
use chrono::{NaiveDate, DateTime, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::{row, Block, types::{Column, Decimal, Simple, Value}};
use std::{collections::HashMap, hint::black_box, net::{Ipv4Addr, Ipv6Addr}};
use uuid::Uuid;
fn text(i: u64) -> String { format!("value {i} {}", "x".repeat(40)) }
fn show<T: std::fmt::Debug>(x: T) { black_box(format!("{x:?}")); }
fn churn() { let v: Vec<Vec<u8>> = (1..200).map(|i| vec![0x5a; i * 7]).collect(); black_box(&v); }
'''
T = {
 'u8': ('u8', '(0..40u64).map(|i| i as u8).collect::<Vec<u8>>()', '7u8'),
 'u64': ('u64', '(0..40u64).collect::<Vec<u64>>()', '7u64'),
 'i32': ('i32', '(0..40i32).collect::<Vec<i32>>()', '7i32'),
 'f64': ('f64', '(0..40).map(|i| i as f64).collect::<Vec<f64>>()', '7f64'),
 'i128': ('i128', '(0..40).map(|i| i as i128).collect::<Vec<i128>>()', '7i128'),
 'bool': ('bool', '(0..40).map(|i| i % 3 == 0).collect::<Vec<bool>>()', 'true'),
 'bytes': ('&[u8]', '(0..40).map(text).collect::<Vec<String>>()', 'text(7)'),
 'optbytes': ('Option<&[u8]>', '(0..40).map(|i| Some(text(i))).collect::<Vec<Option<String>>>()', 'Some(text(7))'),
 'optu32': ('Option<u32>', '(0..40u32).map(Some).collect::<Vec<Option<u32>>>()', 'Some(7u32)'),
 'vecu32': ('Vec<u32>', '(0..40u32).map(|i| vec![i; 5]).collect::<Vec<Vec<u32>>>()', 'vec![7u32]'),
 'vecbytes': ('Vec<&[u8]>', '(0..40).map(|i| vec![text(i), text(i + 1)]).collect::<Vec<Vec<String>>>()', 'vec![text(7)]'),
 'mapbytes': ('HashMap<&[u8], u64>', '(0..40).map(|i| HashMap::from([(text(i), i)])).collect::<Vec<HashMap<String, u64>>>()', 'HashMap::from([(text(7), 7u64)])'),
 'decimal': ('Decimal', '(0..40i64).map(|i| Decimal::of(i, 2)).collect::<Vec<Decimal>>()', 'Decimal::of(7i64, 2)'),
 'uuid': ('Uuid', '(0..40u128).map(Uuid::from_u128).collect::<Vec<Uuid>>()', 'Uuid::from_u128(7)'),
 'ip4': ('Ipv4Addr', '(0..40u32).map(Ipv4Addr::from).collect::<Vec<Ipv4Addr>>()', 'Value::Ipv4([1, 2, 3, 4])'),
 'ip6': ('Ipv6Addr', '(0..40u128).map(Ipv6Addr::from).collect::<Vec<Ipv6Addr>>()', 'Value::Ipv6([7; 16])'),
 'date': ('NaiveDate', '(1..28).map(|i| NaiveDate::from_ymd_opt(2020, 1, i).unwrap()).collect::<Vec<NaiveDate>>()', 'NaiveDate::from_ymd_opt(2020, 1, 1).unwrap()'),
 'datetime': ('DateTime<Tz>', '(0..40).map(|i| Tz::UTC.timestamp_opt(i * 1000, 0).unwrap()).collect::<Vec<DateTime<Tz>>>()', 'Tz::UTC.timestamp_opt(7, 0).unwrap()'),
}
def put(name, body): open(f'{here}/src/bin/{name}.rs', 'w').write(PRE + body)
for n, (t, v, x) in T.items():
    mk = f'fn make() -> Block {{ Block::new().column("a", {v}) }}\n'
    put(f'control_{n}', mk + f'fn main() {{ let mut b = make(); {{ let kept: Vec<_> = b.columns()[0].iter::<{t}>().unwrap().collect(); show(&kept); }} b.push(row!{{ a: {x} }}).unwrap(); }}\n')
    put(f'item_{n}', mk + f'fn main() {{ let kept: Vec<_>; {{ let b = make(); kept = b.columns()[0].iter::<{t}>().unwrap().collect(); }} churn(); show(&kept); }}\n')
    put(f'iter_{n}', mk + f'fn main() {{ let mut it; {{ let b = make(); it = b.columns()[0].iter::<{t}>().unwrap(); }} churn(); while let Some(x) = it.next() {{ show(x); }} }}\n')
    put(f'column_{n}', mk + f'fn main() {{ let kept: Vec<_>; {{ let c = {{ let b = make(); b.columns()[0].clone() }}; kept = c.iter::<{t}>().unwrap().collect(); }} churn(); show(&kept); }}\n')
    put(f'push_{n}', mk + f'fn main() {{ let mut b = make(); let mut it = b.columns()[0].iter::<{t}>().unwrap(); let first = it.next(); for _ in 0..400 {{ b.push(row!{{ a: {x} }}).unwrap(); }} churn(); show(&first); while let Some(x) = it.next() {{ show(x); }} }}\n')
    put(f'thread_{n}', mk + f'fn main() {{ let b = make(); let mut it = b.columns()[0].iter::<{t}>().unwrap(); let j = std::thread::spawn(move || {{ std::thread::sleep(std::time::Duration::from_millis(200)); while let Some(x) = it.next() {{ show(x); }} }}); drop(b); churn(); j.join().unwrap(); }}\n')
G = {
 'str': ('&str', T['bytes'][1]), 'bytes': ('&[u8]', T['bytes'][1]), 'optstr': ('Option<&str>', T['optbytes'][1]), 'vecstr': ('Vec<&str>', T['vecbytes'][1]),
}
for n, (t, v) in G.items():
    mk = f'fn make() -> Block {{ Block::new().column("a", {v}) }}\n'
    put(f'control_get_{n}', mk + f'fn main() {{ let b = make(); let x = b.get::<{t}, _>(3, "a").unwrap(); show(&x); for r in b.rows() {{ show(r.get::<{t}, _>("a").unwrap()); }} }}\n')
    put(f'get_{n}', mk + f'fn main() {{ let x; {{ let b = make(); x = b.get::<{t}, _>(3, "a").unwrap(); }} churn(); show(&x); }}\n')
    put(f'getpush_{n}', mk + f'fn main() {{ let mut b = make(); let x = b.get::<{t}, _>(3, "a").unwrap(); b = make(); churn(); show(&x); }}\n')
    put(f'row_{n}', mk + f'fn main() {{ let x; {{ let b = make(); let r = b.rows().next().unwrap(); x = r.get::<{t}, _>(0).unwrap(); }} churn(); show(&x); }}\n')
mk = 'fn make() -> Block { Block::new().column("a", (0..40).map(text).collect::<Vec<String>>()) }\n'
put('rows_kept', mk + 'fn main() { let r; { let b = make(); r = b.rows().next().unwrap(); } churn(); show(r.get::<&str, _>(0).unwrap()); }\n')
put('rows_iter', mk + 'fn main() { let mut it; { let b = make(); it = b.rows(); } churn(); while let Some(r) = it.next() { show(r.get::<&str, _>(0).unwrap()); } }\n')
put('columns_kept', mk + 'fn main() { let c; { let b = make(); c = b.columns(); } churn(); show(c[0].name()); }\n')
put('name_kept', mk + 'fn main() { let c; { let b = make(); c = b.columns()[0].name(); } churn(); show(c); }\n')
