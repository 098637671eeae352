#![allow(unused)]
use chrono::{NaiveDate, DateTime, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::{row, Block, types::{Column, Decimal, Simple, Value}};
use std::{collections::HashMap, hint::black_box, net::{Ipv4Addr, Ipv6Addr}};
use uuid::Uuid;
fn text(i: u64) -> String { format!("value {i} {}", "x".repeat(40)) }
fn show<T: std::fmt::Debug>(x: T) { black_box(format!("{x:?}")); }
fn churn() { let v: Vec<Vec<u8>> = (1..200).map(|i| vec![0x5a; i * 7]).collect(); black_box(&v); }
fn make() -> Block { Block::new().column("a", (0..40i32).collect::<Vec<i32>>()) }
fn main() { let mut b = make(); let mut it = b.columns()[0].iter::<i32>().unwrap(); let first = it.next(); for _ in 0..400 { b.push(row!{ a: 7i32 }).unwrap(); } churn(); show(&first); while let Some(x) = it.next() { show(x); } }
