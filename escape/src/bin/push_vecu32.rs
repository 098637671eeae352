#![allow(unused)]
use chrono::{NaiveDate, DateTime, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::{row, Block, types::{Column, Decimal, Simple, Value}};
use std::{collections::HashMap, hint::black_box, net::{Ipv4Addr, Ipv6Addr}};
use uuid::Uuid;
fn text(i: u64) -> String { format!("value {i} {}", "x".repeat(40)) }
fn show<T: std::fmt::Debug>(x: T) { black_box(format!("{x:?}")); }
fn churn() { let v: Vec<Vec<u8>> = (1..200).map(|i| vec![0x5a; i * 7]).collect(); black_box(&v); }
fn make() -> Block { Block::new().column("a", (0..40u32).map(|i| vec![i; 5]).collect::<Vec<Vec<u32>>>()) }
fn main() { let mut b = make(); let mut it = b.columns()[0].iter::<Vec<u32>>().unwrap(); let first = it.next(); for _ in 0..400 { b.push(row!{ a: vec![7u32] }).unwrap(); } churn(); show(&first); while let Some(x) = it.next() { show(x); } }
