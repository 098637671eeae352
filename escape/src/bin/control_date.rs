#![allow(unused)]
use chrono::{NaiveDate, DateTime, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::{row, Block, types::{Column, Decimal, Simple, Value}};
use std::{collections::HashMap, hint::black_box, net::{Ipv4Addr, Ipv6Addr}};
use uuid::Uuid;
fn text(i: u64) -> String { format!("value {i} {}", "x".repeat(40)) }
fn show<T: std::fmt::Debug>(x: T) { black_box(format!("{x:?}")); }
fn churn() { let v: Vec<Vec<u8>> = (1..200).map(|i| vec![0x5a; i * 7]).collect(); black_box(&v); }
fn make() -> Block { Block::new().column("a", (1..28).map(|i| NaiveDate::from_ymd_opt(2020, 1, i).unwrap()).collect::<Vec<NaiveDate>>()) }
fn main() { let mut b = make(); { let kept: Vec<_> = b.columns()[0].iter::<NaiveDate>().unwrap().collect(); show(&kept); } b.push(row!{ a: NaiveDate::from_ymd_opt(2020, 1, 1).unwrap() }).unwrap(); }
