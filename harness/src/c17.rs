//! C17: blocks behave as values.
use crate::c01::judge;
use crate::c02::{gen_answer, send_answer, sig_of, Answer};
use crate::drv::*;
use crate::kit::*;
use crate::model::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use chrono_tz::Tz;
use clickhouse_rs::types::{Column, ColumnType, Complex, FromSql, FromSqlResult, RowBuilder, Simple, SqlType, Value, ValueRef};
use clickhouse_rs::{row, Block, Pool};
use either::Either;
use futures_util::StreamExt;
use std::sync::{Arc, Mutex};

/// A cell with instants as nanoseconds, whatever precision they are kept with.
#[derive(Debug, Clone, PartialEq)]
struct Cell(Val);
fn nanos(t: i64, p: u32) -> Val { Val::I(t as i128 * 10i128.pow(9 - p)) }
fn cell(v: &ValueRef) -> Val {
    match v {
        ValueRef::DateTime(d, _) => nanos(*d as i64, 0),
        ValueRef::DateTime64(t, p) => nanos(*t, p.0),
        ValueRef::Nullable(Either::Right(v)) => cell(v),
        ValueRef::Array(_, v) => Val::A(v.iter().map(cell).collect()),
        ValueRef::Map(_, _, m) => { let mut v: Vec<(Val, Val)> = m.iter().map(|(k, v)| (cell(k), cell(v))).collect(); v.sort(); Val::M(v) }
        v => from_ref(v),
    }
}
impl<'a> FromSql<'a> for Cell { fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> { Ok(Cell(cell(&v))) } }
fn model(t: &Ty, v: &Val) -> Val {
    match (t, v) {
        (_, Val::Null) => Val::Null,
        (Ty::DateTime(_), Val::DT(d)) => nanos(*d as i64, 0),
        (Ty::DateTime64(p, _), Val::DT64(x)) => nanos(*x, *p),
        (Ty::Nullable(t), v) | (Ty::Low(t), v) | (Ty::Agg(_, t), v) => model(t, v),
        (Ty::Array(t), Val::A(v)) => Val::A(v.iter().map(|x| model(t, x)).collect()),
        (Ty::Map(k, w), Val::M(m)) => { let mut v: Vec<(Val, Val)> = m.iter().map(|(a, b)| (model(k, a), model(w, b))).collect(); v.sort(); Val::M(v) }
        (_, v) => v.clone(),
    }
}
fn has_nan(v: &Val) -> bool {
    match v { Val::F32(x) => f32::from_bits(*x).is_nan(), Val::F64(x) => f64::from_bits(*x).is_nan(), Val::A(v) => v.iter().any(has_nan), Val::M(m) => m.iter().any(|(a, b)| has_nan(a) || has_nan(b)), _ => false }
}
fn nan(t: &Table) -> bool { t.cols.iter().any(|c| c.vals.iter().any(has_nan)) }

#[derive(Clone)]
enum B { S(Block<Simple>), C(Block<Complex>) }
fn column_ok<K: ColumnType>(c: &Column<K>, e: &Col, ty: &Option<SqlType>) -> Option<String> {
    if c.name() != e.name { return Some(format!("column {:?} is called {:?}", e.name, c.name())); }
    if let Some(t) = ty { if c.sql_type() != *t { return Some(format!("column {:?}: type was {t}, is {}", e.name, c.sql_type())); } }
    None
}
fn same<K: ColumnType>(b: &Block<K>, m: &Table, types: &[SqlType]) -> Option<String> {
    if b.row_count() != m.rows() { return Some(format!("{} rows expected, {} found", m.rows(), b.row_count())); }
    if b.column_count() != m.cols.len() || b.columns().len() != m.cols.len() { return Some(format!("{} columns expected, {} found", m.cols.len(), b.column_count())); }
    if b.is_empty() != m.cols.is_empty() { return Some("is_empty is wrong".into()); }
    for (i, (c, e)) in b.columns().iter().zip(&m.cols).enumerate() {
        if let Some(d) = column_ok(c, e, &types.get(i).cloned()) { return Some(d); }
        for (r, v) in e.vals.iter().enumerate() {
            let x = model(&e.ty, v);
            match b.get::<Cell, _>(r, i) {
                Ok(g) if g.0 == x => {}
                Ok(g) => return Some(format!("row {r} of column {:?} {}: {x:?} expected, {:?} found", e.name, e.ty.name(), g.0)),
                Err(er) => return Some(format!("row {r} of column {:?} {}: {er}", e.name, e.ty.name())),
            }
        }
    }
    let n = b.rows().count();
    if n != m.rows() { return Some(format!("rows() gives {n} rows of {}", m.rows())); }
    None
}
impl B {
    fn same(&self, m: &Table, types: &[SqlType]) -> Option<String> { match self { B::S(b) => same(b, m, types), B::C(b) => same(b, m, types) } }
    fn types(&self) -> Vec<SqlType> { match self { B::S(b) => b.columns().iter().map(|c| c.sql_type()).collect(), B::C(b) => b.columns().iter().map(|c| c.sql_type()).collect() } }
    fn push<R: RowBuilder>(&mut self, r: R) -> Result<(), String> { match self { B::S(b) => b.push(r), B::C(b) => b.push(r) }.map_err(|e| e.to_string()) }
    fn eq(&self, o: &B) -> bool { match (self, o) { (B::S(a), B::S(b)) => a == b, (B::S(a), B::C(b)) => a == b, (B::C(a), B::S(b)) => a == b, (B::C(a), B::C(b)) => a == b } }
    /// A block of the same columns.
    fn by_columns(&self) -> Block { match self { B::S(b) => cols(b), B::C(b) => cols(b) } }
}
fn cols<K: ColumnType>(b: &Block<K>) -> Block { let mut o = Block::new(); for c in b.columns() { o = o.column(c.name(), c.clone()); } o }

struct Slot { b: B, m: Table, types: Vec<SqlType> }
struct World<'a> { ctx: &'a Ctx, part: &'a str, n: u64, slots: Vec<Slot>, trace: Vec<String>, tz: Tz, ok: bool }

/// A value that certainly does not fit a column of type t.
fn misfit(r: &mut Rng, t: &Ty) -> Value {
    match t {
        Ty::Low(x) | Ty::Agg(_, x) => misfit(r, x),
        Ty::Array(_) if r.chance(1, 2) => Value::UInt8(7),
        Ty::Array(x) => {
            let v = misfit(r, x);
            Value::Array(SqlType::from(v.clone()).into(), Arc::new(vec![v]))
        }
        Ty::Map(..) => Value::Int64(1),
        Ty::Nullable(x) => {
            let v = loop { let v = misfit(r, x); if !matches!(v, Value::Nullable(_)) { break v; } };
            if r.chance(1, 2) { Value::Nullable(Either::Right(Box::new(v))) } else { v }
        }
        Ty::Str | Ty::Fixed(_) => *pick_box(r, vec![Value::UInt64(1), Value::Bool(true), Value::Float64(1.0), Value::Array((&SqlType::UInt8).into_static(), Arc::new(vec![]))]),
        Ty::F64 => *pick_box(r, vec![Value::UInt64(1), Value::Float32(1.0), Value::from("1")]),
        Ty::U8 => *pick_box(r, vec![Value::UInt64(1), Value::Int8(1), Value::Bool(true), Value::from("1")]),
        Ty::I64 => *pick_box(r, vec![Value::UInt64(1), Value::Int32(1), Value::Float64(1.0), Value::from("1"), Value::Nullable(Either::Right(Box::new(Value::Int64(1)))), Value::Nullable(Either::Left((&SqlType::Int64).into_static()))]),
        Ty::U16 => *pick_box(r, vec![Value::Int16(1), Value::Date(1), Value::UInt8(1)]),
        Ty::Date => *pick_box(r, vec![Value::UInt16(1), Value::from("2020-01-01")]),
        Ty::DateTime(_) | Ty::DateTime64(..) => *pick_box(r, vec![Value::UInt32(1), Value::from("2020-01-01"), Value::Int64(1)]),
        Ty::Dec(..) => *pick_box(r, vec![Value::Int64(1), Value::from("1.0"), Value::Float64(1.0)]),
        Ty::Ip4 => *pick_box(r, vec![Value::UInt32(1), Value::from("1.1.1.1"), Value::Ipv6([0; 16])]),
        Ty::Ip6 | Ty::Uuid => *pick_box(r, vec![Value::UInt128(1), Value::from("::1"), Value::Ipv4([0; 4])]),
        Ty::Enum8(_) | Ty::Enum16(_) => *pick_box(r, vec![Value::Int64(1), Value::from("a")]),
        _ => *pick_box(r, vec![Value::from("x"), Value::Date(3), Value::Array((&SqlType::UInt8).into_static(), Arc::new(vec![]))]),
    }
}
fn pick_box(r: &mut Rng, v: Vec<Value>) -> Box<Value> { let i = r.below(v.len()); Box::new(v.into_iter().nth(i).unwrap()) }
trait IntoStatic { fn into_static(self) -> &'static SqlType; }
impl IntoStatic for &SqlType { fn into_static(self) -> &'static SqlType { self.clone().into() } }

impl<'a> World<'a> {
    fn fail(&mut self, sig: &str, d: String) {
        if !self.ok { return; }
        self.ok = false;
        self.ctx.violation(self.part, self.n, sig, format!("{d}\nprogram:\n  {}", self.trace.join("\n  ")));
    }
    fn check(&mut self, after: &str) {
        for i in 0..self.slots.len() {
            self.ctx.eval();
            if let Some(d) = self.slots[i].b.same(&self.slots[i].m, &self.slots[i].types) { let x = self.slots[i].m.brief(); return self.fail(after, format!("block {i} ({x}): {d}")); }
        }
    }
    fn value(&self, r: &mut Rng, t: &Ty, v: &Val) -> Value {
        match (t, v) {
            (Ty::DateTime64(p, z), Val::DT64(x)) if r.chance(1, 2) => Value::DateTime64(*x, (*p, z.unwrap_or(self.tz))),
            _ => to_value(t, v, self.tz),
        }
    }
    fn step(&mut self, r: &mut Rng) {
        let i = r.below(self.slots.len());
        let m = self.slots[i].m.clone();
        let op = r.below(15);
        match op {
            0..=4 => {
                // a row that fits, with its values in any order
                let mut row = vec![];
                let mut vals = vec![];
                for c in &m.cols { let v = gen_val(r, &c.ty); row.push((c.name.clone(), self.value(r, &c.ty, &v))); vals.push(v); }
                r.shuffle(&mut row);
                self.trace.push(format!("push a row into block {i}"));
                match guard(|| self.slots[i].b.push(row)) {
                    Ok(Ok(())) => { for (c, v) in self.slots[i].m.cols.iter_mut().zip(vals) { c.vals.push(v); } if self.slots[i].types.is_empty() { self.slots[i].types = self.slots[i].b.types(); } }
                    Ok(Err(e)) => return self.fail("fitting-row-refused", format!("a row of {} was refused: {e}", m.brief())),
                    Err(p) => return self.fail("push-panic", format!("pushing a row of {} panicked: {p}", m.brief())),
                }
                self.ctx.count("rows pushed", 1);
                self.check("after-push");
            }
            5..=7 => {
                // a row that does not fit
                if m.cols.is_empty() || self.slots[i].types.is_empty() { return; }
                let mut row: Vec<(String, Value)> = vec![];
                for c in &m.cols { let v = gen_val(r, &c.ty); row.push((c.name.clone(), self.value(r, &c.ty, &v))); }
                let k = r.below(row.len());
                let kind = match r.below(6) {
                    0 => { row.remove(k); "a column is missing" }
                    1 => { let v = row[k].1.clone(); let at = r.below(row.len() + 1); row.insert(at, ("no such column".into(), v)); "an unknown column" }
                    2 => { let v = row[k].clone(); let at = r.below(row.len() + 1); row.insert(at, v); "a column twice" }
                    3 => { let v = row[k].1.clone(); row[k] = ("no such column".into(), v); "an unknown column instead of another" }
                    4 if row.len() > 1 => { let j = (k + 1) % row.len(); let n = row[j].0.clone(); row[k].0 = n; "a column twice instead of another" }
                    _ => { let v = misfit(r, &m.cols[k].ty); self.trace.push(format!("(value {v:?} for {})", m.cols[k].ty.name())); row[k].1 = v; "a value of another type" }
                };
                // rows are refused only once there is something they don't fit
                let grows = m.rows() == 0 && (kind == "an unknown column");
                if grows { return; }
                r.shuffle(&mut row);
                self.trace.push(format!("push a bad row ({kind}) into block {i}"));
                match guard(|| self.slots[i].b.push(row)) {
                    Ok(Ok(())) => return self.fail("bad-row-accepted", format!("a row with {kind} was accepted by {}", m.brief())),
                    Ok(Err(_)) => {}
                    Err(p) => return self.fail("push-panic", format!("pushing a row with {kind} into {} panicked: {p}", m.brief())),
                }
                self.ctx.count("rows refused", 1);
                self.ctx.distinct(&(kind, m.kinds()));
                self.check("after-refused-push");
            }
            8 | 9 if self.slots.len() < 6 => {
                self.trace.push(format!("clone block {i} -> {}", self.slots.len()));
                let b = match guard(|| self.slots[i].b.clone()) { Ok(b) => b, Err(p) => return self.fail("clone-panic", p) };
                if !nan(&m) {
                    match guard(|| (b.eq(&self.slots[i].b), self.slots[i].b.eq(&b))) {
                        Ok((true, true)) => {}
                        x => return self.fail("clone-differs", format!("a clone of {} compared with it: {x:?}", m.brief())),
                    }
                }
                let types = self.slots[i].types.clone();
                self.slots.push(Slot { b, m, types });
                self.ctx.count("clones", 1);
            }
            10 | 11 if self.slots.len() < 6 => {
                self.trace.push(format!("columns of block {i} -> new block {}", self.slots.len()));
                let b = match guard(|| self.slots[i].b.by_columns()) { Ok(b) => B::S(b), Err(p) => return self.fail("column-clone-panic", p) };
                if !nan(&m) && !m.cols.is_empty() {
                    match guard(|| b.eq(&self.slots[i].b)) { Ok(true) => {} x => return self.fail("column-clone-differs", format!("a block of the same columns {} compared: {x:?}", m.brief())) }
                }
                let types = self.slots[i].types.clone();
                self.slots.push(Slot { b, m, types });
                self.ctx.count("column copies", 1);
            }
            12 if self.slots.len() < 6 && !self.slots[i].types.is_empty() && m.cols.len() < 7 => {
                // one column twice in one block
                let k = r.below(m.cols.len());
                let name = format!("again{}", self.trace.len());
                self.trace.push(format!("block {i} and its column {k} as {name:?} -> block {}", self.slots.len()));
                let s = &self.slots[i];
                let b = match guard(|| match &s.b { B::S(b) => B::S(b.clone().column(&name, b.columns()[k].clone())), B::C(b) => B::C(b.clone().add_column(&name, b.columns()[k].clone())) }) { Ok(b) => b, Err(p) => return self.fail("add-column-panic", p) };
                let mut types = s.types.clone();
                types.push(types[k].clone());
                let mut m = m;
                let mut c = m.cols[k].clone();
                c.name = name;
                m.cols.push(c);
                self.slots.push(Slot { b, m, types });
                self.ctx.count("columns added", 1);
                self.check("after-add-column");
            }
            13 if self.slots.len() > 1 => {
                self.trace.push(format!("drop block {i}"));
                self.slots.remove(i);
                self.check("after-drop");
            }
            _ => {
                // equality says what the contents say
                let j = r.below(self.slots.len());
                let (a, b) = (&self.slots[i], &self.slots[j]);
                if nan(&a.m) || nan(&b.m) { return; }
                // whether names count is left open
                if !a.m.cols.iter().map(|c| &c.name).eq(b.m.cols.iter().map(|c| &c.name)) { return; }
                let e = a.types == b.types && a.m.cols.iter().zip(&b.m.cols).all(|(x, y)| x.vals.len() == y.vals.len() && x.vals.iter().zip(&y.vals).all(|(p, q)| model(&x.ty, p) == model(&y.ty, q) || is_zero(p) && is_zero(q)));
                let f = has_float_zero(&a.m) || has_float_zero(&b.m);
                match guard(|| a.b.eq(&b.b)) {
                    Ok(g) if g == e || f => {}
                    x => { let d = format!("blocks {i} and {j} ({}), equal contents: {e}, compared: {x:?}", a.m.brief()); return self.fail("equality", d); }
                }
                self.ctx.count("comparisons", 1);
            }
        }
    }
}
fn is_zero(v: &Val) -> bool { matches!(v, Val::F32(x) if f32::from_bits(*x) == 0.0) || matches!(v, Val::F64(x) if f64::from_bits(*x) == 0.0) }
fn fz(v: &Val) -> bool { match v { Val::A(v) => v.iter().any(fz), Val::M(m) => m.iter().any(|(a, b)| fz(a) || fz(b)), v => is_zero(v) } }
fn has_float_zero(t: &Table) -> bool { t.cols.iter().any(|c| c.vals.iter().any(fz)) }

/// Types of columns that pushed rows make.
fn gen_push_ty(r: &mut Rng) -> Ty { loop { let t = gen_ty(r, 2); if !matches!(t, Ty::Low(_)) { return t; } } }

/// Blocks made by the application.
pub fn local(ctx: &Ctx, n: u64, r: &mut Rng) {
    let ncols = r.range(1, 5);
    let rows = if r.chance(1, 10) { r.range(120, 300) } else { r.range(0, 6) };
    let (t, rows) = if r.chance(1, 200) { let mut t = crate::c01::long_table(r); while t.cols.iter().any(|c| matches!(c.ty, Ty::Low(_))) { t = crate::c01::long_table(r); } let k = t.rows(); (t, k) } else { (gen_table(r, ncols, rows, &gen_push_ty), rows) };
    let tz = *r.pick(&TZS);
    let mut w = World { ctx, part: "local", n, slots: vec![], trace: vec![], tz, ok: true };
    ctx.distinct(&t.kinds());
    // row by row
    let mut b = Block::new();
    for i in 0..rows {
        let mut rw = row(&t, i, tz);
        if i > 0 { r.shuffle(&mut rw); }
        match guard(|| b.push(rw).map_err(|e| e.to_string())) { Ok(Ok(())) => {} x => return ctx.violation("local", n, "fitting-row-refused", format!("row {i} of {}: {x:?}", t.brief())) }
    }
    let mut m = t.clone();
    if rows == 0 { m.cols.clear(); }
    let types: Vec<SqlType> = b.columns().iter().map(|c| c.sql_type()).collect();
    w.trace.push(format!("block 0 by rows: {}", t.brief()));
    let full = if rows == 0 { let mut x = t.clone(); x.cols.iter_mut().for_each(|c| c.vals.clear()); x } else { m.clone() };
    // an empty block takes the columns of its first row
    w.slots.push(Slot { b: B::S(b.clone()), m: if rows == 0 { full.clone() } else { m.clone() }, types: types.clone() });
    if rows > 0 { w.check("by-rows"); }
    // column by column
    if rows > 0 {
        match guard(|| block_by_cols(&t, tz)) {
            Err(p) => return w.fail("by-columns-panic", format!("{}: {p}", t.brief())),
            Ok(None) => {}
            Ok(Some(c)) => {
                ctx.count("blocks built both ways", 1);
                if let Some(d) = same(&c, &t, &[]) { return w.fail("by-columns", format!("{}: {d}", t.brief())); }
                let ct: Vec<SqlType> = c.columns().iter().map(|c| c.sql_type()).collect();
                if ct != types { return w.fail("by-rows-by-columns-type", format!("{}: types {types:?} by rows, {ct:?} by columns", t.brief())); }
                if !nan(&t) && (c != b || b != c) { return w.fail("by-rows-by-columns", format!("{}: the blocks differ", t.brief())); }
                w.trace.push("block 1 by columns".into());
                w.slots.push(Slot { b: B::S(c), m, types });
            }
        }
    }
    if rows == 0 {
        // the checks below want to know the columns: make the first row
        let vals: Vec<Val> = full.cols.iter().map(|c| gen_val(r, &c.ty)).collect();
        let rw: Vec<(String, Value)> = full.cols.iter().zip(&vals).map(|(c, v)| (c.name.clone(), to_value(&c.ty, v, tz))).collect();
        let s = &mut w.slots[0];
        match guard(|| s.b.push(rw)) { Ok(Ok(())) => {} x => { let d = format!("first row of {}: {x:?}", full.brief()); return w.fail("fitting-row-refused", d); } }
        for (c, v) in s.m.cols.iter_mut().zip(vals) { c.vals.push(v); }
        s.types = s.b.types();
    }
    let cells = crate::c01::elements(&t);
    let steps = if cells > 10_000 { r.range(2, 6) } else if ctx.thorough { r.range(10, 60) } else { r.range(5, 30) };
    for _ in 0..steps { if !w.ok { return; } w.step(r); }
    if n < 3 { ctx.sample(|| w.trace.join(" ; ")); }
}

/// Blocks that came from a server, changed and sent back.
fn fetched(ctx: &Ctx, n: u64, r: &mut Rng) {
    let a: Answer = loop {
        let a = gen_answer(r, false);
        let mut names: Vec<_> = a.parts[0].cols.iter().map(|c| &c.name).collect();
        names.sort();
        names.dedup();
        if names.len() == a.parts[0].cols.len() && a.parts.iter().map(|p| p.rows()).sum::<usize>() < 150 { break a; }
    };
    let full = concat(&a.parts);
    let tz = *r.pick(&TZS);
    let (a1, h1) = (a.clone(), full.header());
    let cfg = SrvCfg::new(move |c, q| if q.sql.starts_with("SELECT") { send_answer(c, &a1) } else { c.do_insert(&h1)?; Ok(()) }).tz(tz.name());
    let srv = Server::start(cfg);
    let compress = r.chance(1, 2);
    let url = srv.url(&format!("{LIMITS}&pool_min=1&pool_max=2{}", if compress { "&compression=lz4" } else { "" }));
    let mut rr = r.fork();
    let res = block_on(MAX, async {
        let pool = Pool::new(url);
        let mut h = handle(&pool).await?;
        let h = &mut h;
        let mut w = World { ctx, part: "fetched", n, slots: vec![], trace: vec![], tz, ok: true };
        w.trace.push(format!("block 0: fetched {} in {} parts, server zone {}", full.brief(), a.parts.len(), tz.name()));
        let b = h.query("SELECT 1").fetch_all().await.map_err(|e| format!("{e}"))?;
        let types: Vec<SqlType> = b.columns().iter().map(|c| c.sql_type()).collect();
        w.slots.push(Slot { b: B::C(b), m: full.clone(), types: types.clone() });
        {
            let mut q = h.query("SELECT 1");
            let mut s = q.stream_blocks();
            let mut k = 0;
            while let Some(b) = s.next().await {
                let b = b.map_err(|e| format!("{e}"))?;
                if k < a.parts.len() && w.slots.len() < 4 { w.trace.push(format!("block {}: part {k} from the stream", w.slots.len())); w.slots.push(Slot { b: B::S(b), m: a.parts[k].clone(), types: types.clone() }); }
                k += 1;
            }
        }
        if w.slots[1..].iter().any(|s| s.b.same(&s.m, &s.types).is_some()) {
            // the parts of an answer may be regrouped: take them as they are (C02 judges the reading)
            w.slots.truncate(1);
        }
        w.check("fetched");
        let steps = rr.range(3, 15);
        for _ in 0..steps { if !w.ok { return Ok(()); } w.step(&mut rr); }
        if !w.ok { return Ok(()); }
        // insert what became of them
        for i in 0..w.slots.len() {
            let m = w.slots[i].m.clone();
            if w.slots[i].types != types { continue; }
            let b = match &w.slots[i].b { B::S(b) => b.clone(), b => b.by_columns() };
            let before = srv.log.datas().len();
            w.trace.push(format!("insert block {i}"));
            let res = h.insert("t", &b).await;
            match res {
                Err(e) => { w.fail("reinsert-refused", format!("inserting {} of the fetched types failed: {e}", m.brief())); return Ok(()); }
                Ok(()) => {
                    let got: Vec<_> = srv.log.datas()[before..].iter().map(|(_, d)| (**d).clone()).filter(|d| d.rows > 0).collect();
                    ctx.eval();
                    ctx.count("blocks sent back", 1);
                    let got: Vec<_> = got.into_iter().collect();
                    if m.rows() == 0 { if !got.is_empty() { w.fail("reinsert", "rows from an empty block".into()); return Ok(()); } continue; }
                    if let Some(d) = judge(&m, &got) { w.fail("reinsert", format!("block {i} ({}): {d}", m.brief())); return Ok(()); }
                }
            }
        }
        Ok::<(), String>(())
    });
    let brief = full.brief();
    match res {
        Out::Done(Ok(())) => {}
        Out::Done(Err(e)) => ctx.violation("fetched", n, &sig_of(&e), format!("{brief}: {e}")),
        Out::Panic(p) => ctx.violation("fetched", n, "panic", format!("{brief}: {p}")),
        Out::Hang => ctx.violation("fetched", n, "hang", brief),
    }
    if let Some(b) = srv.log.bad() { ctx.violation("fetched", n, "bad-bytes", b); }
    ctx.distinct(&full.kinds());
}

/// Copies of a block changed on several threads at the same time.
fn threads(ctx: &Ctx, n: u64, r: &mut Rng) {
    let ncols = r.range(1, 3);
    let rows = r.range(1, 40);
    let t = gen_table(r, ncols, rows, &gen_push_ty);
    let tz = *r.pick(&TZS);
    let b = match block_by_rows(&t, tz) { Ok(b) => b, Err(e) => return ctx.violation("threads", n, "fitting-row-refused", format!("{}: {e}", t.brief())) };
    let types: Vec<SqlType> = b.columns().iter().map(|c| c.sql_type()).collect();
    let k = r.range(2, 4);
    let stop = std::sync::atomic::AtomicBool::new(false);
    let bar = std::sync::Barrier::new(k + 1);
    let rngs: Vec<Rng> = (0..k).map(|_| r.fork()).collect();
    let out: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for mut r in rngs {
            let (b, t, types, stop, out, bar) = (&b, &t, &types, &stop, &out, &bar);
            s.spawn(move || {
                bar.wait();
                let mut mine = b.clone();
                let mut m = t.clone();
                for _ in 0..r.range(1, 12) {
                    let vals: Vec<Val> = m.cols.iter().map(|c| gen_val(&mut r, &c.ty)).collect();
                    let row: Vec<(String, Value)> = m.cols.iter().zip(&vals).map(|(c, v)| (c.name.clone(), to_value(&c.ty, v, tz))).collect();
                    match guard(|| mine.push(row).map_err(|e| e.to_string())) { Ok(Ok(())) => {} x => { out.lock().unwrap().push(("push".into(), format!("{x:?}"))); return; } }
                    for (c, v) in m.cols.iter_mut().zip(vals) { c.vals.push(v); }
                    if let Some(d) = same(&mine, &m, types) { out.lock().unwrap().push(("copy".into(), d)); return; }
                    if stop.load(std::sync::atomic::Ordering::Relaxed) { break; }
                    if r.chance(1, 3) { mine = b.clone(); m = t.clone(); }
                }
            });
        }
        bar.wait();
        for _ in 0..4 { if let Some(d) = same(&b, &t, &types) { out.lock().unwrap().push(("original".into(), d)); break; } ctx.eval(); }
    });
    ctx.count("concurrent copies", k as u64);
    for (s, d) in out.into_inner().unwrap() { return ctx.violation("threads", n, &format!("concurrent-{s}"), format!("{}: {d}", t.brief())); }
    if let Some(d) = same(&b, &t, &types) { ctx.violation("threads", n, "concurrent-original", format!("{}: {d}", t.brief())); }
}

/// Rows made with the macro.
fn macros(ctx: &Ctx, n: u64, r: &mut Rng) {
    let rows = r.range(1, 20);
    let tys = [Ty::U8, Ty::I64, Ty::Str, Ty::F64, Ty::Nullable(Box::new(Ty::U32)), Ty::Ip4, Ty::Uuid, Ty::Array(Box::new(Ty::Str)), Ty::Bool, Ty::Date];
    let t = Table { cols: tys.iter().enumerate().map(|(i, ty)| Col { name: format!("c{i}"), ty: ty.clone(), vals: (0..rows).map(|_| loop { let v = gen_val(r, ty); let ok = match &v { Val::S(s) => std::str::from_utf8(s).is_ok(), Val::A(v) => v.iter().all(|x| matches!(x, Val::S(s) if std::str::from_utf8(s).is_ok())), _ => true }; if ok && !has_nan(&v) { break v; } }).collect() }).collect() };
    let g = |c: usize, i: usize| &t.cols[c].vals[i];
    let u = |v: &Val| if let Val::U(x) = v { *x } else { panic!() };
    let st = |v: &Val| if let Val::S(s) = v { String::from_utf8(s.clone()).unwrap() } else { panic!() };
    let mut b = Block::new();
    let mut p = Block::new();
    for i in 0..rows {
        let u8_ = u(g(0, i)) as u8;
        let i64_ = if let Val::I(x) = g(1, i) { *x as i64 } else { panic!() };
        let f = if let Val::F64(x) = g(3, i) { f64::from_bits(*x) } else { panic!() };
        let o = if *g(4, i) == Val::Null { None } else { Some(u(g(4, i)) as u32) };
        let a: Vec<String> = if let Val::A(v) = g(7, i) { v.iter().map(st).collect() } else { panic!() };
        let bo = *g(8, i) == Val::Bool(true);
        let res = if i % 2 == 0 {
            b.push(row! { c0: u8_, c1: i64_, c2: st(g(2, i)), c3: f, c4: o, c5: to_value(&Ty::Ip4, g(5, i), Tz::UTC), c6: uu(g(6, i)), c7: a.clone(), c8: bo, c9: date(g(9, i)) })
        } else {
            b.push(row! { c9: date(g(9, i)), c8: bo, c7: a.clone(), c6: uu(g(6, i)), c5: to_value(&Ty::Ip4, g(5, i), Tz::UTC), c4: o, c3: f, c2: st(g(2, i)), c1: i64_, c0: u8_ })
        };
        if let Err(e) = res { return ctx.violation("macro", n, "fitting-row-refused", format!("row {i}: {e}")); }
        if let Err(e) = p.push(row! { u8_, i64_, o, bo }) { return ctx.violation("macro", n, "fitting-row-refused", format!("short row {i}: {e}")); }
        // rows that don't fit
        let bad = [
            b.push(row! { c0: u8_, c1: i64_ }).is_ok(),
            b.push(row! { c9: date(g(9, i)), c8: bo, c7: a.clone(), c6: uu(g(6, i)), c5: to_value(&Ty::Ip4, g(5, i), Tz::UTC), c4: o, c3: f, c2: st(g(2, i)), c1: u8_, c0: u8_ }).is_ok(),
            b.push(row! { c9: date(g(9, i)), c8: bo, c7: a.clone(), c6: uu(g(6, i)), c5: to_value(&Ty::Ip4, g(5, i), Tz::UTC), c4: o, c3: f, c2: st(g(2, i)), c1: i64_, zz: u8_ }).is_ok(),
            p.push(row! { u8_, i64_, o }).is_ok(),
        ];
        if bad.iter().any(|x| *x) { return ctx.violation("macro", n, "bad-row-accepted", format!("row {i}: {bad:?}")); }
        ctx.count("rows refused", 4);
        ctx.count("rows pushed", 2);
    }
    ctx.eval();
    if let Some(d) = same(&b, &t, &[]) { return ctx.violation("macro", n, "by-rows", d); }
    let m = Table { cols: [0usize, 1, 4, 8].iter().map(|k| Col { name: String::new(), ..t.cols[*k].clone() }).collect() };
    let pn: Vec<String> = p.columns().iter().map(|c| c.name().to_string()).collect();
    let m = Table { cols: m.cols.into_iter().zip(pn).map(|(c, name)| Col { name, ..c }).collect() };
    if let Some(d) = same(&p, &m, &[]) { return ctx.violation("macro", n, "by-rows", format!("rows without names: {d}")); }
    match block_by_cols(&t, Tz::UTC) {
        Some(c) if c == b => {}
        _ => return ctx.violation("macro", n, "by-rows-by-columns", format!("{} differ", t.brief())),
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case is a program over several blocks (made by rows, by columns, fetched, streamed, cloned, made of shared columns, concatenated) that pushes fitting and unfitting rows; every block is read completely and compared with its own model after every step, and finally inserted; distinct = distinct column kinds and ways of not fitting");
    ctx.assume("values of one column come in one type; a row pushed into a block without rows may add columns");
    cases(ctx, "local", ctx.n(12_000, 400_000), 8, secs(ctx.n(30, 300)), local);
    cases(ctx, "fetched", ctx.n(2500, 60_000), 8, secs(ctx.n(30, 300)), fetched);
    cases(ctx, "threads", ctx.n(600, 20_000), 4, secs(ctx.n(15, 100)), threads);
    cases(ctx, "macro", ctx.n(300, 5000), 8, secs(10), macros);
}
