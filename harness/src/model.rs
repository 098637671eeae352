//! Independent model of ClickHouse types and values.
use crate::rng::Rng;
use chrono_tz::Tz;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64,
    Str, Fixed(usize), Date,
    DateTime(Option<Tz>),
    DateTime64(u32, Option<Tz>),
    Ip4, Ip6, Uuid,
    Dec(u8, u8),
    Enum8(Vec<(String, i16)>),
    Enum16(Vec<(String, i16)>),
    Nullable(Box<Ty>),
    Array(Box<Ty>),
    Low(Box<Ty>),
    Agg(String, Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Bool(bool), U(u128), I(i128), F32(u32), F64(u64), S(Vec<u8>),
    Date(u16), DT(u32), DT64(i64), Dec(i64, u8), E(i16),
    Ip4([u8; 4]), Ip6([u8; 16]), Uuid([u8; 16]),
    Null, A(Vec<Val>), M(Vec<(Val, Val)>),
}

impl Val {
    /// Maps are unordered for the driver: compare them by sorted key.
    pub fn norm(&self) -> Val {
        match self {
            Val::A(v) => Val::A(v.iter().map(|x| x.norm()).collect()),
            Val::M(v) => {
                let mut m: Vec<_> = v.iter().map(|(a, b)| (a.norm(), b.norm())).collect();
                m.sort();
                Val::M(m)
            }
            v => v.clone(),
        }
    }
}

pub const AGGS: [&str; 16] = ["any", "anyLast", "min", "max", "sum", "sumWithOverflow", "groupBitAnd", "groupBitOr", "groupBitXor", "groupArrayArray", "groupUniqArrayArray", "sumMap", "minMap", "maxMap", "argMin", "argMax"];

fn quote(s: &str) -> String {
    let mut o = String::from("'");
    for c in s.chars() {
        if c == '\'' || c == '\\' { o.push('\\'); }
        o.push(c);
    }
    o.push('\'');
    o
}

impl Ty {
    pub fn name(&self) -> String {
        match self {
            Ty::Bool => "Bool".into(), Ty::U8 => "UInt8".into(), Ty::U16 => "UInt16".into(), Ty::U32 => "UInt32".into(),
            Ty::U64 => "UInt64".into(), Ty::U128 => "UInt128".into(), Ty::I8 => "Int8".into(), Ty::I16 => "Int16".into(),
            Ty::I32 => "Int32".into(), Ty::I64 => "Int64".into(), Ty::I128 => "Int128".into(), Ty::F32 => "Float32".into(),
            Ty::F64 => "Float64".into(), Ty::Str => "String".into(), Ty::Fixed(n) => format!("FixedString({n})"),
            Ty::Date => "Date".into(),
            Ty::DateTime(None) => "DateTime".into(),
            Ty::DateTime(Some(tz)) => format!("DateTime('{}')", tz.name()),
            Ty::DateTime64(p, None) => format!("DateTime64({p})"),
            Ty::DateTime64(p, Some(tz)) => format!("DateTime64({p}, '{}')", tz.name()),
            Ty::Ip4 => "IPv4".into(), Ty::Ip6 => "IPv6".into(), Ty::Uuid => "UUID".into(),
            Ty::Dec(p, s) => format!("Decimal({p}, {s})"),
            Ty::Enum8(v) => format!("Enum8({})", v.iter().map(|(n, x)| format!("{} = {}", quote(n), x)).collect::<Vec<_>>().join(", ")),
            Ty::Enum16(v) => format!("Enum16({})", v.iter().map(|(n, x)| format!("{} = {}", quote(n), x)).collect::<Vec<_>>().join(", ")),
            Ty::Nullable(t) => format!("Nullable({})", t.name()),
            Ty::Array(t) => format!("Array({})", t.name()),
            Ty::Low(t) => format!("LowCardinality({})", t.name()),
            Ty::Agg(f, t) => format!("SimpleAggregateFunction({f}, {})", t.name()),
            Ty::Map(k, v) => format!("Map({}, {})", k.name(), v.name()),
        }
    }

    /// The same stored type, ignoring time-zone annotations (they do not change the bytes).
    pub fn strip_tz(&self) -> Ty {
        match self {
            Ty::DateTime(_) => Ty::DateTime(None),
            Ty::DateTime64(p, _) => Ty::DateTime64(*p, None),
            Ty::Nullable(t) => Ty::Nullable(Box::new(t.strip_tz())),
            Ty::Array(t) => Ty::Array(Box::new(t.strip_tz())),
            Ty::Low(t) => Ty::Low(Box::new(t.strip_tz())),
            Ty::Agg(f, t) => Ty::Agg(f.clone(), Box::new(t.strip_tz())),
            Ty::Map(k, v) => Ty::Map(Box::new(k.strip_tz()), Box::new(v.strip_tz())),
            t => t.clone(),
        }
    }

    pub fn kind(&self) -> String {
        match self {
            Ty::Enum8(_) => "Enum8".into(),
            Ty::Enum16(_) => "Enum16".into(),
            Ty::Fixed(_) => "FixedString".into(),
            Ty::Dec(p, _) => if *p <= 9 { "Decimal32".into() } else { "Decimal64".into() },
            Ty::DateTime(t) => if t.is_some() { "DateTime(tz)".into() } else { "DateTime".into() },
            Ty::DateTime64(..) => "DateTime64".into(),
            Ty::Nullable(t) => format!("Nullable({})", t.kind()),
            Ty::Array(t) => format!("Array({})", t.kind()),
            Ty::Low(t) => format!("LowCardinality({})", t.kind()),
            Ty::Agg(_, t) => format!("SimpleAgg({})", t.kind()),
            Ty::Map(k, v) => format!("Map({},{})", k.kind(), v.kind()),
            t => t.name(),
        }
    }

    pub fn default_val(&self) -> Val {
        match self {
            Ty::Bool => Val::Bool(false),
            Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 | Ty::U128 => Val::U(0),
            Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::I128 => Val::I(0),
            Ty::F32 => Val::F32(0), Ty::F64 => Val::F64(0),
            Ty::Str => Val::S(vec![]), Ty::Fixed(n) => Val::S(vec![0; *n]),
            Ty::Date => Val::Date(0), Ty::DateTime(_) => Val::DT(0), Ty::DateTime64(..) => Val::DT64(0),
            Ty::Ip4 => Val::Ip4([0; 4]), Ty::Ip6 => Val::Ip6([0; 16]), Ty::Uuid => Val::Uuid([0; 16]),
            Ty::Dec(_, s) => Val::Dec(0, *s), Ty::Enum8(v) | Ty::Enum16(v) => Val::E(v[0].1),
            Ty::Nullable(_) => Val::Null, Ty::Array(_) => Val::A(vec![]), Ty::Low(t) => t.default_val(),
            Ty::Agg(_, t) => t.default_val(), Ty::Map(..) => Val::M(vec![]),
        }
    }
}

// ---------------------------------------------------------------- type-name parser

struct P<'a> { s: &'a [u8], i: usize }

impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i] == b' ' { self.i += 1; } }
    fn ident(&mut self) -> Result<String, String> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') { self.i += 1; }
        if st == self.i { return Err(format!("identifier expected at {st}")); }
        Ok(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
    }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.i < self.s.len() && self.s[self.i] == c { self.i += 1; true } else { false } }
    fn need(&mut self, c: u8) -> Result<(), String> { if self.eat(c) { Ok(()) } else { Err(format!("'{}' expected at {}", c as char, self.i)) } }
    fn int(&mut self) -> Result<i64, String> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i] == b'-' { self.i += 1; }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map_err(|_| format!("integer expected at {st}"))
    }
    fn str(&mut self) -> Result<String, String> {
        self.need(b'\'')?;
        let mut o = vec![];
        loop {
            let c = *self.s.get(self.i).ok_or("unterminated string")?;
            self.i += 1;
            match c {
                b'\\' => { o.push(*self.s.get(self.i).ok_or("bad escape")?); self.i += 1; }
                b'\'' => break,
                c => o.push(c),
            }
        }
        String::from_utf8(o).map_err(|e| e.to_string())
    }
    fn ty(&mut self) -> Result<Ty, String> {
        let id = self.ident()?;
        Ok(match id.as_str() {
            "Bool" => Ty::Bool, "UInt8" => Ty::U8, "UInt16" => Ty::U16, "UInt32" => Ty::U32, "UInt64" => Ty::U64, "UInt128" => Ty::U128,
            "Int8" => Ty::I8, "Int16" => Ty::I16, "Int32" => Ty::I32, "Int64" => Ty::I64, "Int128" => Ty::I128,
            "Float32" => Ty::F32, "Float64" => Ty::F64, "String" => Ty::Str, "Date" => Ty::Date, "IPv4" => Ty::Ip4, "IPv6" => Ty::Ip6, "UUID" => Ty::Uuid,
            "FixedString" => { self.need(b'(')?; let n = self.int()?; self.need(b')')?; if n <= 0 { return Err("FixedString size".into()); } Ty::Fixed(n as usize) }
            "DateTime" => if self.eat(b'(') { let z = self.str()?; self.need(b')')?; Ty::DateTime(Some(z.parse::<Tz>().map_err(|e| e.to_string())?)) } else { Ty::DateTime(None) },
            "DateTime64" => {
                self.need(b'(')?;
                let p = self.int()?;
                let tz = if self.eat(b',') { Some(self.str()?.parse::<Tz>().map_err(|e| e.to_string())?) } else { None };
                self.need(b')')?;
                if !(0..=9).contains(&p) { return Err("DateTime64 precision".into()); }
                Ty::DateTime64(p as u32, tz)
            }
            "Decimal" => { self.need(b'(')?; let p = self.int()?; self.need(b',')?; let s = self.int()?; self.need(b')')?; if !(1..=18).contains(&p) || s < 0 || s > p { return Err("Decimal parameters".into()); } Ty::Dec(p as u8, s as u8) }
            "Decimal32" => { self.need(b'(')?; let s = self.int()?; self.need(b')')?; Ty::Dec(9, s as u8) }
            "Decimal64" => { self.need(b'(')?; let s = self.int()?; self.need(b')')?; Ty::Dec(18, s as u8) }
            "Enum8" | "Enum16" => {
                self.need(b'(')?;
                let mut v = vec![];
                loop { let n = self.str()?; self.need(b'=')?; let x = self.int()?; v.push((n, x as i16)); if !self.eat(b',') { break; } }
                self.need(b')')?;
                if id == "Enum8" { Ty::Enum8(v) } else { Ty::Enum16(v) }
            }
            "Nullable" => { self.need(b'(')?; let t = self.ty()?; self.need(b')')?; Ty::Nullable(Box::new(t)) }
            "Array" => { self.need(b'(')?; let t = self.ty()?; self.need(b')')?; Ty::Array(Box::new(t)) }
            "LowCardinality" => { self.need(b'(')?; let t = self.ty()?; self.need(b')')?; Ty::Low(Box::new(t)) }
            "SimpleAggregateFunction" => { self.need(b'(')?; let f = self.ident()?; self.need(b',')?; let t = self.ty()?; self.need(b')')?; Ty::Agg(f, Box::new(t)) }
            "Map" => { self.need(b'(')?; let k = self.ty()?; self.need(b',')?; let v = self.ty()?; self.need(b')')?; Ty::Map(Box::new(k), Box::new(v)) }
            o => return Err(format!("unknown type {o}")),
        })
    }
}

pub fn parse_ty(s: &str) -> Result<Ty, String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let t = p.ty()?;
    p.ws();
    if p.i != s.len() { return Err(format!("trailing text in type {s:?}")); }
    Ok(t)
}

// ---------------------------------------------------------------- generators

pub const TZS: [Tz; 10] = [Tz::UTC, Tz::Europe__Moscow, Tz::America__New_York, Tz::Asia__Kathmandu, Tz::Pacific__Kiritimati, Tz::Pacific__Pago_Pago, Tz::Australia__Lord_Howe, Tz::America__St_Johns, Tz::Africa__Monrovia, Tz::Asia__Tokyo];

pub fn gen_name(r: &mut Rng) -> String {
    let pool = ["a", "б", "значение", "x y", "it's", "back\\slash", "q\"q", "comma,comma", "par(en)", "=", "", "long_name_0123456789", "名前", "tab\there", "🦀"];
    if r.chance(1, 2) { pool[r.below(pool.len())].to_string() } else { format!("n{}", r.below(1000)) }
}

pub fn gen_enum(r: &mut Rng, wide: bool, plain: bool) -> Vec<(String, i16)> {
    let n = r.range(1, 6);
    let mut v: Vec<(String, i16)> = vec![];
    while v.len() < n {
        let name = if plain { format!("e{}", r.below(100)) } else { gen_name(r) };
        let x = if wide { *r.pick(&[i16::MIN, -1000, -129, -128, -1, 0, 1, 127, 128, 255, 256, 1000, i16::MAX]) } else { *r.pick(&[-128, -127, -5, -1, 0, 1, 2, 3, 100, 127]) };
        if v.iter().any(|(a, b)| *a == name || *b == x) { continue; }
        v.push((name, x));
    }
    v
}

pub fn gen_scalar(r: &mut Rng) -> Ty {
    match r.below(24) {
        0 => Ty::Bool, 1 => Ty::U8, 2 => Ty::U16, 3 => Ty::U32, 4 => Ty::U64, 5 => Ty::U128,
        6 => Ty::I8, 7 => Ty::I16, 8 => Ty::I32, 9 => Ty::I64, 10 => Ty::I128, 11 => Ty::F32, 12 => Ty::F64,
        13 | 14 => Ty::Str,
        15 => Ty::Fixed(r.range(1, 20)),
        16 => Ty::Date,
        17 => Ty::DateTime(if r.chance(1, 2) { Some(*r.pick(&TZS)) } else { None }),
        18 => Ty::DateTime64(r.below(10) as u32, if r.chance(1, 2) { Some(*r.pick(&TZS)) } else { None }),
        19 => Ty::Ip4, 20 => Ty::Ip6, 21 => Ty::Uuid,
        22 => { let p = r.range(1, 18) as u8; Ty::Dec(p, r.below(p as usize + 1) as u8) }
        _ => if r.chance(1, 2) { Ty::Enum8(gen_enum(r, false, false)) } else { Ty::Enum16(gen_enum(r, true, false)) },
    }
}

pub fn gen_low_inner(r: &mut Rng) -> Ty {
    match r.below(12) {
        0..=3 => Ty::Str, 4 => Ty::Fixed(r.range(1, 8)), 5 => Ty::Date, 6 => Ty::DateTime(None),
        7 => Ty::U8, 8 => Ty::U32, 9 => Ty::U64, 10 => Ty::I16, _ => Ty::I64,
    }
}

pub fn gen_map_key(r: &mut Rng) -> Ty {
    match r.below(16) { 0..=2 => Ty::Str, 3 => Ty::U8, 4 => Ty::U16, 5 => Ty::U32, 6 => Ty::U64, 7 => Ty::I32, 8 => Ty::I64, 9 => Ty::I128, 10 => Ty::Uuid, 11 => Ty::Date, 12 => Ty::Enum8(gen_enum(r, false, false)), 13 => Ty::Ip4, 14 => Ty::Bool, _ => Ty::Fixed(r.range(1, 5)) }
}

pub fn gen_ty(r: &mut Rng, depth: usize) -> Ty {
    match r.below(12) {
        0..=5 => gen_scalar(r),
        6 | 7 => Ty::Nullable(Box::new(gen_scalar(r))),
        8 | 9 if depth > 0 => Ty::Array(Box::new(gen_elem(r, depth - 1))),
        10 if depth > 0 => Ty::Map(Box::new(gen_map_key(r)), Box::new(gen_elem(r, depth - 1))),
        11 => Ty::Low(Box::new(gen_low_inner(r))),
        _ => gen_scalar(r),
    }
}

pub fn gen_elem(r: &mut Rng, depth: usize) -> Ty {
    match r.below(8) {
        0..=3 => gen_scalar(r),
        4 | 5 => Ty::Nullable(Box::new(gen_scalar(r))),
        6 if depth > 0 => Ty::Array(Box::new(gen_elem(r, depth - 1))),
        7 if depth > 0 => Ty::Map(Box::new(gen_map_key(r)), Box::new(gen_elem(r, depth - 1))),
        _ => gen_scalar(r),
    }
}

fn gen_uint(r: &mut Rng, bits: u32) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    match r.below(6) {
        0 => 0, 1 => max, 2 => max >> 1, 3 => (max >> 1) + 1,
        4 => r.below(256) as u128 & max,
        _ => r.u128() & max,
    }
}
fn gen_int(r: &mut Rng, bits: u32) -> i128 {
    let u = gen_uint(r, bits);
    if bits == 128 { u as i128 } else { ((u << (128 - bits)) as i128) >> (128 - bits) }
}

pub fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => vec![],
        1 => r.bytes(3),
        2 => { let n = *r.pick(&[127usize, 128, 129, 255, 256, 300, 1023, 1024, 1025, 5000]); r.bytes(n) }
        3 => "тест 漢字 🦀".as_bytes().to_vec(),
        4 => vec![0, 255, 0],
        5 => b"'; DROP -- \\ ` \"".to_vec(),
        6 => vec![b'x'; r.range(100, 200)],
        _ => { let n = r.range(1, 12); (0..n).map(|_| b'a' + r.below(26) as u8).collect() }
    }
}

/// Highest absolute tick count for which the instant lies within chrono's nanosecond range.
pub fn dt64_limits(p: u32) -> (i64, i64) {
    // 1900-01-01 .. 2262-04-11 as ClickHouse's documented range for DateTime64 (capped by i64 nanoseconds)
    let mul = 10i128.pow(p);
    let lo = (-2208988800i128 * mul).max(i64::MIN as i128);
    let hi = (9_223_372_036i128 * mul - 1).min(i64::MAX as i128);
    (lo as i64, hi as i64)
}

pub fn gen_val(r: &mut Rng, t: &Ty) -> Val {
    match t {
        Ty::Bool => Val::Bool(r.chance(1, 2)),
        Ty::U8 => Val::U(gen_uint(r, 8)), Ty::U16 => Val::U(gen_uint(r, 16)), Ty::U32 => Val::U(gen_uint(r, 32)), Ty::U64 => Val::U(gen_uint(r, 64)), Ty::U128 => Val::U(gen_uint(r, 128)),
        Ty::I8 => Val::I(gen_int(r, 8)), Ty::I16 => Val::I(gen_int(r, 16)), Ty::I32 => Val::I(gen_int(r, 32)), Ty::I64 => Val::I(gen_int(r, 64)), Ty::I128 => Val::I(gen_int(r, 128)),
        Ty::F32 => Val::F32(match r.below(6) { 0 => 0, 1 => f32::NAN.to_bits(), 2 => f32::NEG_INFINITY.to_bits(), 3 => (-0.0f32).to_bits(), 4 => 1.5f32.to_bits(), _ => r.u64() as u32 & 0xff7fffff }),
        Ty::F64 => Val::F64(match r.below(6) { 0 => 0, 1 => f64::NAN.to_bits(), 2 => f64::INFINITY.to_bits(), 3 => (-0.0f64).to_bits(), 4 => (-2.25f64).to_bits(), _ => r.u64() & 0xffefffffffffffff }),
        Ty::Str => Val::S(gen_bytes(r)),
        Ty::Fixed(n) => { let mut b = gen_bytes(r); b.resize(*n, 0); Val::S(b) }
        Ty::Date => Val::Date(match r.below(5) { 0 => 0, 1 => u16::MAX, 2 => 16383, _ => r.u64() as u16 }),
        Ty::DateTime(_) => Val::DT(match r.below(6) { 0 => 0, 1 => u32::MAX, 2 => i32::MAX as u32, 3 => i32::MAX as u32 + 1, 4 => 1_572_746_400 + r.below(7200) as u32, _ => r.u64() as u32 }),
        Ty::DateTime64(p, _) => {
            let (lo, hi) = dt64_limits(*p);
            Val::DT64(match r.below(7) {
                0 => 0, 1 => -1, 2 => lo, 3 => hi,
                4 => -(r.below(100_000) as i64) - 1,
                _ => { let span = (hi as i128 - lo as i128 + 1) as u128; (lo as i128 + (r.u128() % span) as i128) as i64 }
            })
        }
        Ty::Ip4 => Val::Ip4(match r.below(4) { 0 => [127, 0, 0, 1], 1 => [255, 0, 1, 254], _ => (r.u64() as u32).to_le_bytes() }),
        Ty::Ip6 => Val::Ip6(match r.below(4) { 0 => [0; 16], 1 => [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 10, 0, 0, 1], _ => r.u128().to_le_bytes() }),
        Ty::Uuid => Val::Uuid(r.u128().to_le_bytes()),
        Ty::Dec(p, s) => {
            let lim = 10i64.pow(*p as u32) - 1;
            Val::Dec(match r.below(6) { 0 => 0, 1 => lim, 2 => -lim, 3 => -(r.below(lim.min(100) as usize + 1) as i64), _ => (r.u64() % (2 * lim as u64 + 1)) as i64 - lim }, *s)
        }
        Ty::Enum8(v) | Ty::Enum16(v) => Val::E(r.pick(v).1),
        Ty::Nullable(t) => if r.chance(1, 3) { Val::Null } else { gen_val(r, t) },
        Ty::Array(t) => { let n = match r.below(5) { 0 | 1 => 0, 2 => 1, 3 if r.chance(1, 60) => r.range(120, 300), _ => r.range(1, 5) }; Val::A((0..n).map(|_| gen_val(r, t)).collect()) }
        Ty::Low(t) => gen_val(r, t),
        Ty::Agg(_, t) => gen_val(r, t),
        Ty::Map(k, v) => {
            let n = if r.chance(1, 100) { r.range(20, 150) } else { r.below(4) };
            let mut m: Vec<(Val, Val)> = vec![];
            for _ in 0..n {
                let key = gen_val(r, k);
                if !m.iter().any(|(a, _)| *a == key) { let x = gen_val(r, v); m.push((key, x)); }
            }
            Val::M(m)
        }
    }
}

/// A column of values; dictionary columns draw from a small set so that keys repeat.
pub fn gen_col(r: &mut Rng, t: &Ty, rows: usize) -> Vec<Val> {
    if let Ty::Low(inner) = t {
        if rows > 200 && r.chance(3, 4) {
            // as many distinct values as index widths turn on
            let k = (*r.pick(&[254usize, 255, 256, 257, 258, 65534, 65535, 65536, 65537, rows])).min(rows);
            let dict: Vec<Val> = (0..k).map(|i| many(inner, i)).collect();
            let st = r.below(k);
            let mut v: Vec<Val> = (0..rows).map(|i| dict[(i + st) % k].clone()).collect();
            if r.chance(1, 2) { r.shuffle(&mut v); }
            return v;
        }
        let k = r.range(1, 6);
        let dict: Vec<Val> = (0..k).map(|_| gen_val(r, inner)).collect();
        return (0..rows).map(|_| r.pick(&dict).clone()).collect();
    }
    (0..rows).map(|_| gen_val(r, t)).collect()
}

/// The i-th of many values of a dictionary type (distinct as far as the type allows).
pub fn many(t: &Ty, i: usize) -> Val {
    match t {
        Ty::Str => Val::S(if i == 0 { vec![] } else { format!("v{i}").into_bytes() }),
        Ty::Fixed(n) => { let mut b = i.to_le_bytes().to_vec(); b.resize(*n, 0); Val::S(b) }
        Ty::Date => Val::Date(i as u16),
        Ty::DateTime(_) => Val::DT(i as u32 * 7919),
        Ty::U8 => Val::U(i as u128 & 0xff), Ty::U32 | Ty::U64 => Val::U(i as u128 * 3),
        Ty::I16 => Val::I(i as i16 as i128), _ => Val::I(i as i128 * 5 - 1000),
    }
}

#[derive(Clone, Debug, PartialEq, Hash)]
pub struct Col { pub name: String, pub ty: Ty, pub vals: Vec<Val> }

#[derive(Clone, Debug, PartialEq, Hash, Default)]
pub struct Table { pub cols: Vec<Col> }

impl Table {
    pub fn rows(&self) -> usize { self.cols.first().map(|c| c.vals.len()).unwrap_or(0) }
    pub fn header(&self) -> Table { Table { cols: self.cols.iter().map(|c| Col { name: c.name.clone(), ty: c.ty.clone(), vals: vec![] }).collect() } }
    pub fn slice(&self, a: usize, b: usize) -> Table { Table { cols: self.cols.iter().map(|c| Col { name: c.name.clone(), ty: c.ty.clone(), vals: c.vals[a..b].to_vec() }).collect() } }
    pub fn kinds(&self) -> String { self.cols.iter().map(|c| c.ty.kind()).collect::<Vec<_>>().join("; ") }
    pub fn brief(&self) -> String { format!("{} rows x [{}]", self.rows(), self.cols.iter().map(|c| format!("{:?} {}", c.name, c.ty.name())).collect::<Vec<_>>().join(", ")) }
}

/// First difference between two value columns, in words.
pub fn diff_vals(exp: &[Val], got: &[Val]) -> Option<String> {
    if exp.len() != got.len() { return Some(format!("{} values expected, {} found", exp.len(), got.len())); }
    for i in 0..exp.len() {
        if exp[i].norm() != got[i].norm() { return Some(format!("row {i}: expected {:?}, found {:?}", exp[i], got[i]).chars().take(900).collect()); }
    }
    None
}
