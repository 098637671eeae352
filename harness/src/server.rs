//! A scriptable mock ClickHouse server that records what clients do.
use crate::codec::*;
use crate::model::*;
use crate::rng::Rng;
use std::collections::HashMap;
use std::io::{BufReader, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum SettingWire { Str { important: u8, value: Vec<u8> }, OldStr(Vec<u8>), OldInt(u64) }

#[derive(Clone, Debug, Default)]
pub struct QueryReq {
    pub query_id: String, pub kind: u64, pub initial_user: String, pub initial_id: String, pub initial_addr: String, pub iface: u64,
    pub os_user: String, pub host: String, pub cname: String, pub cmaj: u64, pub cmin: u64, pub crev: u64,
    pub quota: Option<String>, pub patch: Option<u64>, pub settings: Vec<(String, SettingWire)>,
    pub stage: u64, pub compression: u64, pub sql: String,
}

#[derive(Clone, Debug, Default)]
pub struct HelloReq { pub name: String, pub maj: u64, pub min: u64, pub rev: u64, pub db: String, pub user: String, pub pw: String }

#[derive(Clone, Debug)]
pub enum Ev { Accept, Hello(Arc<HelloReq>), Ping, Query(Arc<QueryReq>), Data(Arc<RxBlock>), Cancel, Ack, Exc, Eof, SrvClose, Bad(String) }

impl Ev {
    pub fn tag(&self) -> &'static str {
        match self { Ev::Accept => "accept", Ev::Hello(_) => "hello", Ev::Ping => "ping", Ev::Query(_) => "query", Ev::Data(_) => "data", Ev::Cancel => "cancel", Ev::Ack => "ack", Ev::Exc => "exc", Ev::Eof => "eof", Ev::SrvClose => "srvclose", Ev::Bad(_) => "bad" }
    }
}

#[derive(Clone, Debug)]
pub struct Event { pub seq: u64, pub at: Instant, pub conn: u64, pub ev: Ev }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut { Fin, Close, Rst }

#[derive(Clone, Debug)]
pub enum Frag { Whole, Bytes(usize), Random(usize) }

#[derive(Clone, Debug)]
pub struct Wire { pub frag: Frag, pub gap: Duration, pub cut: Option<(u64, Cut)>, pub rng: Rng }
impl Wire {
    pub fn whole() -> Wire { Wire { frag: Frag::Whole, gap: Duration::ZERO, cut: None, rng: Rng::new(0) } }
}

pub trait Sock: Read + Write + Send {}
impl<T: Read + Write + Send> Sock for T {}

type QueryFn = dyn Fn(&mut Conn, &QueryReq) -> R<()> + Send + Sync;
type ConnFn = dyn Fn(&mut Conn) -> R<()> + Send + Sync;
type WireFn = dyn Fn(u64) -> Wire + Send + Sync;
/// When set, every server speaks TLS.
pub static GLOBAL_TLS: std::sync::OnceLock<Arc<TlsFn>> = std::sync::OnceLock::new();
pub type TlsFn = dyn Fn(TcpStream) -> Result<Box<dyn Sock>, String> + Send + Sync;

#[derive(Clone)]
pub struct SrvCfg {
    pub rev: u64,
    pub tz: String,
    pub patch: u64,
    pub old_types: HashMap<String, char>,
    pub on_query: Arc<QueryFn>,
    pub on_hello: Option<Arc<ConnFn>>,
    pub on_ping: Option<Arc<ConnFn>>,
    pub on_accept: Option<Arc<ConnFn>>,
    pub wire: Arc<WireFn>,
    pub tls: Option<Arc<TlsFn>>,
    /// listen here rather than at a loopback address of its own
    pub bind: Option<std::net::IpAddr>,
    pub first_conn: u64,
    /// (connection, bytes sent so far) after every send
    pub marks: Option<Arc<Mutex<Vec<(u64, u64)>>>>,
    pub mon: Option<Arc<OpenMon>>,
}

/// Watches how many connections a client keeps open at once, over one or several servers.
/// A connection counts only while the kernel says that the client has not closed it.
#[derive(Default)]
pub struct OpenMon { pub max: usize, socks: Mutex<Vec<(u64, TcpStream)>>, pub peak: AtomicU64, pub excess: Mutex<Option<String>> }
impl OpenMon {
    pub fn new(max: usize) -> Arc<OpenMon> { Arc::new(OpenMon { max, ..Default::default() }) }
    fn established(s: &TcpStream) -> bool {
        use std::os::fd::AsRawFd;
        let mut b = [0u8; 256];
        let mut n = b.len() as u32;
        let r = unsafe { libc::getsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_INFO, b.as_mut_ptr() as *mut libc::c_void, &mut n) };
        r == 0 && b[0] == 1
    }
    pub fn open(&self) -> Vec<u64> { self.socks.lock().unwrap().iter().filter(|(_, s)| Self::established(s)).map(|(i, _)| *i).collect() }
    pub fn add(&self, id: u64, s: &TcpStream) {
        if let Ok(c) = s.try_clone() { self.socks.lock().unwrap().push((id, c)); }
        let o = self.open();
        self.peak.fetch_max(o.len() as u64, SeqCst);
        if o.len() > self.max {
            // a FIN still on its way would look like an open connection: look again
            std::thread::sleep(Duration::from_millis(15));
            let now = self.open();
            let both: Vec<u64> = o.iter().filter(|x| now.contains(x)).cloned().collect();
            if both.len() > self.max { self.excess.lock().unwrap().get_or_insert(format!("{} connections open at once ({both:?}), the limit is {}", both.len(), self.max)); }
        }
    }
    pub fn del(&self, id: u64) { self.socks.lock().unwrap().retain(|(i, _)| *i != id); }
}

impl SrvCfg {
    pub fn new(f: impl Fn(&mut Conn, &QueryReq) -> R<()> + Send + Sync + 'static) -> SrvCfg {
        SrvCfg { rev: 54429, tz: "UTC".into(), patch: 7, old_types: HashMap::new(), on_query: Arc::new(f), on_hello: None, on_ping: None, on_accept: None, wire: Arc::new(|_| Wire::whole()), tls: GLOBAL_TLS.get().cloned(), bind: None, first_conn: 0, marks: None, mon: None }
    }
    pub fn wire(mut self, f: impl Fn(u64) -> Wire + Send + Sync + 'static) -> SrvCfg { self.wire = Arc::new(f); self }
    pub fn rev(mut self, r: u64) -> SrvCfg { self.rev = r; self }
    pub fn tz(mut self, t: &str) -> SrvCfg { self.tz = t.into(); self }
    pub fn hello(mut self, f: impl Fn(&mut Conn) -> R<()> + Send + Sync + 'static) -> SrvCfg { self.on_hello = Some(Arc::new(f)); self }
    pub fn ping(mut self, f: impl Fn(&mut Conn) -> R<()> + Send + Sync + 'static) -> SrvCfg { self.on_ping = Some(Arc::new(f)); self }
    pub fn accept(mut self, f: impl Fn(&mut Conn) -> R<()> + Send + Sync + 'static) -> SrvCfg { self.on_accept = Some(Arc::new(f)); self }
}

/// Event log, possibly shared by several servers of one case.
#[derive(Default)]
pub struct Log { pub evs: Mutex<Vec<Event>>, cv: Condvar, seq: AtomicU64 }
impl Log {
    pub fn push(&self, conn: u64, ev: Ev) {
        let mut v = self.evs.lock().unwrap();
        let seq = self.seq.fetch_add(1, SeqCst);
        v.push(Event { seq, at: Instant::now(), conn, ev });
        self.cv.notify_all();
    }
    pub fn snapshot(&self) -> Vec<Event> { self.evs.lock().unwrap().clone() }
    pub fn len(&self) -> usize { self.evs.lock().unwrap().len() }
    pub fn count(&self, tag: &str) -> usize { self.evs.lock().unwrap().iter().filter(|e| e.ev.tag() == tag).count() }
    /// Wait until `f` holds for the events; false on timeout.
    pub fn wait(&self, max: Duration, f: impl Fn(&[Event]) -> bool) -> bool {
        let end = Instant::now() + max;
        let mut g = self.evs.lock().unwrap();
        loop {
            if f(&g) { return true; }
            let now = Instant::now();
            if now >= end { return false; }
            g = self.cv.wait_timeout(g, end - now).unwrap().0;
        }
    }
    pub fn bad(&self) -> Option<String> {
        self.evs.lock().unwrap().iter().find_map(|e| if let Ev::Bad(s) = &e.ev { Some(format!("conn {}: {}", e.conn, s)) } else { None })
    }
    pub fn queries(&self) -> Vec<(u64, Arc<QueryReq>)> { self.evs.lock().unwrap().iter().filter_map(|e| if let Ev::Query(q) = &e.ev { Some((e.conn, q.clone())) } else { None }).collect() }
    pub fn datas(&self) -> Vec<(u64, Arc<RxBlock>)> { self.evs.lock().unwrap().iter().filter_map(|e| if let Ev::Data(q) = &e.ev { Some((e.conn, q.clone())) } else { None }).collect() }
    /// Connections accepted and not yet closed by either side.
    pub fn open_conns(evs: &[Event]) -> Vec<u64> {
        let mut o = vec![];
        for e in evs {
            match e.ev { Ev::Accept => o.push(e.conn), Ev::Eof | Ev::SrvClose => o.retain(|c| *c != e.conn), _ => {} }
        }
        o
    }
    pub fn trace(&self) -> String {
        let v = self.evs.lock().unwrap();
        let t0 = match v.first() { Some(e) => e.at, None => return "(no events)".into() };
        let mut s = String::new();
        for e in v.iter() {
            let d = match &e.ev { Ev::Query(q) => format!(" {:?}", q.sql), Ev::Data(b) => format!(" {} cols {} rows", b.cols.len(), b.rows), Ev::Bad(x) => format!(" {x}"), _ => String::new() };
            s.push_str(&format!("  +{:>7.1}ms conn{} {}{}\n", (e.at - t0).as_secs_f64() * 1e3, e.conn, e.ev.tag(), d.chars().take(160).collect::<String>()));
            if s.len() > 6000 { s.push_str("  ...\n"); break; }
        }
        s
    }
}

struct Shared { stop: AtomicBool, socks: Mutex<HashMap<u64, TcpStream>>, threads: Mutex<Vec<std::thread::JoinHandle<()>>>, listening: AtomicBool }

pub struct Server { pub addr: SocketAddr, pub log: Arc<Log>, sh: Arc<Shared>, cfg: SrvCfg, acceptor: Option<std::thread::JoinHandle<()>>, next: Arc<AtomicU64> }

pub struct Conn {
    pub id: u64,
    rd: BufReader<Box<dyn Sock>>,
    raw: TcpStream,
    is_tls: bool,
    pub log: Arc<Log>,
    sh: Arc<Shared>,
    pub cfg: SrvCfg,
    pub compress: bool,
    pub wire: Wire,
    pub sent: u64,
    pub cancelled: bool,
    /// state for handlers
    pub n_queries: u64,
}

pub const CUT: &str = "cut";

impl Conn {
    pub fn stopping(&self) -> bool { self.sh.stop.load(SeqCst) }

    fn raw_write(&mut self, b: &[u8]) -> R<()> {
        let w = self.rd.get_mut();
        w.write_all(b).map_err(|e| format!("write: {e}"))?;
        w.flush().map_err(|e| format!("flush: {e}"))
    }

    pub fn cut(&mut self, c: Cut) -> R<()> {
        match c {
            Cut::Fin => {
                let _ = self.raw.shutdown(Shutdown::Write);
                // keep reading until the client goes away so that no RST is provoked
                let mut b = [0u8; 4096];
                let _ = self.raw.set_read_timeout(Some(Duration::from_millis(50)));
                let end = Instant::now() + Duration::from_secs(20);
                loop {
                    match self.raw.read(&mut b) {
                        Ok(0) => break,
                        Ok(_) => {}
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => { if self.stopping() || Instant::now() > end { break; } }
                        Err(_) => break,
                    }
                }
            }
            Cut::Close => { let _ = self.raw.shutdown(Shutdown::Both); }
            Cut::Rst => {
                use std::os::fd::AsRawFd;
                let l = libc::linger { l_onoff: 1, l_linger: 0 };
                unsafe { libc::setsockopt(self.raw.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32); }
            }
        }
        Err(CUT.into())
    }

    /// Send under the connection's fragmentation / cut policy.
    pub fn send(&mut self, b: &[u8]) -> R<()> {
        // recorded before the bytes leave, so that a client that has them finds the mark
        if let Some(m) = &self.cfg.marks { m.lock().unwrap().push((self.id, self.sent + b.len() as u64)); }
        let mut b = b;
        let mut cut = None;
        if let Some((at, kind)) = self.wire.cut {
            if self.sent + b.len() as u64 >= at {
                let keep = (at - self.sent) as usize;
                b = &b[..keep];
                cut = Some(kind);
            }
        }
        let mut i = 0;
        while i < b.len() {
            let n = match self.wire.frag { Frag::Whole => b.len(), Frag::Bytes(n) => n.max(1), Frag::Random(m) => 1 + self.wire.rng.below(m) };
            let n = n.min(b.len() - i);
            self.raw_write(&b[i..i + n])?;
            self.sent += n as u64;
            i += n;
            if i < b.len() && !self.wire.gap.is_zero() { std::thread::sleep(self.wire.gap); }
            if self.stopping() { return Err("stop".into()); }
        }
        match cut { Some(k) => self.cut(k), None => Ok(()) }
    }

    /// Is there something to read (or EOF)? Plain sockets only.
    pub fn readable(&mut self) -> bool {
        if !self.rd.buffer().is_empty() { return true; }
        if self.is_tls { return false; }
        let _ = self.raw.set_nonblocking(true);
        let mut b = [0u8; 1];
        let r = match self.raw.peek(&mut b) { Ok(_) => true, Err(e) => e.kind() != std::io::ErrorKind::WouldBlock };
        let _ = self.raw.set_nonblocking(false);
        r
    }

    /// Sleep, waking early on shutdown or when the client sends or closes.
    pub fn pause(&mut self, d: Duration) -> R<bool> {
        let end = Instant::now() + d;
        loop {
            if self.stopping() { return Err("stop".into()); }
            if self.readable() { return Ok(true); }
            let now = Instant::now();
            if now >= end { return Ok(false); }
            std::thread::sleep((end - now).min(Duration::from_millis(2)));
        }
    }
    /// Sleep without looking at the socket.
    pub fn deaf(&mut self, d: Duration) -> R<()> {
        let end = Instant::now() + d;
        loop {
            if self.stopping() { return Err("stop".into()); }
            let now = Instant::now();
            if now >= end { return Ok(()); }
            std::thread::sleep((end - now).min(Duration::from_millis(5)));
        }
    }

    pub fn hello_bytes(&self) -> Vec<u8> {
        let mut o = vec![0];
        string(&mut o, b"MockHouse");
        uvarint(&mut o, 21);
        uvarint(&mut o, 3);
        uvarint(&mut o, self.cfg.rev);
        if self.cfg.rev >= 54058 { string(&mut o, self.cfg.tz.as_bytes()); }
        if self.cfg.rev >= 54372 { string(&mut o, b"mock"); }
        if self.cfg.rev >= 54401 { uvarint(&mut o, self.cfg.patch); }
        o
    }
    pub fn data_bytes(&mut self, t: &Table, opt: &EncOpt) -> Vec<u8> { data_packet(1, t, opt, self.compress, Some(&mut self.wire.rng)) }
    pub fn send_data(&mut self, t: &Table) -> R<()> { let b = self.data_bytes(t, &EncOpt::default()); self.send(&b) }
    pub fn send_eos(&mut self) -> R<()> { self.log.push(self.id, Ev::Ack); self.send(&[5]) }
    pub fn send_exc(&mut self, code: u32, name: &str, msg: &str, stack: &str) -> R<()> { self.log.push(self.id, Ev::Exc); let b = exception(code, name, msg, stack); self.send(&b) }
    pub fn progress_bytes(&self, a: u64, b: u64, c: u64) -> Vec<u8> {
        let mut o = vec![3];
        uvarint(&mut o, a);
        uvarint(&mut o, b);
        if self.cfg.rev >= 51554 { uvarint(&mut o, c); }
        if self.cfg.rev >= 54420 { uvarint(&mut o, a / 2); uvarint(&mut o, b / 2); }
        o
    }
    pub fn profile_bytes(&self, rows: u64) -> Vec<u8> {
        let mut o = vec![6];
        uvarint(&mut o, rows);
        uvarint(&mut o, 1);
        uvarint(&mut o, rows * 8);
        o.push(0);
        uvarint(&mut o, rows);
        o.push(0);
        o
    }

    /// Read one Data packet (after the packet code) in the current compression mode.
    fn read_data(&mut self) -> R<RxBlock> {
        let _name = rd_string(&mut self.rd)?;
        dec_block_maybe(&mut self.rd, self.compress)
    }

    fn read_query(&mut self) -> R<QueryReq> {
        let rev = self.cfg.rev;
        let ot = self.cfg.old_types.clone();
        let r: &mut dyn Read = &mut self.rd;
        let mut q = QueryReq { query_id: rd_string(r)?, kind: rd_uvarint(r)?, ..Default::default() };
        q.initial_user = rd_string(r)?;
        q.initial_id = rd_string(r)?;
        q.initial_addr = rd_string(r)?;
        q.iface = rd_uvarint(r)?;
        q.os_user = rd_string(r)?;
        q.host = rd_string(r)?;
        q.cname = rd_string(r)?;
        q.cmaj = rd_uvarint(r)?;
        q.cmin = rd_uvarint(r)?;
        q.crev = rd_uvarint(r)?;
        if rev >= 54060 { q.quota = Some(rd_string(r)?); }
        if rev >= 54401 { q.patch = Some(rd_uvarint(r)?); }
        loop {
            let n = rd_string(r)?;
            if n.is_empty() { break; }
            let w = if rev >= 54429 { SettingWire::Str { important: rd_u8(r)?, value: rd_str(r)? } } else {
                match ot.get(&n) { Some('s') | Some('f') => SettingWire::OldStr(rd_str(r)?), Some(_) => SettingWire::OldInt(rd_uvarint(r)?), None => return Err(format!("setting {n:?} was not configured")) }
            };
            q.settings.push((n, w));
        }
        q.stage = rd_uvarint(r)?;
        q.compression = rd_uvarint(r)?;
        q.sql = rd_string(r)?;
        if q.compression > 1 { return Err(format!("compression flag {}", q.compression)); }
        self.compress = q.compression == 1;
        // external tables end with an empty block
        let r: &mut dyn Read = &mut self.rd;
        let c = rd_uvarint(r)?;
        if c != 2 { return Err(format!("packet {c} where the empty external-tables block was expected")); }
        let b = self.read_data()?;
        if !b.cols.is_empty() || b.rows != 0 { return Err("non-empty external table".into()); }
        Ok(q)
    }

    /// Next Data packet of an insert; Ok(None) at the empty block.
    pub fn recv_data(&mut self) -> R<Option<RxBlock>> {
        match rd_uvarint(&mut self.rd)? {
            2 => {
                let b = self.read_data()?;
                self.log.push(self.id, Ev::Data(Arc::new(b.clone())));
                if b.cols.is_empty() && b.rows == 0 { Ok(None) } else { Ok(Some(b)) }
            }
            3 => { self.log.push(self.id, Ev::Cancel); self.cancelled = true; Ok(None) }
            x => Err(format!("packet {x} while data was expected")),
        }
    }

    /// Read and ignore up to n bytes of what the client sends.
    pub fn swallow(&mut self, n: usize) -> R<usize> {
        let mut left = n;
        let mut b = vec![0u8; 1 << 16];
        let _ = self.raw.set_read_timeout(Some(Duration::from_millis(300)));
        while left > 0 {
            let m = left.min(b.len());
            match self.rd.read(&mut b[..m]) { Ok(0) | Err(_) => break, Ok(k) => left -= k }
        }
        let _ = self.raw.set_read_timeout(Some(Duration::from_secs(30)));
        Ok(left)
    }

    /// Accept an INSERT: announce the header, collect blocks, acknowledge.
    pub fn do_insert(&mut self, header: &Table) -> R<Vec<RxBlock>> {
        self.send_data(header)?;
        let mut v = vec![];
        while let Some(b) = self.recv_data()? { v.push(b); }
        if self.cancelled { self.cancelled = false; }
        self.send_eos()?;
        Ok(v)
    }

    /// Consume a Cancel if one has arrived (mid-stream).
    pub fn check_cancel(&mut self) -> R<bool> {
        if self.readable() {
            let c = rd_uvarint(&mut self.rd)?;
            if c == 3 { self.log.push(self.id, Ev::Cancel); self.cancelled = true; return Ok(true); }
            return Err(format!("packet {c} while a result was being sent"));
        }
        Ok(false)
    }

    fn serve(&mut self) -> R<()> {
        if let Some(f) = self.cfg.on_accept.clone() { f(self)?; }
        loop {
            let mut one = [0u8; 1];
            match self.rd.read(&mut one) {
                Ok(0) => { return Ok(()); }
                Ok(_) => {}
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock || e.kind() == std::io::ErrorKind::TimedOut => { if self.stopping() { return Ok(()); } continue; }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
                Err(_) => return Ok(()),
            }
            match one[0] {
                0 => {
                    let r: &mut dyn Read = &mut self.rd;
                    let h = HelloReq { name: rd_string(r)?, maj: rd_uvarint(r)?, min: rd_uvarint(r)?, rev: rd_uvarint(r)?, db: rd_string(r)?, user: rd_string(r)?, pw: rd_string(r)? };
                    self.log.push(self.id, Ev::Hello(Arc::new(h)));
                    if let Some(f) = self.cfg.on_hello.clone() { f(self)?; } else { let b = self.hello_bytes(); self.send(&b)?; }
                }
                4 => {
                    self.log.push(self.id, Ev::Ping);
                    if let Some(f) = self.cfg.on_ping.clone() { f(self)?; } else { self.send(&[4])?; }
                }
                3 => { self.log.push(self.id, Ev::Cancel); }
                1 => {
                    let q = self.read_query()?;
                    self.n_queries += 1;
                    self.cancelled = false;
                    self.log.push(self.id, Ev::Query(Arc::new(q.clone())));
                    let f = self.cfg.on_query.clone();
                    f(self, &q)?;
                }
                x => return Err(format!("BAD unexpected client packet {x}")),
            }
        }
    }
}

pub fn exception(code: u32, name: &str, msg: &str, stack: &str) -> Vec<u8> {
    let mut o = vec![2];
    o.extend(code.to_le_bytes());
    string(&mut o, name.as_bytes());
    string(&mut o, msg.as_bytes());
    string(&mut o, stack.as_bytes());
    o.push(0); // no nested exception
    o
}

pub fn data_packet(code: u8, t: &Table, opt: &EncOpt, compress: bool, rng: Option<&mut Rng>) -> Vec<u8> {
    let mut o = vec![code];
    string(&mut o, b"");
    let raw = enc_block(t, opt);
    if compress {
        match rng {
            Some(r) => { let max = if r.chance(1, 3) { 1 + r.below(raw.len().max(2)) } else { 1 << 20 }; let max = max.max(raw.len() / 20); o.extend(frames(&raw, Some(r), max)) }
            None => o.extend(frames(&raw, None, 1 << 20)),
        }
    } else { o.extend(raw); }
    o
}

impl Server {
    pub fn start(cfg: SrvCfg) -> Server { Self::start_with(cfg, Arc::new(Log::default())) }
    pub fn start_with(cfg: SrvCfg, log: Arc<Log>) -> Server {
        // a loopback address per server keeps ports from running out
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let mut l = Err(std::io::Error::new(std::io::ErrorKind::Other, "never tried"));
        for tries in 0..60 {
            let k = NEXT.fetch_add(1, SeqCst) + (std::process::id() as u64) * 977;
            let ip = if tries % 4 == 3 { std::net::Ipv4Addr::new(127, 0, 0, 1) } else { std::net::Ipv4Addr::new(127, 1 + (k / 62500 % 200) as u8, 1 + (k / 250 % 250) as u8, 1 + (k % 250) as u8) };
            l = TcpListener::bind((cfg.bind.unwrap_or(ip.into()), 0));
            if l.is_ok() { break; }
            if tries > 3 { std::thread::sleep(Duration::from_millis(100)); }
        }
        let l = l.expect("INFRA bind");
        let addr = l.local_addr().unwrap();
        let sh = Arc::new(Shared { stop: AtomicBool::new(false), socks: Mutex::new(HashMap::new()), threads: Mutex::new(vec![]), listening: AtomicBool::new(true) });
        let next = Arc::new(AtomicU64::new(cfg.first_conn));
        let mut s = Server { addr, log, sh, cfg, acceptor: None, next };
        s.run_acceptor(l);
        s
    }
    fn run_acceptor(&mut self, l: TcpListener) {
        let (sh, log, cfg, next) = (self.sh.clone(), self.log.clone(), self.cfg.clone(), self.next.clone());
        self.acceptor = Some(std::thread::Builder::new().stack_size(256 << 10).spawn(move || {
            loop {
                let s = match l.accept() { Ok((s, _)) => s, Err(_) => { std::thread::sleep(Duration::from_millis(1)); continue; } };
                if sh.stop.load(SeqCst) || !sh.listening.load(SeqCst) { return; }
                let id = next.fetch_add(1, SeqCst);
                log.push(id, Ev::Accept);
                let _ = s.set_nodelay(true);
                if let Some(m) = &cfg.mon { m.add(id, &s); }
                let (sh2, log2, cfg2) = (sh.clone(), log.clone(), cfg.clone());
                let raw = s.try_clone().expect("INFRA clone");
                sh.socks.lock().unwrap().insert(id, s.try_clone().expect("INFRA clone"));
                let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
                    let _ = raw.set_read_timeout(Some(Duration::from_secs(30)));
                    let is_tls = cfg2.tls.is_some();
                    let sock: Box<dyn Sock> = match &cfg2.tls { None => Box::new(s), Some(f) => match f(s) { Ok(x) => x, Err(e) => {
                        // a client that gives an attempt up leaves in the middle of the handshake
                        let gone = e.contains("Os {") || e.contains("ErrorCode(5)") || e.to_lowercase().contains("unexpected eof") || e.contains("unexpected EOF");
                        log2.push(id, if gone { Ev::Eof } else { Ev::Bad(format!("tls: {e}")) }); log2.push(id, Ev::SrvClose); sh2.socks.lock().unwrap().remove(&id); return; } } };
                    let wire = (cfg2.wire)(id);
                    let mut c = Conn { id, rd: BufReader::with_capacity(1 << 16, sock), raw, is_tls, log: log2.clone(), sh: sh2.clone(), cfg: cfg2, compress: false, wire, sent: 0, cancelled: false, n_queries: 0 };
                    let res = c.serve();
                    if let Some(m) = &c.cfg.mon { m.del(id); }
                    sh2.socks.lock().unwrap().remove(&id);
                    match res {
                        Ok(()) => log2.push(id, Ev::Eof),
                        Err(e) if e == CUT || e == "stop" || e == "close" => log2.push(id, Ev::SrvClose),
                        Err(e) => {
                            // An I/O error means that the client went away; anything else is a protocol violation.
                            if e.contains("read") && (e.contains("failed to fill") || e.contains("reset") || e.contains("os error") ) || e.starts_with("write:") || e.starts_with("flush:") { log2.push(id, Ev::Eof) } else { log2.push(id, Ev::Bad(e)); log2.push(id, Ev::SrvClose) }
                        }
                    }
                    drop(c);
                });
                if let Ok(h) = h { sh.threads.lock().unwrap().push(h); }
            }
        }).expect("INFRA thread"));
    }
    pub fn url(&self, params: &str) -> String { format!("tcp://{}/?{}{}", self.addr, params, if self.cfg.tls.is_some() { "&secure=true&skip_verify=true" } else { "" }) }
    pub fn host(&self) -> String { self.addr.to_string() }
    pub fn port(&self) -> u16 { self.addr.port() }
    /// Refuse new connections from now on (existing ones stay).
    pub fn stop_listening(&mut self) {
        if self.sh.listening.swap(false, SeqCst) {
            let _ = TcpStream::connect(self.addr);
            if let Some(h) = self.acceptor.take() { let _ = h.join(); }
        }
    }
    pub fn resume_listening(&mut self) {
        if !self.sh.listening.load(SeqCst) {
            for _ in 0..100 {
                if let Ok(l) = TcpListener::bind(self.addr) { self.sh.listening.store(true, SeqCst); self.run_acceptor(l); return; }
                std::thread::sleep(Duration::from_millis(20));
            }
            panic!("INFRA could not rebind {}", self.addr);
        }
    }
    /// Close all current connections from the server's side.
    pub fn kill_all(&self) {
        for (_, s) in self.sh.socks.lock().unwrap().iter() { let _ = s.shutdown(Shutdown::Both); }
    }
    pub fn kill(&self, id: u64) { if let Some(s) = self.sh.socks.lock().unwrap().get(&id) { let _ = s.shutdown(Shutdown::Both); } }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.sh.stop.store(true, SeqCst);
        let _ = TcpStream::connect_timeout(&self.addr, Duration::from_millis(500));
        if let Some(h) = self.acceptor.take() { let _ = h.join(); }
        for (_, s) in self.sh.socks.lock().unwrap().drain() { let _ = s.shutdown(Shutdown::Both); }
        let t: Vec<_> = std::mem::take(&mut *self.sh.threads.lock().unwrap());
        for h in t { let _ = h.join(); }
    }
}
