//! C16: connection URLs mean what they say.
use crate::kit::*;
use crate::ops::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use crate::server::*;
use clickhouse_rs::{Options, Pool};
use std::str::FromStr;
use std::sync::Arc;
use std::time::Duration;
use url::Url;

/// Percent-encode everything outside the unreserved characters, and some of those too.
fn enc(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        let plain = b.is_ascii_alphanumeric() || b"-._~".contains(&b);
        if plain && !r.chance(1, 12) { o.push(b as char) } else if r.chance(1, 2) { o.push_str(&format!("%{b:02X}")) } else { o.push_str(&format!("%{b:02x}")) }
    }
    o
}

fn text(r: &mut Rng) -> String {
    let pool = ["a", "Z", "0", "9", " ", "%", "%41", "/", "?", "#", "&", "=", "+", ":", "@", "'", "\"", "\\", "ü", "имя", "日本", "😀", ".", "..", "-", "_", "~", "<", ">", ";", ",", "[", "]", "|", "{", "^", "`", "%20", "%zz"];
    (0..r.range(1, 8)).map(|_| *r.pick(&pool)).collect()
}

fn dur(r: &mut Rng) -> (String, Duration) {
    let n = match r.below(6) { 0 => 0, 1 => r.below(10) as u64, 2 => r.below(100_000) as u64, 3 => u64::from(u32::MAX), _ => r.below(1000) as u64 };
    let pad = if r.chance(1, 10) { "00" } else { "" };
    if r.chance(1, 2) { (format!("{pad}{n}ms"), Duration::from_millis(n)) } else { (format!("{pad}{n}s"), Duration::from_secs(n)) }
}

fn host(r: &mut Rng) -> String {
    match r.below(5) { 0 => "localhost".into(), 1 => format!("10.{}.{}.{}", r.below(256), r.below(256), r.below(256)), 2 => "[::1]".into(), 3 => format!("db-{}.example.com", r.below(1000)), _ => format!("h{}", r.below(100)) }
}

struct Gen { url: String, opts: Options, what: Vec<String> }

const KEYS: [&str; 15] = ["pool_min", "pool_max", "nodelay", "keepalive", "ping_before_query", "send_retries", "retry_timeout", "ping_timeout", "connection_timeout", "query_timeout", "insert_timeout", "execute_timeout", "compression", "alt_hosts", "*"];

fn valid(r: &mut Rng) -> Gen {
    let mut what = vec![];
    let (mut auth, mut addr_auth) = (String::new(), String::new());
    let mut o_user = None;
    let mut o_pw = None;
    if r.chance(3, 4) {
        let u = text(r);
        auth = enc(r, &u);
        o_user = Some(u);
        if r.chance(2, 3) { let p = if r.chance(1, 8) { String::new() } else { text(r) }; auth += &format!(":{}", enc(r, &p)); o_pw = Some(p); }
        auth.push('@');
        addr_auth = auth.clone();
        what.push("user".into());
    }
    let h = host(r);
    let port = if r.chance(1, 2) { None } else { Some(*r.pick(&[9000u16, 9440, 1, 65535, 8123, 80, 443, 19000])) };
    let mut url = format!("tcp://{auth}{h}{}", port.map(|p| format!(":{p}")).unwrap_or_default());
    let addr = format!("tcp://{addr_auth}{h}:{}", port.unwrap_or(9000));
    let mut o = Options::new(Url::parse(&addr).expect("INFRA address"));
    if let Some(u) = &o_user { o = o.username(u) }
    if let Some(p) = &o_pw { o = o.password(p) }
    if port.is_none() { what.push("no port".into()) }
    match r.below(4) {
        0 => {}
        1 => url.push('/'),
        _ => {
            let mut db = text(r);
            if db == "." || db == ".." { db = "d".into() }
            url += &format!("/{}", enc_path(r, &db));
            o = o.database(&db);
            what.push("database".into());
        }
    }
    let mut pairs: Vec<(String, String)> = vec![];
    let mut keys: Vec<&str> = KEYS.iter().cloned().filter(|_| r.chance(1, 3)).collect();
    r.shuffle(&mut keys);
    for k in keys {
        what.push(k.into());
        let v = match k {
            "pool_min" => { let n = r.below(50); o = o.pool_min(n); n.to_string() }
            "pool_max" => { let n = r.range(1, 200); o = o.pool_max(n); n.to_string() }
            "nodelay" => { let b = r.chance(1, 2); o = o.nodelay(b); b.to_string() }
            "ping_before_query" => { let b = r.chance(1, 2); o = o.ping_before_query(b); b.to_string() }
            "send_retries" => { let n = r.below(9); o = o.send_retries(n); n.to_string() }
            "keepalive" | "insert_timeout" | "execute_timeout" => {
                let (s, d) = if r.chance(1, 3) { ("none".to_string(), None) } else { let (s, d) = dur(r); (s, Some(d)) };
                o = match k { "keepalive" => o.keepalive(d), "insert_timeout" => o.insert_timeout(d), _ => o.execute_timeout(d) };
                s
            }
            "retry_timeout" => { let (s, d) = dur(r); o = o.retry_timeout(d); s }
            "ping_timeout" => { let (s, d) = dur(r); o = o.ping_timeout(d); s }
            "connection_timeout" => { let (s, d) = dur(r); o = o.connection_timeout(d); s }
            "query_timeout" => { let (s, d) = dur(r); o = o.query_timeout(d); s }
            "compression" => { let c = r.chance(1, 2); if c { o = o.with_compression(); "lz4".into() } else { "none".into() } }
            "alt_hosts" => {
                let hs: Vec<(String, Option<u16>)> = (0..r.range(1, 5)).map(|_| (host(r), if r.chance(1, 3) { None } else { Some(*r.pick(&[9000u16, 9001, 65535, 80])) })).collect();
                o = o.alt_hosts(hs.iter().map(|(h, p)| Url::parse(&format!("tcp://{h}:{}", p.unwrap_or(9000))).expect("INFRA host")).collect());
                hs.iter().map(|(h, p)| format!("{h}{}", p.map(|p| format!(":{p}")).unwrap_or_default())).collect::<Vec<_>>().join(",")
            }
            _ => {
                for i in 0..r.range(1, 4) {
                    let n = match r.below(4) { 0 => format!("max_rows_{i}"), 1 => format!("readonly{i}"), 2 => format!("{}_{i}", text(r)), _ => format!("Pool_min{i}") };
                    let v = if r.chance(1, 6) { String::new() } else { text(r) };
                    o = o.with_setting(&n, v.as_str(), true);
                    pairs.push((n, v));
                }
                continue;
            }
        };
        pairs.push((k.into(), v));
    }
    if !pairs.is_empty() {
        let q: Vec<String> = pairs.iter().map(|(k, v)| { let v = if KEYS.contains(&k.as_str()) && r.chance(3, 4) { v.clone() } else { enc(r, v).replace("%20", if r.chance(1, 2) { "+" } else { "%20" }) }; format!("{}={v}", enc(r, k)) }).collect();
        url += &format!("?{}", q.join("&"));
    }
    Gen { url, opts: o, what }
}

/// "%2e" is a dot segment even when encoded.
fn enc_path(r: &mut Rng, s: &str) -> String {
    let e = enc(r, s);
    if ["%2e", "%2E", ".%2e", ".%2E", "%2e.", "%2E.", "%2e%2e", "%2E%2E", "%2e%2E", "%2E%2e"].contains(&e.as_str()) { s.into() } else { e }
}

fn exact(ctx: &Ctx, n: u64, r: &mut Rng) {
    let g = valid(r);
    ctx.eval();
    ctx.distinct(&g.url);
    for w in &g.what { ctx.count(&format!("with {w}"), 1); }
    let v = |sig: &str, d: String| ctx.violation("exact", n, sig, format!("{}\n{d}", g.url));
    match guard(|| Options::from_str(&g.url)) {
        Err(p) => v("panic", p),
        Ok(Err(e)) => v("refused", format!("refused: {e}")),
        Ok(Ok(o)) => if o != g.opts { v("different", format!("parsed  {o:?}\nexpected {:?}\nequal database {} (see also user, password and limits)", g.opts, format!("{o:?}") == format!("{:?}", g.opts))) },
    }
}

fn invalid(ctx: &Ctx, n: u64, r: &mut Rng) {
    let g = valid(r);
    let bad_val = |r: &mut Rng, k: &str| -> String {
        let num = ["", "-1", "x", "1.5", "18446744073709551616", "1s", " 1", "0x10", "1,2", "٣"];
        let boo = ["", "1", "0", "yes", "True", "TRUE", " true", "on"];
        let dur = ["", "5", "s", "ms", "-5s", "5 s", "1.5s", "5S", "5m", "5us", "18446744073709551616s", "5ss", "5s5s", "٣s", "inf"];
        match k {
            "pool_min" | "send_retries" => r.pick(&num).to_string(),
            "pool_max" => r.pick(&num).to_string(),
            "nodelay" | "ping_before_query" => r.pick(&boo).to_string(),
            "keepalive" | "insert_timeout" | "execute_timeout" => if r.chance(1, 6) { "None".into() } else { r.pick(&dur).to_string() },
            "compression" => r.pick(&["", "true", "LZ4", "zstd", "lz4hc", "no", "lz4 "]).to_string(),
            "alt_hosts" => r.pick(&["h1:99999", "h1,,h2", "h1:x", "a b", "[::1", "h1:9000,", ",", "h1:-1", ""]).to_string(),
            _ => if r.chance(1, 6) { "none".into() } else { r.pick(&dur).to_string() },
        }
    };
    let (url, kind) = match r.below(6) {
        0 => { let s = *r.pick(&["http", "https", "clickhouse", "tls", "tcps", "file", "data", "mailto", "ws", "t", "udp"]); (g.url.replacen("tcp:", &format!("{s}:"), 1), "scheme") }
        1 => (r.pick(&["tcp:", "tcp:///", "tcp:///db", "tcp://", "tcp:h:9000", "tcp:/h", "tcp:?compression=lz4", "tcp://?a=b", "tcp://@/db", "tcp://user@/db", "tcp:///?pool_max=3"]).to_string(), "host"),
        2 => { let u = Url::parse(&g.url).unwrap(); let q = u.query().map(|q| format!("?{q}")).unwrap_or_default(); let base = g.url.split('?').next().unwrap().trim_end_matches('/').to_string(); let base = if u.path().len() > 1 { base } else { format!("{base}/d") }; (format!("{base}/{}{q}", r.pick(&["x", "x/y", "x/y/z"])), "path") }
        3 => (r.pick(&["", " ", "tcp", "localhost:9000", "//h:9000", "h", "tcp://h:99999", "tcp://h:x", "tcp://[::1", "tcp://h h", "tcp://h:-1/d", "tcp://[zz]/d", "ʘ_ʘ", "tcp://h:9000:9000", "://h", "tcp//h", "1tcp://h"]).to_string(), "syntax"),
        _ => {
            let k = *r.pick(&KEYS[..14]);
            let v = bad_val(r, k);
            let v = if r.chance(1, 3) { enc(r, &v) } else { v.replace(' ', "%20") };
            let sep = if g.url.contains('?') { "&" } else { "?" };
            (format!("{}{sep}{k}={v}", g.url), k)
        }
    };
    ctx.eval();
    ctx.distinct(&url);
    ctx.count(&format!("invalid {kind}"), 1);
    match guard(|| Options::from_str(&url)) {
        Err(p) => ctx.violation("invalid", n, "panic", format!("{url:?}: {p}")),
        Ok(Ok(o)) => ctx.violation("invalid", n, &format!("accepted {kind}"), format!("{url:?} was accepted: {o:?}")),
        Ok(Err(_)) => {}
    }
    // the pool reports it too
    if r.chance(1, 10) {
        let u = url.clone();
        match guard(|| block_on(secs(20), async move { Pool::new(u).get_handle().await.map(|_| ()).map_err(|e| e.to_string()) })) {
            Ok(Out::Done(Err(_))) => {}
            Ok(Out::Done(Ok(()))) => ctx.violation("invalid", n, "handle", format!("{url:?}: a handle was given out")),
            Ok(Out::Hang) => ctx.violation("invalid", n, "hang", format!("{url:?}: get_handle never ended")),
            Ok(Out::Panic(p)) | Err(p) => ctx.violation("invalid", n, "pool panic", format!("{url:?}: {p}")),
        }
        ctx.count("pools over invalid urls", 1);
    }
}

/// Random edits of URLs: whatever happens, no panic, neither in the parser nor in a pool built from it.
fn mutated(ctx: &Ctx, n: u64, r: &mut Rng) {
    let mut s: Vec<char> = valid(r).url.chars().collect();
    for _ in 0..r.range(1, 4) {
        let i = r.below(s.len().max(1));
        match r.below(5) {
            0 if i < s.len() => { s.remove(i); }
            1 => s.insert(i.min(s.len()), *r.pick(&['%', '/', '?', '#', '@', ':', '[', ']', '=', '&', ',', ' ', '\0', 'é', '0', '9', '-', '\t', '\n', '😀', '\\'])),
            2 => s.truncate(i),
            3 if i < s.len() => s[i] = char::from_u32(r.below(0x250) as u32).unwrap_or('x'),
            _ => { let k = r.below(s.len() + 1); let t: Vec<char> = s[k.min(i)..k.max(i)].to_vec(); s.extend(t); }
        }
    }
    let url: String = s.into_iter().collect();
    ctx.eval();
    ctx.distinct(&url);
    match guard(|| Options::from_str(&url)) {
        Err(p) => ctx.violation("mutated", n, "panic", format!("{url:?}: {p}")),
        Ok(Ok(o)) => {
            ctx.count("mutated accepted", 1);
            if Url::parse(&url).map(|u| u.scheme() != "tcp" || u.host_str().unwrap_or("").is_empty()).unwrap_or(true) { ctx.violation("mutated", n, "accepted", format!("{url:?} was accepted: {o:?}")); }
            // parsing is a function of the text
            if Options::from_str(&url).ok() != Some(o) { ctx.violation("mutated", n, "unstable", format!("{url:?} parsed differently the second time")); }
        }
        Ok(Err(_)) => ctx.count("mutated refused", 1),
    }
    if let Err(p) = guard(|| { let _ = Pool::new(url.as_str()); }) { ctx.violation("mutated", n, "pool panic", format!("{url:?}: {p}")); }
}

/// TCP_NODELAY of this process's sockets that are connected to one of the servers.
fn socket_nodelay(ports: &[std::net::SocketAddr]) -> Vec<bool> {
    use std::os::fd::FromRawFd;
    let mut o = vec![];
    for e in std::fs::read_dir("/proc/self/fd").into_iter().flatten().flatten() {
        if !std::fs::read_link(e.path()).map(|l| l.to_string_lossy().starts_with("socket:")).unwrap_or(false) { continue; }
        let Some(fd) = e.file_name().to_str().and_then(|x| x.parse::<i32>().ok()) else { continue };
        // only asked for its options: whoever owns it keeps it
        let s = std::mem::ManuallyDrop::new(unsafe { std::net::TcpStream::from_raw_fd(fd) });
        if s.peer_addr().map(|a| ports.contains(&a)).unwrap_or(false) { if let Ok(x) = s.nodelay() { o.push(x); } }
    }
    o
}

/// What the URL says is what reaches the server.
fn live(ctx: &Ctx, n: u64, r: &mut Rng) {
    let sc = Arc::new(Scene::gen(r));
    let k = r.range(1, 3);
    let log = Arc::new(Log::default());
    let srvs: Vec<Server> = (0..k).map(|i| { let mut c = sc.cfg(); c.first_conn = i as u64 * 1000; Server::start_with(c, log.clone()) }).collect();
    let (user, pw, db) = (if r.chance(3, 4) { Some(text(r)) } else { None }, if r.chance(1, 2) { Some(text(r)) } else { None }, if r.chance(2, 3) { Some(text(r)).filter(|d| d != "." && d != "..") } else { None });
    let compress = r.chance(1, 2);
    let sets: Vec<(String, String)> = (0..r.below(4)).map(|i| (format!("set_{i}{}", if r.chance(1, 4) { text(r) } else { String::new() }), text(r))).collect();
    let mut url = "tcp://".to_string();
    if let Some(u) = &user { url += &enc(r, u); if let Some(p) = &pw { url += &format!(":{}", enc(r, p)); } url.push('@'); }
    url += &srvs[0].host();
    if let Some(d) = &db { url += &format!("/{}", enc_path(r, d)); }
    url += &format!("?{LIMITS}&pool_max={k}{}", if compress { "&compression=lz4" } else { "" });
    if k > 1 { url += &format!("&alt_hosts={}", srvs[1..].iter().map(|s| s.host()).collect::<Vec<_>>().join(",")); }
    for (a, b) in &sets { url += &format!("&{}={}", enc(r, a), enc(r, b)); }
    let nodelay = *r.pick(&[None, Some(true), Some(false)]);
    if let Some(x) = nodelay { url += &format!("&nodelay={x}"); }
    let ports: Vec<std::net::SocketAddr> = srvs.iter().filter_map(|s| s.host().parse().ok()).collect();
    let pool = match guard(|| Pool::new(url.as_str())) { Ok(p) => p, Err(p) => return ctx.violation("live", n, "panic", p) };
    let op = *r.pick(&[Op::Fetch, Op::Exec, Op::Insert, Op::Rows]);
    let out = block_on(secs(60), async {
        let mut hs = vec![];
        for _ in 0..k { hs.push(handle(&pool).await?); }
        for (i, h) in hs.iter_mut().enumerate() { do_op(h, &sc, op, 0, i as u64).await.map_err(|e| format!("{op:?}: {e}"))?; }
        let nd = socket_nodelay(&ports);
        ctx.count("sockets inspected", nd.len() as u64);
        if nd.iter().any(|x| *x != nodelay.unwrap_or(true)) { return Err(format!("NODELAY of the sockets is {nd:?}")); }
        Ok::<_, String>(())
    });
    ctx.eval();
    ctx.distinct(&url);
    let v = |sig: &str, d: String| ctx.violation("live", n, sig, format!("{url}\n{d}\n{}", log.trace()));
    match out { Out::Done(Ok(())) => {} Out::Done(Err(e)) => return v("failed", e), Out::Panic(p) => return v("panic", p), Out::Hang => return v("hang", "no end".into()) }
    let want = (db.clone().unwrap_or("default".into()), user.clone().unwrap_or("default".into()), if user.is_some() { pw.clone().unwrap_or_default() } else { String::new() });
    let mut hosts = std::collections::BTreeSet::new();
    for e in log.snapshot() {
        match e.ev {
            Ev::Hello(h) => {
                hosts.insert(e.conn / 1000);
                ctx.count("handshakes compared", 1);
                let got = (h.db.clone(), h.user.clone(), h.pw.clone());
                if got != want { return v("credentials", format!("the server got {got:?}, the URL says {want:?}")); }
            }
            Ev::Query(q) => {
                if (q.compression == 1) != compress { return v("compression", format!("compression flag {}", q.compression)); }
                let mut got: Vec<(String, String)> = q.settings.iter().map(|(k, w)| (k.clone(), match w { SettingWire::Str { value, .. } => String::from_utf8_lossy(value).into_owned(), o => format!("{o:?}") })).collect();
                let mut want = sets.clone();
                got.sort();
                want.sort();
                if got != want { return v("settings", format!("the server got {got:?}, the URL says {want:?}")); }
            }
            _ => {}
        }
    }
    if hosts.len() != k { v("hosts", format!("{k} connections over {k} hosts reached only {hosts:?}")); }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("Options::from_str(url) == the options built programmatically from the same parts; invalid URLs give an error; nothing panics; servers see the credentials, database, settings, compression and hosts the URL spells out");
    ctx.assume("pool_max=0, URL fragments, repeated parameters, trailing slashes and percent-encoded bytes that are not UTF-8 are left open");
    watchdog(ctx.clone(), secs(150), true);
    let t = |a: u64, b: u64| secs(if ctx.thorough { b } else { a });
    cases(ctx, "exact", ctx.n(400_000, 10_000_000), 8, t(20, 120), exact);
    cases(ctx, "invalid", ctx.n(300_000, 5_000_000), 8, t(20, 120), invalid);
    cases(ctx, "mutated", ctx.n(400_000, 10_000_000), 8, t(20, 120), mutated);
    cases(ctx, "live", ctx.n(4000, 60_000), 12, t(20, 120), live);
}
