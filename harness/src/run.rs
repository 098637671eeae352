//! Case runner: parallel workers, panic capture, watchdog.
use crate::report::Ctx;
use crate::rng::Rng;
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static PANIC: RefCell<Option<String>> = RefCell::new(None); }
pub static LAST_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or("panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{msg} at {loc}");
        if std::env::var("VP_PANICS").is_ok() { eprintln!("PANIC {m}"); }
        PANIC.with(|p| *p.borrow_mut() = Some(m.clone()));
        let mut v = LAST_PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if v.len() < 1000 { v.push(m); }
    }));
}

/// Run f; Err(description) if it panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

pub fn rt() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().enable_all().build().expect("INFRA runtime") }
pub fn rt_mt(n: usize) -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build().unwrap() }

#[derive(Debug)]
pub enum Out<T> { Done(T), Panic(String), Hang }

/// Block on a future on a fresh current-thread runtime with a wall-clock watchdog.
pub fn block_on<T>(max: Duration, f: impl Future<Output = T>) -> Out<T> {
    let rt = rt();
    let r = guard(|| rt.block_on(async { tokio::time::timeout(max, f).await }));
    match r {
        Err(p) => Out::Panic(p),
        Ok(Err(_)) => Out::Hang,
        Ok(Ok(x)) => Out::Done(x),
    }
}

/// Await with panic capture inside an async context.
pub async fn aguard<T>(f: impl Future<Output = T>) -> Result<T, String> {
    use futures_util::FutureExt;
    PANIC.with(|p| *p.borrow_mut() = None);
    AssertUnwindSafe(f).catch_unwind().await.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

static BUSY: Mutex<Vec<(String, u64, Instant)>> = Mutex::new(Vec::new());

/// Run cases 0..n of `part` on `workers` threads until done or the time is up.
pub fn cases(ctx: &Arc<Ctx>, part: &str, n: u64, workers: usize, max: Duration, f: impl Fn(&Ctx, u64, &mut Rng) + Send + Sync + 'static) {
    if let Some((p, c)) = &ctx.only {
        if p != part { return; }
        let mut r = Rng::for_case(ctx.seed, &ctx.id, part, *c);
        match guard(|| f(ctx, *c, &mut r)) { Ok(()) => {}, Err(e) => ctx.violation(part, *c, "panic", format!("the driver panicked: {e}")) }
        return;
    }
    // slices of the workload, for the instrumented builds
    let env = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    if let Ok(l) = std::env::var("VP_PARTS") { if !l.split(',').any(|x| x == part) { return; } }
    let from = env("VP_FROM").unwrap_or(0);
    let n = env("VP_CASES").map(|c| from + c).unwrap_or(n);
    let max = env("VP_SECS").map(Duration::from_secs).unwrap_or(max);
    let workers = env("VP_WORKERS").map(|w| w as usize).unwrap_or(workers);
    let next = Arc::new(AtomicU64::new(from));
    let f = Arc::new(f);
    let end = Instant::now() + max;
    let mut hs = vec![];
    for _ in 0..workers.max(1) {
        let (ctx, next, f, part) = (ctx.clone(), next.clone(), f.clone(), part.to_string());
        hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || loop {
            if ctx.stopped() || Instant::now() > end { break; }
            let c = next.fetch_add(1, SeqCst);
            if c >= n { break; }
            let t0 = Instant::now();
            BUSY.lock().unwrap().push((part.clone(), c, t0));
            let mut r = Rng::for_case(ctx.seed, &ctx.id, &part, c);
            let res = guard(|| f(&ctx, c, &mut r));
            BUSY.lock().unwrap().retain(|(p, x, _)| !(*p == part && *x == c));
            ctx.count(&format!("cases_{part}"), 1);
            if t0.elapsed() > Duration::from_secs(10) && std::env::var("VP_SLOW").is_ok() { eprintln!("slow case {part}#{c}: {:.1}s", t0.elapsed().as_secs_f64()); }
            if let Err(e) = res { if e.starts_with("INFRA") { ctx.inconclusive(format!("{part}#{c}: {e}")); continue; } ctx.violation(&part, c, "panic", format!("panicked: {e}")); }
        }).unwrap());
    }
    for h in hs { let _ = h.join(); }
    if std::env::var("VP_SLOW").is_ok() { eprintln!("part {part}: done at {:.1}s", ctx.elapsed().as_secs_f64()); }
}

/// If one case makes no progress for `limit` the process decides: `spin_is_violation` or an error exit.
pub fn watchdog(ctx: Arc<Ctx>, limit: Duration, spin_is_violation: bool) {
    if cfg!(miri) || std::env::var("VP_SECS").is_ok() { return; }
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let b = BUSY.lock().unwrap().iter().find(|(_, _, t)| t.elapsed() > limit).cloned();
        if let Some((p, c, t)) = b {
            let msg = format!("case {p}#{c} has not ended after {:.0}s", t.elapsed().as_secs_f64());
            if spin_is_violation {
                ctx.violation(&p, c, "no-answer", msg);
                std::process::exit(ctx.finish());
            } else {
                eprintln!("{msg}; giving up");
                if ctx.n_violations() > 0 { std::process::exit(ctx.finish()); }
                std::process::exit(5);
            }
        }
    });
}
