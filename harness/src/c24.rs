//! C24: built for async-std the driver keeps the guarantees it keeps with tokio.
use crate::kit::*;
use crate::report::Ctx;
use crate::run::*;
use std::sync::Arc;

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("the harness built with the driver's async_std feature instead of tokio_io; workloads and oracles of C01 (ins), C02 (small, bulk), C05 (hist, on async-std's own executor), C06 (cut, upload), C07 (malformed), C08 (stress), C09 (scripted, stale), C10 (dead, healthy, refused), C11 (sequence, replace, balance), C12 (ops, hello), C13 (in_time, stalls, reconnect), C14 (corrupt), C15 (requests) C22 (retry, chunks) and C25 (sockets). distinct = as in those checks");
    watchdog(ctx.clone(), secs(200), true);
    let t = |q, th| secs(ctx.n(q, th));
    cases(ctx, "in_time", ctx.n(80, 2000), 32, t(30, 200), crate::c13::in_time);
    cases(ctx, "stalls", ctx.n(320, 10_000), 32, t(40, 300), crate::c13::stalls);
    cases(ctx, "reconnect", ctx.n(80, 2000), 24, t(30, 150), crate::c13::reconnect);
    cases(ctx, "hist", ctx.n(1500, 40_000), 12, t(60, 900), crate::c05::case);
    cases(ctx, "ops", ctx.n(1000, 30_000), 12, t(40, 300), crate::c12::case);
    cases(ctx, "hello", ctx.n(160, 4000), 12, t(20, 100), crate::c12::hello);
    cases(ctx, "ins", ctx.n(6000, 300_000), 8, t(40, 600), crate::c01::case);
    cases(ctx, "small", ctx.n(2500, 100_000), 8, t(40, 600), |c, n, r| crate::c02::case(c, "small", n, r, false));
    cases(ctx, "bulk", ctx.n(16, 600), 8, t(30, 300), |c, n, r| crate::c02::case(c, "bulk", n, r, true));
    cases(ctx, "cut", ctx.n(56, 900), 8, t(60, 900), crate::c06::case);
    cases(ctx, "upload", ctx.n(12, 200), 8, t(30, 200), crate::c06::upload);
    cases(ctx, "malformed", ctx.n(3000, 50_000), 16, t(40, 300), crate::c07::case);
    cases(ctx, "stress", ctx.n(100, 4000), 6, t(40, 600), crate::c08::case);
    cases(ctx, "scripted", ctx.n(600, 20_000), 8, t(40, 400), crate::c09::scripted);
    cases(ctx, "stale", ctx.n(100, 2000), 8, t(20, 100), crate::c09::stale);
    cases(ctx, "sockets", ctx.n(600, 20_000), 12, t(30, 300), crate::c25::sockets);
    cases(ctx, "dead", ctx.n(600, 10_000), 16, t(40, 300), crate::c10::dead);
    cases(ctx, "healthy", ctx.n(600, 10_000), 12, t(30, 150), crate::c10::healthy);
    cases(ctx, "refused", ctx.n(16, 300), 8, t(30, 120), crate::c10::refused);
    cases(ctx, "sequence", ctx.n(200, 6000), 16, t(30, 200), crate::c11::sequence);
    cases(ctx, "replace", ctx.n(160, 4000), 12, t(20, 100), crate::c11::replace);
    cases(ctx, "balance", ctx.n(120, 4000), 8, t(30, 200), crate::c11::balance);
    cases(ctx, "corrupt", ctx.n(80, 6000), 8, t(40, 400), |c, n, r| crate::c14::corrupt(c, n, r, false));
    cases(ctx, "requests", ctx.n(6000, 200_000), 12, t(30, 200), crate::c15::case);
    cases(ctx, "retry", ctx.n(800, 30_000), 12, t(40, 400), crate::c22::retry);
    cases(ctx, "chunks", ctx.n(16, 600), 6, t(40, 300), crate::c22::chunks);
}
