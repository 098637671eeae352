//! C05: an operation only ever sees the response to its own request.
use crate::hist::*;
use crate::kit::*;
use crate::report::Ctx;
use crate::rng::Rng;
use crate::run::*;
use std::sync::Arc;

pub fn case(ctx: &Ctx, n: u64, r: &mut Rng) {
    let plan = gen_plan(r, 2);
    let srv = start(&plan, r.fork());
    match run_plan(&plan, &srv) {
        Ran::Hang => ctx.violation("hist", n, "hang", format!("the history did not end\n{}", describe(&plan, &[], &srv.log))),
        Ran::Ok(done) => {
            for d in &done {
                ctx.eval();
                ctx.count(match d.res { Res::Ok(_) => "answers_matched", Res::Partial(_) => "partial_streams_matched", Res::Server(..) => "exceptions_matched", Res::Timeout => "timeouts", Res::Cancelled => "abandoned", _ => "other_errors" }, 1);
                ctx.distinct(&(d.s.op, d.s.beh, d.s.act, d.handle_clean, plan.ping, srv.log.len()));
                if let Some((sig, e)) = judge_response(&plan, d) { ctx.violation("hist", n, sig, format!("{e}\n{}", describe(&plan, &done, &srv.log))); return; }
            }
            if let Some(b) = srv.log.bad() { ctx.violation("hist", n, "protocol", format!("the server could not follow the client: {b}\n{}", describe(&plan, &done, &srv.log))); return; }
            sample(ctx, &plan);
        }
    }
}

pub fn run(ctx: &Arc<Ctx>) {
    ctx.rule("a case is a random history of 2-18 tagged operations by 1-3 tasks over a pool of 1-3 connections; the server answers every tag recognisably, possibly slowly, with an exception or by closing; the client finishes, abandons or cancels; every result is matched with its own tag; distinct = (operation, server behaviour, client behaviour, handle state, ping, number of events)");
    watchdog(ctx.clone(), secs(200), true);
    cases(ctx, "hist", ctx.n(3000, 60_000), 12, secs(ctx.n(80, 1500)), case);
}
