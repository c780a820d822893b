//! Scenarios T01-T04 and L01-L04.
use crate::batch::*;
use simfw::*;
use std::sync::Arc;
use std::thread;
use std::time::Duration;

fn conf(sig: Sig, rt: Rt) -> Conf {
    let queue = pick(S_CFG, &[8usize, 1, 2, 3, 4, 5, 16, 32]);
    let batch = pick(S_CFG, &[2usize, 1, 3, 4, 8, 16]);
    Conf {
        sig,
        rt,
        queue,
        batch: batch.min(queue),
        delay: Duration::from_millis(pick(S_CFG, &[5000u64, 20, 100, 1000, 60_000])),
        timeout: Duration::from_secs(30),
        concurrent: 1,
        direct: chance(S_CFG, 2),
    }
}
fn pause(s: u32, max_us: u64) {
    match choose(s, 6) {
        0..=3 => {}
        4 => thread::sleep(Duration::from_micros(1 + choose(s, 2000) as u64)),
        _ => thread::sleep(Duration::from_micros(1 + choose(s, max_us.min(1 << 30) as u32) as u64)),
    }
}
fn class(c: &Conf, s: u32) -> u8 {
    if c.sig == Sig::Span {
        [0, 0, 0, 0, 0, 1, 2, 0][choose(s, 8) as usize]
    } else {
        0
    }
}
fn emitters(c: Conf, core: &Arc<Core>, p: &Arc<Pipe>, max_threads: u32, max_items: u32, max_pause_us: u64) -> Vec<thread::JoinHandle<()>> {
    let n = 1 + choose(S_CFG, max_threads);
    (0..n).map(|t| {
        let (core, p) = (core.clone(), p.clone());
        thread::spawn(move || {
            let s = S_EMIT + t;
            let k = 1 + choose(s, max_items);
            for _ in 0..k {
                let cl = class(&c, s);
                core.emit(&p, t, cl);
                pause(s, max_pause_us);
            }
        })
    }).collect()
}
fn callers(core: &Arc<Core>, p: &Arc<Pipe>, n: u32, shutdowns: bool, max_pause_us: u64) -> Vec<thread::JoinHandle<()>> {
    (0..n).map(|t| {
        let (core, p) = (core.clone(), p.clone());
        thread::spawn(move || {
            let s = S_CALL + t;
            for _ in 0..1 + choose(s, 3) {
                pause(s, max_pause_us);
                let k = if shutdowns && chance(s, 4) { CallKind::Shutdown } else { CallKind::Flush };
                core.call(&p, k);
            }
        })
    }).collect()
}
fn join(v: Vec<thread::JoinHandle<()>>) {
    for h in v {
        let _ = h.join();
    }
}
/// With a working exporter a flush must succeed after finitely many attempts.
fn drain(core: &Arc<Core>, p: Arc<Pipe>, c: &Conf) {
    core.calm();
    if chance(S_CFG, 4) {
        // the last handle of the provider goes away
        let (s, ts) = (seq(), now());
        tr!("dropped");
        drop(p);
        let (e, te) = (seq(), now());
        tr!("dropped after {} us", (te - ts) / 1000);
        let ok = !c.direct && c.rt == Rt::Thread && te - ts < secs(4.9);
        core.h.with(|h| h.calls.push(Call { kind: CallKind::Shutdown, s, e, ts, te, ok, already: false, err: "drop".into(), stalls: stalls() }));
        if c.rt == Rt::Thread {
            check_no_threads_left("every handle is gone");
        }
        return;
    }
    let p = &p;
    if chance(S_CFG, 2) {
        core.call(p, CallKind::Shutdown);
        return;
    }
    for _ in 0..20 {
        if core.call(p, CallKind::Flush) {
            if chance(S_CFG, 2) {
                core.call(p, CallKind::Shutdown);
            }
            return;
        }
        // the queue may still be full of earlier items or requests: let the pipeline work
        thread::sleep(Duration::from_secs(1));
    }
    violation("flush-never-succeeds", &core.h.with(|h| format!("20 flushes of a working exporter failed: {}", h.calls.last().unwrap().err)));
}
const LOSS: Checks = Checks { loss: true, order: false, calls: false, at_once: i32::MAX };
const ORDER: Checks = Checks { loss: false, order: true, calls: false, at_once: 1 };
const CALLS: Checks = Checks { loss: false, order: false, calls: true, at_once: i32::MAX };

fn loss(sig: Sig) {
    let c = conf(sig, Rt::Thread);
    let plan = match choose(S_CFG, 3) {
        0 => Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 0, max_slow_us: 1 },
        1 => Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 1, max_slow_us: 2_000_000 },
        _ => Plan { ok: 2, err: 1, panic: 0, hang: 0, fast: 3, slow: 1, max_slow_us: 100_000 },
    };
    let core = core(&c, plan, LOSS);
    let p = make(&c, &core);
    let nf = choose(S_CFG, 3);
    let mut v = emitters(c, &core, &p, 4, 10, c.delay.as_micros() as u64 * 2);
    v.extend(callers(&core, &p, nf, false, c.delay.as_micros() as u64 * 2));
    join(v);
    drain(&core, p, &c);
    core.h.with(|h| h.check_loss(c.queue, false));
}
fn timely(sig: Sig) {
    no_busy_wait(Duration::from_millis(50));
    let mut c = conf(sig, Rt::Thread);
    c.delay = Duration::from_millis(pick(S_CFG, &[5000u64, 300, 1000, 60_000]));
    let plan = match choose(S_CFG, 2) {
        0 => Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 0, max_slow_us: 1 },
        _ => Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 1, max_slow_us: 4_000_000 },
    };
    let core = core(&c, plan, ORDER);
    let p = make(&c, &core);
    let flushes = choose(S_CFG, 2); // flush calls must not delay anything either
    let mut v = emitters(c, &core, &p, 3, 12, c.delay.as_micros() as u64 * 2);
    v.extend(callers(&core, &p, flushes, false, c.delay.as_micros() as u64));
    join(v);
    thread::sleep(c.delay * 2 + Duration::from_secs(1));
    let until = now();
    core.h.with(|h| h.check_timely(c.delay, core.max_batch, secs(0.1), c.queue, until, true));
    core.calm();
    core.call(&p, CallKind::Shutdown);
}
/// While an export takes a minute so many flushes are asked for that the control channel fills up; afterwards a full
/// batch must start an export as before.
fn crowded(sig: Sig) {
    let mut c = conf(sig, Rt::Thread);
    c.delay = Duration::from_millis(pick(S_CFG, &[100_000u64, 400_000]));
    let core = core(&c, Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 0, slow: 1, max_slow_us: 100_000_000 }, ORDER);
    let p = make(&c, &core);
    for _ in 0..c.batch {
        core.emit(&p, 0, 0);
    }
    thread::sleep(Duration::from_millis(10));
    core.calm();
    let mut v = vec![];
    for _ in 0..10 {
        let (core, p) = (core.clone(), p.clone());
        v.push(thread::spawn(move || {
            for _ in 0..10 {
                core.call(&p, CallKind::Flush);
            }
        }));
    }
    thread::sleep(Duration::from_secs(if chance(S_CFG, 4) { choose(S_CFG, 50) as u64 } else { 35 }));
    v.extend(emitters(c, &core, &p, 2, 12, 2_000_000));
    join(v);
    thread::sleep(Duration::from_secs(choose(S_CFG, 100) as u64));
    for _ in 0..1 + choose(S_CFG, 3) {
        for _ in 0..c.batch {
            core.emit(&p, 3, 0);
        }
        thread::sleep(Duration::from_millis(200));
    }
    thread::sleep(c.delay + Duration::from_secs(1));
    let until = now();
    core.h.with(|h| h.check_timely(c.delay, core.max_batch, secs(0.1), c.queue, until, true));
    core.call(&p, CallKind::Shutdown);
}
fn calls(sig: Sig) {
    let mut c = conf(sig, Rt::Thread);
    let strict = chance(S_CFG, 3);
    if strict {
        // no export can be triggered by the timer or by a full batch, so each belongs to a flush
        c.queue = 64;
        c.batch = 64;
        c.delay = Duration::from_secs(100_000);
    }
    let plan = match choose(S_CFG, 5) {
        0 => Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 0, max_slow_us: 1 },
        1 => Plan { ok: 1, err: 1, panic: 0, hang: 0, fast: 2, slow: 1, max_slow_us: 1_000_000 },
        2 => Plan { ok: 2, err: 1, panic: 0, hang: 0, fast: 1, slow: 2, max_slow_us: 20_000_000 },
        3 => Plan { ok: 3, err: 1, panic: 0, hang: 1, fast: 2, slow: 1, max_slow_us: 3_000_000 },
        _ => Plan { ok: 3, err: 1, panic: 1, hang: 0, fast: 2, slow: 1, max_slow_us: 3_000_000 },
    };
    let core = core(&c, plan, CALLS);
    let shut = choose_w(S_CFG, &[6, 2, 1, 1, 1]) as u32;
    core.shut.with(|s| *s = shut);
    let p = make(&c, &core);
    let nc = 1 + choose(S_CFG, 2);
    let sd = chance(S_CFG, 2);
    let mut v = emitters(c, &core, &p, 3, 8, 3_000_000);
    v.extend(callers(&core, &p, nc, sd, 3_000_000));
    join(v);
    // an error must not stop later exports
    let only_errors = plan.hang == 0 && plan.panic == 0;
    if only_errors && core.h.with(|h| !h.calls.iter().any(|c| c.kind == CallKind::Shutdown)) && chance(S_CFG, 2) {
        core.calm();
        core.emit(&p, 9, 0);
        let mut ok = false;
        for _ in 0..30 {
            ok = ok || core.call(&p, CallKind::Flush);
        }
        ensure!(ok, "error-stops-exports", "no flush succeeded after the exporter recovered");
    }
    core.call(&p, CallKind::Shutdown);
    let shut_ok = core.h.with(|h| h.calls.iter().any(|c| c.kind == CallKind::Shutdown && c.ok));
    let n = core.h.with(|h| h.exports.len());
    if shut_ok {
        // final: ended items are ignored, calls say "already shut down"
        core.emit(&p, 10, 0);
        let k = core.h.with(|h| h.calls.len());
        core.call(&p, CallKind::Shutdown);
        if c.direct || sig == Sig::Log {
            core.call(&p, CallKind::Flush);
        }
        thread::sleep(c.delay.min(Duration::from_secs(70)) + Duration::from_secs(1));
        core.h.with(|h| {
            for x in &h.calls[k..] {
                ensure!(!x.ok && x.already, "not-already-shutdown", "{:?} after a completed shutdown returned {}", x.kind, x.err);
            }
            ensure!(h.exports.len() == n, "export-after-shutdown", "something was exported after shutdown had reported success");
        });
        check_no_threads_left("shutdown succeeded");
    }
    core.h.with(|h| h.check_calls(Some(Duration::from_secs(5)), strict, plan.hang == 0 && plan.panic == 0 && shut < 3));
}
/// A flush queued behind a slow export: batches the flush exports itself must not hide each other's errors.
fn masked(sig: Sig) {
    let mut c = conf(sig, Rt::Thread);
    c.queue = 64;
    c.batch = 3 + choose(S_CFG, 3) as usize;
    c.delay = Duration::from_secs(100_000);
    let core = core(&c, Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 0, slow: 1, max_slow_us: 1 }, CALLS);
    core.plan.with(|p| p.max_slow_us = 3_000_000);
    let p = make(&c, &core);
    // with the one being exported these are not yet a full batch
    let first = 1 + choose(S_CFG, c.batch as u32 - 2);
    // keep the worker busy with one slow export, started by a flush
    core.emit(&p, 0, 0);
    let busy = {
        let (core, p) = (core.clone(), p.clone());
        thread::spawn(move || {
            core.call(&p, CallKind::Flush);
        })
    };
    while core.h.with(|h| h.exports.is_empty()) {
        thread::sleep(Duration::from_millis(1));
    }
    core.plan.with(|p| *p = Plan { ok: 1, err: 1, panic: 0, hang: 0, fast: 1, slow: 0, max_slow_us: 1 });
    for _ in 0..first {
        core.emit(&p, 0, 0);
    }
    let flusher = {
        let (core, p) = (core.clone(), p.clone());
        thread::spawn(move || {
            core.call(&p, CallKind::Flush);
        })
    };
    // give the flush time to be requested before a full batch is
    thread::sleep(Duration::from_micros(choose(S_CFG, 200_000) as u64));
    for _ in 0..choose(S_CFG, 10) {
        core.emit(&p, 0, 0);
    }
    busy.join().unwrap();
    flusher.join().unwrap();
    core.h.with(|h| {
        let f = h.calls.iter().max_by_key(|c| c.s).unwrap().clone();
        let mut before = vec![];
        for (i, it) in h.items.iter().enumerate() {
            if it.e < f.s {
                before.push(i as u32);
            }
        }
        if !f.ok {
            return;
        }
        for x in &h.exports {
            if x.s > f.s && x.s < f.e && x.ids.iter().any(|i| before.contains(i)) && f.stalls == 0 {
                ensure!(x.ok == Some(true), "error-masked", "a flush reported success although its export of {:?} failed (items accepted before it: {before:?})", x.ids);
            }
        }
    });
}

// ---------------------------------------------------------------- async runtimes
pub fn with_runtime(rt: Rt, f: impl FnOnce()) {
    if rt == Rt::Tokio {
        let r = tokio::runtime::Builder::new_multi_thread().worker_threads(1 + choose(S_CFG, 2) as usize).enable_time().build().unwrap();
        let _g = r.enter();
        f();
        drop(_g);
        r.shutdown_background();
    } else {
        f()
    }
}
fn pick_rt() -> Rt {
    pick(S_CFG, &[Rt::Tokio, Rt::TokioCurrent])
}
const ALL: Checks = Checks { loss: true, order: true, calls: true, at_once: 1 };
fn async_loss(sig: Sig) {
    let rt = pick_rt();
    let mut c = conf(sig, rt);
    c.concurrent = pick(S_CFG, &[1usize, 2, 3]);
    let plan = match choose(S_CFG, 3) {
        0 => Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 0, max_slow_us: 1 },
        1 => Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 1, max_slow_us: 2_000_000 },
        _ => Plan { ok: 2, err: 1, panic: 0, hang: 0, fast: 3, slow: 1, max_slow_us: 100_000 },
    };
    with_runtime(rt, || {
        let core = core(&c, plan, if c.concurrent == 1 || sig == Sig::Log { ALL } else { Checks { order: false, at_once: c.concurrent as i32, ..ALL } });
        let p = make(&c, &core);
        let nf = choose(S_CFG, 3);
        let mut v = emitters(c, &core, &p, 4, 10, c.delay.as_micros() as u64 * 2);
        v.extend(callers(&core, &p, nf, false, c.delay.as_micros() as u64 * 2));
        join(v);
        drain(&core, p, &c);
        core.h.with(|h| h.check_loss(c.queue, true));
    });
}
fn async_timely(sig: Sig) {
    no_busy_wait(Duration::from_millis(50));
    let rt = pick_rt();
    let mut c = conf(sig, rt);
    c.delay = Duration::from_millis(pick(S_CFG, &[5000u64, 300, 1000, 60_000]));
    c.queue = c.queue.max(8);
    let plan = match choose(S_CFG, 2) {
        0 => Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 0, max_slow_us: 1 },
        _ => Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 1, max_slow_us: 4_000_000 },
    };
    with_runtime(rt, || {
        let core = core(&c, plan, Checks { loss: true, order: true, calls: true, at_once: 1 });
        let p = make(&c, &core);
        join(emitters(c, &core, &p, 3, 12, c.delay.as_micros() as u64 * 2));
        thread::sleep(c.delay * 2 + Duration::from_secs(1));
        let until = now();
        core.h.with(|h| h.check_timely(c.delay, core.max_batch, secs(0.1), 0, until, false));
        core.calm();
        core.call(&p, CallKind::Shutdown);
    });
}
/// Errors, stalls and hangs: each export is abandoned after the timeout, flush reports its own failures.
fn async_calls(sig: Sig) {
    let rt = pick_rt();
    let mut c = conf(sig, rt);
    c.queue = 64;
    c.delay = c.delay.max(Duration::from_millis(100));
    let strict = chance(S_CFG, 2);
    if strict {
        c.batch = 64;
        c.delay = Duration::from_secs(100_000);
    }
    c.timeout = Duration::from_millis(pick(S_CFG, &[30_000u64, 10, 500, 3000]));
    let plan = match choose(S_CFG, 3) {
        0 => Plan { ok: 1, err: 1, panic: 0, hang: 0, fast: 2, slow: 1, max_slow_us: 1_000_000 },
        1 => Plan { ok: 2, err: 1, panic: 0, hang: 1, fast: 1, slow: 2, max_slow_us: 10_000_000 },
        _ => Plan { ok: 1, err: 0, panic: 0, hang: 2, fast: 1, slow: 0, max_slow_us: 10_000_000 },
    };
    with_runtime(rt, || {
        let core = core(&c, plan, CALLS);
        let p = make(&c, &core);
        let nc = 1 + choose(S_CFG, 2);
        let sd = chance(S_CFG, 3);
        let mut v = emitters(c, &core, &p, 3, 6, 3_000_000);
        v.extend(callers(&core, &p, nc, sd, 3_000_000));
        join(v);
        let shut = core.h.with(|h| h.calls.iter().any(|c| c.kind == CallKind::Shutdown));
        if !shut {
            core.calm();
            core.emit(&p, 9, 0);
            let id = core.h.with(|h| h.items.len() - 1) as u32;
            let mut ok = false;
            for _ in 0..3 {
                ok = ok || core.call(&p, CallKind::Flush);
            }
            ensure!(ok, "error-stops-exports", "no flush succeeded after the exporter recovered");
            core.h.with(|h| ensure!(h.exports.iter().any(|e| e.ids.contains(&id)), "error-stops-exports", "item {id} was not exported after the exporter recovered"));
        }
        core.call(&p, CallKind::Shutdown);
        core.emit(&p, 10, 0);
        thread::sleep(Duration::from_secs(1));
        let n = core.h.with(|h| h.exports.len());
        thread::sleep(c.delay.min(Duration::from_secs(70)) * 2 + Duration::from_secs(1));
        let limit = c.timeout.as_nanos() as u64;
        core.h.with(|h| {
            ensure!(h.exports.len() == n, "export-after-shutdown", "something was exported after shutdown");
            ensure!(h.shut.len() == 1, "exporter-not-shut-down", "the exporter was shut down {} times", h.shut.len());
            for x in &h.exports {
                let te = if x.e == 0 { now() } else { x.te };
                ensure!(te - x.ts <= limit + secs(0.3), "not-abandoned", "an export ran for {:.3}s, the timeout is {:?}", (te - x.ts) as f64 / 1e9, c.timeout);
                if x.ok.is_none() {
                    probe("export_abandoned");
                    ensure!(te - x.ts + secs(0.001) >= limit, "abandoned-early", "an export was abandoned after {:.6}s, the timeout is {:?}", (te - x.ts) as f64 / 1e9, c.timeout);
                }
            }
            h.check_calls(None, strict, true);
        });
    });
}

pub const NOSTALL: Opts = Opts { stalls: false, max_step_ns: 50, ..DEFAULT };
macro_rules! sc {
    ($p:expr, $n:expr, $w:expr, $f:expr, $o:expr) => {
        Scenario { prop: $p, name: $n, weight: $w, run: $f, opts: $o }
    };
}
pub const SCEN: &[Scenario] = &[
    sc!("T01", "bsp-loss", 1, || loss(Sig::Span), DEFAULT),
    sc!("T02", "bsp-timely", 8, || timely(Sig::Span), NOSTALL),
    sc!("T02", "bsp-crowded", 1, || crowded(Sig::Span), NOSTALL),
    sc!("T03", "bsp-calls", 3, || calls(Sig::Span), DEFAULT),
    sc!("T03", "bsp-masked-error", 1, || masked(Sig::Span), NOSTALL),
    sc!("L01", "blp-loss", 1, || loss(Sig::Log), DEFAULT),
    sc!("L02", "blp-timely", 8, || timely(Sig::Log), NOSTALL),
    sc!("L02", "blp-crowded", 1, || crowded(Sig::Log), NOSTALL),
    sc!("L03", "blp-calls", 3, || calls(Sig::Log), DEFAULT),
    sc!("L03", "blp-masked-error", 1, || masked(Sig::Log), NOSTALL),
    sc!("T04", "async-bsp-loss", 2, || async_loss(Sig::Span), DEFAULT),
    sc!("T04", "async-bsp-timely", 1, || async_timely(Sig::Span), NOSTALL),
    sc!("T04", "async-bsp-calls", 2, || async_calls(Sig::Span), NOSTALL),
    sc!("L04", "async-blp-loss", 2, || async_loss(Sig::Log), DEFAULT),
    sc!("L04", "async-blp-timely", 1, || async_timely(Sig::Log), NOSTALL),
    sc!("L04", "async-blp-calls", 2, || async_calls(Sig::Log), NOSTALL),
];
