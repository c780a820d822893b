//! T06: what a shared span exports. T07: identity, parenthood and sampling of spans started concurrently.
use crate::batch::S_CFG;
use opentelemetry::trace::{
    Event, FutureExt, Link, SamplingDecision, SamplingResult, Span as _, SpanContext, SpanId, SpanKind, Status, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer as _,
    TracerProvider as _,
};
use opentelemetry::{Context, KeyValue, Value};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::trace::{Sampler, SdkTracer, SdkTracerProvider, ShouldSample, SimpleSpanProcessor, SpanData, SpanExporter, SpanLimits, SpanProcessor};
use simfw::*;
use opentelemetry::global::BoxedTracer;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::thread;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn ns(t: SystemTime) -> i128 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_nanos() as i128,
        Err(e) => -(e.duration().as_nanos() as i128),
    }
}
// ---------------------------------------------------------------- T06
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Attr,
    Event,
    Link,
    Status(u8),
    Name,
    End,
    EndAt(u64),
}
#[derive(Clone, Debug)]
struct Rec {
    op: Op,
    s: u64,
    e: u64,
    rs: u64,
    re: u64,
}
#[derive(Default)]
struct SH {
    ops: Vec<Rec>,
    drops: Vec<(u64, u64)>, // handle drop begun / completed (0 while alive)
    dropping: u64,          // when the latest drop of a handle began, by the system clock
    got: Vec<(usize, u64, SpanData)>,
}
#[derive(Clone)]
struct Proc(Arc<Shared<SH>>, usize);
impl std::fmt::Debug for Proc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("proc")
    }
}
impl SpanProcessor for Proc {
    fn on_start(&self, _s: &mut opentelemetry_sdk::trace::Span, _cx: &Context) {}
    fn on_end(&self, span: SpanData) {
        let n = seq();
        tr!("processor {} receives {:?}", self.1, span);
        self.0.with(|h| {
            let ended = h.ops.iter().any(|o| matches!(o.op, Op::End | Op::EndAt(_)));
            let live = h.drops.iter().filter(|d| d.0 == 0).count();
            ensure!(ended || live == 0, "ended-early", "the span was handed to processor {} although nobody ended it and {live} handles are alive", self.1);
            ensure!(!h.got.iter().any(|g| g.0 == self.1), "exported-twice", "processor {} received the span twice", self.1);
            h.got.push((self.1, n, span));
        });
        if chance(52, 4) {
            thread::sleep(Duration::from_micros(choose(52, 500) as u64));
        }
        // processors may use the current context
        Context::map_current(|c| c.has_active_span());
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
const ZERO: i128 = 1 << 80;
fn status(k: u8, i: usize) -> Status {
    match k {
        0 => Status::Unset,
        // descriptions in no particular order
        1 => Status::error(format!("{}{i}", ["m", "a", "z", "A"][i % 4])),
        _ => Status::Ok,
    }
}
#[derive(Debug)]
struct Failure(usize);
impl std::fmt::Display for Failure {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "x{}", self.0)
    }
}
impl std::error::Error for Failure {}
/// Number of the call that added an event of a shared span.
fn event_no(e: &Event) -> usize {
    if e.name == "exception" {
        let a: Vec<_> = e.attributes.iter().filter(|a| a.key.as_str() == "exception.message").collect();
        ensure!(a.len() == 1 && e.attributes.len() == 1, "altered", "event {e:?}");
        a[0].value.as_str()[1..].parse().unwrap()
    } else {
        e.name[1..].parse().unwrap()
    }
}

fn apply(h: &Shared<SH>, cx: &Context, op: Op) {
    let i = h.with(|h| {
        h.ops.push(Rec { op, s: seq(), e: 0, rs: real_now(), re: 0 });
        h.ops.len() - 1
    });
    tr!("op {i} {op:?} begins");
    let sp = cx.span();
    match op {
        Op::Attr => {
            if i % 3 == 0 {
                sp.set_attributes([KeyValue::new(format!("a{i}"), i as i64)])
            } else {
                sp.set_attribute(KeyValue::new(format!("a{i}"), i as i64))
            }
        }
        Op::Event => match i % 4 {
            0 => sp.record_error(&Failure(i)),
            1 => sp.add_event_with_timestamp(format!("e{i}"), UNIX_EPOCH + Duration::from_nanos(i as u64), vec![KeyValue::new("i", i as i64)]),
            _ => sp.add_event(format!("e{i}"), vec![KeyValue::new("i", i as i64)]),
        },
        // links cannot be added through a shared handle
        Op::Link => unreachable!(),
        Op::Status(k) => sp.set_status(status(k, i)),
        Op::Name => sp.update_name(format!("n{i}")),
        Op::End => sp.end(),
        Op::EndAt(t) => sp.end_with_timestamp(UNIX_EPOCH + Duration::from_nanos(t)),
    }
    if matches!(op, Op::End | Op::EndAt(_)) {
        ensure!(!sp.is_recording(), "recording-after-end", "the span still records after end() returned");
        h.with(|h| ensure!(!h.got.is_empty(), "end-does-not-export", "end() returned but the span has not been handed to the processors"));
    }
    h.with(|h| {
        h.ops[i].e = seq();
        h.ops[i].re = real_now();
    });
    tr!("op {i} done");
}
fn drop_handle(h: &Shared<SH>, i: usize, f: impl FnOnce()) {
    h.with(|h| {
        h.drops[i].0 = seq();
        h.dropping = real_now();
    });
    tr!("handle {i} being dropped");
    f();
    h.with(|h| h.drops[i].1 = seq());
}
fn shared_span() {
    let h: Arc<Shared<SH>> = Arc::default();
    let lim = [128u32, 1, 2, 4, 0][choose(S_CFG, 5) as usize];
    let elim = [128u32, 1, 2, 3, 0][choose(S_CFG, 5) as usize];
    let np = 1 + choose(S_CFG, 3) as usize;
    let mut b = SdkTracerProvider::builder().with_max_attributes_per_span(lim).with_max_events_per_span(elim).with_max_attributes_per_event(128);
    for i in 0..np {
        b = b.with_span_processor(Proc(h.clone(), i));
    }
    let provider = b.build();
    let t = provider.tracer("app");
    let jumps = chance(S_CFG, 4);
    let preset_end = chance(S_CFG, 8);
    let mut sb = t.span_builder("start");
    let r0 = real_now();
    let own_start = chance(S_CFG, 6);
    if own_start {
        sb = sb.with_start_time(UNIX_EPOCH + Duration::from_secs(5));
    }
    let init = if chance(S_CFG, 3) { choose(S_CFG, 3) } else { 0 };
    if init > 0 || chance(S_CFG, 8) {
        sb = sb.with_status([Status::Unset, Status::error("initial"), Status::Ok][init as usize].clone());
    }
    if preset_end {
        sb = sb.with_end_time(UNIX_EPOCH + Duration::from_secs(7));
    }
    let span = t.build_with_context(sb, &Context::new());
    let r1 = real_now();
    let cx = Context::new().with_span(span);
    let n = 1 + choose(S_CFG, 4);
    let will_end = chance(S_CFG, 2);
    h.with(|h| h.drops = vec![(0, 0); n as usize + 1]);
    let v: Vec<_> = (0..n).map(|k| {
        let (h, cx) = (h.clone(), cx.clone());
        thread::spawn(move || {
            let s = 1 + k;
            let mode = choose(s, 4);
            let body = |cx: &Context| {
                for _ in 0..choose(s, 7) {
                    let op = match choose(s, if will_end { 8 } else { 6 }) {
                        0 | 1 => Op::Attr,
                        2 | 3 => Op::Event,
                        4 => Op::Status(choose(s, 3) as u8),
                        5 => Op::Name,
                        6 => Op::End,
                        _ => Op::EndAt(7_000_000_000 + choose(s, 1000) as u64),
                    };
                    apply(&h, cx, op);
                    if chance(s, 3) {
                        thread::sleep(Duration::from_micros(choose(s, 300) as u64));
                    }
                }
            };
            match mode {
                0 => {
                    body(&cx);
                    drop_handle(&h, k as usize, || drop(cx));
                }
                1 => {
                    // through the thread's current context
                    let g = cx.attach();
                    body(&Context::current());
                    drop_handle(&h, k as usize, || drop(g));
                }
                2 => {
                    // a handle lost in a panic
                    fault("panic_with_handle");
                    let g = cx.attach();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        body(&Context::current());
                        let g = g;
                        h.with(|h| {
                            h.drops[k as usize].0 = seq();
                            h.dropping = real_now();
                        });
                        let _ = &g;
                        std::panic::panic_any(INJECTED)
                    }));
                    assert!(r.is_err());
                    h.with(|h| h.drops[k as usize].1 = seq());
                }
                _ => {
                    // bound to a future
                    let mut f = Some(Box::pin(async { body(&Context::current()) }.with_context(cx)));
                    futures_executor::block_on(f.as_mut().unwrap());
                    drop_handle(&h, k as usize, || drop(f.take()));
                }
            }
        })
    }).collect();
    if jumps {
        for _ in 0..1 + choose(S_CFG, 3) {
            thread::sleep(Duration::from_micros(choose(S_CFG, 500) as u64));
            let d = choose(S_CFG, 2_000_000) as i64 - 1_000_000;
            fault("clock_jump");
            clock_jump(d * 1000);
        }
    }
    drop_handle(&h, n as usize, || drop(cx));
    for x in v {
        x.join().unwrap();
    }
    h.with(|h| check_shared(h, np, lim, elim, if jumps { None } else { Some((r0, r1)) }, preset_end, own_start, init));
}
fn check_shared(h: &SH, np: usize, lim: u32, elim: u32, times: Option<(u64, u64)>, preset_end: bool, own_start: bool, init: u32) {
    ensure!(h.got.len() == np, "not-exported", "the span ended but only {} of {np} processors received it", h.got.len());
    let d = &h.got[0].2;
    for g in &h.got {
        ensure!(g.2 == *d, "processors-differ", "processors received different data: {:?} / {d:?}", g.2);
    }
    let ends: Vec<&Rec> = h.ops.iter().filter(|o| matches!(o.op, Op::End | Op::EndAt(_))).collect();
    let first_got = h.got.iter().map(|g| g.1).min().unwrap();
    // the end began not before eb and had completed not after ee
    let (eb, ee) = if ends.is_empty() {
        (h.drops.iter().map(|d| d.0).max().unwrap(), h.drops.iter().map(|d| d.1).max().unwrap())
    } else {
        (ends.iter().map(|o| o.s).min().unwrap(), ends.iter().map(|o| o.e).min().unwrap())
    };
    ensure!(first_got > eb && first_got < ee, "wrong-moment", "span handed over at {first_got}, end between {eb} and {ee}");
    for (kind, lim) in [(Op::Attr, lim), (Op::Event, elim)] {
        let (got, dropped): (Vec<usize>, u32) = if kind == Op::Attr {
            (d.attributes.iter().map(|a| a.key.as_str()[1..].parse().unwrap()).collect(), d.dropped_attributes_count)
        } else {
            (d.events.events.iter().map(event_no).collect(), d.events.dropped_count)
        };
        let all: Vec<usize> = (0..h.ops.len()).filter(|i| h.ops[*i].op == kind).collect();
        let must = all.iter().filter(|i| h.ops[**i].e != 0 && h.ops[**i].e < eb).count();
        let may = all.iter().filter(|i| h.ops[**i].s < ee).count();
        let total = got.len() + dropped as usize;
        ensure!(total >= must && total <= may, "lost-or-late", "{kind:?}: {} kept and {dropped} dropped, but {must} were completed before the end and {may} begun before it completed", got.len());
        ensure!(got.len() as u32 == lim.min(total as u32), "limit", "{kind:?}: {} kept, {dropped} dropped, the limit is {lim}", got.len());
        for (k, i) in got.iter().enumerate() {
            let o = &h.ops[*i];
            ensure!(o.op == kind && !got[..k].contains(i), "altered", "{kind:?} {i} exported twice or never set");
            ensure!(o.s < ee, "after-end", "{kind:?} {i} was begun after the end had completed but is exported");
            for j in &got[k + 1..] {
                ensure!(h.ops[*j].e == 0 || h.ops[*j].e > o.s, "order", "{kind:?} {j} exported after {i} but completed before it began");
            }
            // everything completed before a kept one began is kept as well (the limit drops the latest)
            for j in &all {
                ensure!(!(h.ops[*j].e != 0 && h.ops[*j].e < o.s && !got.contains(j)), "dropped-earlier", "{kind:?} {j} is missing although the later {i} was kept");
            }
        }
        if dropped == 0 {
            for i in &all {
                ensure!(h.ops[*i].e == 0 || h.ops[*i].e > eb || got.contains(i), "lost", "{kind:?} {i} completed before the end but is missing");
            }
        }
    }
    for a in &d.attributes {
        let i: i64 = a.key.as_str()[1..].parse().unwrap();
        ensure!(a.value == opentelemetry::Value::I64(i), "altered", "attribute {a:?}");
    }
    for e in &d.events.events {
        let i = event_no(e);
        ensure!((e.name == "exception") == (i % 4 == 0), "altered", "event {e:?}");
        ensure!((e.name == "exception" || e.attributes == vec![KeyValue::new("i", i as i64)]) && e.dropped_attributes_count == 0, "altered", "event {e:?}");
        if i % 4 == 1 {
            ensure!(ns(e.timestamp) == i as i128, "event-time", "event {i} has time {:?}, another was given", e.timestamp);
        } else if times.is_some() {
            let t = ns(e.timestamp);
            ensure!(t >= h.ops[i].rs as i128 && t <= h.ops[i].re as i128, "event-time", "event {i} has time {t}, it was added between {} and {}", h.ops[i].rs, h.ops[i].re);
        }
    }
    // status and name
    let rank = |s: &Status| match s {
        Status::Unset => 0u8,
        Status::Error { .. } => 1,
        Status::Ok => 2,
    };
    let sts: Vec<(u8, &Rec)> = h.ops.iter().filter_map(|o| if let Op::Status(k) = o.op { Some((k, o)) } else { None }).collect();
    let lo = sts.iter().filter(|x| x.1.e != 0 && x.1.e < eb).map(|x| x.0).max().unwrap_or(0);
    let got = rank(&d.status);
    let init = init as u8;
    let lo = lo.max(init);
    if let Status::Error { description } = &d.status {
        if description == "initial" {
            ensure!(init == 1 && !sts.iter().any(|x| x.0 == 1 && x.1.e != 0 && x.1.e < eb), "status", "exported status {:?}, but a later error was set", d.status);
        } else {
            let i: usize = description[1..].parse().unwrap();
            let me = &h.ops[i];
            ensure!(me.op == Op::Status(1) && me.s < ee && d.status == status(1, i), "status", "exported status {:?} was never set", d.status);
            let later = sts.iter().find(|x| x.0 == 1 && x.1.s > me.e && me.e != 0 && x.1.e != 0 && x.1.e < eb);
            ensure!(later.is_none(), "status", "exported status {:?} although {later:?} was set later", d.status);
        }
    }
    ensure!(got >= lo && (got == init || got == 0 || sts.iter().any(|x| x.0 == got && x.1.s < ee)), "status", "exported status {:?}, expected at least {lo}", d.status);
    let names: Vec<(usize, &Rec)> = h.ops.iter().enumerate().filter(|o| o.1.op == Op::Name).collect();
    let done = |o: &Rec| o.e != 0 && o.e < eb;
    if d.name == "start" {
        ensure!(!names.iter().any(|n| done(n.1)), "name", "a completed name change is missing");
    } else {
        let i: usize = d.name[1..].parse().unwrap();
        let me = &h.ops[i];
        ensure!(me.op == Op::Name && me.s < ee, "name", "name {i} exported");
        ensure!(!names.iter().any(|n| n.1.s > me.e && me.e != 0 && done(n.1)), "name", "name {i} exported but a later change was completed before the end");
    }
    // times
    let (st, et) = (ns(d.start_time), ns(d.end_time));
    if own_start {
        ensure!(st == 5_000_000_000, "start-time", "start time {st} is not the given one");
    }
    if let Some((r0, r1)) = times {
        if !own_start {
            ensure!(st >= r0 as i128 && st <= r1 as i128, "start-time", "start time {st}, span started between {r0} and {r1}");
        }
    }
    let mut ok = false;
    for o in &ends {
        match o.op {
            Op::EndAt(t) => ok |= o.s < ee && et == t as i128,
            _ => ok |= o.s < ee && (times.is_none() || et >= o.rs as i128 && et <= o.re as i128),
        }
    }
    if ends.is_empty() {
        if preset_end {
            ok = et == 7_000_000_000;
        } else if times.is_some() {
            ok = et >= st && et >= h.dropping as i128 && et < ZERO;
        } else {
            ok = true;
        }
        probe("ended_by_last_drop");
    } else {
        probe("ended_explicitly");
        if ends.len() > 1 {
            probe("raced_ends");
        }
    }
    ensure!(ok, "end-time", "end time {et} (start {st}) is not that of any end call: {ends:?}");
}
/// A span owned by one thread: builder contents, links, limits; racing with provider shutdown.
fn owned_span() {
    let h: Arc<Shared<SH>> = Arc::default();
    let mut lim = || [128, 1, 2, 3, 4, 0][choose(S_CFG, 6) as usize];
    let (la, le, ll, lea, lla): (u32, u32, u32, u32, u32) = (lim(), lim(), lim(), lim(), lim());
    let b = SdkTracerProvider::builder().with_span_processor(Proc(h.clone(), 0));
    let b = if chance(S_CFG, 2) {
        b.with_span_limits(SpanLimits { max_events_per_span: le, max_attributes_per_span: la, max_links_per_span: ll, max_attributes_per_event: lea, max_attributes_per_link: lla })
    } else {
        b.with_max_attributes_per_span(la).with_max_events_per_span(le).with_max_links_per_span(ll).with_max_attributes_per_event(lea).with_max_attributes_per_link(lla)
    };
    let provider = b.build();
    let t = provider.tracer("app");
    if chance(S_CFG, 2) {
        owned_ops(t, provider, h, (la, le, ll, lea, lla));
    } else {
        owned_ops(BoxedTracer::new(Box::new(t)), provider, h, (la, le, ll, lea, lla));
    }
}
fn owned_ops<T: opentelemetry::trace::Tracer>(t: T, provider: SdkTracerProvider, h: Arc<Shared<SH>>, limits: (u32, u32, u32, u32, u32))
where
    T::Span: opentelemetry::trace::Span,
{
    let (la, le, ll, lea, lla) = limits;
    let p2 = provider.clone();
    let shut: Arc<Shared<(u64, u64)>> = Arc::default();
    let sd = if chance(S_CFG, 2) {
        let shut = shut.clone();
        Some(thread::spawn(move || {
            thread::sleep(Duration::from_micros(choose(S_CFG, 400) as u64));
            shut.with(|s| s.0 = seq());
            p2.shutdown().unwrap();
            shut.with(|s| s.1 = seq());
        }))
    } else {
        None
    };
    let nl = choose(1, 6);
    let na = choose(1, 6);
    let kv = |n: u32| (0..n).map(|i| KeyValue::new(format!("k{i}"), i as i64)).collect::<Vec<_>>();
    let sc = |i: u32| SpanContext::new(TraceId::from(i as u128 + 1), SpanId::from(i as u64 + 1), TraceFlags::new([1, 0, 3, 2][i as usize % 4]), i % 3 > 0, TraceState::from_key_value([("k", "v"); 1].into_iter().take(i as usize % 2)).unwrap());
    let b0 = choose(1, 5);
    let e0 = choose(1, 4);
    let t0 = UNIX_EPOCH + Duration::from_secs(3);
    let mut sb = t.span_builder("start").with_kind(SpanKind::Client).with_attributes(kv(b0)).with_links((0..b0).map(|i| Link::new(sc(i), kv(na), 0)).collect());
    if e0 > 0 {
        sb = sb.with_events((0..e0).map(|i| Event::new(format!("e{i}"), t0, kv(na), 0)).collect());
    }
    let mut span = t.build_with_context(sb, &Context::new());
    let rec = span.is_recording();
    h.with(|h| h.drops.push((0, 0)));
    let (mut name, mut status) = ("start".to_string(), Status::Unset);
    let mut times: BTreeMap<u32, SystemTime> = (0..e0).map(|i| (i, t0)).collect();
    for i in 0..nl {
        span.add_link(sc(b0 + i), kv(na));
        if chance(1, 2) {
            span.set_attribute(KeyValue::new(format!("k{}", b0 + i), (b0 + i) as i64));
        } else {
            span.set_attributes([KeyValue::new(format!("k{}", b0 + i), (b0 + i) as i64)]);
        }
        if chance(1, 4) {
            name = format!("name{i}");
            span.update_name(name.clone());
        }
        if chance(1, 4) {
            let st = [Status::Ok, Status::error(format!("bad{}", 9 - i)), Status::Unset][choose(1, 3) as usize].clone();
            if status != Status::Ok && st != Status::Unset {
                status = st.clone();
            }
            span.set_status(st);
        }
        if chance(1, 3) {
            span.add_event_with_timestamp(format!("e{}", e0 + i), t0 + Duration::from_secs(i as u64), kv(na));
            times.insert(e0 + i, t0 + Duration::from_secs(i as u64));
        } else {
            span.add_event(format!("e{}", e0 + i), kv(na));
        }
        if chance(1, 4) {
            thread::sleep(Duration::from_micros(choose(1, 200) as u64));
        }
    }
    let mut ended_at = None;
    let begun = seq();
    let by_drop = chance(1, 2);
    h.with(|h| {
        h.drops[0].0 = begun;
        if !by_drop {
            h.ops.push(Rec { op: Op::End, s: begun, e: 0, rs: 0, re: 0 });
        }
    });
    if by_drop {
        drop(span);
    } else {
        if chance(1, 2) {
            let at = t0 + Duration::from_secs(1 + choose(1, 5) as u64);
            span.end_with_timestamp(at);
            ended_at = Some(at);
        } else {
            span.end();
        }
        ensure!(!span.is_recording(), "recording-after-end", "still recording");
        span.set_attribute(KeyValue::new("late", 1));
        span.add_event("late", vec![]);
        span.add_link(sc(99), vec![]);
        span.end();
        drop(span);
    }
    let end = seq();
    if let Some(s) = sd {
        s.join().unwrap();
    }
    let shut = shut.with(|s| *s);
    h.with(|h| {
        if h.got.is_empty() {
            ensure!(!rec || shut.0 != 0 && shut.0 < end, "not-exported", "the span ended but was not exported");
            return;
        }
        ensure!(rec, "unrecorded-exported", "a span that did not record was exported");
        let d = &h.got[0].2;
        let total = (b0 + nl) as usize;
        let keep = |n: usize, l: u32| n.min(l as usize);
        let (ka, kl, ke, et) = (keep(total, la), keep(total, ll), keep((e0 + nl) as usize, le), (e0 + nl) as usize);
        ensure!(d.attributes == kv(ka as u32) && d.dropped_attributes_count as usize == total - ka, "attributes", "{:?} dropped {}", d.attributes, d.dropped_attributes_count);
        ensure!(d.links.links.len() == kl && d.links.dropped_count as usize == total - kl, "links", "{:?}", d.links);
        for (i, x) in d.links.links.iter().enumerate() {
            ensure!(x.span_context == sc(i as u32) && x.attributes == kv(na.min(lla)) && x.dropped_attributes_count == na - na.min(lla), "links", "{x:?}");
        }
        ensure!(d.events.events.len() == ke && d.events.dropped_count as usize == et - ke, "events", "{:?}", d.events);
        for (i, x) in d.events.events.iter().enumerate() {
            ensure!(x.name == format!("e{i}") && x.attributes == kv(na.min(lea)) && x.dropped_attributes_count == na - na.min(lea), "events", "{x:?}");
            ensure!(times.get(&(i as u32)).is_none_or(|t| *t == x.timestamp), "events", "time of {x:?}");
        }
        ensure!(ended_at.is_none_or(|t| t == d.end_time), "end-time", "ended with {ended_at:?}: {d:?}");
        ensure!(d.span_kind == SpanKind::Client && d.name == name && d.status == status && d.parent_span_id == SpanId::INVALID, "altered", "{d:?}");
        ensure!(ended_at.is_some() || d.end_time >= d.start_time, "end-time", "ends before it starts");
    });
}

// ---------------------------------------------------------------- T07
#[derive(Default)]
struct IH {
    decisions: Vec<(TraceId, u64, SamplingDecision, TraceState)>,
    given: u64,
    spans: Vec<(SpanContext, SpanId, bool)>,
    recorded: Vec<SpanData>,
    exported: Vec<SpanData>,
}
#[derive(Clone)]
struct Dec(Arc<Shared<IH>>);
impl std::fmt::Debug for Dec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("d")
    }
}
impl ShouldSample for Dec {
    fn should_sample(&self, p: Option<&Context>, t: TraceId, n: &str, k: &SpanKind, a: &[KeyValue], l: &[Link]) -> SamplingResult {
        ensure!(n == "s" && *k == SpanKind::Server && a.first() == Some(&KeyValue::new("b", 1)) && l.is_empty(), "sampler-arguments", "the sampler was asked about {n:?} {k:?} {a:?} {l:?}");
        let d = match choose(51, 3) {
            0 => SamplingDecision::RecordAndSample,
            1 => SamplingDecision::RecordOnly,
            _ => SamplingDecision::Drop,
        };
        let ts = match choose(51, 3) {
            0 => TraceState::from_key_value([("by", "sampler")]).unwrap(),
            _ => p.map(|c| c.span().span_context().trace_state().clone()).unwrap_or_default(),
        };
        // the attribute tells later which answer a span was started with
        let n = self.0.with(|h| {
            h.decisions.push((t, seq(), d.clone(), ts.clone()));
            h.decisions.len() as i64 - 1
        });
        SamplingResult { decision: d, attributes: vec![KeyValue::new("answer", n)], trace_state: ts }
    }
}
impl SpanProcessor for Dec {
    fn on_start(&self, s: &mut opentelemetry_sdk::trace::Span, _cx: &Context) {
        let _ = s.span_context();
    }
    fn on_end(&self, span: SpanData) {
        self.0.with(|h| h.recorded.push(span));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
impl SpanExporter for Dec {
    fn export(&self, b: Vec<SpanData>) -> impl std::future::Future<Output = OTelSdkResult> + Send {
        self.0.with(|h| h.exported.extend(b));
        async { Ok(()) }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Smp {
    On,
    Off,
    Custom,
    Ratio,
    ParentOn,
    ParentOff,
    ParentCustom,
}
fn ratio_says(t: TraceId) -> bool {
    // the documented rule for 0.5: the lower 63 bits (big endian, shifted) below half of the range
    let b = t.to_bytes();
    (u64::from_be_bytes(b[8..].try_into().unwrap()) >> 1) < (1u64 << 62)
}
fn ids() {
    let h: Arc<Shared<IH>> = Arc::default();
    let smp = [Smp::On, Smp::Off, Smp::Custom, Smp::Ratio, Smp::ParentOn, Smp::ParentOff, Smp::ParentCustom][choose(S_CFG, 7) as usize];
    let sampler = match smp {
        Smp::On => Sampler::AlwaysOn,
        Smp::Off => Sampler::AlwaysOff,
        Smp::Ratio | Smp::Custom => Sampler::TraceIdRatioBased(0.5),
        Smp::ParentOn => Sampler::ParentBased(Box::new(Sampler::AlwaysOn)),
        Smp::ParentOff => Sampler::ParentBased(Box::new(Sampler::AlwaysOff)),
        Smp::ParentCustom => Sampler::ParentBased(Box::new(Dec(h.clone()))),
    };
    let mut b = SdkTracerProvider::builder().with_span_processor(Dec(h.clone())).with_span_processor(SimpleSpanProcessor::new(Dec(h.clone())));
    b = if smp == Smp::Custom { b.with_sampler(Dec(h.clone())) } else { b.with_sampler(sampler) };
    let p = b.build();
    let n = 1 + choose(S_CFG, 4);
    let pool: Arc<Shared<Vec<Context>>> = Arc::default();
    let v: Vec<_> = (0..n).map(|k| {
        let (t, pool, h) = (p.tracer(if k % 2 == 0 { "a" } else { "b" }), pool.clone(), h.clone());
        thread::spawn(move || {
            let s = 1 + k;
            work(&t, &h, &pool, s, smp, 2 + choose(s, 5), 0);
        })
    }).collect();
    for x in v {
        x.join().unwrap();
    }
    pool.with(|p| std::mem::take(p)).clear();
    h.with(|h| {
        let mut used = vec![];
        for (i, s) in h.spans.iter().enumerate() {
            ensure!(!h.spans[..i].iter().any(|o| o.0.span_id() == s.0.span_id()), "duplicate-span-id", "span id {} used twice", s.0.span_id());
            if s.1 == SpanId::INVALID {
                ensure!(!h.spans[..i].iter().any(|o| o.1 == SpanId::INVALID && o.0.trace_id() == s.0.trace_id()), "duplicate-trace-id", "two new traces have the id {}", s.0.trace_id());
            }
            let rec = h.recorded.iter().filter(|r| r.span_context.span_id() == s.0.span_id()).collect::<Vec<_>>();
            let exp = h.exported.iter().filter(|r| r.span_context.span_id() == s.0.span_id()).count();
            ensure!(rec.len() <= 1 && exp <= 1, "exported-twice", "span exported twice");
            ensure!((exp == 1) == s.0.is_sampled(), "sampled-not-exported", "span with sampled={} was exported {exp} times", s.0.is_sampled());
            if let Some(r) = rec.first() {
                ensure!(r.span_context == s.0 && r.parent_span_id == s.1, "altered", "recorded with context {:?} and parent {}, started with {:?} and {}", r.span_context, r.parent_span_id, s.0, s.1);
                ensure!(r.span_kind == SpanKind::Server && r.name == "s" && r.attributes.first() == Some(&KeyValue::new("b", 1)), "altered", "recorded {r:?}");
                let app = KeyValue::new("answer", "of the application");
                let ans = r.attributes.iter().find(|k| k.key.as_str() == "answer" && **k != app).map(|k| &k.value);
                let preset = ans == Some(&Value::I64(-1));
                match (preset, ans) {
                    (false, Some(Value::I64(n))) => {
                        ensure!(!used.contains(n), "wrong-answer", "two spans were started with the sampler's answer {n}");
                        used.push(*n);
                        let d = &h.decisions[*n as usize];
                        ensure!(d.0 == s.0.trace_id() && d.3 == *s.0.trace_state() && d.2 == if s.0.is_sampled() { SamplingDecision::RecordAndSample } else { SamplingDecision::RecordOnly }, "wrong-answer", "span {:?} was started with the sampler's answer {d:?}", s.0);
                    }
                    _ => ensure!(preset || smp != Smp::Custom && (smp != Smp::ParentCustom || s.2), "wrong-answer", "the attributes of the sampler are not on the span: {:?}", r.attributes),
                }
                ensure!(r.attributes.iter().filter(|a| **a != app).count() == 1 + ans.is_some() as usize, "altered", "recorded attributes {:?}", r.attributes);
            }
        }
        count("spans", h.spans.len() as u64);
    });
}
fn work(t: &SdkTracer, h: &Arc<Shared<IH>>, pool: &Arc<Shared<Vec<Context>>>, s: u32, smp: Smp, n: u32, depth: u32) {
    for _ in 0..n {
        // where the parent comes from
        let src = choose(s, 7);
        let shared = pool.with(|p| if p.is_empty() { None } else { Some(p[choose(s, p.len() as u32) as usize].clone()) });
        let flags = TraceFlags::new(pick(s, &[1u8, 0, 2, 3, 0x81, 0x80]));
        let (explicit, parent) = match (src, shared) {
            (0, _) => (false, Context::current()),
            (1, Some(c)) => (true, c),
            (2, Some(c)) => (false, c),
            (3, _) => (true, Context::new()),
            (4, _) => {
                let x = 1 + choose(s, 1000) as u64;
                let ts = TraceState::from_key_value([("k", "v")]).unwrap();
                (true, Context::new().with_remote_span_context(SpanContext::new(TraceId::from(x as u128 * 7919), SpanId::from(x), flags, true, ts)))
            }
            (5, _) => {
                // no valid parent: the span of a tracer that does not record, say
                let x = choose(s, 3) as u64;
                (true, Context::new().with_remote_span_context(SpanContext::new(TraceId::from((x / 2) as u128), SpanId::from(x % 2), flags, true, TraceState::default())))
            }
            _ => (true, Context::current()),
        };
        let psc = parent.span().span_context().clone();
        let active = parent.has_active_span();
        let has_parent = active && psc.is_valid();
        let s0 = seq();
        let mut b = t.span_builder("s").with_kind(SpanKind::Server).with_attributes([KeyValue::new("b", 1), KeyValue::new("answer", "of the application")].into_iter().take(1 + choose(s, 2) as usize));
        // the application may choose the ids or the sampling itself
        let own = h.with(|h| {
            h.given += 1;
            h.given
        });
        let own_trace = chance(s, 6).then(|| TraceId::from((1u128 << 100) + own as u128));
        let own_span = chance(s, 6).then(|| SpanId::from((1u64 << 40) + own));
        let preset = chance(s, 8).then(|| pick(s, &[0u32, 1, 2])).map(|k| SamplingResult {
            decision: [SamplingDecision::RecordAndSample, SamplingDecision::RecordOnly, SamplingDecision::Drop][k as usize].clone(),
            attributes: vec![KeyValue::new("answer", -1)],
            trace_state: TraceState::from_key_value([("pre", "set")]).unwrap(),
        });
        if let Some(x) = own_trace {
            b = b.with_trace_id(x);
        }
        if let Some(x) = own_span {
            b = b.with_span_id(x);
        }
        if let Some(x) = &preset {
            b = b.with_sampling_result(x.clone());
        }
        let mut span = if explicit {
            match choose(s, 2) {
                0 => b.start_with_context(t, &parent),
                _ => t.build_with_context(b, &parent),
            }
        } else {
            let _g = parent.clone().attach();
            match choose(s, 2) {
                0 => b.start(t),
                _ => t.build(b),
            }
        };
        let sc = span.span_context().clone();
        tr!("started {sc:?} parent {psc:?}");
        ensure!(sc.is_valid() && !sc.is_remote(), "invalid-context", "span started with context {sc:?}");
        if has_parent {
            ensure!(sc.trace_id() == psc.trace_id(), "wrong-trace", "span started in trace {} under a parent of trace {}", sc.trace_id(), psc.trace_id());
        } else if let Some(x) = own_trace {
            ensure!(sc.trace_id() == x, "wrong-trace", "the builder of a root span asked for trace {x}, it got {}", sc.trace_id());
        }
        if let Some(x) = own_span {
            ensure!(sc.span_id() == x, "wrong-span-id", "the builder asked for span id {x}, the span got {}", sc.span_id());
        }
        match &preset {
            Some(x) => ensure!(*sc.trace_state() == x.trace_state, "trace-state", "the builder asked for {:?}, the span got {:?}", x.trace_state, sc.trace_state()),
            None if has_parent && smp != Smp::Custom => ensure!(sc.trace_state() == psc.trace_state(), "trace-state", "trace state changed from {:?} to {:?}", psc.trace_state(), sc.trace_state()),
            _ => {}
        }
        let my = h.with(|h| h.decisions.iter().rev().find(|d| d.0 == sc.trace_id() && d.1 > s0).map(|d| d.2.clone()));
        let on = SamplingDecision::RecordAndSample;
        let want = match smp {
            _ if preset.is_some() => preset.as_ref().unwrap().decision.clone(),
            Smp::On => on,
            Smp::Off => SamplingDecision::Drop,
            Smp::Ratio => if ratio_says(sc.trace_id()) { on } else { SamplingDecision::Drop },
            Smp::Custom => if has_parent { want_any(h, &sc, s0, span.is_recording()) } else { my.expect("sampler asked") },
            _ if active => if psc.is_sampled() { on } else { SamplingDecision::Drop },
            Smp::ParentOn => on,
            Smp::ParentOff => SamplingDecision::Drop,
            Smp::ParentCustom => my.expect("sampler asked"),
        };
        ensure!(sc.is_sampled() == (want == SamplingDecision::RecordAndSample), "flag", "sampler {smp:?} said {want:?}, parent {psc:?}, but sampled flag is {}", sc.is_sampled());
        if span.is_recording() {
            let inherited = if active { psc.trace_flags() } else { TraceFlags::default() };
            ensure!(
                sc.trace_flags() == inherited.with_sampled(want == SamplingDecision::RecordAndSample), "flags",
                "the flags of a recording span are {:?}, those of its parent {inherited:?}, sampled {}", sc.trace_flags(), sc.is_sampled()
            );
        }
        ensure!(span.is_recording() == (want != SamplingDecision::Drop), "recording", "sampler said {want:?} but is_recording is {}", span.is_recording());
        h.with(|h| h.spans.push((sc.clone(), if has_parent { psc.span_id() } else { SpanId::INVALID }, active)));
        match choose(s, 5) {
            0 => drop(span),
            1 => span.end(),
            2 => {
                let c = parent.with_span(span);
                pool.with(|p| p.push(c));
            }
            3 if depth < 2 => {
                let c = Context::current_with_span(span);
                let _g = c.attach();
                work(t, h, pool, s, smp, 2, depth + 1);
            }
            _ => {
                let c = parent.with_span(span);
                pool.with(|p| p.push(c.clone()));
                c.span().end();
            }
        }
    }
}
/// Threads may share the parent trace, so the sampler's answer for this span cannot always be told apart:
/// it is one of the answers given for the trace since the start began.
fn want_any(h: &Arc<Shared<IH>>, sc: &SpanContext, s0: u64, rec: bool) -> SamplingDecision {
    let mine = if sc.is_sampled() {
        SamplingDecision::RecordAndSample
    } else if rec {
        SamplingDecision::RecordOnly
    } else {
        SamplingDecision::Drop
    };
    h.with(|h| {
        let c: Vec<_> = h.decisions.iter().filter(|d| d.0 == sc.trace_id() && d.1 > s0).map(|d| d.2.clone()).collect();
        if c.contains(&mine) {
            mine
        } else {
            c.first().cloned().expect("sampler asked")
        }
    })
}
pub const SCEN: &[Scenario] = &[
    Scenario { prop: "T06", name: "shared", weight: 4, run: shared_span, opts: DEFAULT },
    Scenario { prop: "T06", name: "owned", weight: 1, run: owned_span, opts: DEFAULT },
    Scenario { prop: "T07", name: "ids", weight: 1, run: ids, opts: DEFAULT },
];
