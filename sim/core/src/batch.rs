//! Shared harness of the batching pipelines (spans and logs; background thread and async runtimes):
//! an exporter whose behaviour the seed decides, the recorded history, and the oracles over it.
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::trace::{Span as _, SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState, Tracer as _, TracerProvider as _};
use opentelemetry::{InstrumentationScope, Key, KeyValue};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogBatch, LogExporter, LogProcessor, SdkLogRecord};
use opentelemetry_sdk::trace::{SpanData, SpanEvents, SpanExporter, SpanLinks, SpanProcessor};
use opentelemetry_sdk::{logs, trace};
use simfw::*;
use std::sync::Arc;
use std::time::Duration;

pub const S_CFG: u32 = 0;
pub const S_EMIT: u32 = 1; // + thread
pub const S_CALL: u32 = 20; // + thread
pub const S_EXP: u32 = 50;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sig {
    Span,
    Log,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rt {
    Thread,
    Tokio,
    TokioCurrent,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CallKind {
    Flush,
    Shutdown,
}
#[derive(Clone, Debug)]
pub struct Item {
    pub th: u32,
    pub class: u8,
    pub s: u64,
    pub e: u64,
    pub te: u64,
}
#[derive(Clone, Debug)]
pub struct Export {
    pub ids: Vec<u32>,
    pub s: u64,
    pub e: u64,
    pub ts: u64,
    pub te: u64,
    pub ok: Option<bool>,
}
#[derive(Clone, Debug)]
pub struct Call {
    pub kind: CallKind,
    pub s: u64,
    pub e: u64,
    pub ts: u64,
    pub te: u64,
    pub ok: bool,
    pub already: bool,
    pub err: String,
    pub stalls: u64,
}
#[derive(Default)]
pub struct Hist {
    pub items: Vec<Item>,
    pub exports: Vec<Export>,
    pub calls: Vec<Call>,
    pub shut: Vec<(u64, u64)>,
    pub active: i32,
    pub sampled_only: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct Checks {
    pub loss: bool,
    pub order: bool,
    pub calls: bool,
    /// the most export calls that may run at once
    pub at_once: i32,
}
/// Exporter behaviour: weights of the outcomes of one export.
#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub ok: u32,
    pub err: u32,
    pub panic: u32,
    pub hang: u32,
    pub fast: u32,
    pub slow: u32,
    pub max_slow_us: u32,
}
pub struct Core {
    pub h: Shared<Hist>,
    pub plan: Shared<Plan>,
    pub chk: Checks,
    pub max_batch: usize,
    pub rt: Rt,
    pub export_timeout: Option<Duration>,
    pub exact_content: bool,
    /// how the exporter takes being shut down: at once, slowly, with an error, a panic, or never to the end
    pub shut: Shared<u32>,
}
impl std::fmt::Debug for Core {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("exporter")
    }
}
struct Running<'a> {
    c: &'a Core,
    i: usize,
    done: bool,
}
impl Drop for Running<'_> {
    fn drop(&mut self) {
        if !self.done {
            self.c.end_export(self.i, None);
        }
    }
}
impl Core {
    fn begin_export(&self, ids: Vec<u32>) -> usize {
        let n = ids.len();
        tr!("export begins: {:?}", ids);
        self.h.with(|h| {
            let c = self.chk;
            ensure!(
                h.active < c.at_once, "overlapping-exports",
                "export of {ids:?} begins while {} are running, the limit is {}", h.active, c.at_once
            );
            if c.calls && !h.shut.is_empty() {
                violation("export-after-shutdown", &format!("exporter asked to export {ids:?} after it was shut down"));
            }
            if c.loss {
                ensure!(n > 0, "empty-batch", "an empty batch was exported");
                ensure!(n <= self.max_batch, "batch-too-large", "batch of {n} exported, the maximum is {}", self.max_batch);
                for (k, id) in ids.iter().enumerate() {
                    let Some(it) = h.items.get(*id as usize) else { violation("invented", &format!("unknown item {id} exported")) };
                    if h.sampled_only && it.class != 0 {
                        let what = if it.class == 1 { "record-only" } else { "dropped" };
                        finding(&format!("unsampled-exported-{what}"), &format!("item {id} ({what}) is not sampled but was exported"));
                    }
                    let dup = ids[..k].contains(id) || h.exports.iter().any(|e| e.ids.contains(id));
                    ensure!(!dup, "duplicate", "item {id} was passed to the exporter twice");
                }
            }
            if c.order {
                for (k, id) in ids.iter().enumerate() {
                    let th = h.items[*id as usize].th;
                    let later = |x: &u32| h.items[*x as usize].th == th && *x > *id;
                    ensure!(
                        !ids[..k].iter().any(later) && !h.exports.iter().any(|e| e.ids.iter().any(later)),
                        "reordered", "item {id} exported after a later item of the same thread; batch {ids:?}"
                    );
                }
            }
            h.active += 1;
            h.exports.push(Export { ids, s: seq(), e: 0, ts: now(), te: 0, ok: None });
            h.exports.len() - 1
        })
    }
    fn end_export(&self, i: usize, ok: Option<bool>) {
        tr!("export {i} ends: {:?}", ok);
        self.h.with(|h| {
            h.active -= 1;
            let x = &mut h.exports[i];
            x.e = seq();
            x.te = now();
            x.ok = ok;
        })
    }
    pub async fn export(&self, ids: Vec<u32>) -> OTelSdkResult {
        let mut g = Running { c: self, i: self.begin_export(ids), done: false };
        let p = self.plan.with(|p| *p);
        let act = choose_w(S_EXP, &[p.ok, p.err, p.panic, p.hang]);
        let dur = match choose_w(S_EXP, &[p.fast, p.slow]) {
            0 => 0,
            _ => match choose(S_EXP, 3) {
                0 => 1 + choose(S_EXP, 1000) as u64,
                _ => 1 + choose(S_EXP, p.max_slow_us.max(1)) as u64,
            },
        };
        if dur > 0 {
            fault("export_slow");
            self.sleep(Duration::from_micros(dur)).await;
        }
        match act {
            0 => {
                g.done = true;
                self.end_export(g.i, Some(true));
                Ok(())
            }
            1 => {
                fault("export_error");
                g.done = true;
                self.end_export(g.i, Some(false));
                Err(exporter_error(S_EXP))
            }
            2 => {
                g.done = true;
                self.end_export(g.i, Some(false));
                inject_panic()
            }
            _ => {
                fault("export_hang");
                loop {
                    self.sleep(Duration::from_secs(100_000)).await;
                }
            }
        }
    }
    async fn sleep(&self, d: Duration) {
        match self.rt {
            Rt::Thread => std::thread::sleep(d),
            _ => tokio::time::sleep(d).await,
        }
    }
    fn exporter_shutdown(&self) -> OTelSdkResult {
        tr!("exporter shutdown");
        self.h.with(|h| {
            if self.chk.calls {
                ensure!(h.active == 0, "shutdown-during-export", "exporter shut down while an export is running");
                ensure!(h.shut.is_empty(), "exporter-shutdown-twice", "exporter shut down twice");
            }
            h.shut.push((seq(), now()));
        });
        match self.shut.with(|s| *s) {
            0 => return Ok(()),
            1 => {
                fault("exporter_shutdown_slow");
                std::thread::sleep(Duration::from_millis(1 + choose(S_EXP, 20_000) as u64));
                return Ok(());
            }
            2 => {
                fault("exporter_shutdown_error");
                return Err(exporter_error(S_EXP));
            }
            3 => inject_panic(),
            _ => (),
        }
        fault("exporter_shutdown_hang");
        loop {
            std::thread::sleep(Duration::from_secs(100_000));
        }
    }
    pub fn calm(&self) {
        self.plan.with(|p| *p = Plan { ok: 1, err: 0, panic: 0, hang: 0, fast: 1, slow: 0, max_slow_us: 1 });
    }
    pub fn emit(&self, p: &Pipe, th: u32, class: u8) {
        let id = self.h.with(|h| {
            h.items.push(Item { th, class, s: seq(), e: 0, te: 0 });
            h.items.len() as u32 - 1
        });
        tr!("emit {id} class {class}");
        (p.emit)(id, class);
        self.h.with(|h| {
            let it = &mut h.items[id as usize];
            it.e = seq();
            it.te = now();
        });
    }
    pub fn call(&self, p: &Pipe, kind: CallKind) -> bool {
        let (s, ts) = (seq(), now());
        tr!("{kind:?} called");
        let r = match kind {
            CallKind::Flush => (p.flush)(),
            CallKind::Shutdown => (p.shutdown)(),
        };
        let (e, te) = (seq(), now());
        tr!("{kind:?} returned {r:?}");
        let ok = r.is_ok();
        let already = match &r {
            Err(OTelSdkError::AlreadyShutdown) => true,
            Err(e) => format!("{e:?}").contains("AlreadyShutdown"),
            _ => false,
        };
        self.h.with(|h| {
            h.calls.push(Call { kind, s, e, ts, te, ok, already, err: error_text(&r), stalls: stalls() });
            if ok {
                count(if kind == CallKind::Flush { "probe.flush_ok" } else { "probe.shutdown_ok" }, 1);
            } else {
                count(if kind == CallKind::Flush { "probe.flush_err" } else { "probe.shutdown_err" }, 1);
            }
        });
        ok
    }
}

// ---------------------------------------------------------------- the two signals
#[derive(Debug, Clone)]
pub struct SpanExp(pub Arc<Core>);
fn span_id(s: &SpanData, exact: bool) -> u32 {
    let id: u32 = s.name.get(1..).and_then(|x| x.parse().ok()).unwrap_or(u32::MAX);
    if exact {
        let ok = s.attributes == vec![KeyValue::new("id", id as i64), KeyValue::new("v", format!("value {id}"))];
        ensure!(ok, "altered", "span {} was exported with attributes {:?}", s.name, s.attributes);
    }
    id
}
impl SpanExporter for SpanExp {
    fn export(&self, batch: Vec<SpanData>) -> impl std::future::Future<Output = OTelSdkResult> + Send {
        let c = self.0.clone();
        async move {
            let ids = {
                let _g = Atomic::new();
                batch.iter().map(|s| span_id(s, c.exact_content)).collect()
            };
            c.export(ids).await
        }
    }
    fn shutdown(&mut self) -> OTelSdkResult {
        self.0.exporter_shutdown()
    }
}
#[derive(Debug, Clone)]
pub struct LogExp(pub Arc<Core>);
fn log_id(r: &SdkLogRecord) -> u32 {
    let id = match r.body() {
        Some(AnyValue::Int(i)) => *i as u32,
        _ => u32::MAX,
    };
    let want = log_attrs(id);
    let got: Vec<(Key, AnyValue)> = r.attributes_iter().cloned().collect();
    ensure!(got == want, "altered", "record {id} was exported with attributes {got:?}");
    ensure!(r.severity_number() == Some(Severity::Info) && r.event_name() == Some("ev"), "altered", "record {id} changed");
    id
}
impl LogExporter for LogExp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        let ids = {
            let _g = Atomic::new();
            batch.iter().map(|(r, s)| {
                ensure!(s.name() == "app", "altered", "wrong scope {}", s.name());
                log_id(r)
            }).collect()
        };
        self.0.export(ids).await
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.0.exporter_shutdown()
    }
}
pub struct Pipe {
    pub emit: Box<dyn Fn(u32, u8) + Send + Sync>,
    pub flush: Box<dyn Fn() -> OTelSdkResult + Send + Sync>,
    pub shutdown: Box<dyn Fn() -> OTelSdkResult + Send + Sync>,
}
#[derive(Clone, Debug)]
struct ByName;
impl trace::ShouldSample for ByName {
    fn should_sample(
        &self, _p: Option<&opentelemetry::Context>, _t: TraceId, name: &str, _k: &SpanKind, a: &[KeyValue], _l: &[opentelemetry::trace::Link],
    ) -> opentelemetry::trace::SamplingResult {
        let _ = a;
        use opentelemetry::trace::SamplingDecision::*;
        let decision = match name.as_bytes()[0] {
            b'i' => RecordAndSample,
            b'r' => RecordOnly,
            _ => Drop,
        };
        opentelemetry::trace::SamplingResult { decision, attributes: vec![], trace_state: TraceState::default() }
    }
}
fn attrs(id: u32) -> Vec<KeyValue> {
    vec![KeyValue::new("id", id as i64), KeyValue::new("v", format!("value {id}"))]
}
pub fn span_data(name: String, id: u32, sampled: bool) -> SpanData {
    SpanData {
        span_context: SpanContext::new(TraceId::from(id as u128 + 1), SpanId::from(id as u64 + 1), if sampled { TraceFlags::SAMPLED } else { TraceFlags::default() }, false, TraceState::default()),
        parent_span_id: SpanId::INVALID,
        span_kind: SpanKind::Internal,
        name: name.into(),
        start_time: std::time::UNIX_EPOCH,
        end_time: std::time::UNIX_EPOCH,
        attributes: attrs(id),
        dropped_attributes_count: 0,
        events: SpanEvents::default(),
        links: SpanLinks::default(),
        status: Status::Unset,
        instrumentation_scope: InstrumentationScope::builder("app").build(),
    }
}
fn span_pipe<P: SpanProcessor + 'static>(p: P, direct: bool) -> Pipe {
    let name = |id: u32, class: u8| format!("{}{id}", ["i", "r", "d"][class as usize]);
    if direct {
        let p = Arc::new(p);
        let (a, b, c) = (p.clone(), p.clone(), p);
        Pipe {
            emit: Box::new(move |id, class| {
                if class < 2 {
                    a.on_end(span_data(name(id, class), id, class == 0))
                }
            }),
            flush: Box::new(move || b.force_flush()),
            shutdown: Box::new(move || c.shutdown()),
        }
    } else {
        let p = trace::SdkTracerProvider::builder().with_span_processor(p).with_sampler(ByName).build();
        let t = p.tracer("app");
        let (b, c) = (p.clone(), p);
        Pipe {
            emit: Box::new(move |id, class| {
                let mut s = t.span_builder(name(id, class)).with_attributes(attrs(id)).start(&t);
                s.end();
            }),
            flush: Box::new(move || b.force_flush()),
            shutdown: Box::new(move || c.shutdown()),
        }
    }
}
fn fill(r: &mut SdkLogRecord, id: u32) {
    r.set_body(AnyValue::Int(id as i64));
    r.set_event_name("ev");
    r.set_severity_number(Severity::Info);
    for (k, v) in log_attrs(id) {
        r.add_attribute(k, v);
    }
}
/// 2 to 12 attributes, so that a record needs more than the space it has inline.
fn log_attrs(id: u32) -> Vec<(Key, AnyValue)> {
    let mut v = vec![(Key::new("v"), AnyValue::from(format!("value {id}"))), (Key::new("n"), AnyValue::Int(id as i64 * 3))];
    v.extend((0..[0, 3, 4, 1, 10][id as usize % 5]).map(|i| (Key::new(format!("a{i}")), AnyValue::Int(i))));
    v
}
fn log_pipe<P: LogProcessor + 'static>(p: P, direct: bool) -> Pipe {
    if direct {
        let p = Arc::new(p);
        let (a, b, c) = (p.clone(), p.clone(), p);
        let scope = InstrumentationScope::builder("app").build();
        // records can only be created by a logger
        let maker = logs::SdkLoggerProvider::builder().build().logger("maker");
        Pipe {
            emit: Box::new(move |id, _| {
                let mut r = maker.create_log_record();
                fill(&mut r, id);
                a.emit(&mut r, &scope)
            }),
            flush: Box::new(move || b.force_flush()),
            shutdown: Box::new(move || c.shutdown()),
        }
    } else {
        let p = logs::SdkLoggerProvider::builder().with_log_processor(p).build();
        let l = p.logger("app");
        let (b, c) = (p.clone(), p);
        Pipe {
            emit: Box::new(move |id, _| {
                let mut r = l.create_log_record();
                fill(&mut r, id);
                l.emit(r)
            }),
            flush: Box::new(move || b.force_flush()),
            shutdown: Box::new(move || c.shutdown()),
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Conf {
    pub sig: Sig,
    pub rt: Rt,
    pub queue: usize,
    pub batch: usize,
    pub delay: Duration,
    pub timeout: Duration,
    pub concurrent: usize,
    pub direct: bool,
}
pub fn make(c: &Conf, core: &Arc<Core>) -> Arc<Pipe> {
    use opentelemetry_sdk::runtime::{Tokio, TokioCurrentThread};
    core.h.with(|h| h.sampled_only = c.sig == Sig::Span);
    // a batch that does not fit into the queue is made as large as the queue
    let batch = if c.batch == c.queue { c.batch + pick(S_CFG, &[0usize, 1, 1000]) } else { c.batch };
    Arc::new(match c.sig {
        Sig::Span => {
            let cfg = trace::BatchConfigBuilder::default()
                .with_max_queue_size(c.queue)
                .with_max_export_batch_size(batch)
                .with_scheduled_delay(c.delay)
                .with_max_export_timeout(c.timeout)
                .with_max_concurrent_exports(c.concurrent)
                .build();
            let e = SpanExp(core.clone());
            use trace::span_processor_with_async_runtime::BatchSpanProcessor as AsyncBsp;
            match c.rt {
                Rt::Thread => span_pipe(trace::BatchSpanProcessor::builder(e).with_batch_config(cfg).build(), c.direct),
                Rt::Tokio => span_pipe(AsyncBsp::builder(e, Tokio).with_batch_config(cfg).build(), c.direct),
                Rt::TokioCurrent => span_pipe(AsyncBsp::builder(e, TokioCurrentThread).with_batch_config(cfg).build(), c.direct),
            }
        }
        Sig::Log => {
            let cfg = logs::BatchConfigBuilder::default()
                .with_max_queue_size(c.queue)
                .with_max_export_batch_size(batch)
                .with_scheduled_delay(c.delay)
                .with_max_export_timeout(c.timeout)
                .build();
            let e = LogExp(core.clone());
            use logs::log_processor_with_async_runtime::BatchLogProcessor as AsyncBlp;
            match c.rt {
                Rt::Thread => log_pipe(logs::BatchLogProcessor::builder(e).with_batch_config(cfg).build(), c.direct),
                Rt::Tokio => log_pipe(AsyncBlp::builder(e, Tokio).with_batch_config(cfg).build(), c.direct),
                Rt::TokioCurrent => log_pipe(AsyncBlp::builder(e, TokioCurrentThread).with_batch_config(cfg).build(), c.direct),
            }
        }
    })
}
pub fn core(conf: &Conf, plan: Plan, chk: Checks) -> Arc<Core> {
    Arc::new(Core {
        h: Shared::new(Hist::default()),
        plan: Shared::new(plan),
        chk,
        max_batch: conf.batch.min(conf.queue),
        rt: conf.rt,
        export_timeout: None,
        exact_content: true,
        shut: Shared::new(0),
    })
}

// ---------------------------------------------------------------- oracles over the finished history
impl Hist {
    fn export_of(&self, id: usize) -> Option<&Export> {
        self.exports.iter().find(|e| e.ids.contains(&(id as u32)))
    }
    fn should_export(&self, i: &Item) -> bool {
        !self.sampled_only || i.class == 0
    }
    /// Could item `i` have found the buffer full? Upper bound on what the buffer held while it was being accepted.
    fn may_be_full(&self, i: usize, queue: usize, extra: usize) -> bool {
        let me = &self.items[i];
        let mut n = extra;
        for (j, o) in self.items.iter().enumerate() {
            if j == i || o.s > me.e || !self.should_export(o) && self.sampled_only && o.class != 1 {
                continue;
            }
            if let Some(x) = self.export_of(j) {
                if x.s > me.s {
                    n += 1;
                }
            }
        }
        n >= queue
    }
    fn shutdown_begun(&self) -> u64 {
        self.calls.iter().filter(|c| c.kind == CallKind::Shutdown).map(|c| c.s).min().unwrap_or(u64::MAX)
    }
    /// Every successful flush/shutdown has delivered what was accepted before it began. `drained`: a final
    /// flush/shutdown succeeded after all emission, so anything never exported was dropped.
    pub fn check_loss(&self, queue: usize, async_rt: bool) {
        let sd = self.shutdown_begun();
        for c in self.calls.iter().filter(|c| c.ok) {
            for (id, it) in self.items.iter().enumerate() {
                if it.e == 0 || it.e > c.s || it.e > sd || !self.should_export(it) {
                    continue;
                }
                match self.export_of(id) {
                    Some(x) if x.s < c.e => {
                        ensure!(x.e != 0 && x.e < c.e, "flush-too-early", "{:?} reported success while the export of item {id} was still running", c.kind);
                    }
                    Some(_) => violation("flush-incomplete", &format!("item {id}, accepted before a {:?} began, was exported only after it had reported success", c.kind)),
                    None => {
                        let extra = if async_rt { 1 + self.calls.iter().filter(|f| f.s < it.e && f.e > it.s).count() } else { 0 };
                        ensure!(
                            self.may_be_full(id, queue, extra),
                            "lost", "item {id} was lost although the buffer (capacity {queue}) was not full; {:?} reported success", c.kind
                        );
                        probe("legal_drop");
                    }
                }
            }
        }
    }
    fn busy(&self, a: u64, b: u64) -> u64 {
        self.exports.iter().map(|x| {
            let e = if x.e == 0 { b } else { x.te };
            e.min(b).saturating_sub(x.ts.max(a))
        }).sum()
    }
    /// Items reach the exporter within `delay` plus running exports; a full batch starts an export at once.
    pub fn check_timely(&self, delay: Duration, batch: usize, slack: u64, queue: usize, until: u64, full_batch: bool) {
        let delay = delay.as_nanos() as u64;
        for (id, it) in self.items.iter().enumerate() {
            if !self.should_export(it) || it.e == 0 {
                continue;
            }
            match self.export_of(id) {
                Some(x) => {
                    let lat = x.ts.saturating_sub(it.te);
                    let busy = self.busy(it.te, x.ts);
                    ensure!(
                        lat <= delay + busy + slack,
                        "late", "item {id} ended at {:.6}s but its export began at {:.6}s; delay {:.6}s, exporter busy {:.6}s", it.te as f64 / 1e9, x.ts as f64 / 1e9, delay as f64 / 1e9, busy as f64 / 1e9
                    );
                }
                None => {
                    let wait = until.saturating_sub(it.te);
                    if wait > delay + self.busy(it.te, until) + slack && !self.may_be_full(id, queue, 0) {
                        violation("late", &format!("item {id} ended at {:.6}s and was still not exported at {:.6}s", it.te as f64 / 1e9, until as f64 / 1e9));
                    }
                }
            }
        }
        if !full_batch {
            return;
        }
        // events: (seq, time, +1 accepted | -n export start, running delta)
        let mut ev: Vec<(u64, u64, i64, i64)> = vec![];
        for (id, it) in self.items.iter().enumerate() {
            if it.e != 0 && self.export_of(id).is_some() {
                ev.push((it.e, it.te, 1, 0));
            }
        }
        for x in &self.exports {
            ev.push((x.s, x.ts, -(x.ids.len() as i64), 1));
            if x.e != 0 {
                ev.push((x.e, x.te, 0, -1));
            }
        }
        ev.sort();
        let (mut pend, mut run, mut since) = (0i64, 0i64, None::<u64>);
        for (_, t, d, r) in ev.iter().chain(std::iter::once(&(u64::MAX, until, 0, 0))) {
            if let Some(s) = since {
                ensure!(
                    t.saturating_sub(s) <= slack,
                    "full-batch-waits", "{pend} items (a full batch is {batch}) were waiting from {:.6}s on, no export was running, and none began until {:.6}s", s as f64 / 1e9, *t as f64 / 1e9
                );
            }
            pend += d;
            run += r;
            since = if pend >= batch as i64 && run == 0 { since.or(Some(*t)) } else { None };
        }
    }
    /// Results and durations of flush and shutdown calls.
    pub fn check_calls(&self, limit: Option<Duration>, strict_errors: bool, responsive: bool) {
        if let Some(l) = limit {
            for c in &self.calls {
                let d = c.te - c.ts;
                if c.stalls == 0 {
                    ensure!(d <= l.as_nanos() as u64 + secs(0.3), "call-too-long", "{:?} took {:.6}s, the limit is {:?}: {}", c.kind, d as f64 / 1e9, l, c.err);
                }
            }
        }
        if strict_errors {
            for c in self.calls.iter().filter(|c| c.ok) {
                // the exports of a call that overlaps, or gave up waiting earlier, cannot be told from its own
                if self.calls.iter().any(|o| o.s != c.s && o.s < c.e && (o.e > c.s || o.err.contains("Timeout"))) {
                    continue;
                }
                for x in &self.exports {
                    let before = x.ids.iter().any(|i| self.items[*i as usize].e != 0 && self.items[*i as usize].e < c.s);
                    if before && x.s > c.s && x.s < c.e {
                        ensure!(x.ok == Some(true), "error-masked", "{:?} reported success although its export of {:?} failed", c.kind, x.ids);
                    }
                }
            }
        }
        if let Some(sd) = self.calls.iter().find(|c| c.kind == CallKind::Shutdown && c.ok) {
            if responsive {
                ensure!(self.shut.len() == 1, "exporter-not-shut-down", "shutdown reported success but the exporter was shut down {} times", self.shut.len());
                ensure!(self.shut[0].0 < sd.e || self.shut[0].1 <= sd.te + secs(0.3), "exporter-shutdown-late", "exporter shut down long after shutdown returned");
            }
            for x in &self.exports {
                ensure!(x.s < sd.e, "export-after-shutdown", "an export of {:?} began after shutdown had reported success", x.ids);
            }
            let oks = self.calls.iter().filter(|c| c.kind == CallKind::Shutdown && c.ok).count();
            ensure!(oks == 1, "shutdown-twice", "{oks} shutdown calls reported success");
        }
    }
}

/// What a failing exporter returns: any kind of error.
pub fn exporter_error(stream: u32) -> OTelSdkError {
    match choose(stream, 4) {
        0 | 1 => OTelSdkError::InternalFailure("collector said no".into()),
        2 => OTelSdkError::Timeout(Duration::from_secs(4321)),
        _ => OTelSdkError::AlreadyShutdown,
    }
}
/// The text of a result, in which time-outs reported by the exporter are told from those of the code under test.
pub fn error_text(r: &impl std::fmt::Debug) -> String {
    format!("{r:?}").replace("Timeout(4321s)", "the exporter's").replace("timed out after 4321s", "was the exporter's")
}
