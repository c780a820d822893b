//! C03 (suppression), L05 (trace context and bridges), L06 (processor chains).
use crate::batch::S_CFG;
use opentelemetry::context::FutureExt as _;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::metrics::MeterProvider as _;
use opentelemetry::trace::{Span as _, SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, Tracer as _, TracerProvider as _};
use opentelemetry::{Context, ContextGuard, InstrumentationScope, Key};
use opentelemetry_appender_log::OpenTelemetryLogBridge;
use opentelemetry_appender_tracing::layer::OpenTelemetryTracingBridge;
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{
    concurrent_log_processor::SimpleConcurrentLogProcessor, BatchConfigBuilder, BatchLogProcessor, LogBatch, LogExporter, LogProcessor, SdkLogRecord, SdkLogger, SdkLoggerProvider, SimpleLogProcessor,
};
use opentelemetry_sdk::metrics::{data::ResourceMetrics, exporter::PushMetricExporter, PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::trace::{BatchSpanProcessor, Sampler, SdkTracerProvider, SpanData, SpanExporter};
use simfw::*;
use std::sync::Arc;
use std::thread;
use std::time::{Duration, SystemTime};
use tracing_subscriber::layer::SubscriberExt as _;

type LBridge = OpenTelemetryLogBridge<SdkLoggerProvider, SdkLogger>;
fn subscriber(p: &SdkLoggerProvider) -> impl tracing::Subscriber + Send + Sync {
    tracing_subscriber::registry().with(OpenTelemetryTracingBridge::new(p))
}
fn body_id(r: &SdkLogRecord) -> Option<u32> {
    match r.body() {
        Some(AnyValue::Int(i)) => Some(*i as u32),
        Some(AnyValue::String(s)) if s.as_str().starts_with("id ") => s.as_str()[3..].parse().ok(),
        // records whose body says nothing carry their number as an attribute
        _ => r.attributes_iter().find_map(|(k, v)| match v {
            AnyValue::Int(i) if k.as_str() == "the_id" => Some(*i as u32),
            _ => None,
        }),
    }
}
/// Emits one record by one of the three ways. The thread's default tracing subscriber must be the bridge.
fn emit(via: u32, logger: &SdkLogger, bridge: &LBridge, id: u32) {
    match via {
        0 => {
            let mut r = logger.create_log_record();
            r.set_body(AnyValue::Int(id as i64));
            r.set_severity_number(Severity::Info);
            logger.emit(r);
        }
        1 => {
            use log::Log;
            bridge.log(&log::Record::builder().args(format_args!("id {id}")).level(log::Level::Info).target("app").build());
        }
        _ => tracing::info!(target: "app", "id {id}"),
    }
}

// ---------------------------------------------------------------- C03
#[derive(Debug)]
struct Recorder {
    h: Arc<Shared<Vec<SdkLogRecord>>>,
}
impl LogProcessor for Recorder {
    fn emit(&self, r: &mut SdkLogRecord, _: &InstrumentationScope) {
        let c = r.clone();
        self.h.with(|h| h.push(c));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
#[derive(Debug)]
struct SpanRec(Arc<Shared<Vec<String>>>);
impl opentelemetry_sdk::trace::SpanProcessor for SpanRec {
    fn on_start(&self, _: &mut opentelemetry_sdk::trace::Span, _: &Context) {}
    fn on_end(&self, s: SpanData) {
        self.0.with(|v| v.push(s.name.to_string()));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
struct App {
    logger: SdkLogger,
    bridge: LBridge,
    tracer: opentelemetry_sdk::trace::SdkTracer,
    h: Arc<Shared<Vec<SdkLogRecord>>>,
    spans: Arc<Shared<Vec<String>>>,
    next: Shared<u32>,
    disp: tracing::Dispatch,
}
impl App {
    fn id(&self) -> u32 {
        self.next.with(|n| {
            *n += 1;
            *n
        })
    }
    fn check(&self, s: u32, sup: bool) {
        let id = self.id();
        if chance(s, 4) {
            let name = format!("s{id}");
            let span = match choose(s, 2) {
                0 => self.tracer.start(name.clone()),
                _ => self.tracer.start_with_context(name.clone(), &Context::current()),
            };
            let rec = span.is_recording();
            drop(span);
            let n = self.spans.with(|v| v.iter().filter(|n| **n == name).count());
            ensure!(rec != sup && n == !sup as usize, "span-suppression", "a span started {} a suppressed scope: recording {rec}, seen {n} times", if sup { "inside" } else { "outside" });
            return;
        }
        let via = choose(s, 4);
        if via == 3 {
            // nothing that is already set on a record lets it pass
            let mut r = self.logger.create_log_record();
            r.set_body(AnyValue::Int(id as i64));
            if chance(s, 2) {
                r.set_trace_context(TraceId::from(7u128), SpanId::from(9u64), Some(TraceFlags::SAMPLED));
            }
            if chance(s, 2) {
                r.set_observed_timestamp(std::time::UNIX_EPOCH);
            }
            if chance(s, 2) {
                r.set_severity_number(Severity::Fatal);
                r.set_event_name("event");
            }
            self.logger.emit(r);
        } else {
            emit(via, &self.logger, &self.bridge, id);
        }
        let n = self.h.with(|h| h.iter().filter(|r| body_id(r) == Some(id)).count());
        if sup {
            ensure!(n == 0, "not-suppressed", "record {id} (via {via}) was emitted inside a suppressed scope and recorded");
        } else {
            ensure!(n == 1, "wrongly-suppressed", "record {id} (via {via}) was emitted outside any suppressed scope and recorded {n} times");
        }
        let e = self.logger.event_enabled(Severity::Info, "app", None);
        ensure!(e != sup, "event-enabled", "event_enabled is {e} {} a suppressed scope", if sup { "inside" } else { "outside" });
    }
    fn scopes(&self, s: u32, n: u32, depth: u32) {
        let base = Context::is_current_telemetry_suppressed();
        let mut st: Vec<(Option<ContextGuard>, bool)> = vec![];
        for _ in 0..n {
            let cur = st.iter().rev().find(|g| g.0.is_some()).map_or(base, |g| g.1);
            match choose(s, 10) {
                0 | 1 => st.push((Some(Context::enter_telemetry_suppressed_scope()), true)),
                2 | 3 => {
                    // a context derived from the current one is as suppressed as that
                    let cx = Context::current();
                    let cx = match choose(s, 6) {
                        0 => cx.with_value(5u32),
                        1 => Context::current_with_value(5u32),
                        2 => cx.with_span(self.tracer.start("outer")),
                        3 => Context::current_with_span(self.tracer.start("outer")),
                        4 => cx.with_remote_span_context(opentelemetry::trace::SpanContext::NONE),
                        _ => cx.clone(),
                    };
                    ensure!(cx.is_telemetry_suppressed() == cur, "derived", "a context derived from one that is {}suppressed", if cur { "" } else { "not " });
                    st.push((Some(cx.attach()), cur))
                }
                4 => st.push((Some(Context::current().with_telemetry_suppressed().attach()), true)),
                5 | 6 => {
                    if let Some(g) = st.pop() {
                        drop(g)
                    }
                }
                7 if !st.is_empty() => {
                    let i = choose(s, st.len() as u32) as usize;
                    st[i].0 = None;
                }
                8 if depth < 2 => {
                    let panics = chance(s, 3);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let _g = Context::enter_telemetry_suppressed_scope();
                        self.scopes(s, 3, depth + 1);
                        self.check(s, true);
                        if panics {
                            inject_panic()
                        }
                    }));
                    ensure!(r.is_err() == panics, "unexpected-panic", "panic in a suppressed scope");
                }
                _ => {
                    let c = Context::current().with_telemetry_suppressed();
                    ensure!(c.is_telemetry_suppressed(), "event-enabled", "with_telemetry_suppressed returned a context that is not");
                    if chance(s, 2) {
                        thread::sleep(Duration::from_micros(50))
                    }
                }
            }
            let cur = st.iter().rev().find(|g| g.0.is_some()).map_or(base, |g| g.1);
            self.check(s, cur);
        }
        if chance(s, 2) {
            st.reverse();
        }
        while let Some(g) = st.pop() {
            drop(g)
        }
        self.check(s, base);
    }
}
fn app() -> Arc<App> {
    let (h, spans): (Arc<Shared<Vec<SdkLogRecord>>>, Arc<Shared<Vec<String>>>) = Default::default();
    let lp = SdkLoggerProvider::builder().with_log_processor(Recorder { h: h.clone() }).build();
    let tp = SdkTracerProvider::builder().with_sampler(opentelemetry_sdk::trace::Sampler::AlwaysOn).with_span_processor(SpanRec(spans.clone())).build();
    Arc::new(App { logger: lp.logger("app"), bridge: LBridge::new(&lp), tracer: tp.tracer("app"), h, spans, next: Shared::new(0), disp: tracing::Dispatch::new(subscriber(&lp)) })
}
fn scopes() {
    let a = app();
    let v: Vec<_> = (0..1 + choose(S_CFG, 4)).map(|t| {
        let a = a.clone();
        thread::spawn(move || {
            let _d = tracing::dispatcher::set_default(&a.disp);
            let s = 1 + t;
            let n = 1 + choose(s, 14);
            a.scopes(s, n, 0);
            if chance(s, 4) {
                // started by a suppressed thread: not suppressed itself
                let _g = Context::enter_telemetry_suppressed_scope();
                let b = a.clone();
                let _ = thread::spawn(move || {
                    let _d = tracing::dispatcher::set_default(&b.disp);
                    b.check(s + 10, false)
                }).join();
                a.check(s, true);
            }
        })
    }).collect();
    for t in v {
        ensure!(t.join().is_ok(), "unexpected-panic", "a thread panicked");
    }
}
/// Suppressed and other tasks interleaved on the same executor threads.
fn scope_tasks() {
    let a = app();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1 + choose(S_CFG, 3) as usize).enable_time().build().unwrap();
    let n = 2 + choose(S_CFG, 4);
    let a2 = a.clone();
    rt.block_on(async move {
        let mut v = vec![];
        for t in 0..n {
            let (a, s) = (a2.clone(), 1 + t);
            let sup = chance(S_CFG, 2);
            let f = async move {
                for _ in 0..1 + choose(s, 6) {
                    tracing::dispatcher::with_default(&a.disp, || a.check(s, sup));
                    match choose(s, 4) {
                        0 => tokio::time::sleep(Duration::from_micros(choose(s, 2000) as u64)).await,
                        1 => {
                            let a = a.clone();
                            async {
                                tracing::dispatcher::with_default(&a.disp, || a.check(s, true));
                                tokio::task::yield_now().await;
                                tracing::dispatcher::with_default(&a.disp, || a.check(s, true));
                            }.with_context(Context::current().with_telemetry_suppressed()).await
                        }
                        2 => {
                            let b = a.clone();
                            let _ = tokio::spawn(async move { tracing::dispatcher::with_default(&b.disp, || b.check(s + 20, false)) }).await;
                        }
                        _ => tokio::task::yield_now().await,
                    }
                }
            };
            v.push(if sup { tokio::spawn(f.with_context(Context::new().with_telemetry_suppressed())) } else { tokio::spawn(f) });
        }
        for h in v {
            let _ = h.await;
        }
    });
}
/// Exporters that log and start spans themselves.
struct Feedback {
    logger: std::sync::OnceLock<SdkLogger>,
    bridge: std::sync::OnceLock<LBridge>,
    tracer: std::sync::OnceLock<opentelemetry_sdk::trace::SdkTracer>,
    simple: bool,
    simple_spans: bool,
    h: Shared<(Vec<u32>, u32, u32, u64)>, // exported log ids, spans exported, exporter's own records, time of last log or span export
    errs: bool,
}
const OWN: u32 = 1_000_000;
impl Feedback {
    fn talk(&self) {
        let (Some(l), Some(b), Some(t)) = (self.logger.get(), self.bridge.get(), self.tracer.get()) else { return };
        for _ in 0..1 + choose(50, 2) {
            let id = self.h.with(|h| {
                h.2 += 1;
                OWN + h.2
            });
            match choose(50, 5) {
                4 => {
                    let s = t.start(format!("{id}"));
                    ensure!(!s.is_recording(), "feedback", "a span started by an exporter is recorded");
                }
                v => emit(v % 3, l, b, id),
            }
        }
    }
    fn result(&self) -> OTelSdkResult {
        self.talk();
        if self.errs && chance(50, 3) {
            fault("export_error");
            return Err(crate::batch::exporter_error(50));
        }
        Ok(())
    }
}
#[derive(Clone)]
struct FbExp(Arc<Feedback>);
impl std::fmt::Debug for FbExp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("exporter")
    }
}
impl LogExporter for FbExp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        for (r, _) in batch.iter() {
            let id = body_id(r);
            if let Some(id) = id {
                ensure!(id < OWN, "feedback", "record {id}, logged by an exporter, was exported");
                self.0.h.with(|h| h.0.push(id));
            }
        }
        self.0.h.with(|h| h.3 = now());
        self.0.result()
    }
    fn shutdown(&self) -> OTelSdkResult {
        // the simple processor shuts its exporter down on the caller's thread: not suppressed, but no loop either
        if self.0.simple {
            return Ok(());
        }
        self.0.result()
    }
}
impl SpanExporter for FbExp {
    fn export(&self, batch: Vec<SpanData>) -> impl std::future::Future<Output = OTelSdkResult> + Send {
        for s in &batch {
            ensure!(s.name.parse::<u32>().map_or(true, |n| n < OWN), "feedback", "span {}, started by an exporter, was exported", s.name);
        }
        self.0.h.with(|h| {
            h.1 += batch.len() as u32;
            h.3 = now()
        });
        let r = self.0.result();
        async move { r }
    }
    fn shutdown(&mut self) -> OTelSdkResult {
        if self.0.simple_spans {
            return Ok(());
        }
        self.0.result()
    }
}
impl PushMetricExporter for FbExp {
    async fn export(&self, _: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.result()
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        self.0.result()
    }
    fn temporality(&self) -> Temporality {
        Temporality::Cumulative
    }
}
fn feedback() {
    let f = Arc::new(Feedback { logger: Default::default(), bridge: Default::default(), tracer: Default::default(), simple: chance(S_CFG, 3), simple_spans: chance(S_CFG, 3), h: Shared::default(), errs: chance(S_CFG, 2) });
    let simple = f.simple;
    let lb = SdkLoggerProvider::builder();
    let delay = Duration::from_millis(20 + choose(S_CFG, 200) as u64);
    let lp = if simple {
        if chance(S_CFG, 2) {
            lb.with_log_processor(SimpleConcurrentLogProcessor::new(FbExp(f.clone()))).build()
        } else {
            lb.with_log_processor(SimpleLogProcessor::new(FbExp(f.clone()))).build()
        }
    } else {
        lb.with_log_processor(
            BatchLogProcessor::builder(FbExp(f.clone()))
                .with_batch_config(BatchConfigBuilder::default().with_scheduled_delay(delay).with_max_queue_size(1 + choose(S_CFG, 64) as usize).with_max_export_batch_size(1 + choose(S_CFG, 8) as usize).build())
                .build(),
        ).build()
    };
    let tb = SdkTracerProvider::builder();
    let tp = if f.simple_spans {
        tb.with_simple_exporter(FbExp(f.clone())).build()
    } else {
        let bsp = BatchSpanProcessor::builder(FbExp(f.clone()))
            .with_batch_config(opentelemetry_sdk::trace::BatchConfigBuilder::default().with_scheduled_delay(delay).with_max_export_batch_size(1 + choose(S_CFG, 8) as usize).build())
            .build();
        tb.with_span_processor(bsp).build()
    };
    let mp = SdkMeterProvider::builder().with_reader(PeriodicReader::builder(FbExp(f.clone())).with_interval(Duration::from_millis(50 + choose(S_CFG, 300) as u64)).build()).build();
    let _ = (f.logger.set(lp.logger("exp")), f.bridge.set(LBridge::new(&lp)), f.tracer.set(tp.tracer("exp")));
    // the SDK's own diagnostics may go through the bridge as well
    let all = chance(S_CFG, 2);
    let layer = tracing_subscriber::Layer::with_filter(OpenTelemetryTracingBridge::new(&lp), tracing_subscriber::filter::filter_fn(move |m| all || m.target() == "app"));
    tracing::subscriber::set_global_default(tracing_subscriber::registry().with(layer)).unwrap();
    let c = mp.meter("app").u64_counter("c").build();
    let emitted = Arc::new(Shared::new(0u32));
    let v: Vec<_> = (0..1 + choose(S_CFG, 3)).map(|t| {
        let (f, c, emitted, lp, tp, mp) = (f.clone(), c.clone(), emitted.clone(), lp.clone(), tp.clone(), mp.clone());
        thread::spawn(move || {
            let s = 1 + t;
            for _ in 0..1 + choose(s, 8) {
                let id = emitted.with(|e| {
                    *e += 1;
                    *e
                });
                match choose(s, 8) {
                    0 => drop(f.tracer.get().unwrap().start(format!("{id}"))),
                    1 => c.add(1, &[]),
                    2 => thread::sleep(Duration::from_millis(choose(s, 60) as u64)),
                    3 => {
                        let _ = lp.force_flush();
                    }
                    4 => {
                        let _ = (tp.force_flush(), mp.force_flush());
                    }
                    _ => {
                        emit(choose(s, 3), f.logger.get().unwrap(), f.bridge.get().unwrap(), id);
                        if simple {
                            ensure!(f.h.with(|h| h.0.contains(&id)), "wrongly-suppressed", "record {id} of the application was not exported");
                        }
                    }
                }
            }
        })
    }).collect();
    for t in v {
        ensure!(t.join().is_ok(), "unexpected-panic", "an application thread panicked");
    }
    let _ = (lp.force_flush(), tp.force_flush(), lp.force_flush());
    // nothing is emitted any more: the log and span pipelines must come to rest
    thread::sleep(delay * 3 + Duration::from_millis(500));
    let rest = now();
    thread::sleep(delay * 20 + Duration::from_secs(2));
    if stalls() == 0 {
        let last = f.h.with(|h| h.3);
        ensure!(last <= rest, "endless-loop", "logs or spans are still exported {} ms after the application became silent", (last - rest) / 1_000_000);
    }
    let order = choose(S_CFG, 3);
    if order == 0 {
        let _ = (lp.shutdown(), tp.shutdown(), mp.shutdown());
    } else if order == 1 {
        let _ = (mp.shutdown(), tp.shutdown(), lp.shutdown());
    } else {
        let _ = (tp.shutdown(), lp.shutdown(), mp.shutdown());
    }
    // the application may go on logging
    if chance(S_CFG, 2) {
        emit(choose(S_CFG, 3), f.logger.get().unwrap(), f.bridge.get().unwrap(), 999);
    }
    count("exporter_records", f.h.with(|h| h.2) as u64);
}

// ---------------------------------------------------------------- L05
#[derive(Clone, Debug, PartialEq)]
struct Want {
    ctx: Option<(TraceId, SpanId, Option<TraceFlags>)>,
    severity: Severity,
    text: Option<&'static str>,
    body: AnyValue,
    target: Option<String>,
    attrs: Vec<(String, AnyValue)>,
    name: Option<&'static str>,
    time: Option<SystemTime>,
    observed: Option<SystemTime>,
}
fn want_of(r: &SdkLogRecord) -> Want {
    Want {
        ctx: r.trace_context().map(|t| (t.trace_id, t.span_id, t.trace_flags)),
        severity: r.severity_number().unwrap_or(Severity::Fatal4),
        text: r.severity_text(),
        body: r.body().cloned().unwrap_or(AnyValue::Int(-1)),
        target: r.target().map(|t| t.to_string()),
        attrs: r.attributes_iter().map(|(k, v)| (k.to_string(), v.clone())).collect(),
        name: r.event_name(),
        time: r.timestamp(),
        observed: r.observed_timestamp(),
    }
}
/// Emits a random record and returns what must arrive, except for the trace context.
fn rich(a: &App, s: u32, via: u32, id: u32, explicit: Option<(TraceId, SpanId, Option<TraceFlags>)>) -> Want {
    let n = choose(s, 1 << 20) as i64 - (1 << 19);
    let st = |x: &str| AnyValue::String(x.to_string().into());
    let str = pick(s, &["", "x", "a b \u{e9}", "{}"]);
    match via {
        0 => {
            let mut r = a.logger.create_log_record();
            let sev = pick(s, &[Severity::Trace, Severity::Debug4, Severity::Info2, Severity::Error, Severity::Fatal]);
            r.set_severity_number(sev);
            r.set_severity_text("TXT");
            r.set_target("api");
            r.set_body(AnyValue::Int(id as i64));
            let mut attrs = vec![];
            let bulk = chance(s, 2);
            let mut late = vec![];
            for k in 0..pick(s, &[0, 1, 3, 5, 6, 8, 11, 25]) {
                let v = match choose(s, 7) {
                    4 => AnyValue::Bytes(Box::new(vec![k as u8, 0])),
                    5 => AnyValue::ListAny(Box::new(vec![st(str), AnyValue::Int(n)])),
                    6 => AnyValue::Map(Box::new([(Key::new("in"), AnyValue::Int(n)), (Key::new("out"), st(str))].into_iter().collect())),
                    0 => AnyValue::Int(n + k as i64),
                    1 => st(str),
                    2 => AnyValue::Boolean(true),
                    _ => AnyValue::Double(n as f64 / 8.0),
                };
                // every now and then a key that was used before: the record keeps what it was given
                let key = format!("k{}", if chance(s, 8) { k / 2 } else { k });
                if bulk {
                    late.push((Key::new(key.clone()), v.clone()));
                } else {
                    r.add_attribute(Key::new(key.clone()), v.clone());
                }
                attrs.push((key, v));
            }
            if bulk {
                r.add_attributes(late);
            }
            if let Some(e) = explicit {
                r.set_trace_context(e.0, e.1, e.2);
            }
            let at = |k: u32| SystemTime::UNIX_EPOCH + Duration::from_millis(k as u64 * 1_000_003);
            let name = if chance(s, 3) { Some("ev") } else { None };
            let time = if chance(s, 3) { Some(at(choose(s, 1000))) } else { None };
            let observed = if chance(s, 3) { Some(at(choose(s, 1000))) } else { None };
            if let Some(x) = name {
                r.set_event_name(x);
            }
            if let Some(x) = time {
                r.set_timestamp(x);
            }
            if let Some(x) = observed {
                r.set_observed_timestamp(x);
            }
            a.logger.emit(r);
            Want { ctx: None, severity: sev, text: Some("TXT"), body: AnyValue::Int(id as i64), target: Some("api".into()), attrs, name, time, observed }
        }
        1 => {
            use log::Log;
            let (l, sev, txt) = pick(s, &[
                (log::Level::Error, Severity::Error, "ERROR"),
                (log::Level::Warn, Severity::Warn, "WARN"),
                (log::Level::Info, Severity::Info, "INFO"),
                (log::Level::Debug, Severity::Debug, "DEBUG"),
                (log::Level::Trace, Severity::Trace, "TRACE"),
            ]);
            let f = if chance(s, 6) { pick(s, &[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -0.0]) } else { n as f64 / 4.0 };
            let big = u64::MAX - n.unsigned_abs();
            let wide = (1u64 << 33) + n.unsigned_abs();
            let (i128s, u128s) = (i64::MIN as i128 - 1, u64::MAX as u128 + 1);
            let deb = vec![n, 1];
            let pool: [(&'static str, log::kv::Value, AnyValue); 13] = [
                ("n", log::kv::Value::from(n), AnyValue::Int(n)),
                ("s", log::kv::Value::from(str), st(str)),
                ("b", log::kv::Value::from(n % 2 == 0), AnyValue::Boolean(n % 2 == 0)),
                ("f", log::kv::Value::from(f), AnyValue::Double(f)),
                ("u", log::kv::Value::from(big), st(&big.to_string())),
                ("w", log::kv::Value::from(wide), AnyValue::Int(wide as i64)),
                ("m", log::kv::Value::from(i64::MAX as u64), AnyValue::Int(i64::MAX)),
                ("i", log::kv::Value::from(n as i128), AnyValue::Int(n)),
                ("j", log::kv::Value::from(i128s), st(&i128s.to_string())),
                ("v", log::kv::Value::from(u128s), st(&u128s.to_string())),
                ("n2", log::kv::Value::from(n), AnyValue::Int(n)),
                ("s2", log::kv::Value::from(str), st(str)),
                ("deb", log::kv::Value::from_debug(&deb), st(&format!("{deb:?}"))),
            ];
            let m = choose(s, 14) as usize;
            let from = choose(s, 13) as usize;
            let sel: Vec<_> = (0..m).map(|i| &pool[(from + i) % 13]).collect();
            let kv: Vec<(&'static str, log::kv::Value)> = sel.iter().map(|(k, v, _)| (*k, v.clone())).collect();
            let target = pick(s, &["app", "my::mod", ""]);
            let (module, file, line) = if chance(s, 2) { (Some("some::module"), Some("src/file.rs"), Some(choose(s, 500))) } else { (None, None, None) };
            a.bridge.log(&log::Record::builder().args(format_args!("id {id}")).level(l).target(target).module_path(module).file(file).line(line).key_values(&kv).build());
            Want { ctx: None, severity: sev, text: Some(txt), body: st(&format!("id {id}")), target: Some(target.into()), attrs: sel.iter().map(|(k, _, v)| (k.to_string(), v.clone())).collect(), name: None, time: None, observed: None }
        }
        _ => {
            let f = if chance(s, 6) { pick(s, &[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -0.0]) } else { n as f64 / 4.0 };
            let mut body = None;
            let mut named = None;
            let (sev, txt, target, attrs): (_, _, _, Vec<(&str, AnyValue)>) = match choose(s, 11) {
                9 => {
                    tracing::info!(name: "my.event", target: "tr::named", n, "id {id}");
                    named = Some("my.event");
                    (Severity::Info, "INFO", "tr::named", vec![("n", AnyValue::Int(n))])
                }
                10 => {
                    tracing::event!(name: "", target: "tr::named", tracing::Level::ERROR, f, "id {id}");
                    named = Some("");
                    (Severity::Error, "ERROR", "tr::named", vec![("f", AnyValue::Double(f))])
                }
                0 => {
                    tracing::info!(target: "tr", n, flag = n % 2 == 0, "id {id}");
                    (Severity::Info, "INFO", "tr", vec![("n", AnyValue::Int(n)), ("flag", AnyValue::Boolean(n % 2 == 0))])
                }
                1 => {
                    tracing::error!(target: "tr::e", s = str, f, big = u64::MAX, "id {id}");
                    (Severity::Error, "ERROR", "tr::e", vec![("s", st(str)), ("f", AnyValue::Double(f)), ("big", st(&u64::MAX.to_string()))])
                }
                2 => {
                    let d = vec![1, 2];
                    tracing::warn!(target: "tr", ?d, disp = %n, "id {id}");
                    (Severity::Warn, "WARN", "tr", vec![("d", st("[1, 2]")), ("disp", st(&n.to_string()))])
                }
                3 => {
                    tracing::debug!(target: "tr", small = 7u64, i = n as i128, "id {id}");
                    (Severity::Debug, "DEBUG", "tr", vec![("small", AnyValue::Int(7)), ("i", AnyValue::Int(n))])
                }
                4 => {
                    tracing::trace!(target: "t", "id {id}");
                    (Severity::Trace, "TRACE", "t", vec![])
                }
                5 | 6 => {
                    // a text that says nothing, or no text at all
                    let e: Box<dyn std::error::Error + 'static> = Box::new(std::fmt::Error);
                    let (shown, some) = (e.to_string(), AnyValue::Int(id as i64));
                    let attrs: Vec<(&str, AnyValue)>;
                    if chance(s, 2) {
                        tracing::warn!(target: "tr::empty", message = "", the_id = id as i64, wide = (1u64 << 40) + 3, neg = i128::MIN, pos = u128::MAX, last = i64::MAX as u128);
                        body = Some(st(""));
                        attrs = vec![("the_id", some), ("wide", AnyValue::Int((1i64 << 40) + 3)), ("neg", st(&i128::MIN.to_string())), ("pos", st(&u128::MAX.to_string())), ("last", AnyValue::Int(i64::MAX))];
                    } else {
                        tracing::warn!(target: "tr::empty", the_id = id as i64, s = str, s2 = str, error = &*e, n2 = n, n, "");
                        body = Some(st(""));
                        attrs = vec![("the_id", some), ("s", st(str)), ("s2", st(str)), ("exception.message", st(&shown)), ("n2", AnyValue::Int(n)), ("n", AnyValue::Int(n))];
                    }
                    (Severity::Warn, "WARN", "tr::empty", attrs)
                }
                7 => {
                    // no message at all
                    let raw: &[u8] = &[0, 255, n as u8];
                    tracing::error!(target: "tr::none", the_id = id as i64, raw, dbl = f64::MIN_POSITIVE, empty = "");
                    body = Some(AnyValue::Int(-1));
                    (Severity::Error, "ERROR", "tr::none", vec![("the_id", AnyValue::Int(id as i64)), ("raw", AnyValue::Bytes(Box::new(raw.to_vec()))), ("dbl", AnyValue::Double(f64::MIN_POSITIVE)), ("empty", st(""))])
                }
                _ => {
                    let m = format!("id {id}");
                    tracing::event!(target: "ev", tracing::Level::INFO, message = m.as_str(), a = 1, b = "2", c = true, d = 4.5, e = -5, f = "6");
                    (Severity::Info, "INFO", "ev", vec![("a", AnyValue::Int(1)), ("b", st("2")), ("c", AnyValue::Boolean(true)), ("d", AnyValue::Double(4.5)), ("e", AnyValue::Int(-5)), ("f", st("6"))])
                }
            };
            Want { ctx: None, severity: sev, text: Some(txt), body: body.unwrap_or_else(|| st(&format!("id {id}"))), target: Some(target.into()), attrs: attrs.into_iter().map(|(k, v)| (k.to_string(), v)).collect(), name: named, time: None, observed: None }
        }
    }
}
impl App {
    /// One record with the currently active span `cur`.
    fn one(&self, s: u32, cur: &Option<SpanContext>) {
        let id = self.id();
        let via = choose(s, 3);
        let explicit = if via == 0 && chance(s, 4) {
            Some((TraceId::from_bytes([9; 16]), SpanId::from_bytes((id as u64).to_be_bytes()), if chance(s, 2) { Some(TraceFlags::SAMPLED) } else { None }))
        } else {
            None
        };
        let before = SystemTime::now();
        let mut w = rich(self, s, via, id, explicit);
        let after = SystemTime::now();
        w.ctx = explicit.or(cur.as_ref().map(|c| (c.trace_id(), c.span_id(), Some(c.trace_flags()))));
        let got: Vec<Want> = self.h.with(|h| h.iter().filter(|r| body_id(r) == Some(id)).map(want_of).collect());
        ensure!(got.len() == 1, "not-one-record", "event {id} (via {via}) became {} records", got.len());
        ensure!(got[0].ctx == w.ctx, "wrong-trace-context", "record {id} (via {via}) carries {:?}, expected {:?}", got[0].ctx, w.ctx);
        let mut got = got;
        if w.observed.is_none() {
            let o = got[0].observed.take();
            ensure!(o.is_some_and(|o| o >= before && o <= after), "observed-time", "event {id} (via {via}), emitted between {before:?} and {after:?}, has the observed timestamp {o:?}");
        }
        if via == 2 && w.name.is_none() {
            got[0].name = None; // the bridge may name the event after its callsite
        }
        ensure!(got[0] == w, "wrong-record", "event {id} (via {via}) became {:?}, expected {w:?}", got[0]);
    }
    fn span(&self, s: u32, shared: &Shared<Vec<Context>>) -> (Context, Option<SpanContext>) {
        match choose(s, 8) {
            0 => (Context::new(), None),
            1 => {
                let c = SpanContext::new(TraceId::from_bytes([3; 16]), SpanId::from_bytes((self.id() as u64).to_be_bytes()), if chance(s, 2) { TraceFlags::SAMPLED } else { TraceFlags::new(choose(s, 256) as u8) }, true, Default::default());
                (Context::new().with_remote_span_context(c.clone()), Some(c))
            }
            2 => {
                // a span that other threads use as well, and may have ended
                let c = shared.with(|v| if v.is_empty() { None } else { Some(v[choose(s, v.len() as u32) as usize].clone()) });
                match c {
                    Some(c) => {
                        let sc = c.span().span_context().clone();
                        (c, Some(sc))
                    }
                    None => (Context::new(), None),
                }
            }
            _ => {
                let sp = if chance(s, 3) { self.tracer.start_with_context("root", &Context::new()) } else { self.tracer.start("child") };
                let sc = sp.span_context().clone();
                let c = match choose(s, 2) {
                    0 => Context::current_with_span(sp),
                    _ => Context::current().with_value(1u8).with_span(sp),
                };
                if chance(s, 2) {
                    let c2 = c.clone();
                    shared.with(|v| v.push(c2));
                }
                (c, Some(sc))
            }
        }
    }
}
fn trace_context() {
    let (h, spans): (Arc<Shared<Vec<SdkLogRecord>>>, Arc<Shared<Vec<String>>>) = Default::default();
    let lp = SdkLoggerProvider::builder().with_log_processor(Recorder { h: h.clone() }).build();
    let sampler = match choose(S_CFG, 4) {
        0 | 1 => Sampler::AlwaysOn,
        2 => Sampler::AlwaysOff,
        _ => Sampler::ParentBased(Box::new(Sampler::TraceIdRatioBased(0.5))),
    };
    let tp = SdkTracerProvider::builder().with_sampler(sampler).with_span_processor(SpanRec(spans.clone())).build();
    let a = Arc::new(App { logger: lp.logger("app"), bridge: LBridge::new(&lp), tracer: tp.tracer("app"), h, spans, next: Shared::new(0), disp: tracing::Dispatch::new(subscriber(&lp)) });
    let shared: Arc<Shared<Vec<Context>>> = Default::default();
    if chance(S_CFG, 3) {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1 + choose(S_CFG, 3) as usize).build().unwrap();
        let n = 2 + choose(S_CFG, 4);
        rt.block_on(async {
            let mut v = vec![];
            for t in 0..n {
                let (a, s, shared) = (a.clone(), 1 + t, shared.clone());
                let (c, cur) = a.span(s, &shared);
                v.push(tokio::spawn(async move {
                    for _ in 0..1 + choose(s, 5) {
                        tracing::dispatcher::with_default(&a.disp, || a.one(s, &cur));
                        let cur2 = cur.clone();
                        match choose(s, 3) {
                            0 => {
                                // a scope inside the poll
                                let (c, cur) = a.span(s, &shared);
                                let _g = c.attach();
                                tracing::dispatcher::with_default(&a.disp, || a.one(s, &cur));
                            }
                            1 => {
                                let (c, cur) = a.span(s, &shared);
                                async { tokio::task::yield_now().await; tracing::dispatcher::with_default(&a.disp, || a.one(s, &cur)) }.with_context(c).await
                            }
                            _ => {}
                        }
                        tokio::task::yield_now().await;
                        tracing::dispatcher::with_default(&a.disp, || a.one(s, &cur2));
                    }
                }.with_context(c)));
            }
            for h in v {
                let _ = h.await;
            }
        });
        return;
    }
    let v: Vec<_> = (0..1 + choose(S_CFG, 4)).map(|t| {
        let (a, shared) = (a.clone(), shared.clone());
        thread::spawn(move || {
            let _d = tracing::dispatcher::set_default(&a.disp);
            let s = 1 + t;
            let mut st: Vec<(Option<ContextGuard>, Option<SpanContext>)> = vec![];
            for _ in 0..1 + choose(s, 16) {
                match choose(s, 6) {
                    0 | 1 => {
                        let (c, cur) = a.span(s, &shared);
                        st.push((Some(c.attach()), cur));
                    }
                    2 => drop(st.pop()),
                    3 if !st.is_empty() => {
                        let i = choose(s, st.len() as u32) as usize;
                        st[i].0 = None;
                    }
                    4 => {
                        // end a span that may be active anywhere
                        if let Some(c) = shared.with(|v| if v.is_empty() { None } else { Some(v[choose(s, v.len() as u32) as usize].clone()) }) {
                            c.span().end();
                        }
                    }
                    _ => {
                        if let Some(c) = shared.with(|v| if v.is_empty() { None } else { Some(v.swap_remove(choose(s, v.len() as u32) as usize)) }) {
                            drop(c);
                        }
                    }
                }
                let cur = st.iter().rev().find(|g| g.0.is_some()).and_then(|g| g.1.clone());
                a.one(s, &cur);
            }
            if chance(s, 2) {
                st.reverse();
            }
            while let Some(g) = st.pop() {
                drop(g)
            }
            a.one(s, &None);
        })
    }).collect();
    for t in v {
        ensure!(t.join().is_ok(), "unexpected-panic", "a thread panicked");
    }
}

// ---------------------------------------------------------------- L06
#[derive(Default)]
struct Chain {
    /// per record id: the state after each processor that has returned, and the emitting thread
    recs: Shared<std::collections::HashMap<u32, (i32, Vec<SdkLogRecord>, u32)>>,
    /// (position, id) exported
    exported: Shared<Vec<(usize, u32)>>,
    errs: bool,
}
impl std::fmt::Debug for Chain {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("chain")
    }
}
fn chain_id(r: &SdkLogRecord) -> u32 {
    match r.attributes_iter().find(|(k, _)| k.as_str() == "id").map(|(_, v)| v.clone()) {
        Some(AnyValue::Int(i)) => i as u32,
        _ => violation("wrong-record", "a record lost its id attribute"),
    }
}
impl Chain {
    fn enter(&self, pos: usize, r: &SdkLogRecord) {
        let id = chain_id(r);
        let mut attrs: Vec<_> = r.attributes_iter().map(|(k, _)| k.as_str().to_string()).collect();
        attrs.retain(|k| k.starts_with('a'));
        let want: Vec<_> = (0..attrs.len()).map(|i| format!("a{i}")).collect();
        self.recs.with(|m| {
            let first = m.get(&id).map_or(0, |e| e.2);
            ensure!(attrs == want && attrs.len() == first as usize, "wrong-record", "processor {pos} sees the attributes {attrs:?} of record {id}, which was emitted with {first} of them");
            let e = m.entry(id).or_default();
            ensure!(e.1.len() == pos + 1, "wrong-order", "processor {pos} was offered record {id} when {} processors had seen it", e.1.len() as i32 - 1);
            ensure!(e.0 == tid(), "wrong-thread", "record {id} is processed on another thread than the one that emitted it");
            let mut last = e.1[pos].clone();
            if pos == 0 {
                // the SDK fills in the observed timestamp
                if let Some(t) = r.observed_timestamp() {
                    last.set_observed_timestamp(t);
                }
            }
            ensure!(*r == last, "changes-not-seen", "processor {pos} sees {r:?}, expected {last:?}");
        });
    }
    fn leave(&self, r: &SdkLogRecord) {
        let (id, c) = (chain_id(r), r.clone());
        self.recs.with(|m| m.get_mut(&id).unwrap().1.push(c));
    }
}
use opentelemetry::logs::LogRecord;
#[derive(Debug)]
struct Mutator {
    c: Arc<Chain>,
    pos: usize,
    enabled: bool,
    kept: Shared<Vec<(SdkLogRecord, SdkLogRecord)>>,
}
impl LogProcessor for Mutator {
    fn emit(&self, r: &mut SdkLogRecord, _: &InstrumentationScope) {
        self.c.enter(self.pos, r);
        let s = 40 + self.pos as u32;
        for _ in 0..choose(s, 3) {
            match choose(s, 7) {
                0 => r.add_attribute(Key::new(format!("p{}", self.pos)), AnyValue::Int(choose(s, 1000) as i64)),
                6 => {
                    // many at once, some of them with a key that is there already
                    let n = r.attributes_iter().count();
                    let m = choose(s, 12) as usize;
                    r.add_attributes((0..m).map(|i| (Key::new(format!("p{}", i / 2)), AnyValue::Int(i as i64))));
                    let k = r.attributes_iter().count();
                    ensure!(k == n + m, "wrong-record", "{m} attributes were added to a record with {n}, which has {k} now");
                }
                1 => r.set_body(AnyValue::String(format!("body of p{} {}", self.pos, choose(s, 1000)).into())),
                2 => r.set_severity_number(pick(s, &[Severity::Trace, Severity::Fatal])),
                3 => r.set_trace_context(TraceId::from_bytes([self.pos as u8 + 1; 16]), SpanId::from_bytes([1; 8]), None),
                4 => r.set_target(format!("t{}", self.pos)),
                _ => r.set_event_name("changed"),
            }
        }
        if chance(s, 3) {
            // a processor that keeps the record
            let k = r.clone();
            self.kept.with(|v| v.push((k.clone(), k)));
        }
        if chance(s, 4) {
            thread::yield_now();
        }
        self.kept.with(|v| {
            for (a, b) in v.iter() {
                ensure!(a == b, "leaked-change", "a kept record changed");
            }
        });
        self.c.leave(r);
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    fn event_enabled(&self, _: Severity, _: &str, _: Option<&str>) -> bool {
        self.enabled
    }
}
/// Wraps an exporting processor: only observes.
#[derive(Debug)]
struct Exporting<P: LogProcessor> {
    c: Arc<Chain>,
    pos: usize,
    inner: P,
}
impl<P: LogProcessor> LogProcessor for Exporting<P> {
    fn emit(&self, r: &mut SdkLogRecord, s: &InstrumentationScope) {
        self.c.enter(self.pos, r);
        self.inner.emit(r, s);
        self.c.leave(r);
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.inner.force_flush()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.inner.shutdown()
    }
    fn set_resource(&mut self, r: &opentelemetry_sdk::Resource) {
        self.inner.set_resource(r)
    }
    fn event_enabled(&self, a: Severity, b: &str, c: Option<&str>) -> bool {
        self.inner.event_enabled(a, b, c)
    }
}
#[derive(Debug)]
struct ChainExp {
    c: Arc<Chain>,
    pos: usize,
    enabled: bool,
}
impl LogExporter for ChainExp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        for (r, scope) in batch.iter() {
            let id = chain_id(r);
            ensure!(scope.name() == "chain", "wrong-record", "record {id} exported with scope {}", scope.name());
            let want = self.c.recs.with(|m| m.get(&id).and_then(|e| e.1.get(self.pos).cloned()));
            let Some(mut want) = want else { violation("wrong-record", "an unknown record was exported") };
            if self.pos == 0 {
                if let Some(t) = r.observed_timestamp() {
                    want.set_observed_timestamp(t);
                }
            }
            ensure!(*r == want, "leaked-change", "record {id} reached the exporter of processor {} as {r:?}, it was given as {want:?}", self.pos);
            self.c.exported.with(|v| {
                ensure!(!v.contains(&(self.pos, id)), "duplicate", "record {id} exported twice by processor {}", self.pos);
                v.push((self.pos, id))
            });
        }
        if self.c.errs && chance(50, 2) {
            fault("export_error");
            return Err(crate::batch::exporter_error(50));
        }
        if chance(50, 4) {
            thread::sleep(Duration::from_micros(choose(50, 500) as u64));
        }
        Ok(())
    }
    fn event_enabled(&self, _: Severity, _: &str, _: Option<&str>) -> bool {
        self.enabled
    }
}
fn chain() {
    let c = Arc::new(Chain { errs: chance(S_CFG, 2), ..Default::default() });
    let n = 1 + choose(S_CFG, 4) as usize;
    let mut b = SdkLoggerProvider::builder();
    if chance(S_CFG, 2) {
        b = b.with_resource(opentelemetry_sdk::Resource::builder_empty().with_service_name("x").build());
    }
    let (mut exporting, mut any) = (vec![], false);
    for pos in 0..n {
        let exp = |enabled| ChainExp { c: c.clone(), pos, enabled };
        let en = !chance(S_CFG, 3);
        match choose(S_CFG, 5) {
            0 | 1 => {
                any |= en;
                b = b.with_log_processor(Mutator { c: c.clone(), pos, enabled: en, kept: Shared::default() });
            }
            2 => {
                // the simple and batch processors do not ask their exporter: always enabled
                any = true;
                exporting.push(pos);
                b = b.with_log_processor(Exporting { c: c.clone(), pos, inner: SimpleLogProcessor::new(exp(true)) });
            }
            3 => {
                any |= en;
                exporting.push(pos);
                b = b.with_log_processor(Exporting { c: c.clone(), pos, inner: SimpleConcurrentLogProcessor::new(exp(en)) });
            }
            _ => {
                any = true;
                exporting.push(pos);
                b = b.with_log_processor(Exporting { c: c.clone(), pos, inner: BatchLogProcessor::builder(exp(true)).with_batch_config(BatchConfigBuilder::default().with_scheduled_delay(Duration::from_millis(20)).with_max_export_batch_size(1 + choose(S_CFG, 6) as usize).build()).build() });
            }
        }
    }
    let lp = b.build();
    let next = Arc::new(Shared::new(0u32));
    let v: Vec<_> = (0..1 + choose(S_CFG, 4)).map(|t| {
        let (c, lp, next) = (c.clone(), lp.clone(), next.clone());
        thread::spawn(move || {
            let s = 1 + t;
            let logger = lp.logger("chain");
            for _ in 0..1 + choose(s, 6) {
                let id = next.with(|n| {
                    *n += 1;
                    *n
                });
                let mut r = logger.create_log_record();
                r.add_attribute("id", AnyValue::Int(id as i64));
                let attrs = choose(s, 8);
                for k in 0..attrs {
                    r.add_attribute(format!("a{k}"), AnyValue::Int(choose(s, 100) as i64));
                }
                if chance(s, 2) {
                    r.set_body("body".into());
                }
                let first = r.clone();
                c.recs.with(|m| m.insert(id, (tid(), vec![first], attrs)));
                if chance(s, 4) {
                    let e = logger.event_enabled(Severity::Info, "x", None);
                    ensure!(e == any, "event-enabled", "event_enabled is {e}, expected {any}");
                }
                logger.emit(r);
                let seen = c.recs.with(|m| m[&id].1.len()) - 1;
                ensure!(seen == n, "not-offered", "record {id} was offered to {seen} of {n} processors");
                if chance(s, 8) {
                    let _ = lp.force_flush();
                }
            }
        })
    }).collect();
    for t in v {
        ensure!(t.join().is_ok(), "unexpected-panic", "a thread panicked");
    }
    let _ = lp.force_flush();
    let total = next.with(|n| *n);
    for pos in exporting {
        for id in 1..=total {
            ensure!(c.exported.with(|v| v.contains(&(pos, id))) || stalls() > 0, "not-offered", "record {id} never reached the exporter of processor {pos}");
        }
    }
    let _ = lp.shutdown();
}
pub const SCEN: &[Scenario] = &[
    Scenario { prop: "C03", name: "scopes", weight: 2, run: scopes, opts: DEFAULT },
    Scenario { prop: "C03", name: "tasks", weight: 1, run: scope_tasks, opts: DEFAULT },
    Scenario { prop: "C03", name: "feedback", weight: 3, run: feedback, opts: DEFAULT },
    Scenario { prop: "L05", name: "trace_context", weight: 1, run: trace_context, opts: DEFAULT },
    Scenario { prop: "L06", name: "chain", weight: 1, run: chain, opts: DEFAULT },
];
