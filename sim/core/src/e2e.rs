//! X05: an application using all three signals over OTLP to a collector that fails, stalls and recovers.
use crate::batch::{Rt, S_CFG};
use crate::batch_scen::{with_runtime, NOSTALL};
use bytes::Bytes;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger as _, LoggerProvider as _, Severity};
use opentelemetry::metrics::{Counter, Histogram, MeterProvider as _};
use opentelemetry::propagation::{TextMapCompositePropagator, TextMapPropagator};
use opentelemetry::trace::{SpanBuilder, SpanContext, SpanKind, Status, TraceContextExt as _, Tracer as _, TracerProvider as _};
use opentelemetry::{global, Context, InstrumentationScope, KeyValue};
use opentelemetry_http::{HttpClient, HttpError};
use opentelemetry_otlp::{Protocol, WithExportConfig as _, WithHttpConfig as _};
use opentelemetry_proto::tonic::collector::{logs::v1::ExportLogsServiceRequest, metrics::v1::ExportMetricsServiceRequest, trace::v1::ExportTraceServiceRequest};
use opentelemetry_proto::tonic::common::v1 as pc;
use opentelemetry_proto::tonic::metrics::v1::{metric::Data, number_data_point};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::log_processor_with_async_runtime::BatchLogProcessor as AsyncBlp;
use opentelemetry_sdk::metrics::periodic_reader_with_async_runtime::PeriodicReader as AsyncReader;
use opentelemetry_sdk::metrics::{PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use opentelemetry_sdk::runtime::{Tokio, TokioCurrentThread};
use opentelemetry_sdk::trace::span_processor_with_async_runtime::BatchSpanProcessor as AsyncBsp;
use opentelemetry_sdk::{logs, trace, Resource};
use prost::Message;
use simfw::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use std::thread;
use std::time::Duration;

const SPAN: usize = 0;
const LOG: usize = 1;
const METRIC: usize = 2;
const NAMES: [&str; 3] = ["traces", "logs", "metrics"];
const S_NET: u32 = 40; // + signal

/// One span, log record or measurement; `s` is when the operation that produced it began, `e` when it returned.
#[derive(Clone, Debug)]
struct Item {
    sig: usize,
    s: u64,
    e: u64,
    ctx: Option<(SpanContext, Option<SpanContext>)>,
    /// bit of this measurement, and its series
    bit: u32,
    series: String,
    sampled: bool,
    scope: u32,
}
#[derive(Clone, Debug)]
struct Req {
    sig: usize,
    s: u64,
    ts: u64,
    items: Vec<u32>,
    series: BTreeMap<String, u64>,
    accepted: bool,
    answered: bool,
}
#[derive(Clone, Debug)]
struct Call {
    sig: usize,
    kind: K,
    s: u64,
    e: u64,
    dur: u64,
    ok: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Flush,
    Shutdown,
    Drop,
}
#[derive(Clone, Copy, Debug)]
struct Plan {
    ok: u32,
    status: u32,
    err: u32,
    slow: u32,
    hang: u32,
}
const CALM: Plan = Plan { ok: 1, status: 0, err: 0, slow: 0, hang: 0 };
#[derive(Default)]
struct H {
    items: Vec<Item>,
    bits: u32,
    reqs: Vec<Req>,
    calls: Vec<Call>,
    carriers: Vec<(HashMap<String, String>, SpanContext)>,
}
struct World {
    h: Shared<H>,
    plan: Shared<[Plan; 3]>,
    temp: Temporality,
}
impl std::fmt::Debug for World {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("world")
    }
}
#[derive(Clone, Debug)]
struct Client(Arc<World>, usize);

/// Three scopes that share a name.
fn scope(k: u32) -> InstrumentationScope {
    let b = InstrumentationScope::builder("app").with_version(["1", "2", "1"][k as usize]);
    if k < 2 { b.build() } else { b.with_attributes([KeyValue::new("part", "c")]).with_schema_url("http://schema").build() }
}
/// Number of the scope, 3 for the target of a log record.
fn scope_no(s: &Option<pc::InstrumentationScope>, schema: &str) -> u32 {
    let Some(c) = s else { violation("altered", "exported without a scope") };
    match (c.name.as_str(), c.version.as_str(), c.attributes.len(), schema) {
        ("app", "1", 0, "") => 0,
        ("app", "2", 0, "") => 1,
        ("app", "1", 1, "http://schema") => 2,
        ("tgt", "", 0, _) => 3,
        _ => violation("altered", &format!("exported with scope {c:?} and schema {schema:?}")),
    }
}
fn text(v: &Option<pc::AnyValue>) -> String {
    match v.as_ref().and_then(|v| v.value.as_ref()) {
        Some(pc::any_value::Value::IntValue(i)) => i.to_string(),
        Some(pc::any_value::Value::StringValue(s)) => s.clone(),
        v => format!("{v:?}"),
    }
}
fn pairs(a: &[pc::KeyValue]) -> String {
    a.iter().map(|a| format!("{}={} ", a.key, text(&a.value))).collect()
}
/// What the application puts on a span or log record.
fn attrs(id: u32) -> Vec<(String, i64)> {
    (0..[1, 0, 4, 6, 9][id as usize % 5]).map(|i| (format!("a{i}"), (id * 10 + i) as i64)).collect()
}
fn kvs(id: u32) -> Vec<KeyValue> {
    attrs(id).into_iter().map(|(k, v)| KeyValue::new(k, v)).collect()
}
fn want_pairs(id: u32) -> String {
    attrs(id).iter().map(|(k, v)| format!("{k}={v} ")).collect()
}
fn res_ok(r: &Option<opentelemetry_proto::tonic::resource::v1::Resource>) {
    let ok = r.as_ref().is_some_and(|r| r.attributes.iter().any(|a| a.key == "service.name" && matches!(a.value.as_ref().and_then(|v| v.value.as_ref()), Some(pc::any_value::Value::StringValue(s)) if s == "shop")));
    ensure!(ok, "altered", "exported with resource {r:?}");
}
fn int(v: &Option<pc::AnyValue>) -> u32 {
    match v.as_ref().and_then(|v| v.value.as_ref()) {
        Some(pc::any_value::Value::IntValue(i)) => *i as u32,
        v => violation("invented", &format!("log body {v:?}")),
    }
}
fn get<T: Message + Default + serde::de::DeserializeOwned>(json: bool, b: &[u8]) -> T {
    let r = if json { serde_json::from_slice(b).map_err(|e| e.to_string()) } else { T::decode(b).map_err(|e| e.to_string()) };
    r.unwrap_or_else(|e| violation("undecodable", &e))
}
impl World {
    fn item<'a>(&self, h: &'a H, sig: usize, id: u32) -> &'a Item {
        match h.items.get(id as usize) {
            Some(i) if i.sig == sig => i,
            _ => violation("invented", &format!("{} {id} was never produced", NAMES[sig])),
        }
    }
    /// Decodes a request and checks each item against what the application did.
    fn decode(&self, sig: usize, json: bool, body: &[u8]) -> (Vec<u32>, BTreeMap<String, u64>) {
        let mut ids = vec![];
        let mut series: BTreeMap<String, u64> = BTreeMap::new();
        self.h.with(|h| match sig {
            SPAN => {
                for r in get::<ExportTraceServiceRequest>(json, body).resource_spans {
                    res_ok(&r.resource);
                    for sc in r.scope_spans {
                        let k = scope_no(&sc.scope, &sc.schema_url);
                        for s in sc.spans {
                            let id = s.name[1..].parse().unwrap_or(u32::MAX);
                            let it = self.item(h, sig, id);
                            let Some((c, parent)) = &it.ctx else { violation("invented", &format!("span {id} is exported before it was started")) };
                            ensure!(it.sampled, "unsampled-exported", "span {id}");
                            let p = parent.as_ref().map(|p| p.span_id().to_bytes().to_vec()).unwrap_or_default();
                            let want = (c.trace_id().to_bytes().to_vec(), c.span_id().to_bytes().to_vec(), p);
                            let got = (s.trace_id, s.span_id, s.parent_span_id);
                            ensure!(want == got, "altered", "span {id} has trace id, span id and parent {want:?}, exported {got:?}");
                            ensure!(it.s != 0, "invented", "span {id} is exported before it ended");
                            ensure!(it.scope == k, "altered", "span {id} of scope {} is exported in scope {k}", it.scope);
                            let ev: Vec<String> = s.events.iter().map(|e| format!("{} {}", e.name, pairs(&e.attributes))).collect();
                            let st = s.status.map(|s| (s.code, s.message)).unwrap_or_default();
                            let got = format!("{}{ev:?} {st:?} {} {}", pairs(&s.attributes), s.kind, s.links.len());
                            let wev: Vec<String> = (0..id % 3).map(|i| format!("e{i} {}", want_pairs(i))).collect();
                            let want = format!("{}{wev:?} {:?} {} 0", want_pairs(id), if id % 4 == 0 { (2, "bad") } else { (0, "") }, 2 + id % 2);
                            ensure!(got == want, "altered", "span {id} has {want}, exported {got}");
                            ids.push(id);
                        }
                    }
                }
            }
            LOG => {
                for r in get::<ExportLogsServiceRequest>(json, body).resource_logs {
                    res_ok(&r.resource);
                    for sc in r.scope_logs {
                        let k = scope_no(&sc.scope, &sc.schema_url);
                        for l in sc.log_records {
                            let id = int(&l.body);
                            let it = self.item(h, sig, id);
                            let want = it.ctx.as_ref().map(|(c, _)| (c.trace_id().to_bytes().to_vec(), c.span_id().to_bytes().to_vec())).unwrap_or_default();
                            let got = (l.trace_id, l.span_id);
                            ensure!(want == got, "altered", "log {id} was emitted in {want:?}, exported with {got:?}");
                            ensure!(it.scope == k, "altered", "log {id} of scope {} is exported in scope {k}", it.scope);
                            let got = format!("{}{} {}", pairs(&l.attributes), l.severity_number, l.severity_text);
                            let want = format!("{}{}", want_pairs(id), if id % 3 == 0 { "17 ERROR" } else { "0 " });
                            ensure!(got == want, "altered", "log {id} has {want}, exported {got}");
                            ids.push(id);
                        }
                    }
                }
            }
            _ => {
                for r in get::<ExportMetricsServiceRequest>(json, body).resource_metrics {
                    res_ok(&r.resource);
                    for sc in r.scope_metrics {
                        let sk = scope_no(&sc.scope, &sc.schema_url);
                        for m in sc.metrics {
                            let mut add = |a: &[pc::KeyValue], v: u64| {
                                let k = format!("{}/{sk}/{}", m.name, a.iter().map(|a| int(&a.value).to_string()).collect::<Vec<_>>().join(","));
                                ensure!(series.insert(k.clone(), v).is_none(), "duplicate", "series {k} twice in one request");
                            };
                            match m.data {
                                Some(Data::Sum(s)) => s.data_points.iter().for_each(|p| match p.value {
                                    Some(number_data_point::Value::AsInt(i)) => add(&p.attributes, i as u64),
                                    v => violation("altered", &format!("value {v:?}")),
                                }),
                                Some(Data::Histogram(s)) => s.data_points.iter().for_each(|p| {
                                    let v = p.sum.unwrap_or(-1.0) as u64;
                                    ensure!(p.count == v.count_ones() as u64 && p.bucket_counts.iter().sum::<u64>() == p.count, "altered", "inconsistent histogram {p:?}");
                                    add(&p.attributes, v)
                                }),
                                d => violation("altered", &format!("data {d:?}")),
                            }
                        }
                    }
                }
                for (k, v) in &series {
                    let known = h.items.iter().filter(|i| i.sig == METRIC && i.series == *k).fold(0, |a, i| a | 1u64 << i.bit);
                    ensure!(v & !known == 0, "invented", "series {k} has the value {v:b}, measurements are {known:b}");
                }
            }
        });
        (ids, series)
    }
    fn begin(&self, sig: usize, json: bool, body: &[u8]) -> usize {
        let _g = Atomic::new();
        let (items, series) = self.decode(sig, json, body);
        tr!("request {}: {items:?} {series:?}", NAMES[sig]);
        self.h.with(|h| {
            for (k, i) in items.iter().enumerate() {
                let dup = items[..k].contains(i) || h.reqs.iter().any(|r| r.sig == sig && r.items.contains(i));
                ensure!(!dup, "duplicate", "{} item {i} appears in two requests, or twice in one", NAMES[sig]);
            }
            for (k, v) in &series {
                for r in h.reqs.iter().filter(|r| r.sig == sig) {
                    let o = r.series.get(k).copied().unwrap_or(0);
                    match self.temp {
                        Temporality::Delta => ensure!(o & v == 0, "duplicate", "measurements {:b} of {k} appear in two requests", o & v),
                        _ => ensure!(o & !v == 0, "lost", "cumulative {k} went from {o:b} to {v:b}"),
                    }
                }
            }
            for c in h.calls.iter().filter(|c| c.sig == sig && c.kind == K::Shutdown && c.ok) {
                violation("request-after-shutdown", &format!("a request with {} began after {c:?}", NAMES[sig]));
            }
            h.reqs.push(Req { sig, s: seq(), ts: now(), items, series, accepted: false, answered: false });
            h.reqs.len() - 1
        })
    }
    async fn sleep(&self, d: Duration) {
        if tokio::runtime::Handle::try_current().is_ok() {
            tokio::time::sleep(d).await
        } else {
            thread::sleep(d)
        }
    }
    fn produced(&self, sig: usize) -> u32 {
        self.h.with(|h| {
            h.items.push(Item { sig, s: 0, e: 0, ctx: None, bit: 0, series: String::new(), sampled: true, scope: 0 });
            h.items.len() as u32 - 1
        })
    }
    fn begin_item(&self, id: u32) {
        self.h.with(|h| h.items[id as usize].s = seq());
    }
    fn end_item(&self, id: u32) {
        self.h.with(|h| h.items[id as usize].e = seq());
    }
}
#[async_trait::async_trait]
impl HttpClient for Client {
    async fn send_bytes(&self, r: http::Request<Bytes>) -> Result<http::Response<Bytes>, HttpError> {
        let (w, sig) = (&self.0, self.1);
        let json = r.headers().get("content-type").is_some_and(|c| c == "application/json");
        ensure!(r.uri().path() == format!("/v1/{}", NAMES[sig]), "wrong-target", "{}", r.uri());
        // what the collector will do is settled when it gets the request
        let p = w.plan.with(|p| p[sig]);
        let i = w.begin(sig, json, r.body());
        let s = S_NET + sig as u32;
        let act = choose_w(s, &[p.ok, p.status, p.err, p.hang]);
        if p.slow > 0 && !chance(s, 1 + p.slow) {
            fault("response-delay");
            w.sleep(Duration::from_micros(1 + choose(s, 4_000_000) as u64)).await;
        }
        let res = match act {
            0 => Ok(200),
            1 => {
                fault("error-status");
                Ok(pick(s, &[503u16, 500, 429, 400, 302]))
            }
            2 => {
                fault("transport-error");
                Err("connection refused".into())
            }
            _ => {
                fault("client-timeout");
                w.sleep(Duration::from_secs(10)).await;
                Err("timed out".into())
            }
        };
        w.h.with(|h| {
            h.reqs[i].answered = true;
            h.reqs[i].accepted = matches!(res, Ok(200));
        });
        tr!("request {i} ({}) answered {res:?}", NAMES[sig]);
        res.map(|c| http::Response::builder().status(c).body(Bytes::new()).unwrap())
    }
}
#[derive(Clone)]
struct App {
    w: Arc<World>,
    global: bool,
    tp: trace::SdkTracerProvider,
    lp: logs::SdkLoggerProvider,
    mp: SdkMeterProvider,
    log: Vec<Arc<logs::SdkLogger>>,
    inst: Vec<(Counter<u64>, Histogram<f64>)>,
    prop: Arc<TextMapCompositePropagator>,
}
fn build(w: &Arc<World>, rts: [Rt; 3], queue: [usize; 2], json: bool) -> App {
    let proto = if json { Protocol::HttpJson } else { Protocol::HttpBinary };
    let se = opentelemetry_otlp::SpanExporter::builder().with_http().with_http_client(Client(w.clone(), SPAN)).with_endpoint("http://c/v1/traces").with_protocol(proto).build().unwrap();
    let le = opentelemetry_otlp::LogExporter::builder().with_http().with_http_client(Client(w.clone(), LOG)).with_endpoint("http://c/v1/logs").with_protocol(proto).build().unwrap();
    let me = opentelemetry_otlp::MetricExporter::builder().with_http().with_http_client(Client(w.clone(), METRIC)).with_endpoint("http://c/v1/metrics").with_protocol(proto).with_temporality(w.temp).build().unwrap();
    let res = Resource::builder_empty().with_service_name("shop").build();
    let delay = Duration::from_millis(pick(S_CFG, &[1000u64, 100, 5000]));
    let timeout = Duration::from_millis(pick(S_CFG, &[30_000u64, 500, 3000]));
    let b = trace::SdkTracerProvider::builder().with_resource(res.clone());
    let cfg = trace::BatchConfigBuilder::default().with_max_queue_size(queue[0]).with_max_export_batch_size(pick(S_CFG, &[64usize, 1, 3])).with_scheduled_delay(delay);
    let tp = match rts[0] {
        Rt::Thread if queue[0] >= 128 && chance(S_CFG, 4) => b.with_batch_exporter(se),
        Rt::Thread => b.with_span_processor(trace::BatchSpanProcessor::builder(se).with_batch_config(cfg.build()).build()),
        rt => {
            let cfg = cfg.with_max_export_timeout(timeout).with_max_concurrent_exports(pick(S_CFG, &[1usize, 3])).build();
            match rt {
                Rt::Tokio => b.with_span_processor(AsyncBsp::builder(se, Tokio).with_batch_config(cfg).build()),
                _ => b.with_span_processor(AsyncBsp::builder(se, TokioCurrentThread).with_batch_config(cfg).build()),
            }
        }
    }
    .build();
    let b = logs::SdkLoggerProvider::builder().with_resource(res.clone());
    let cfg = logs::BatchConfigBuilder::default().with_max_queue_size(queue[1]).with_max_export_batch_size(pick(S_CFG, &[64usize, 1, 3])).with_scheduled_delay(delay);
    let lp = match rts[1] {
        Rt::Thread if queue[1] >= 128 && chance(S_CFG, 4) => b.with_batch_exporter(le),
        Rt::Thread => b.with_log_processor(logs::BatchLogProcessor::builder(le).with_batch_config(cfg.build()).build()),
        rt => {
            let cfg = cfg.with_max_export_timeout(timeout).build();
            match rt {
                Rt::Tokio => b.with_log_processor(AsyncBlp::builder(le, Tokio).with_batch_config(cfg).build()),
                _ => b.with_log_processor(AsyncBlp::builder(le, TokioCurrentThread).with_batch_config(cfg).build()),
            }
        }
    }
    .build();
    let b = SdkMeterProvider::builder().with_resource(res);
    let interval = Duration::from_millis(pick(S_CFG, &[1000u64, 200, 60_000]));
    let mp = match rts[2] {
        Rt::Thread if chance(S_CFG, 4) => b.with_periodic_exporter(me),
        Rt::Thread => b.with_reader(PeriodicReader::builder(me).with_interval(interval).build()),
        Rt::Tokio => b.with_reader(AsyncReader::builder(me, Tokio).with_interval(interval).with_timeout(timeout).build()),
        Rt::TokioCurrent => b.with_reader(AsyncReader::builder(me, TokioCurrentThread).with_interval(interval).with_timeout(timeout).build()),
    }
    .build();
    let global = chance(S_CFG, 2);
    if global {
        global::set_tracer_provider(tp.clone());
        global::set_meter_provider(mp.clone());
    }
    let inst = (0..3)
        .map(|k| {
            let meter = if global { global::meter_with_scope(scope(k)) } else { mp.meter_with_scope(scope(k)) };
            (meter.u64_counter("c").build(), meter.f64_histogram("h").build())
        })
        .collect();
    let prop = TextMapCompositePropagator::new(vec![Box::new(BaggagePropagator::new()), Box::new(TraceContextPropagator::new())]);
    App { w: w.clone(), global, log: (0..3).map(|k| Arc::new(lp.logger_with_scope(scope(k)))).collect(), inst, tp, lp, mp, prop: Arc::new(prop) }
}
impl App {
    fn fast(&self, what: &str, f: impl FnOnce()) {
        let t = now();
        f();
        ensure!(now() - t <= secs(0.005), "application-blocked", "{what} took {} µs", (now() - t) / 1000);
    }
    fn emit_log(&self, st: u32) {
        let id = self.w.produced(LOG);
        let (k, target) = (choose(st, 3), chance(st, 4));
        let cx = Context::current();
        let c = cx.has_active_span().then(|| cx.span().span_context().clone());
        self.w.h.with(|h| {
            let i = &mut h.items[id as usize];
            i.ctx = c.map(|c| (c, None));
            i.scope = if target { 3 } else { k };
        });
        let log = &self.log[k as usize];
        let mut r = log.create_log_record();
        r.set_body(AnyValue::Int(id as i64));
        if target {
            r.set_target("tgt");
        }
        for (k, v) in attrs(id) {
            r.add_attribute(k, v);
        }
        if id % 3 == 0 {
            r.set_severity_number(Severity::Error);
            r.set_severity_text("ERROR");
        }
        self.w.begin_item(id);
        tr!("emit log {id}");
        self.fast("emitting a log record", || log.emit(r));
        self.w.end_item(id);
    }
    fn measure(&self, st: u32) {
        let (inst, k, sk) = (choose(st, 2), choose(st, 2) as i64, pick(st, &[0, 0, 1, 2]));
        let Some(bit) = self.w.h.with(|h| {
            h.bits += 1;
            (h.bits <= 50).then_some(h.bits - 1)
        }) else {
            return;
        };
        let id = self.w.produced(METRIC);
        self.w.h.with(|h| {
            let i = &mut h.items[id as usize];
            i.bit = bit;
            i.series = format!("{}/{sk}/{k}", ["c", "h"][inst as usize]);
        });
        self.w.begin_item(id);
        tr!("measure {id} bit {bit}");
        self.fast("recording a measurement", || match inst {
            0 => self.inst[sk].0.add(1 << bit, &[KeyValue::new("k", k)]),
            _ => self.inst[sk].1.record((1u64 << bit) as f64, &[KeyValue::new("k", k)]),
        });
        self.w.end_item(id);
    }
    /// Starts a span as child of the current context or of a context another thread sent, works inside it, ends it.
    fn span(&self, st: u32, depth: u32) {
        let id = self.w.produced(SPAN);
        let parent = match choose(st, 3) {
            0 | 1 => Context::current(),
            _ => {
                let got = self.w.h.with(|h| h.carriers.last().cloned());
                match got {
                    Some((c, want)) => {
                        let cx = self.prop.extract_with_context(&Context::new(), &c);
                        let sc = cx.span().span_context().clone();
                        ensure!(sc.trace_id() == want.trace_id() && sc.span_id() == want.span_id() && sc.trace_flags() == want.trace_flags() && sc.is_remote(), "altered", "sent {want:?}, received {sc:?}");
                        cx
                    }
                    None => Context::current(),
                }
            }
        };
        let pc = parent.span().span_context().clone();
        let pc = pc.is_valid().then_some(pc);
        let name = format!("s{id}");
        let k = choose(st, 3);
        let build = SpanBuilder::from_name(name).with_kind(if id % 2 == 0 { SpanKind::Server } else { SpanKind::Client }).with_attributes(kvs(id));
        let cx = if self.global {
            let s = build.start_with_context(&global::tracer_with_scope(scope(k)), &parent);
            parent.with_span(s)
        } else {
            let s = build.start_with_context(&self.tp.tracer_with_scope(scope(k)), &parent);
            parent.with_span(s)
        };
        for i in 0..id % 3 {
            cx.span().add_event(format!("e{i}"), kvs(i));
        }
        if id % 4 == 0 {
            cx.span().set_status(Status::error("bad"));
        }
        let sc = cx.span().span_context().clone();
        self.w.h.with(|h| {
            let i = &mut h.items[id as usize];
            i.sampled = sc.is_sampled();
            i.scope = k;
            i.ctx = Some((sc.clone(), pc));
        });
        tr!("span {id} started");
        let g = cx.clone().attach();
        for _ in 0..choose(st, 3) {
            match choose(st, 5) {
                0 => self.emit_log(st),
                1 => self.measure(st),
                2 if depth < 2 => self.span(st, depth + 1),
                3 => {
                    let mut m = HashMap::new();
                    self.prop.inject_context(&Context::current(), &mut m);
                    if sc.is_valid() {
                        self.w.h.with(|h| h.carriers.push((m, sc.clone())));
                    }
                }
                _ => thread::sleep(Duration::from_micros(choose(st, 1_000_000) as u64)),
            }
        }
        drop(g);
        // a dropped tracer provider makes spans that do nothing
        self.w.begin_item(id);
        self.fast("ending a span", || cx.span().end());
        tr!("span {id} ended");
        self.w.end_item(id);
    }
    fn call(&self, sig: usize, kind: K) -> bool {
        let (s, t) = (seq(), now());
        tr!("{kind:?} of {} called", NAMES[sig]);
        let r: OTelSdkResult = match (sig, kind) {
            (SPAN, K::Flush) => self.tp.force_flush(),
            (SPAN, _) => self.tp.shutdown(),
            (LOG, K::Flush) => self.lp.force_flush(),
            (LOG, _) => self.lp.shutdown(),
            (_, K::Flush) => self.mp.force_flush(),
            (_, _) => self.mp.shutdown(),
        };
        tr!("{kind:?} of {} returned {r:?}", NAMES[sig]);
        let ok = r.is_ok();
        self.w.h.with(|h| h.calls.push(Call { sig, kind, s, e: seq(), dur: now() - t, ok }));
        probe(if ok { "call_ok" } else { "call_err" });
        ok
    }
    fn act(&self, st: u32, calls: bool) {
        match choose_w(st, &[6, 3, 3, 3, calls as u32, calls as u32]) {
            0 => self.span(st, 0),
            1 => self.emit_log(st),
            2 => self.measure(st),
            3 => thread::sleep(Duration::from_micros(choose(st, 3_000_000) as u64)),
            4 => {
                self.call(choose(st, 3) as usize, K::Flush);
            }
            _ if chance(st, 6) => {
                self.call(choose(st, 3) as usize, K::Shutdown);
            }
            _ => {}
        }
    }
}
/// Everything of this signal produced from `since` on, before `call` began, is in an accepted request that began before the call returned.
fn complete(h: &H, w: &World, sig: usize, since: u64, c: &Call) {
    let reqs: Vec<&Req> = h.reqs.iter().filter(|r| r.sig == sig && r.s < c.e && r.accepted).collect();
    for (id, i) in h.items.iter().enumerate().filter(|(_, i)| i.sig == sig && i.sampled && i.s > since && i.e != 0 && i.e < c.s) {
        let got = if sig == METRIC {
            let last = reqs.last().and_then(|r| r.series.get(&i.series)).copied().unwrap_or(0);
            let all = reqs.iter().fold(0, |a, r| a | r.series.get(&i.series).copied().unwrap_or(0));
            (if w.temp == Temporality::Delta { all } else { last }) >> i.bit & 1 == 1
        } else {
            reqs.iter().any(|r| r.items.contains(&(id as u32)))
        };
        ensure!(got, "lost", "{} item {id} was produced while the collector worked, but {c:?} succeeded and no accepted request contains it", NAMES[sig]);
        probe("delivered");
    }
}
fn e2e(kinds: u32) {
    let rt = if kinds == 0 { Rt::Thread } else { pick(S_CFG, &[Rt::Tokio, Rt::TokioCurrent]) };
    let rts = [0; 3].map(|_: i32| if kinds == 0 || chance(S_CFG, 3) { Rt::Thread } else { rt });
    let queue = [0; 2].map(|_: i32| pick(S_CFG, &[128usize, 128, 3, 8]));
    let json = chance(S_CFG, 4);
    let temp = pick(S_CFG, &[Temporality::Delta, Temporality::Cumulative]);
    let plan = [0; 3].map(|_: i32| match choose(S_CFG, 5) {
        0 => CALM,
        1 => Plan { ok: 1, status: 1, err: 1, slow: 0, hang: 0 },
        2 => Plan { ok: 3, status: 1, err: 1, slow: 1, hang: 0 },
        3 => Plan { ok: 2, status: 0, err: 1, slow: 1, hang: 1 },
        _ => Plan { ok: 0, status: 1, err: 1, slow: 0, hang: 0 },
    });
    with_runtime(rt, || {
        let w = Arc::new(World { h: Default::default(), plan: Shared::new(plan), temp });
        let app = build(&w, rts, queue, json);
        let calls = chance(S_CFG, 2);
        let v: Vec<_> = (0..1 + choose(S_CFG, 3)).map(|i| {
            let app = app.clone();
            thread::spawn(move || {
                for _ in 0..choose(2 + i, 8) {
                    app.act(2 + i, calls);
                }
            })
        }).collect();
        // the collector may go away and come back at any time
        for _ in 0..choose(S_CFG, 3) {
            thread::sleep(Duration::from_micros(choose(S_CFG, 5_000_000) as u64));
            let k = choose(S_CFG, 3) as usize;
            w.plan.with(|p| p[k] = if p[k].ok == 0 { CALM } else { Plan { ok: 0, status: 1, err: 1, slow: 0, hang: 0 } });
        }
        for t in v {
            t.join().unwrap();
        }
        w.plan.with(|p| *p = [CALM; 3]);
        let t0 = seq();
        let mut since = [0; 3];
        let mut dead = [false; 3];
        for sig in 0..3 {
            dead[sig] = w.h.with(|h| h.calls.iter().any(|c| c.sig == sig && c.kind == K::Shutdown));
            // requests in progress end within 10 s each, the queue drains, and flushing works again
            let mut ok = dead[sig];
            for _ in 0..4 {
                if !ok {
                    ok = app.call(sig, K::Flush);
                }
                if !ok {
                    // a full queue makes it fail at once
                    thread::sleep(Duration::from_secs(6));
                }
            }
            ensure!(ok, "no-recovery", "flushing {} still fails after the collector recovered", NAMES[sig]);
            // with a small queue, what was produced before this flush succeeded may have found it full
            since[sig] = if sig == METRIC || queue[sig] >= 128 { t0 } else { seq() };
        }
        if queue.iter().any(|q| *q < 128) {
            // at most one span and two records
            app.span(1, 9);
        } else {
            for _ in 0..choose(S_CFG, 4) {
                app.act(1, false);
            }
        }
        let mode = choose(S_CFG, 3);
        let global = app.global;
        for sig in 0..3 {
            if dead[sig] {
                continue;
            }
            match mode {
                0 => {
                    ensure!(app.call(sig, K::Flush), "no-recovery", "a flush of {} fails although the collector works", NAMES[sig]);
                }
                1 => {
                    ensure!(app.call(sig, K::Shutdown), "no-recovery", "the shutdown of {} fails although the collector works", NAMES[sig]);
                }
                _ => {}
            }
        }
        if mode == 1 {
            for _ in 0..choose(S_CFG, 4) {
                app.act(1, false);
            }
            thread::sleep(Duration::from_secs(70));
        }
        let (s, t) = (seq(), now());
        tr!("drop");
        drop(app);
        tr!("dropped");
        let c = Call { sig: 0, kind: K::Drop, s, e: seq(), dur: now() - t, ok: true };
        w.h.with(|h| {
            if mode == 2 && !global {
                for sig in 0..3 {
                    if !dead[sig] {
                        h.calls.push(Call { sig, ..c.clone() });
                    }
                }
            }
            // requests of a signal already shut down may still be waiting for a timeout
            ensure!(rts.iter().any(|r| *r != Rt::Thread) || c.dur <= secs(15.1), "application-blocked", "dropping thread-based providers took {:.3}s", c.dur as f64 / 1e9);
            for c in h.calls.iter().filter(|c| c.ok) {
                complete(h, &w, c.sig, since[c.sig], c);
            }
            // the first successful flush delivers what was produced before it while the collector worked, if the queue cannot have been full
            for c in &h.calls {
                // flushing a runtime-based pipeline or a reader has no limit of its own
                let limit = if rts[c.sig] == Rt::Thread && (c.sig != METRIC || c.kind != K::Flush) { 5.1 } else { 1e6 };
                ensure!(c.dur <= secs(limit), "application-blocked", "{c:?} took {:.3}s", c.dur as f64 / 1e9);
            }
            count("x05.requests", h.reqs.len() as u64);
            count("x05.accepted", h.reqs.iter().filter(|r| r.accepted).count() as u64);
            count("x05.items", h.items.len() as u64);
        });
    });
}
macro_rules! sc {
    ($p:expr, $n:expr, $w:expr, $f:expr, $o:expr) => {
        Scenario { prop: $p, name: $n, weight: $w, run: $f, opts: $o }
    };
}
pub const SCEN: &[Scenario] = &[
    sc!("X05", "threads", 1, || e2e(0), NOSTALL),
    sc!("X05", "runtimes", 1, || e2e(1), NOSTALL),
];
