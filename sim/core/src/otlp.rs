//! X02 and X05: export over HTTP to a simulated collector.
use crate::batch::S_CFG;
use crate::otlp_text as tx;
use bytes::Bytes;
use opentelemetry_http::{HttpClient, HttpError};
use opentelemetry_otlp::{Protocol, WithExportConfig as _, WithHttpConfig as _};
use opentelemetry_proto::tonic::collector::{logs::v1::ExportLogsServiceRequest, metrics::v1::ExportMetricsServiceRequest, trace::v1::ExportTraceServiceRequest};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogBatch, LogExporter as _};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter as _;
use opentelemetry_sdk::metrics::Temporality;
use opentelemetry_sdk::trace::SpanExporter as _;
use opentelemetry_sdk::Resource;
use prost::Message;
use simfw::*;
use std::cell::Cell;
use std::future::Future;
use std::pin::pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::thread;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sig {
    Span,
    Log,
    Metric,
    Zipkin,
}
thread_local! {
    static CUR: Cell<usize> = const { Cell::new(usize::MAX) };
}
#[derive(Clone, Debug)]
struct Req {
    export: usize,
    /// the caller made the export in progress end before this request was answered
    uri: String,
    items: Vec<String>,
    answer: Option<Result<u16, String>>,
}
#[derive(Clone, Debug)]
struct Exp {
    s: u64,
    e: u64,
    want: Vec<String>,
    res: Option<Result<(), String>>,
    already: bool,
}
#[derive(Default)]
struct H {
    reqs: Vec<Req>,
    exps: Vec<Exp>,
    shut: Vec<(u64, u64)>,
    targets: Vec<String>,
}
#[derive(Clone, Copy, Debug)]
struct Plan {
    ok: u32,
    status: u32,
    err: u32,
    panic: u32,
    hang: u32,
    slow: u32,
}
#[derive(Debug)]
struct Client {
    h: Arc<Shared<H>>,
    p: Plan,
    sig: Sig,
    stream: u32,
}
/// Pending `n` times.
async fn yields(n: u32) {
    let mut k = 0;
    std::future::poll_fn(|cx| {
        k += 1;
        if k > n {
            return Poll::Ready(());
        }
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}
pub fn decode(sig: Sig, json: bool, body: &[u8], target: impl Fn(&str) -> bool) -> Vec<String> {
    fn get<T: Message + Default + serde::de::DeserializeOwned>(json: bool, b: &[u8]) -> T {
        let r = if json { serde_json::from_slice(b).map_err(|e| e.to_string()) } else { T::decode(b).map_err(|e| e.to_string()) };
        r.unwrap_or_else(|e| violation("undecodable", &format!("{e}: {:?}", String::from_utf8_lossy(b))))
    }
    match sig {
        Sig::Span => tx::trace_request(&get::<ExportTraceServiceRequest>(json, body)),
        Sig::Log => tx::logs_request(&get::<ExportLogsServiceRequest>(json, body), target),
        Sig::Metric => tx::metrics_request(&get::<ExportMetricsServiceRequest>(json, body)),
        Sig::Zipkin => {
            let v: Vec<serde_json::Value> = serde_json::from_slice(body).unwrap_or_else(|e| violation("undecodable", &e.to_string()));
            v.iter()
                .map(|s| {
                    let mut tags: Vec<String> = s["tags"].as_object().map(|m| m.iter().map(|(k, v)| format!("{k}={}", v.as_str().unwrap_or("?"))).collect()).unwrap_or_default();
                    tags.sort();
                    let ann: Vec<String> = s["annotations"].as_array().map(|a| a.iter().map(|a| format!("{}@{}", a["value"].as_str().unwrap_or("?"), a["timestamp"])).collect()).unwrap_or_default();
                    format!("{} {} {} {} {} {} {} {tags:?} {ann:?}", s["traceId"], s["id"], s["parentId"], s["name"], s["kind"], s["timestamp"], s["duration"])
                })
                .collect()
        }
    }
}
fn zipkin_text(s: &opentelemetry_sdk::trace::SpanData) -> String {
    use opentelemetry::trace::{SpanKind, Status};
    let us = |t: std::time::SystemTime| t.duration_since(std::time::UNIX_EPOCH).unwrap_or_default().as_micros();
    let mut tags: Vec<String> = s.attributes.iter().map(|k| format!("{}={}", k.key, k.value)).collect();
    tags.push(format!("otel.library.name={}", s.instrumentation_scope.name()));
    if let Some(v) = s.instrumentation_scope.version() {
        tags.push(format!("otel.library.version={v}"));
    }
    match &s.status {
        Status::Unset => {}
        Status::Ok => tags.push("otel.status_code=OK".into()),
        Status::Error { description } => {
            tags.push("otel.status_code=ERROR".into());
            tags.push(format!("error={description}"));
        }
    }
    tags.sort();
    let ann: Vec<String> = s.events.iter().map(|e| {
        format!("{}@{}", e.name, us(e.timestamp))
    }).collect();
    let kind = match s.span_kind {
        SpanKind::Internal => "null",
        SpanKind::Client => "\"CLIENT\"",
        SpanKind::Server => "\"SERVER\"",
        SpanKind::Producer => "\"PRODUCER\"",
        SpanKind::Consumer => "\"CONSUMER\"",
    };
    format!("\"{}\" \"{}\" \"{}\" {:?} {kind} {} {} {tags:?} {ann:?}", s.span_context.trace_id(), s.span_context.span_id(), s.parent_span_id, s.name, us(s.start_time), s.end_time.duration_since(s.start_time).unwrap_or_default().as_micros())
}
#[async_trait::async_trait]
impl HttpClient for Client {
    async fn send_bytes(&self, r: http::Request<Bytes>) -> Result<http::Response<Bytes>, HttpError> {
        let json = r.headers().get("content-type").is_some_and(|c| c == "application/json");
        let targets = self.h.with(|h| h.targets.clone());
        let items = decode(self.sig, json, r.body(), |id| targets.iter().any(|t| t == id));
        let i = self.h.with(|h| {
            h.reqs.push(Req { export: CUR.get(), uri: format!("{} {}", r.method(), r.uri()), items, answer: None });
            h.reqs.len() - 1
        });
        let p = self.p;
        let s = self.stream;
        match choose_w(s, &[6, p.slow, p.slow]) {
            0 => {}
            1 => yields(1 + choose(s, 3)).await,
            _ => {
                fault("response-delay");
                thread::sleep(Duration::from_micros(1 + choose(s, 3_000_000) as u64));
                yields(choose(s, 2)).await
            }
        }
        let ans = match choose_w(s, &[p.ok, p.status, p.err, p.panic, p.hang]) {
            0 => Ok(pick(s, &[200u16, 202, 204, 299])),
            1 => {
                fault("error-status");
                Ok(pick(s, &[500u16, 503, 429, 400, 404, 413, 302, 199, 100, 599]))
            }
            2 => {
                fault("transport-error");
                Err("connection reset".to_string())
            }
            3 => inject_panic(),
            _ => {
                fault("response-hang");
                std::future::pending().await
            }
        };
        tr!("request {i} answered {ans:?}");
        self.h.with(|h| h.reqs[i].answer = Some(ans.clone()));
        match ans {
            Ok(c) => Ok(http::Response::builder().status(c).body(Bytes::from_static(if c % 2 == 0 { b"" } else { b"garbage" })).unwrap()),
            Err(e) => Err(e.into()),
        }
    }
}
enum Ex {
    Span(opentelemetry_otlp::SpanExporter),
    Log(opentelemetry_otlp::LogExporter),
    Metric(opentelemetry_otlp::MetricExporter),
    Zipkin(opentelemetry_zipkin::ZipkinExporter),
}
/// Polls to completion, or gives up after some polls (a timeout, or a runtime that goes away).
fn drive<T>(stream: u32, cancel: bool, f: impl Future<Output = T>) -> Option<T> {
    let mut f = pin!(f);
    let limit = if cancel { choose(stream, 6) } else { 200 };
    let mut n = 0;
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            return Some(r);
        }
        if n >= limit {
            fault("cancelled-export");
            return None;
        }
        n += 1;
        thread::yield_now();
    }
}
impl Ex {
    fn export(&self, ids: &[u32], r: &Resource, stream: u32, cancel: bool) -> Option<OTelSdkResult> {
        match self {
            Ex::Span(e) => drive(stream, cancel, e.export(ids.iter().map(|i| tx::span(*i)).collect())),
            Ex::Zipkin(e) => drive(stream, cancel, e.export(ids.iter().map(|i| tx::span(*i)).collect())),
            Ex::Log(e) => {
                let l: Vec<_> = ids.iter().map(|i| tx::log(*i)).collect();
                let b: Vec<_> = l.iter().map(|l| (&l.0, &l.1)).collect();
                drive(stream, cancel, e.export(LogBatch::new(&b)))
            }
            Ex::Metric(e) => {
                let mut rm = tx::metrics(ids, r);
                drive(stream, cancel, e.export(&mut rm))
            }
        }
    }
    fn want(&self, ids: &[u32], r: &Resource) -> Vec<String> {
        let mut v: Vec<String> = match self {
            Ex::Span(_) => ids.iter().map(|i| tx::span_text(&tx::span(*i), r)).collect(),
            Ex::Zipkin(_) => ids.iter().map(|i| zipkin_text(&tx::span(*i))).collect(),
            Ex::Log(_) => ids.iter().map(|i| tx::log(*i)).map(|l| tx::log_text(&l.0, &l.1, r)).collect(),
            Ex::Metric(_) => tx::metric_texts(&tx::metrics(ids, r)),
        };
        v.sort();
        v
    }
    /// None: needs exclusive access, or has no shutdown
    fn shut(&self) -> Option<OTelSdkResult> {
        match self {
            Ex::Log(e) => Some(e.shutdown()),
            Ex::Metric(e) => Some(e.shutdown()),
            _ => None,
        }
    }
    fn shut_mut(&mut self) -> Option<OTelSdkResult> {
        match self {
            Ex::Span(e) => Some(e.shutdown()),
            e => e.shut(),
        }
    }
}
fn export(h: &Arc<Shared<H>>, ex: &Ex, r: &Resource, st: u32, base: u32, hang: bool) {
    let n = if chance(st, 10) { 5 + choose(st, 60) } else { choose(st, 5) };
    let ids: Vec<u32> = (0..n).map(|i| base + i * 13 + choose(st, 13)).collect();
    let want = ex.want(&ids, r);
    let s = seq();
    let i = h.with(|h| {
        if let Ex::Log(_) = ex {
            h.targets.extend(ids.iter().filter(|i| tx::log(**i).0.target().is_some()).map(|i| format!("s\"log-{i}\"")));
        }
        h.exps.push(Exp { s, e: 0, want, res: None, already: false });
        h.exps.len() - 1
    });
    CUR.set(i);
    let cancel = hang || chance(st, 8);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.export(&ids, r, st, cancel)));
    CUR.set(usize::MAX);
    tr!("export {i} {ids:?} -> {res:?}");
    h.with(|h| {
        let x = &mut h.exps[i];
        x.e = seq();
        if let Ok(Some(r)) = res {
            x.already = matches!(r, Err(OTelSdkError::AlreadyShutdown));
            x.res = Some(r.map_err(|e| e.to_string()));
        }
    });
}
fn check(h: &H, sig: Sig) {
    for (i, x) in h.exps.iter().enumerate() {
        let reqs: Vec<&Req> = h.reqs.iter().filter(|r| r.export == i).collect();
        let d = || format!("export {i}: {:?} -> {:?}\nrequests {reqs:#?}", x.want, x.res);
        for r in &reqs {
            let mut items = r.items.clone();
            items.sort();
            if items != x.want {
                let bad: Vec<_> = items.iter().filter(|t| !x.want.contains(t)).collect();
                let miss: Vec<_> = x.want.iter().filter(|t| !items.contains(t)).collect();
                violation("wrong-content", &format!("a request does not contain exactly the batch\nunexpected: {bad:#?}\nmissing: {miss:#?}"));
            }
            let path = match sig {
                Sig::Span => "POST http://collector/v1/traces",
                Sig::Log => "POST http://collector/v1/logs",
                Sig::Metric => "POST http://collector/v1/metrics",
                Sig::Zipkin => "POST http://collector/api/v2/spans",
            };
            ensure!(r.uri == path, "wrong-target", "{}", r.uri);
        }
        ensure!(reqs.len() <= 1, "several-requests", "{}", d());
        let accepted = reqs.iter().any(|r| matches!(r.answer, Some(Ok(c)) if (200..300).contains(&c)));
        let answered = reqs.iter().all(|r| r.answer.is_some());
        match &x.res {
            Some(Ok(())) => ensure!(accepted, "false-success", "{}", d()),
            Some(Err(_)) => ensure!(!accepted && answered, "false-failure", "{}", d()),
            None => {}
        }
        let after = h.shut.iter().any(|s| s.1 < x.s);
        let before = h.shut.iter().all(|s| s.0 > x.e);
        if after {
            ensure!(reqs.is_empty(), "request-after-shutdown", "{}", d());
            ensure!(x.res.is_none() || x.already, "export-after-shutdown", "does not report it: {}", d());
        }
        if before {
            ensure!(!x.already, "not-shut-down", "{}", d());
            ensure!(x.res.is_none() || reqs.len() == 1, "no-request", "{}", d());
        }
    }
}
fn http(sig: Sig) {
    let plan = match choose(S_CFG, 4) {
        0 => Plan { ok: 1, status: 0, err: 0, panic: 0, hang: 0, slow: 1 },
        1 => Plan { ok: 2, status: 1, err: 1, panic: 0, hang: 0, slow: 1 },
        2 => Plan { ok: 4, status: 1, err: 1, panic: 1, hang: 0, slow: 0 },
        _ => Plan { ok: 3, status: 1, err: 1, panic: 0, hang: 1, slow: 2 },
    };
    let json = chance(S_CFG, 3);
    let r = tx::res(choose(S_CFG, 2));
    let h: Arc<Shared<H>> = Default::default();
    let c = Client { h: h.clone(), p: plan, sig, stream: 20 };
    let proto = if json { Protocol::HttpJson } else { Protocol::HttpBinary };
    let ex = match sig {
        Sig::Span => {
            let mut e = opentelemetry_otlp::SpanExporter::builder().with_http().with_http_client(c).with_endpoint("http://collector/v1/traces").with_protocol(proto).build().unwrap();
            e.set_resource(&r);
            Ex::Span(e)
        }
        Sig::Log => {
            let mut e = opentelemetry_otlp::LogExporter::builder().with_http().with_http_client(c).with_endpoint("http://collector/v1/logs").with_protocol(proto).build().unwrap();
            e.set_resource(&r);
            Ex::Log(e)
        }
        Sig::Metric => Ex::Metric(opentelemetry_otlp::MetricExporter::builder().with_http().with_http_client(c).with_endpoint("http://collector/v1/metrics").with_protocol(proto).with_temporality(Temporality::Delta).build().unwrap()),
        Sig::Zipkin => Ex::Zipkin(opentelemetry_zipkin::ZipkinExporter::builder().with_http_client(c).with_collector_endpoint("http://collector/api/v2/spans").build().unwrap()),
    };
    let ex = Arc::new(ex);
    let shuts = chance(S_CFG, 2);
    let hang = plan.hang > 0;
    let v: Vec<_> = (0..1 + choose(S_CFG, 3)).map(|i| {
        let (ex, h, r) = (ex.clone(), h.clone(), r.clone());
        thread::spawn(move || {
            let st = 2 + i;
            for k in 0..1 + choose(st, 4) {
                if shuts && chance(st, 5) {
                    let s = seq();
                    if ex.shut().is_some() {
                        h.with(|h| h.shut.push((s, seq())));
                    }
                } else {
                    export(&h, &ex, &r, st, i * 100_000 + k * 10_000, hang);
                }
            }
        })
    }).collect();
    for t in v {
        let _ = t.join();
    }
    let mut ex = Arc::into_inner(ex).unwrap();
    if chance(S_CFG, 2) {
        let s = seq();
        if ex.shut_mut().is_some() {
            h.with(|h| h.shut.push((s, seq())));
        }
        export(&h, &ex, &r, 1, 5000, hang);
    }
    h.with(|h| {
        check(h, sig);
        count("x02.exports", h.exps.len() as u64);
        count("x02.requests", h.reqs.len() as u64);
    });
}
macro_rules! sc {
    ($p:expr, $n:expr, $w:expr, $f:expr, $o:expr) => {
        Scenario { prop: $p, name: $n, weight: $w, run: $f, opts: $o }
    };
}
pub const SCEN: &[Scenario] = &[
    sc!("X02", "otlp-http-spans", 2, || http(Sig::Span), DEFAULT),
    sc!("X02", "otlp-http-logs", 2, || http(Sig::Log), DEFAULT),
    sc!("X02", "otlp-http-metrics", 2, || http(Sig::Metric), DEFAULT),
    sc!("X02", "zipkin", 1, || http(Sig::Zipkin), DEFAULT),
];
