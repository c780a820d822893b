//! X03 (gRPC) and X08 (HTTP): the OTLP exporters with their real clients over a simulated network to a simulated collector.
use crate::otlp_text as tx;
use bytes::{Bytes, BytesMut};
use opentelemetry_otlp::{Protocol, WithExportConfig as _, WithHttpConfig as _, WithTonicConfig as _};
use opentelemetry_proto::tonic::collector::{logs::v1::ExportLogsServiceRequest, metrics::v1::ExportMetricsServiceRequest, trace::v1::ExportTraceServiceRequest};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogBatch, LogExporter as _};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter as _;
use opentelemetry_sdk::metrics::Temporality;
use opentelemetry_sdk::trace::SpanExporter as _;
use opentelemetry_sdk::Resource;
use prost::Message;
use simfw::*;
use std::collections::HashMap;
use std::io::Read;
use std::sync::Arc;
use std::thread;
use std::time::Duration;
use tokio::io::{AsyncReadExt as _, AsyncWriteExt as _};
use tokio::net::{TcpListener, TcpStream};

pub const S_CFG: u32 = 0;
const S_SRV: u32 = 30;
const PORT: u16 = 4317;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Sig {
    Span,
    Log,
    Metric,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Cl {
    Tonic,
    Hyper,
    Reqwest,
    /// the one the builder makes by default
    Blocking,
}
#[derive(Clone, Debug)]
struct Req {
    export: usize,
    /// the collector began to answer with success
    ok: bool,
    /// the collector began to answer and did not end at once with its answer's head
    headers: bool,
}
#[derive(Clone, Debug)]
struct Exp {
    s: u64,
    e: u64,
    dur: u64,
    want: Vec<String>,
    res: Option<Result<(), String>>,
    already: bool,
}
#[derive(Default)]
struct H {
    reqs: Vec<Req>,
    exps: Vec<Exp>,
    shut: Vec<(u64, u64)>,
    targets: Vec<String>,
    running: u32,
    max_running: u32,
}
/// Weights of what the collector does with a request.
#[derive(Clone, Copy, Debug)]
struct Plan {
    ok: u32,
    status: u32,
    broken: u32,
    hang: u32,
    slow: u32,
}
const CALM: Plan = Plan { ok: 1, status: 0, broken: 0, hang: 0, slow: 0 };
struct World {
    h: Shared<H>,
    plan: Shared<Plan>,
    sig: Sig,
    json: bool,
}
impl World {
    fn arrived(&self, body: &[u8]) -> usize {
        fn get<T: Message + Default + serde::de::DeserializeOwned>(json: bool, b: &[u8]) -> T {
            let r = if json { serde_json::from_slice(b).map_err(|e| e.to_string()) } else { T::decode(b).map_err(|e| e.to_string()) };
            r.unwrap_or_else(|e| violation("undecodable", &format!("{e}: {:?}", String::from_utf8_lossy(b))))
        }
        let _g = Atomic::new();
        let targets = self.h.with(|h| h.targets.clone());
        let mut items = match self.sig {
            Sig::Span => tx::trace_request(&get::<ExportTraceServiceRequest>(self.json, body)),
            Sig::Log => tx::logs_request(&get::<ExportLogsServiceRequest>(self.json, body), |id| targets.iter().any(|t| t == id)),
            Sig::Metric => tx::metrics_request(&get::<ExportMetricsServiceRequest>(self.json, body)),
        };
        items.sort();
        self.h.with(|h| {
            let Some(i) = h.exps.iter().position(|x| x.want == items) else {
                let near = h.exps.iter().find(|x| x.want.iter().any(|t| items.contains(t))).map(|x| x.want.clone()).unwrap_or_default();
                let bad: Vec<_> = items.iter().filter(|t| !near.contains(t)).collect();
                let miss: Vec<_> = near.iter().filter(|t| !items.contains(t)).collect();
                violation("wrong-content", &format!("a request is not one of the batches\nunexpected: {bad:#?}\nmissing: {miss:#?}"))
            };
            ensure!(!h.reqs.iter().any(|r| r.export == i), "sent-twice", "the batch of export {i} was sent twice");
            ensure!(!h.shut.iter().any(|s| s.1 != 0 && s.1 < h.exps[i].s), "request-after-shutdown", "export {i} began after shutdown returned, and its request arrived");
            tr!("request {} of export {i}", h.reqs.len());
            h.reqs.push(Req { export: i, ok: false, headers: false });
            h.reqs.len() - 1
        })
    }
    fn headers(&self, r: usize) {
        self.h.with(|h| h.reqs[r].headers = true);
    }
    fn ok(&self, r: usize) {
        tr!("request {r}: collector accepts");
        self.h.with(|h| h.reqs[r].ok = true);
    }
}
// ---------------------------------------------------------------- collector
fn serve(w: Arc<World>, grpc: bool) {
    let (tx, rx) = std::sync::mpsc::channel();
    thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let l = TcpListener::bind(("127.0.0.1", PORT)).await.unwrap();
            tx.send(()).unwrap();
            loop {
                let (s, _) = l.accept().await.unwrap();
                let w = w.clone();
                tokio::spawn(async move {
                    if grpc {
                        let _ = grpc_conn(w, s).await;
                    } else {
                        let _ = http_conn(w, s).await;
                    }
                });
            }
        })
    });
    rx.recv().unwrap();
}
async fn slow(p: &Plan) {
    if p.slow > 0 && !chance(S_SRV, 1 + p.slow) {
        fault("collector-slow");
        tokio::time::sleep(Duration::from_micros(1 + choose(S_SRV, 3_000_000) as u64)).await;
    }
}
async fn forever() {
    fault("collector-hangs");
    std::future::pending::<()>().await
}
async fn grpc_conn(w: Arc<World>, s: TcpStream) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
    let mut b = h2::server::Builder::new();
    if chance(S_SRV, 3) {
        b.initial_window_size(100);
    }
    let mut c = b.handshake::<_, Bytes>(s).await?;
    let p = w.plan.with(|p| *p);
    let goaway = p.broken > 0 && chance(S_SRV, 6);
    while let Some(r) = c.accept().await {
        let (req, resp) = r?;
        let w = w.clone();
        if goaway {
            fault("collector-goaway");
            c.graceful_shutdown();
        }
        let abrupt = p.broken > 0 && chance(S_SRV, 8);
        if abrupt {
            fault("collector-drops-connection");
            return Ok(());
        }
        tokio::spawn(async move {
            let _ = grpc_req(w, req, resp).await;
        });
    }
    Ok(())
}
async fn grpc_req(w: Arc<World>, req: http::Request<h2::RecvStream>, mut resp: h2::server::SendResponse<Bytes>) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
    let (head, mut body) = req.into_parts();
    let want = match w.sig {
        Sig::Span => "/opentelemetry.proto.collector.trace.v1.TraceService/Export",
        Sig::Log => "/opentelemetry.proto.collector.logs.v1.LogsService/Export",
        Sig::Metric => "/opentelemetry.proto.collector.metrics.v1.MetricsService/Export",
    };
    ensure!(head.uri.path() == want, "wrong-target", "{}", head.uri);
    ensure!(head.headers.get("x-key").is_some_and(|v| v == "v1"), "headers-lost", "{:?}", head.headers);
    let mut data = BytesMut::new();
    while let Some(d) = body.data().await {
        let d = d?;
        body.flow_control().release_capacity(d.len())?;
        data.extend_from_slice(&d);
    }
    ensure!(data.len() >= 5 && u32::from_be_bytes(data[1..5].try_into().unwrap()) as usize == data.len() - 5, "undecodable", "message framing {:?}", &data[..data.len().min(5)]);
    let msg = if data[0] == 1 {
        let mut v = vec![];
        flate2::read::GzDecoder::new(&data[5..]).read_to_end(&mut v).unwrap_or_else(|e| violation("undecodable", &e.to_string()));
        v
    } else {
        data[5..].to_vec()
    };
    let i = w.arrived(&msg);
    let p = w.plan.with(|p| *p);
    slow(&p).await;
    let head = |c: u16| http::Response::builder().status(c).header("content-type", "application/grpc").body(()).unwrap();
    let trailers = |c: u32| {
        let mut t = http::HeaderMap::new();
        t.insert("grpc-status", c.to_string().parse().unwrap());
        t.insert("grpc-message", "because".parse().unwrap());
        t
    };
    let empty = Bytes::from_static(&[0, 0, 0, 0, 0]);
    match choose_w(S_SRV, &[p.ok, p.status, p.broken, p.hang]) {
        0 => {
            w.ok(i);
            w.headers(i);
                    let mut s = resp.send_response(head(200), false)?;
            if chance(S_SRV, 4) {
                slow(&p).await;
            }
            s.send_data(empty, false)?;
            s.send_trailers(trailers(0))?;
        }
        1 => {
            fault("collector-status");
            let c = 1 + choose(S_SRV, 16);
            match choose(S_SRV, 3) {
                0 => {
                    let mut r = head(200);
                    *r.headers_mut() = trailers(c);
                    r.headers_mut().insert("content-type", "application/grpc".parse().unwrap());
                    resp.send_response(r, true)?;
                }
                1 => {
                    w.headers(i);
                    let mut s = resp.send_response(head(200), false)?;
                    s.send_trailers(trailers(c))?;
                }
                _ => {
                    resp.send_response(http::Response::builder().status(pick(S_SRV, &[503u16, 429, 404, 400, 302])).body(()).unwrap(), true)?;
                }
            }
        }
        2 => {
            fault("collector-broken");
            match choose(S_SRV, 4) {
                0 => resp.send_reset(pick(S_SRV, &[h2::Reason::REFUSED_STREAM, h2::Reason::INTERNAL_ERROR, h2::Reason::NO_ERROR, h2::Reason::CANCEL, h2::Reason::ENHANCE_YOUR_CALM])),
                1 => {
                    // a message, but the call fails after all
                    w.headers(i);
                    let mut s = resp.send_response(head(200), false)?;
                    s.send_data(empty, false)?;
                    s.send_trailers(trailers(1 + choose(S_SRV, 16)))?;
                }
                2 => {
                    // ends without a status: tonic takes that as success
                    w.ok(i);
                    w.headers(i);
                    let mut s = resp.send_response(head(200), false)?;
                    s.send_data(empty, true)?;
                }
                _ => {
                    // reset after the message
                    w.headers(i);
                    let mut s = resp.send_response(head(200), false)?;
                    s.send_data(empty, false)?;
                    slow(&p).await;
                    s.send_reset(h2::Reason::INTERNAL_ERROR);
                }
            }
        }
        _ => {
            if chance(S_SRV, 2) {
                w.headers(i);
                    let mut s = resp.send_response(head(200), false)?;
                s.send_data(empty, false)?;
                fault("collector-hangs");
                tokio::time::sleep(Duration::from_secs(100)).await;
                return Ok(());
            }
            forever().await;
        }
    }
    Ok(())
}
async fn http_conn(w: Arc<World>, mut s: TcpStream) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
    let mut buf = BytesMut::new();
    loop {
        let end = loop {
            if let Some(k) = buf.windows(4).position(|x| x == b"\r\n\r\n") {
                break k;
            }
            if s.read_buf(&mut buf).await? == 0 {
                return Ok(());
            }
        };
        let head = String::from_utf8_lossy(&buf[..end]).to_string();
        let mut lines = head.split("\r\n");
        let first = lines.next().unwrap().to_string();
        let hs: HashMap<String, String> = lines.filter_map(|l| l.split_once(": ")).map(|(a, b)| (a.to_lowercase(), b.to_string())).collect();
        let want = match w.sig {
            Sig::Span => "POST /v1/traces HTTP/1.1",
            Sig::Log => "POST /v1/logs HTTP/1.1",
            Sig::Metric => "POST /v1/metrics HTTP/1.1",
        };
        ensure!(first == want, "wrong-target", "{first}");
        ensure!(hs.get("x-key").is_some_and(|v| v == "v1"), "headers-lost", "{hs:?}");
        let ct = if w.json { "application/json" } else { "application/x-protobuf" };
        ensure!(hs.get("content-type").is_some_and(|v| v == ct), "headers-lost", "{hs:?}");
        let n: usize = hs.get("content-length").and_then(|v| v.parse().ok()).unwrap_or_else(|| violation("undecodable", &head));
        while buf.len() < end + 4 + n {
            if s.read_buf(&mut buf).await? == 0 {
                return Ok(());
            }
        }
        let body = buf[end + 4..end + 4 + n].to_vec();
        let i = w.arrived(&body);
        let _ = buf.split_to(end + 4 + n);
        let p = w.plan.with(|p| *p);
        slow(&p).await;
        let mut close = p.broken > 0 && chance(S_SRV, 4);
        match choose_w(S_SRV, &[p.ok, p.status, p.broken, p.hang]) {
            k @ (0 | 1) => {
                let c = if k == 0 { pick(S_SRV, &[200u16, 202, 204]) } else { pick(S_SRV, &[503u16, 500, 429, 400, 404, 302, 304]) };
                if k == 0 {
                    w.ok(i);
                } else {
                    fault("collector-status");
                }
                let conn = if close { "connection: close\r\n" } else { "" };
                let none = matches!(c, 204 | 304);
                let body = if none { "" } else { pick(S_SRV, &["", "hello"]) };
                let chunked = !none && chance(S_SRV, 3);
                let len = if none { String::new() } else if chunked { "transfer-encoding: chunked\r\n".into() } else { format!("content-length: {}\r\n", body.len()) };
                s.write_all(format!("HTTP/1.1 {c} X\r\n{conn}{len}\r\n").as_bytes()).await?;
                if chance(S_SRV, 4) {
                    slow(&p).await;
                }
                let b = if chunked && body.is_empty() { "0\r\n\r\n".to_string() } else if chunked { format!("{:x}\r\n{body}\r\n0\r\n\r\n", body.len()) } else { body.into() };
                s.write_all(b.as_bytes()).await?;
            }
            2 => {
                fault("collector-broken");
                match choose(S_SRV, 4) {
                    0 => return Ok(()),
                    1 => s.write_all(b"HTTP/1.1 20").await?,
                    2 => s.write_all(b"garbage\r\n\r\n").await?,
                    _ => {
                        w.ok(i);
                        s.write_all(b"HTTP/1.1 200 OK\r\ncontent-length: 10\r\n\r\nabc").await?
                    }
                }
                close = true;
            }
            _ => {
                match choose(S_SRV, 3) {
                    0 => {}
                    1 => s.write_all(b"HTTP/1.1 20").await?,
                    _ => {
                        w.ok(i);
                        s.write_all(b"HTTP/1.1 200 OK\r\ncontent-length: 10\r\n\r\nabc").await?
                    }
                }
                forever().await;
            }
        }
        if close {
            return Ok(());
        }
    }
}
// ---------------------------------------------------------------- exporters
enum Ex {
    Span(opentelemetry_otlp::SpanExporter),
    Log(opentelemetry_otlp::LogExporter),
    Metric(opentelemetry_otlp::MetricExporter),
}
fn build(w: &Arc<World>, cl: Cl, timeout: Duration, r: &Resource) -> Ex {
    let hm = HashMap::from([("x-key".to_string(), "v1".to_string())]);
    let proto = if w.json { Protocol::HttpJson } else { Protocol::HttpBinary };
    let intercept = cl == Cl::Tonic && chance(S_CFG, 3);
    let gzip = cl == Cl::Tonic && chance(S_CFG, 3);
    macro_rules! mk {
        ($b:expr, $p:expr) => {
            match cl {
                Cl::Tonic => {
                    let mut m = tonic_md();
                    m.insert("x-key", "v1".parse().unwrap());
                    let b = $b.with_tonic().with_endpoint(format!("http://127.0.0.1:{PORT}")).with_timeout(timeout).with_metadata(m);
                    let b = if gzip { b.with_compression(opentelemetry_otlp::Compression::Gzip) } else { b };
                    if !intercept {
                        b
                    } else {
                        let w = w.clone();
                        b.with_interceptor(move |mut r: tonic::Request<()>| {
                            if w.plan.with(|p| p.status + p.broken + p.hang) > 0 && chance(S_SRV, 5) {
                                fault("interceptor-error");
                                return Err(tonic::Status::unavailable("no token"));
                            }
                            r.metadata_mut().insert("x-token", "t".parse().unwrap());
                            Ok(r)
                        })
                    }
                    .build()
                    .unwrap()
                }
                _ => {
                    let b = $b.with_http().with_endpoint(format!("http://127.0.0.1:{PORT}/v1/{}", $p)).with_protocol(proto).with_timeout(timeout).with_headers(hm);
                    match cl {
                        Cl::Hyper => b.with_http_client(opentelemetry_http::hyper::HyperClient::with_default_connector(timeout, None)),
                        Cl::Reqwest => b.with_http_client(reqwest::Client::builder().timeout(timeout).build().unwrap()),
                        _ => b,
                    }
                    .build()
                    .unwrap()
                }
            }
        };
    }
    match w.sig {
        Sig::Span => {
            let mut e = mk!(opentelemetry_otlp::SpanExporter::builder(), "traces");
            e.set_resource(r);
            Ex::Span(e)
        }
        Sig::Log => {
            let mut e = mk!(opentelemetry_otlp::LogExporter::builder(), "logs");
            e.set_resource(r);
            Ex::Log(e)
        }
        Sig::Metric => Ex::Metric(mk!(opentelemetry_otlp::MetricExporter::builder().with_temporality(Temporality::Delta), "metrics")),
    }
}
fn tonic_md() -> tonic::metadata::MetadataMap {
    tonic::metadata::MetadataMap::new()
}
impl Ex {
    fn export(&self, ids: &[u32], r: &Resource, rt: Option<&tokio::runtime::Handle>) -> OTelSdkResult {
        fn run<T>(rt: Option<&tokio::runtime::Handle>, f: impl std::future::Future<Output = T>) -> T {
            match rt {
                Some(h) => h.block_on(f),
                None => futures_executor::block_on(f),
            }
        }
        match self {
            Ex::Span(e) => run(rt, e.export(ids.iter().map(|i| tx::span(*i)).collect())),
            Ex::Log(e) => {
                let l: Vec<_> = ids.iter().map(|i| tx::log(*i)).collect();
                let b: Vec<_> = l.iter().map(|l| (&l.0, &l.1)).collect();
                run(rt, e.export(LogBatch::new(&b)))
            }
            Ex::Metric(e) => {
                let mut rm = tx::metrics(ids, r);
                run(rt, e.export(&mut rm))
            }
        }
    }
    fn want(&self, ids: &[u32], r: &Resource) -> Vec<String> {
        let mut v: Vec<String> = match self {
            Ex::Span(_) => ids.iter().map(|i| tx::span_text(&tx::span(*i), r)).collect(),
            Ex::Log(_) => ids.iter().map(|i| tx::log(*i)).map(|l| tx::log_text(&l.0, &l.1, r)).collect(),
            Ex::Metric(_) => tx::metric_texts(&tx::metrics(ids, r)),
        };
        v.sort();
        v
    }
    fn shut(&self) -> Option<OTelSdkResult> {
        match self {
            Ex::Log(e) => Some(e.shutdown()),
            Ex::Metric(e) => Some(e.shutdown()),
            _ => None,
        }
    }
    fn shut_mut(&mut self) -> OTelSdkResult {
        match self {
            Ex::Span(e) => e.shutdown(),
            e => e.shut().unwrap(),
        }
    }
}
fn export(w: &World, ex: &Ex, r: &Resource, st: u32, base: u32, rt: Option<&tokio::runtime::Handle>) -> bool {
    let n = if chance(st, 10) { 5 + choose(st, 60) } else { 1 + choose(st, 4) };
    let ids: Vec<u32> = (0..n).map(|i| base + i * 13 + choose(st, 13)).collect();
    let want = ex.want(&ids, r);
    let (s, t) = (seq(), now());
    let i = w.h.with(|h| {
        if let Ex::Log(_) = ex {
            h.targets.extend(ids.iter().filter(|i| tx::log(**i).0.target().is_some()).map(|i| format!("s\"log-{i}\"")));
        }
        h.exps.push(Exp { s, e: u64::MAX, dur: 0, want, res: None, already: false });
        h.running += 1;
        h.max_running = h.max_running.max(h.running);
        h.exps.len() - 1
    });
    tr!("export {i} {ids:?}");
    let res = ex.export(&ids, r, rt);
    tr!("export {i} -> {res:?}");
    w.h.with(|h| {
        h.running -= 1;
        let x = &mut h.exps[i];
        x.e = seq();
        x.dur = now() - t;
        x.already = matches!(res, Err(OTelSdkError::AlreadyShutdown));
        let ok = res.is_ok();
        x.res = Some(res.map_err(|e| e.to_string()));
        if ok {
            let d = format!("{:?}\n{:?}", h.exps[i], h.reqs);
            ensure!(h.reqs.iter().any(|r| r.export == i && r.ok), "false-success", "export {i} reports success, the collector did not accept it: {d}");
        }
        ok
    })
}
fn shutdown(w: &World, f: impl FnOnce() -> Option<OTelSdkResult>) {
    let s = seq();
    if f().is_some() {
        w.h.with(|h| h.shut.push((s, seq())));
    }
}
fn run(sig: Sig, cl: Cl) {
    let calm = choose(S_CFG, 5) == 0;
    let plan = match choose(S_CFG, 4) {
        _ if calm => CALM,
        0 => CALM,
        1 => Plan { ok: 3, status: 1, broken: 1, hang: 0, slow: 1 },
        2 => Plan { ok: 2, status: 0, broken: 1, hang: 1, slow: 1 },
        _ => Plan { ok: 2, status: 1, broken: 1, hang: 0, slow: 0 },
    };
    let netcfg = match choose(S_CFG, 5) {
        _ if calm => net::Net { p_split: pick(S_CFG, &[0, 4]), ..net::Net::default() },
        0 => net::Net::default(),
        1 => net::Net { p_delay: 4, max_delay_us: 500_000, p_split: 4, ..net::Net::default() },
        2 => net::Net { p_delay: 10, max_delay_us: 2_000_000, p_cut: 20, p_refuse: 4, ..net::Net::default() },
        3 => net::Net { p_lost: 3, p_cut: 30, cap: 200, ..net::Net::default() },
        _ => net::Net { p_delay: 2, max_delay_us: 50_000, p_cut: 10, p_split: 2, cap: 100, ..net::Net::default() },
    };
    let timeout = Duration::from_millis(pick(S_CFG, &[10_000u64, 1000, 3000]));
    let w = Arc::new(World { h: Default::default(), plan: Shared::new(plan), sig, json: cl != Cl::Tonic && chance(S_CFG, 3) });
    net::config(netcfg);
    serve(w.clone(), cl == Cl::Tonic);
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1 + choose(S_CFG, 2) as usize).enable_all().build().unwrap();
    let r = tx::res(choose(S_CFG, 2));
    let ex = {
        let _g = rt.enter();
        Arc::new(build(&w, cl, timeout, &r))
    };
    let shuts = chance(S_CFG, 3);
    let handle = rt.handle().clone();
    // hyper and reqwest need a runtime to export; tonic and the blocking client do not
    let need_rt = matches!(cl, Cl::Hyper | Cl::Reqwest);
    let use_rt = move |st: u32| need_rt || (cl == Cl::Tonic && chance(st, 2));
    let v: Vec<_> = (0..1 + choose(S_CFG, 2)).map(|i| {
        let (ex, w, r, handle) = (ex.clone(), w.clone(), r.clone(), handle.clone());
        thread::spawn(move || {
            let st = 2 + i;
            for k in 0..1 + choose(st, 3) {
                if chance(st, 3) {
                    thread::sleep(Duration::from_micros(choose(st, 2_000_000) as u64));
                }
                if shuts && chance(st, 6) {
                    shutdown(&w, || ex.shut());
                } else {
                    let h = use_rt(st).then_some(&handle);
                    export(&w, &ex, &r, st, i * 100_000 + k * 10_000, h);
                }
            }
        })
    }).collect();
    if !calm {
        for _ in 0..choose(S_CFG, 3) {
            thread::sleep(Duration::from_micros(choose(S_CFG, 3_000_000) as u64));
            match choose(S_CFG, 3) {
                0 => net::reset(PORT),
                1 => {
                    net::down(PORT);
                    thread::sleep(Duration::from_micros(choose(S_CFG, 3_000_000) as u64));
                    net::up(PORT);
                }
                _ => {
                    net::partition(true);
                    thread::sleep(Duration::from_micros(choose(S_CFG, 20_000_000) as u64));
                    net::partition(false);
                }
            }
        }
    }
    for t in v {
        t.join().unwrap();
    }
    net::config(net::Net::default());
    w.plan.with(|p| *p = CALM);
    let mut ex = Arc::into_inner(ex).unwrap();
    if w.h.with(|h| h.shut.is_empty()) && !calm {
        // one after the other until the first success
        let mut ok = false;
        for k in 0..4 {
            ok = ok || export(&w, &ex, &r, 1, 5000 + k * 100, use_rt(1).then_some(&handle));
        }
        ensure!(ok, "no-recovery", "4 exports failed although the network and the collector work again: {:?}", w.h.with(|h| h.exps.last().cloned()));
    }
    if chance(S_CFG, 2) {
        shutdown(&w, || Some(ex.shut_mut()));
        export(&w, &ex, &r, 1, 8000, use_rt(1).then_some(&handle));
    }
    w.h.with(|h| {
        for (i, x) in h.exps.iter().enumerate() {
            let d = || format!("export {i}: {x:?}");
            let after = h.shut.iter().any(|s| s.1 < x.s);
            let before = h.shut.iter().all(|s| s.0 > x.e);
            if after {
                ensure!(x.already, "export-after-shutdown", "does not report it: {}", d());
            }
            if before {
                ensure!(!x.already, "not-shut-down", "{}", d());
                if calm {
                    ensure!(matches!(x.res, Some(Ok(()))), "false-failure", "nothing ever failed, but {}", d());
                }
            }
            // tonic: connecting and the request are limited separately; exports that wait for the same connection wait in turn.
            // The blocking client of reqwest limits the response's head and body separately.
            let limit = match cl {
                Cl::Tonic => (h.max_running + 1) as u64,
                Cl::Blocking => 2,
                _ => 1,
            } * timeout.as_nanos() as u64 + secs(0.05);
            if cl == Cl::Tonic && x.dur > limit && h.reqs.iter().any(|r| r.export == i && r.headers) {
                finding("no-limit-after-headers", &format!("an export took {:.3}s, the timeout is {timeout:?}: {}", x.dur as f64 / 1e9, d()));
                continue;
            }
            ensure!(x.dur <= limit, "too-long", "an export took {:.3}s, the timeout is {timeout:?}: {}", x.dur as f64 / 1e9, d());
        }
        count("exports", h.exps.len() as u64);
        count("requests", h.reqs.len() as u64);
        count("exports_ok", h.exps.iter().filter(|x| matches!(x.res, Some(Ok(())))).count() as u64);
    });
}
const NOSTALL: Opts = Opts { stalls: false, max_step_ns: 50, ..DEFAULT };
macro_rules! sc {
    ($p:expr, $n:expr, $w:expr, $f:expr, $o:expr) => {
        Scenario { prop: $p, name: $n, weight: $w, run: $f, opts: $o }
    };
}
pub const SCEN: &[Scenario] = &[
    sc!("X03", "grpc-spans", 1, || run(Sig::Span, Cl::Tonic), NOSTALL),
    sc!("X03", "grpc-logs", 1, || run(Sig::Log, Cl::Tonic), NOSTALL),
    sc!("X03", "grpc-metrics", 1, || run(Sig::Metric, Cl::Tonic), NOSTALL),
    sc!("X08", "hyper", 1, || run(pick(S_CFG, &[Sig::Span, Sig::Log, Sig::Metric]), Cl::Hyper), NOSTALL),
    sc!("X08", "reqwest", 1, || run(pick(S_CFG, &[Sig::Span, Sig::Log, Sig::Metric]), Cl::Reqwest), NOSTALL),
    sc!("X08", "reqwest-blocking", 1, || run(pick(S_CFG, &[Sig::Span, Sig::Log, Sig::Metric]), Cl::Blocking), NOSTALL),
];
