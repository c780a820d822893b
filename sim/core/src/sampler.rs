//! X01: the remotely configured sampler.
use crate::batch::{Rt, S_CFG};
use crate::batch_scen::{with_runtime, NOSTALL};
use bytes::Bytes;
use opentelemetry::trace::{Link, SamplingDecision, SamplingResult, SpanContext, SpanId, SpanKind, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, KeyValue};
use opentelemetry_http::{HttpClient, HttpError};
use opentelemetry_sdk::runtime;
use opentelemetry_sdk::trace::{Sampler, ShouldSample};
use simfw::*;
use std::collections::BTreeMap;
use std::sync::Arc;
use std::thread;
use std::time::Duration;

const OPS: [&str; 4] = ["op-a", "op-b", "op-c", "op-d"];
#[derive(Clone, Debug, PartialEq)]
enum St {
    Default,
    Prob(f64),
    Rate(i32),
    PerOp(f64, BTreeMap<String, f64>),
}
#[derive(Clone, Debug)]
struct Req {
    s: u64,
    e: u64,
    ts: u64,
    te: u64,
    /// the valid strategy it was answered with
    st: Option<St>,
}
#[derive(Clone, Debug)]
struct Dec {
    s: u64,
    e: u64,
    ts: u64,
    te: u64,
    id: u64,
    name: &'static str,
    sampled: bool,
    default: bool,
}
#[derive(Default)]
struct H {
    reqs: Vec<Req>,
    decs: Vec<Dec>,
    /// (seq, time, forward) of system clock jumps
    jumps: Vec<(u64, u64, bool)>,
    dropped: Option<u64>,
    built: u64,
}
#[derive(Clone, Copy)]
struct Plan {
    ok: u32,
    bad: u32,
    slow: u32,
    max_slow_us: u32,
    hang: u32,
    only_rate: bool,
    one_rate: bool,
    max_rate: i32,
}
#[derive(Debug)]
struct Client {
    h: Arc<Shared<H>>,
    p: Shared<Plan>,
}
const S_NET: u32 = 20;
fn prob() -> f64 {
    pick(S_NET, &[0.0, 1.0, 0.5, 0.25, 0.75, 0.001, 0.999, 1e-9, 1.5, -0.5])
}
fn strategy(p: &Plan) -> (St, String) {
    let k = if p.only_rate { 1 } else { choose(S_NET, 3) };
    match k {
        0 => {
            let v = prob();
            (St::Prob(v), format!(r#"{{"strategyType":"PROBABILISTIC","probabilisticSampling":{{"samplingRate":{v:?}}}}}"#))
        }
        1 => {
            let v = if p.one_rate { p.max_rate } else { pick(S_NET, &[1, 2, 10, 100, 0, p.max_rate]) };
            (St::Rate(v), format!(r#"{{"strategyType":"RATELIMITING","rateLimitingSampling":{{"maxTracesPerSecond":{v}}}}}"#))
        }
        _ => {
            let d = prob();
            let mut m = BTreeMap::new();
            for o in &OPS[..3] {
                if chance(S_NET, 2) {
                    m.insert(o.to_string(), prob());
                }
            }
            let ops: Vec<String> = m.iter().map(|(o, p)| format!(r#"{{"operation":"{o}","probabilisticSampling":{{"samplingRate":{p:?}}}}}"#)).collect();
            let s = format!(
                r#"{{"strategyType":"PROBABILISTIC",{}"operationSampling":{{"defaultSamplingProbability":{d:?},"defaultLowerBoundTracesPerSecond":{:?},"defaultUpperBoundTracesPerSecond":{:?},"perOperationStrategies":[{}]}}}}"#,
                // the agents of Jaeger send the probability for clients that know no strategies per operation along
                if chance(S_NET, 3) { format!(r#""probabilisticSampling":{{"samplingRate":{:?}}},"#, prob()) } else { String::new() },
                pick(S_NET, &[0.0, 1.0]),
                pick(S_NET, &[0.0, 1.0]),
                ops.join(",")
            );
            (St::PerOp(d, m), s)
        }
    }
}
#[async_trait::async_trait]
impl HttpClient for Client {
    async fn send_bytes(&self, r: http::Request<Bytes>) -> Result<http::Response<Bytes>, HttpError> {
        let uri = r.uri().to_string();
        ensure!(uri.contains("service=svc"), "wrong-request", "request to {uri}");
        let i = self.h.with(|h| {
            if let Some(l) = h.reqs.last() {
                ensure!(l.e != 0, "overlapping-requests", "a request begins while the previous one is running");
            }
            h.reqs.push(Req { s: seq(), e: 0, ts: now(), te: 0, st: None });
            h.reqs.len() - 1
        });
        let p = self.p.with(|p| *p);
        match choose_w(S_NET, &[8, p.slow, p.hang]) {
            0 => {}
            1 => {
                fault("response-delay");
                tokio::time::sleep(Duration::from_micros(1 + choose(S_NET, p.max_slow_us) as u64)).await
            }
            _ => {
                fault("response-hang");
                std::future::pending::<()>().await
            }
        }
        let (st, res) = if choose_w(S_NET, &[p.ok, p.bad]) == 0 {
            let (s, b) = strategy(&p);
            (Some(s), Ok((200, b)))
        } else {
            let valid = strategy(&p).1;
            (None, match choose(S_NET, 10) {
                0 => Err("connection reset"),
                1 => Ok((500, valid)),
                2 => Ok((404, "not found".into())),
                3 => Ok((200, valid[..valid.len() - 1 - choose(S_NET, valid.len() as u32 - 2) as usize].into())),
                4 => Ok((200, String::new())),
                5 => Ok((200, "null".into())),
                6 => Ok((200, r#"{"strategyType":"PROBABILISTIC"}"#.into())),
                7 => Ok((200, r#"{"strategyType":"PROBABILISTIC","probabilisticSampling":null,"rateLimitingSampling":null,"operationSampling":null}"#.into())),
                8 => Ok((200, r#"{"strategyType":"RATELIMITING","rateLimitingSampling":{"maxTracesPerSecond":"many"}}"#.into())),
                _ => Ok((204, valid)),
            })
        };
        if st.is_none() {
            fault("bad-response");
        }
        tr!("response {st:?} {res:?}");
        self.h.with(|h| {
            let r = &mut h.reqs[i];
            (r.e, r.te, r.st) = (seq(), now(), st);
        });
        match res {
            Ok((c, b)) => Ok(http::Response::builder().status(c).body(Bytes::from(b.into_bytes())).unwrap()),
            Err(e) => Err(e.into()),
        }
    }
}
#[derive(Clone, Debug)]
struct Dflt(bool);
thread_local! {
    /// whether the default sampler decided
    static ASKED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
impl ShouldSample for Dflt {
    fn should_sample(&self, _: Option<&Context>, _: TraceId, _: &str, _: &SpanKind, _: &[KeyValue], _: &[Link]) -> SamplingResult {
        ASKED.set(true);
        SamplingResult {
            decision: if self.0 { SamplingDecision::RecordAndSample } else { SamplingDecision::Drop },
            attributes: Vec::new(),
            trace_state: Default::default(),
        }
    }
}
fn reference(p: f64, id: u64) -> bool {
    p >= 1.0 || ((id >> 1) as f64) < p.max(0.0) * (1u64 << 63) as f64 && (id >> 1) < (p.max(0.0) * (1u64 << 63) as f64) as u64
}
fn pick_of<T>(stream: u32, mut v: Vec<T>) -> T {
    let i = choose(stream, v.len() as u32) as usize;
    v.swap_remove(i)
}
fn decide(h: &Shared<H>, s: &Sampler, stream: u32) {
    let id = match choose(stream, 3) {
        0 => (choose(stream, 1 << 30) as u64) << 34,
        1 => u64::MAX - choose(stream, 1000) as u64,
        _ => ((choose(stream, 1 << 16) as u64) << 48) | choose(stream, 1 << 16) as u64,
    };
    let name = OPS[choose(stream, 4) as usize];
    let (q, ts) = (seq(), now());
    ASKED.set(false);
    // what else is known of the span changes nothing, and the trace state of the parent is kept
    let kind = pick_of(stream, vec![SpanKind::Internal, SpanKind::Server, SpanKind::Client, SpanKind::Producer, SpanKind::Consumer]);
    let attrs: Vec<KeyValue> = (0..choose(stream, 3)).map(|i| KeyValue::new("k", i as i64)).collect();
    let links: Vec<Link> = (0..choose(stream, 3)).map(|i| Link::with_context(SpanContext::new(TraceId::from(i as u128 + 1), SpanId::from(1), TraceFlags::new(i as u8), i == 1, Default::default()))).collect();
    let state = if chance(stream, 3) { TraceState::from_key_value([("a", "b")]).unwrap() } else { TraceState::default() };
    let parent = chance(stream, 3).then(|| Context::new().with_remote_span_context(SpanContext::new(TraceId::from(7), SpanId::from(7), TraceFlags::new(choose(stream, 2) as u8), chance(stream, 2), state.clone())));
    let r = s.should_sample(parent.as_ref(), TraceId::from((0xabcd_u128 << 64) | id as u128), name, &kind, &attrs, &links);
    if !ASKED.get() {
        let want = if parent.is_some() { state } else { TraceState::default() };
        ensure!(r.trace_state == want && r.attributes.is_empty(), "decision", "trace state {:?} for a parent with {want:?}", r.trace_state);
    }
    let d = Dec { s: q, e: seq(), ts, te: now(), id, name, sampled: r.decision == SamplingDecision::RecordAndSample, default: ASKED.get() };
    ensure!(d.sampled || r.decision == SamplingDecision::Drop, "decision", "{:?}", r.decision);
    tr!("decision {d:?}");
    h.with(|h| h.decs.push(d));
}
fn check(h: &H, default: &Dflt, bucket: f64, interval: Duration, timed: bool) {
    // the strategies that may be in effect for each decision
    for d in &h.decs {
        let mut cands: Vec<&St> = vec![&St::Default];
        for (i, r) in h.reqs.iter().enumerate() {
            let Some(st) = &r.st else { continue };
            if r.e > d.e {
                break;
            }
            // certainly applied once the next request begins
            if h.reqs.get(i + 1).is_some_and(|n| n.s < d.s) {
                cands.clear();
            }
            cands.push(st);
        }
        let ok = cands.iter().any(|c| match c {
            St::Default => d.default && d.sampled == default.0,
            St::Prob(p) => !d.default && d.sampled == reference(*p, d.id),
            St::PerOp(p, m) => !d.default && d.sampled == reference(*m.get(d.name).unwrap_or(p), d.id),
            St::Rate(_) => !d.default,
        });
        ensure!(ok, "wrong-strategy", "{d:?} is explained by none of the strategies that may be in effect: {cands:?}");
        if timed {
            ensure!(d.te - d.ts < 1_000_000, "sampling-blocks", "{d:?} took {:.6}s", (d.te - d.ts) as f64 / 1e9);
        }
    }
    // maximal periods in which only rate limiting strategies can have been in effect
    let valid: Vec<usize> = (0..h.reqs.len()).filter(|i| h.reqs[*i].st.is_some()).collect();
    let rate = |i: &usize| matches!(h.reqs[*i].st, Some(St::Rate(_)));
    let mut k = 0;
    while k < valid.len() {
        if !rate(&valid[k]) {
            k += 1;
            continue;
        }
        let mut j = k;
        while j + 1 < valid.len() && rate(&valid[j + 1]) {
            j += 1;
        }
        let certain = valid[k] + 1;
        if certain < h.reqs.len() {
            let (from, from_t) = (h.reqs[certain].s, h.reqs[valid[k]].te);
            let to = if j + 1 < valid.len() { h.reqs[valid[j + 1]].e } else { u64::MAX };
            let rates: Vec<f64> = valid[k..=j].iter().map(|i| match h.reqs[*i].st { Some(St::Rate(r)) => r as f64, _ => 0.0 }).collect();
            let max = rates.iter().copied().fold(0.0, f64::max);
            let min = rates.iter().copied().fold(f64::MAX, f64::min);
            let ds: Vec<&Dec> = h.decs.iter().filter(|d| d.s > from && d.e < to && !d.default).collect();
            let jumps: Vec<_> = h.jumps.iter().filter(|j| j.0 > h.reqs[valid[k]].s && j.0 < to).collect();
            for a in &ds {
                for b in &ds {
                    if !(a.sampled && b.sampled && b.te >= a.ts) {
                        continue;
                    }
                    let n = ds.iter().filter(|d| d.sampled && d.ts >= a.ts && d.te <= b.te).count() as f64;
                    let fwd = jumps.iter().filter(|j| j.2 && j.1 >= a.ts && j.1 <= b.te).count() as f64;
                    let lim = bucket + max * (b.te - a.ts) as f64 / 1e9 + bucket * fwd;
                    ensure!(n <= lim + 1e-3, "rate-exceeded", "{n} traces sampled in {:.6}s with bucket {bucket} and at most {max} per second ({fwd} clock jumps)", (b.te - a.ts) as f64 / 1e9);
                }
            }
            // a decision not to sample needs an empty bucket
            if timed && jumps.is_empty() && bucket >= 1.0 {
                for d in ds.iter().filter(|d| !d.sampled) {
                    // the bucket was full at the latest when the strategy was first applied
                    let ok = std::iter::once(from_t).chain(h.decs.iter().filter(|x| x.ts >= from_t && x.e < d.e).map(|x| x.ts)).any(|t0| {
                        let n = h.decs.iter().filter(|x| x.sampled && !x.default && x.ts >= t0 && x.ts <= d.te && x.s < d.e).count() as f64;
                        bucket + min * (d.te.saturating_sub(t0)) as f64 / 1e9 - n < 1.0 + 1e-3 + min * 0.002
                    });
                    ensure!(ok, "dropped-below-limit", "{d:?} was dropped although fewer than bucket {bucket} + {min}/s were sampled in every period before it");
                }
            }
        }
        k = j + 1;
    }
    if timed {
        for w in h.reqs.windows(2) {
            let gap = w[1].ts - w[0].te;
            let iv = interval.as_nanos() as u64;
            ensure!(gap + 1_000_000 >= iv && gap <= iv + 5_000_000, "polling-interval", "{:.6}s between requests, configured {interval:?}", gap as f64 / 1e9);
        }
    }
    if let Some(t) = h.dropped {
        // polling goes on as long as the sampler lives, unless a response never comes
        let last = h.reqs.last().map_or(Some(h.built), |r| (r.e != 0).then_some(r.te)).unwrap_or(t);
        let most = if timed { interval.as_nanos() as u64 + 5_000_000 } else { interval.as_nanos() as u64 + 120_000_000_000 };
        ensure!(t.saturating_sub(last) <= most, "polling-stopped", "no request is made in the last {:.6}s, configured {interval:?}", (t - last) as f64 / 1e9);
        let slack = if timed { 1_000_000 } else { 60_000_000_000 };
        if let Some(r) = h.reqs.iter().find(|r| r.ts > t + slack) {
            violation("polls-after-drop", &format!("the sampler was dropped at {:.6}s and a request is made at {:.6}s", t as f64 / 1e9, r.ts as f64 / 1e9));
        }
    }
}
fn run(timed: bool, plan: Plan, bucket: f64, interval: u64, max_pause_us: u32, decisions: u32) {
    let jumps = !timed && chance(S_CFG, 2);
    let dflt = Dflt(chance(S_CFG, 2));
    let rt = pick(S_CFG, &[Rt::Tokio, Rt::TokioCurrent]);
    let interval = Duration::from_millis(interval);
    with_runtime(rt, || {
        let h = Arc::new(Shared::<H>::default());
        let c = Client { h: h.clone(), p: Shared::new(plan) };
        let s = if rt == Rt::Tokio {
            Sampler::jaeger_remote(runtime::Tokio, c, dflt.clone(), "svc").with_update_interval(interval).with_leaky_bucket_size(bucket).build()
        } else {
            Sampler::jaeger_remote(runtime::TokioCurrentThread, c, dflt.clone(), "svc").with_update_interval(interval).with_leaky_bucket_size(bucket).build()
        }
        .unwrap();
        h.with(|h| h.built = now());
        let v: Vec<_> = (0..1 + choose(S_CFG, 3)).map(|t| {
            let (s, h) = (s.clone(), h.clone());
            thread::spawn(move || {
                let st = 2 + t;
                let burst = pick(st, &[4, 1, 12]);
                for _ in 0..1 + choose(st, decisions) {
                    if choose(st, burst) == 0 {
                        thread::sleep(Duration::from_micros(1 + choose(st, max_pause_us) as u64));
                    }
                    decide(&h, &s, st);
                    if jumps && chance(st, 10) {
                        let ns = pick(st, &[3_600_000_000_000i64, -3_600_000_000_000, 700_000_000, -700_000_000]);
                        h.with(|h| {
                            h.jumps.push((seq(), now(), ns > 0));
                            clock_jump(ns);
                            fault("clock-jump");
                        });
                    }
                }
            })
        }).collect();
        for t in v {
            let _ = t.join();
        }
        if chance(S_CFG, 2) {
            thread::sleep(interval * (1 + choose(S_CFG, 3)));
            decide(&h, &s, 1);
        }
        drop(s);
        h.with(|h| h.dropped = Some(now()));
        thread::sleep(interval * 3 + Duration::from_secs(90));
        h.with(|h| check(h, &dflt, bucket, interval, timed));
        count("x01.decisions", h.with(|h| h.decs.len() as u64));
        count("x01.requests", h.with(|h| h.reqs.len() as u64));
    });
}
const BASE: Plan = Plan { ok: 1, bad: 0, slow: 0, max_slow_us: 1, hang: 0, only_rate: false, one_rate: false, max_rate: 5 };
fn strategies(timed: bool) {
    let iv = pick(S_CFG, &[50u64, 300, 5000]);
    let plan = match choose(S_CFG, 4) {
        0 => BASE,
        1 => Plan { bad: 2, ..BASE },
        2 => Plan { bad: 1, slow: 8, max_slow_us: iv as u32 * 3000, ..BASE },
        _ => Plan { bad: 1, slow: 4, max_slow_us: iv as u32 * 3000, hang: 1, ..BASE },
    };
    run(timed, plan, pick(S_CFG, &[100.0, 1.0, 3.0]), iv, iv as u32 * 2000, 20);
}
fn limits(timed: bool) {
    let iv = pick(S_CFG, &[50u64, 300, 5000]);
    let plan = Plan { only_rate: true, one_rate: chance(S_CFG, 2), max_rate: pick(S_CFG, &[5, 1, 2, 20, 0]), bad: choose(S_CFG, 2), slow: choose(S_CFG, 3), max_slow_us: 100_000, ..BASE };
    run(timed, plan, pick(S_CFG, &[1.0, 2.0, 3.5, 10.0]), iv, pick(S_CFG, &[20_000, 300_000, 1_500_000, 10_000_000]), 40);
}
macro_rules! sc {
    ($p:expr, $n:expr, $w:expr, $f:expr, $o:expr) => {
        Scenario { prop: $p, name: $n, weight: $w, run: $f, opts: $o }
    };
}
pub const SCEN: &[Scenario] = &[
    sc!("X01", "strategies", 2, || strategies(false), DEFAULT),
    sc!("X01", "strategies-timed", 2, || strategies(true), NOSTALL),
    sc!("X01", "rate-limit", 1, || limits(false), DEFAULT),
    sc!("X01", "rate-limit-timed", 2, || limits(true), NOSTALL),
];
