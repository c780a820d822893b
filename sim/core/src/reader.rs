//! M08–M10: several metric readers, and the two periodic readers.
//!
//! Measurement i of a run has the value 2^i, so that an exported sum tells exactly which measurements it contains.
use crate::batch::S_CFG;
use crate::batch_scen::{with_runtime, NOSTALL};
use crate::batch::Rt;
use crate::metrics::{empty_rm, key_of, streams, Body, Kind};
use opentelemetry::metrics::{Counter, Histogram, MeterProvider as _, UpDownCounter};
use opentelemetry::KeyValue;
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::periodic_reader_with_async_runtime as asyn;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, ManualReader, PeriodicReader, Pipeline, SdkMeterProvider, Temporality};
use opentelemetry_sdk::runtime;
use simfw::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, Weak};
use std::thread;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum RK {
    Manual,
    Thread,
    Tokio,
    TokioCurrent,
}
#[derive(Clone, Copy, Debug)]
struct Plan {
    ok: u32,
    err: u32,
    panic: u32,
    fast: u32,
    slow: u32,
    max_slow_us: u32,
    shut_fails: bool,
    shut_slow_us: u32,
    /// the reader itself reports an error after doing its job
    reader_fails: bool,
}
const CALM: Plan = Plan { ok: 1, err: 0, panic: 0, fast: 1, slow: 0, max_slow_us: 1, shut_fails: false, shut_slow_us: 0, reader_fails: false };
#[derive(Clone, Debug)]
struct Conf {
    kind: RK,
    temp: Temporality,
    interval: Duration,
    timeout: Duration,
    plan: Plan,
}
type Data = BTreeMap<(usize, String), u64>;
#[derive(Clone, Debug)]
struct Exp {
    s: u64,
    e: u64,
    ts: u64,
    te: u64,
    ok: Option<bool>,
    data: Data,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum CK {
    Flush,
    Shutdown,
}
#[derive(Clone, Debug)]
struct Call {
    kind: CK,
    s: u64,
    e: u64,
    ts: u64,
    te: u64,
    tid: i32,
    ok: bool,
    err: String,
    stalls: u64,
}
#[derive(Default)]
struct RH {
    exps: Vec<Exp>,
    shut: Vec<(u64, u64)>,
    active: u32,
    calls: Vec<Call>,
    panicked: bool,
    shut_begun: bool,
}
#[derive(Clone, Debug)]
struct Meas {
    inst: usize,
    key: String,
    s: u64,
    e: u64,
    dur: u64,
}
#[derive(Default)]
struct H {
    meas: Vec<Meas>,
    r: Vec<RH>,
    calls: Vec<Call>,
}
struct Rec {
    i: usize,
    conf: Conf,
    plan: Shared<Plan>,
    h: Arc<Shared<H>>,
}
const NAMES: [&str; 3] = ["c", "u", "h"];
fn decode(rm: &ResourceMetrics) -> Data {
    let mut d = Data::new();
    for s in streams(rm, &|_| 1.0) {
        let i = NAMES.iter().position(|n| *n == s.name).unwrap_or_else(|| violation("unknown-stream", &s.name));
        for p in &s.pts {
            let v = match &p.body {
                Body::Num(v) => *v,
                Body::Hist { sum, count, buckets, .. } => {
                    ensure!(*count == sum.count_ones() as u64 && buckets.iter().sum::<u64>() == *count, "histogram-inconsistent", "{p:?}");
                    *sum
                }
                b => violation("kind", &format!("{b:?}")),
            };
            ensure!((0..1i128 << 62).contains(&v), "impossible-value", "{v} exported for {} {}", s.name, p.key);
            ensure!(d.insert((i, p.key.clone()), v as u64).is_none(), "duplicate-series", "{} {} twice in one collection", s.name, p.key);
        }
    }
    d
}
fn is_delta(t: Temporality, inst: usize) -> bool {
    inst != 1 && t != Temporality::Cumulative
}
impl Rec {
    fn begin(&self, data: Data) -> usize {
        tr!("reader {} export begins {data:?}", self.i);
        self.h.with(|h| {
            let r = &mut h.r[self.i];
            if self.conf.kind != RK::Manual {
                ensure!(r.active == 0, "overlapping-exports", "reader {}: an export begins while another is running", self.i);
                ensure!(r.shut.is_empty(), "export-after-shutdown", "reader {}: an export begins after the exporter was shut down", self.i);
                ensure!(!data.is_empty(), "empty-export", "reader {}: an export without data points", self.i);
                for c in &r.calls {
                    let done = c.kind == CK::Shutdown && !c.err.contains("Timeout") && !c.err.contains("timed out");
                    ensure!(!done, "export-after-shutdown", "reader {}: an export begins after its shutdown returned", self.i);
                }
            }
            r.active += 1;
            r.exps.push(Exp { s: seq(), e: 0, ts: now(), te: 0, ok: None, data });
            r.exps.len() - 1
        })
    }
    fn end(&self, k: usize, ok: Option<bool>) {
        tr!("reader {} export {k} ends {ok:?}", self.i);
        self.h.with(|h| {
            let r = &mut h.r[self.i];
            r.active -= 1;
            let x = &mut r.exps[k];
            x.e = seq();
            x.te = now();
            x.ok = ok;
        });
    }
}
struct Running<'a>(&'a Rec, usize, bool);
impl Drop for Running<'_> {
    fn drop(&mut self) {
        if !self.2 {
            self.0.end(self.1, None);
        }
    }
}
struct X(Arc<Rec>);
impl PushMetricExporter for X {
    async fn export(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        let c = &self.0;
        let mut g = Running(c, c.begin(decode(rm)), false);
        let p = c.plan.with(|p| *p);
        let s = 50 + c.i as u32;
        let act = choose_w(s, &[p.ok, p.err, p.panic]);
        if choose_w(s, &[p.fast, p.slow]) == 1 {
            let d = match choose(s, 3) {
                0 => 1 + choose(s, 1000),
                _ => 1 + choose(s, p.max_slow_us),
            };
            fault("export_slow");
            let d = Duration::from_micros(d as u64);
            match c.conf.kind {
                RK::Thread => thread::sleep(d),
                _ => tokio::time::sleep(d).await,
            }
        }
        g.2 = true;
        c.end(g.1, Some(act == 0));
        match act {
            0 => Ok(()),
            1 => {
                fault("export_error");
                Err(crate::batch::exporter_error(s))
            }
            _ => {
                c.h.with(|h| h.r[c.i].panicked = true);
                inject_panic()
            }
        }
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        let c = &self.0;
        tr!("reader {} exporter shutdown", c.i);
        c.h.with(|h| {
            let r = &mut h.r[c.i];
            ensure!(r.active == 0, "shutdown-during-export", "reader {}: exporter shut down while an export is running", c.i);
            ensure!(r.shut.is_empty(), "exporter-shutdown-twice", "reader {}: exporter shut down twice", c.i);
            r.shut.push((seq(), now()));
        });
        let slow = c.plan.with(|p| p.shut_slow_us);
        if slow > 0 {
            fault("exporter_shutdown_slow");
            std::thread::sleep(Duration::from_micros(slow as u64));
        }
        if c.plan.with(|p| p.shut_fails) {
            fault("exporter_shutdown_error");
            return Err(OTelSdkError::InternalFailure("cannot shut down".into()));
        }
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        self.0.conf.temp
    }
}
struct Wrap {
    inner: Arc<dyn MetricReader>,
    rec: Arc<Rec>,
}
impl std::fmt::Debug for Wrap {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("reader")
    }
}
fn timed(kind: CK, f: impl FnOnce() -> OTelSdkResult) -> (Call, OTelSdkResult) {
    let (s, ts) = (seq(), now());
    let r = f();
    let c = Call { kind, s, e: seq(), ts, te: now(), tid: tid(), ok: r.is_ok(), err: r.as_ref().err().map(crate::batch::error_text).unwrap_or_default(), stalls: stalls() };
    (c, r)
}
impl Wrap {
    fn call(&self, kind: CK) -> OTelSdkResult {
        if kind == CK::Shutdown {
            self.rec.h.with(|h| h.r[self.rec.i].shut_begun = true);
        }
        let (mut c, mut r) = timed(kind, || match kind {
            CK::Flush => self.inner.force_flush(),
            CK::Shutdown => self.inner.shutdown(),
        });
        tr!("reader {} {kind:?} returned {r:?}", self.rec.i);
        if r.is_ok() && self.rec.plan.with(|p| p.reader_fails) {
            fault("reader_error");
            r = Err(OTelSdkError::InternalFailure("reader fails".into()));
            c.err = "injected".into();
        }
        self.rec.h.with(|h| h.r[self.rec.i].calls.push(c));
        r
    }
}
impl MetricReader for Wrap {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.inner.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.inner.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.call(CK::Flush)
    }
    fn shutdown_with_timeout(&self, _: Duration) -> OTelSdkResult {
        self.call(CK::Shutdown)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.inner.temporality(k)
    }
}
#[derive(Clone)]
struct Inst(Counter<u64>, UpDownCounter<i64>, Histogram<u64>);
struct World {
    h: Arc<Shared<H>>,
    recs: Vec<Arc<Rec>>,
    readers: Vec<Arc<dyn MetricReader>>,
    locks: Vec<Mutex<()>>,
    provider: Shared<Option<SdkMeterProvider>>,
    inst: Shared<Option<Inst>>,
}
struct Fwd(Arc<Wrap>);
impl std::fmt::Debug for Fwd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("reader")
    }
}
impl MetricReader for Fwd {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn shutdown_with_timeout(&self, t: Duration) -> OTelSdkResult {
        self.0.shutdown_with_timeout(t)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}
impl World {
    fn new(confs: Vec<Conf>) -> Arc<World> {
        tr!("{confs:?}");
        let h: Arc<Shared<H>> = Arc::default();
        let mut recs = vec![];
        let mut readers: Vec<Arc<dyn MetricReader>> = vec![];
        let mut b = SdkMeterProvider::builder().with_resource(opentelemetry_sdk::Resource::builder_empty().build());
        for (i, c) in confs.into_iter().enumerate() {
            h.with(|h| h.r.push(RH::default()));
            let (kind, interval, timeout, temp) = (c.kind, c.interval, c.timeout, c.temp);
            let plan = Shared::new(c.plan);
            let rec = Arc::new(Rec { i, conf: c, plan, h: h.clone() });
            let x = X(rec.clone());
            let inner: Arc<dyn MetricReader> = match kind {
                RK::Manual => Arc::new(ManualReader::builder().with_temporality(temp).build()),
                RK::Thread => Arc::new(PeriodicReader::builder(x).with_interval(interval).build()),
                RK::Tokio => Arc::new(asyn::PeriodicReader::builder(x, runtime::Tokio).with_interval(interval).with_timeout(timeout).build()),
                RK::TokioCurrent => Arc::new(asyn::PeriodicReader::builder(x, runtime::TokioCurrentThread).with_interval(interval).with_timeout(timeout).build()),
            };
            let w = Arc::new(Wrap { inner, rec: rec.clone() });
            recs.push(rec);
            readers.push(w.clone());
            b = b.with_reader(Fwd(w));
        }
        let provider = b.build();
        let m = provider.meter("m");
        let inst = Inst(m.u64_counter("c").build(), m.i64_up_down_counter("u").build(), m.u64_histogram("h").build());
        let locks = recs.iter().map(|_| Mutex::new(())).collect();
        Arc::new(World { h, recs, readers, locks, provider: Shared::new(Some(provider)), inst: Shared::new(Some(inst)) })
    }
    fn provider(&self) -> Option<SdkMeterProvider> {
        self.provider.with(|p| p.clone())
    }
    fn inst(&self) -> Inst {
        self.inst.with(|p| p.clone().unwrap())
    }
    fn record(&self, ins: &Inst, inst: usize, k: u32) {
        let a: Vec<KeyValue> = if k == 0 { vec![] } else { vec![KeyValue::new("k", k as i64)] };
        let key = key_of(&a, None);
        let ts = now();
        let Some(id) = self.h.with(|h| {
            if h.meas.len() >= 60 {
                return None;
            }
            h.meas.push(Meas { inst, key: key.clone(), s: seq(), e: u64::MAX, dur: 0 });
            Some(h.meas.len() - 1)
        }) else {
            return;
        };
        tr!("record {id} on {} {key}", NAMES[inst]);
        match inst {
            0 => ins.0.add(1 << id, &a),
            1 => ins.1.add(1 << id, &a),
            _ => ins.2.record(1 << id, &a),
        }
        self.h.with(|h| {
            h.meas[id].e = seq();
            h.meas[id].dur = now() - ts;
        });
    }
    fn call(&self, kind: CK) -> Call {
        let p = self.provider().expect("provider");
        self.call_on(&p, kind)
    }
    fn call_on(&self, p: &SdkMeterProvider, kind: CK) -> Call {
        tr!("provider {kind:?} called");
        let (c, _) = timed(kind, || match kind {
            CK::Flush => p.force_flush(),
            CK::Shutdown => p.shutdown(),
        });
        tr!("provider {kind:?} returned {} {}", c.ok, c.err);
        probe(match (kind, c.ok) {
            (CK::Flush, true) => "flush_ok",
            (CK::Flush, _) => "flush_err",
            (_, true) => "shutdown_ok",
            _ => "shutdown_err",
        });
        self.h.with(|h| h.calls.push(c.clone()));
        c
    }
    /// one collection of a manual reader, recorded like an export
    fn collect(&self, r: usize) {
        let _l = self.locks[r].lock().unwrap();
        let k = self.recs[r].begin(Data::new());
        let mut rm = empty_rm();
        let res = self.readers[r].collect(&mut rm);
        let d = decode(&rm);
        self.h.with(|h| {
            if res.is_err() {
                ensure!(h.r[r].shut_begun, "collect-failed", "reader {r}: {res:?}");
            }
            h.r[r].exps[k].data = d;
        });
        self.recs[r].end(k, Some(res.is_ok()));
    }
    fn recorders(self: &Arc<Self>, n: u32, each: u32, gap_us: u32) -> Vec<thread::JoinHandle<()>> {
        (0..n).map(|t| {
            let (w, ins) = (self.clone(), self.inst());
            thread::spawn(move || {
                let s = 1 + t;
                for _ in 0..1 + choose(s, each) {
                    w.record(&ins, choose(s, 3) as usize, choose(s, 3));
                    if chance(s, 2) {
                        thread::sleep(Duration::from_micros(choose(s, gap_us) as u64));
                    }
                }
            })
        }).collect()
    }
    fn callers(self: &Arc<Self>, n: u32, each: u32, gap_us: u32, shutdown: bool) -> Vec<thread::JoinHandle<()>> {
        (0..n).map(|t| {
            let w = self.clone();
            let p = self.provider().unwrap();
            thread::spawn(move || {
                let s = 20 + t;
                for _ in 0..1 + choose(s, each) {
                    thread::sleep(Duration::from_micros(choose(s, gap_us) as u64));
                    w.call_on(&p, CK::Flush);
                }
                if shutdown && t == 0 {
                    thread::sleep(Duration::from_micros(choose(s, gap_us) as u64));
                    w.call_on(&p, CK::Shutdown);
                    if chance(s, 2) {
                        w.call_on(&p, pick(s, &[CK::Flush, CK::Shutdown]));
                    }
                }
            })
        }).collect()
    }
    /// What every reader's sequence of exports says about the measurements.
    fn check_data(&self) {
        let _g = Atomic::new();
        self.h.with(|h| {
            for (i, r) in h.r.iter().enumerate() {
                let t = self.recs[i].conf.temp;
                let mut seen = Data::new();
                let mut prev_end = 0;
                for x in &r.exps {
                    if self.recs[i].conf.kind == RK::Manual && x.ok == Some(false) {
                        continue;
                    }
                    let what = format!("reader {i} ({t:?}) export [{},{}]", x.s, x.e);
                    for ((inst, key), mask) in &x.data {
                        let upto = if self.recs[i].conf.kind == RK::Manual { x.e } else { x.s };
                        for b in 0..64 {
                            if mask >> b & 1 == 1 {
                                let ok = h.meas.get(b).is_some_and(|m| m.inst == *inst && m.key == *key && m.s < upto);
                                ensure!(ok, "invented", "{what}: {} {key} contains measurement {b}, which was not made for it", NAMES[*inst]);
                            }
                        }
                        let s = seen.entry((*inst, key.clone())).or_default();
                        if is_delta(t, *inst) {
                            ensure!(*s & mask == 0, "duplicated", "{what}: {} {key} has measurements {:#x} again", NAMES[*inst], *s & mask);
                            ensure!(*mask != 0, "empty-point", "{what}: {} {key} exported without measurements", NAMES[*inst]);
                        }
                        *s |= mask;
                    }
                    for ((inst, key), s) in &seen {
                        if !is_delta(t, *inst) {
                            let m = x.data.get(&(*inst, key.clone())).copied().unwrap_or(0);
                            ensure!(m == *s, "lost", "{what}: {} {key} no longer contains {:#x}", NAMES[*inst], s & !m);
                        }
                    }
                    for (b, m) in h.meas.iter().enumerate() {
                        let before = if self.recs[i].conf.kind == RK::Manual { x.s } else { prev_end };
                        if m.e < before {
                            let s = seen.get(&(m.inst, m.key.clone())).copied().unwrap_or(0);
                            ensure!(s >> b & 1 == 1, "lost", "{what}: measurement {b} of {} {}, completed before, is missing", NAMES[m.inst], m.key);
                        }
                    }
                    prev_end = if x.e == 0 { u64::MAX } else { x.e };
                }
            }
        })
    }
    /// Flush and shutdown calls that reached the readers.
    fn check_calls(&self, strict: bool) {
        let _g = Atomic::new();
        self.h.with(|h| {
            for (i, r) in h.r.iter().enumerate() {
                let rc = &self.recs[i];
                if rc.conf.kind == RK::Manual {
                    continue;
                }
                for c in &r.calls {
                    let what = format!("reader {i} ({:?}) {:?} [{},{}]", rc.conf.kind, c.kind, c.s, c.e);
                    let shut_by = |x: u64| h.calls.iter().chain(&r.calls).any(|d| d.kind == CK::Shutdown && d.s < x) || h.r[i].shut.iter().any(|s| s.0 < x);
                    let win: Vec<&Exp> = r.exps.iter().filter(|x| x.s > c.s && x.e != 0 && x.e < c.e).collect();
                    let touching: Vec<&Exp> = r.exps.iter().filter(|x| x.s < c.e && (x.e == 0 || x.e > c.s)).collect();
                    let before: Vec<usize> = (0..h.meas.len()).filter(|m| h.meas[*m].e < c.s).collect();
                    if c.ok {
                        for m in &before {
                            let ok = r.exps.iter().any(|x| x.e != 0 && x.e < c.e && x.data.get(&(h.meas[*m].inst, h.meas[*m].key.clone())).is_some_and(|v| v >> m & 1 == 1));
                            ensure!(ok, "flush-incomplete", "{what} succeeded although measurement {m}, made before, was not exported");
                        }
                        if !before.is_empty() && (rc.conf.temp == Temporality::Cumulative || before.iter().any(|m| h.meas[*m].inst == 1)) {
                            ensure!(win.iter().any(|x| x.ok == Some(true)), "error-masked", "{what} succeeded although no export succeeded during it: {win:?}");
                        }
                        if strict {
                            ensure!(win.iter().all(|x| x.ok == Some(true)), "error-masked", "{what} succeeded although an export during it failed");
                        }
                    } else {
                        let why = touching.iter().any(|x| x.ok != Some(true)) || r.panicked || (c.kind == CK::Flush && shut_by(c.e))
                            || (c.kind == CK::Shutdown && (rc.plan.with(|p| p.shut_fails) || r.calls.iter().any(|d| d.kind == CK::Shutdown && d.s < c.e && d.s != c.s)))
                            || (c.kind == CK::Shutdown && rc.conf.kind == RK::Thread && (c.te - c.ts >= 5_000_000_000 || c.stalls > 0));
                        ensure!(why, "unjustified-error", "{what} failed ({}) although nothing did", c.err);
                    }
                    if rc.conf.kind != RK::Thread && c.stalls == 0 {
                        // every call waiting before it, and a timed export before each
                        let ahead = r.calls.iter().filter(|d| d.s < c.e && d.e > c.s).count() as u64;
                        let lim = 2 * (ahead + 1) * rc.conf.timeout.as_nanos() as u64 + 100_000_000;
                        ensure!(c.te - c.ts <= lim, "call-too-long", "{what} took {:.3}s with an export timeout of {:?}", (c.te - c.ts) as f64 / 1e9, rc.conf.timeout);
                    }
                    if c.kind == CK::Shutdown {
                        if c.ok {
                            ensure!(r.shut.len() == 1 && r.shut[0].0 < c.e, "exporter-not-shut-down", "{what} succeeded, but the exporter was shut down {} times", r.shut.len());
                        }
                        if rc.conf.kind == RK::Thread && c.stalls == 0 {
                            ensure!(c.te - c.ts <= 5_100_000_000, "shutdown-too-long", "{what} took {:.3}s", (c.te - c.ts) as f64 / 1e9);
                        }
                        let plan_fails = rc.plan.with(|p| p.shut_fails);
                        if plan_fails && c.err != "injected" {
                            ensure!(!c.ok, "shutdown-error-masked", "{what} succeeded although the exporter failed to shut down");
                        }
                    }
                }
            }
            // provider calls
            for c in &h.calls {
                let what = format!("provider {:?} [{},{}]", c.kind, c.s, c.e);
                let inner: Vec<Vec<&Call>> = h.r.iter().map(|r| r.calls.iter().filter(|d| d.tid == c.tid && d.s > c.s && d.e < c.e).collect()).collect();
                let later = h.calls.iter().any(|d| d.kind == CK::Shutdown && d.e < c.s);
                let racing = h.calls.iter().any(|d| d.kind == CK::Shutdown && d.s < c.e && d.s != c.s);
                if later {
                    ensure!(!c.ok, "ok-after-shutdown", "{what} succeeded after shutdown");
                    ensure!(c.stalls > 0 || c.te - c.ts < 20_000_000, "blocks-after-shutdown", "{what} took {:.3}s after shutdown", (c.te - c.ts) as f64 / 1e9);
                }
                if !racing {
                    ensure!(inner.iter().all(|v| v.len() == 1 && v[0].kind == c.kind), "reader-not-reached", "{what} reached readers {:?} times", inner.iter().map(|v| v.len()).collect::<Vec<_>>());
                }
                if inner.iter().any(|v| !v.is_empty()) {
                    ensure!(inner.iter().all(|v| v.len() == 1), "reader-not-reached", "{what} reached some readers only");
                    let all = inner.iter().all(|v| v[0].ok && v[0].err.is_empty());
                    ensure!(all == c.ok, "wrong-result", "{what} returned ok={}, the readers {:?}", c.ok, inner.iter().map(|v| (v[0].ok, &v[0].err)).collect::<Vec<_>>());
                }
            }
        })
    }
    /// Exports happen once per interval. The stream must have data in every collection.
    fn check_timely(&self, i: usize, t0: u64, until: u64) {
        let _g = Atomic::new();
        self.h.with(|h| {
            let r = &h.r[i];
            let c = &self.recs[i].conf;
            let iv = c.interval.as_nanos() as u64;
            let slack = 15_000_000;
            let fl: Vec<&Call> = h.calls.iter().filter(|c| c.kind == CK::Flush).collect();
            let (mut last, mut last_dur) = (t0, 0u64);
            for x in r.exps.iter().chain([&Exp { s: 0, e: 0, ts: until, te: 0, ok: None, data: Data::new() }]) {
                let end = x.ts == until && x.s == 0;
                let gap = x.ts - last;
                // with an async runtime, as documented, the time of an export does not count towards the interval
                let from_end = c.kind != RK::Thread || fl.iter().any(|f| f.ts < x.ts);
                ensure!(gap <= iv.max(last_dur) + slack || (from_end && gap <= iv + last_dur + slack), "late-export",
                    "reader {i}: {:.3}s between the starts of two exports, the interval is {:?} and the first took {:.3}s", gap as f64 / 1e9, c.interval, last_dur as f64 / 1e9);
                if fl.is_empty() && !end {
                    ensure!(gap + slack >= iv, "early-export", "reader {i}: only {:.3}s between the starts of two exports, the interval is {:?}", gap as f64 / 1e9, c.interval);
                }
                (last, last_dur) = (x.ts, if x.e == 0 { until - x.ts } else { x.te - x.ts });
            }
            let max = (until + slack - t0) / iv + if c.kind == RK::Thread { 2 } else { 1 } * fl.len() as u64;
            ensure!(r.exps.len() as u64 <= max, "too-many-exports", "reader {i}: {} exports in {:.3}s with an interval of {:?} and {} flushes", r.exps.len(), (until - t0) as f64 / 1e9, c.interval, fl.len());
        })
    }
    fn check_abandoned(&self) {
        if stalls() > 0 {
            return;
        }
        let _g = Atomic::new();
        self.h.with(|h| {
            for (i, r) in h.r.iter().enumerate() {
                let c = &self.recs[i].conf;
                if !matches!(c.kind, RK::Tokio | RK::TokioCurrent) {
                    continue;
                }
                let lim = c.timeout.as_nanos() as u64;
                for x in &r.exps {
                    let te = if x.e == 0 { now() } else { x.te };
                    ensure!(te - x.ts <= lim + 300_000_000, "not-abandoned", "an export ran for {:.3}s, the timeout is {:?}", (te - x.ts) as f64 / 1e9, c.timeout);
                    if x.ok.is_none() {
                        probe("export_abandoned");
                        ensure!(te - x.ts + 1_000_000 >= lim, "abandoned-early", "an export was abandoned after {:.6}s, the timeout is {:?}", (te - x.ts) as f64 / 1e9, c.timeout);
                    }
                }
            }
        })
    }
}
fn temp() -> Temporality {
    pick(S_CFG, &[Temporality::Delta, Temporality::Cumulative, Temporality::LowMemory, Temporality::Delta])
}
fn plan(hang: bool) -> Plan {
    let base = match choose(S_CFG, 4) {
        0 => CALM,
        1 => Plan { slow: 1, max_slow_us: 200_000, ..CALM },
        2 => Plan { ok: 2, err: 1, slow: 1, fast: 2, max_slow_us: 200_000, ..CALM },
        _ => Plan { ok: 2, err: 1, slow: 1, max_slow_us: if hang { 20_000_000 } else { 3_000_000 }, ..CALM },
    };
    Plan { shut_fails: chance(S_CFG, 5), ..base }
}
fn join(v: Vec<thread::JoinHandle<()>>) {
    for t in v {
        t.join().unwrap();
    }
}
fn rt_of(k: RK) -> Rt {
    if k == RK::Tokio { Rt::Tokio } else { Rt::Thread }
}
/// Recording, flushing and shutdown against one periodic reader with any faults.
fn calls(kinds: &[RK], hang: bool) {
    no_busy_wait(Duration::from_millis(50));
    let kind = pick(S_CFG, kinds);
    let mut pl = plan(hang);
    if kind == RK::Thread && chance(S_CFG, 6) {
        pl.panic = 1;
    }
    if kind == RK::Thread && chance(S_CFG, 6) {
        pl.shut_slow_us = 1 + choose(S_CFG, 20_000_000);
    }
    let strict = chance(S_CFG, 3);
    let iv = if strict { 100_000_000 } else { pick(S_CFG, &[100u64, 20, 1000, 60_000]) };
    let conf = Conf { kind, temp: temp(), interval: Duration::from_millis(iv), timeout: Duration::from_millis(pick(S_CFG, &[30_000u64, 20, 500, 3000])), plan: pl };
    with_runtime(rt_of(kind), || {
        let w = World::new(vec![conf.clone()]);
        let gap = (iv.min(2000) * 1000) as u32;
        let nc = if strict { 1 } else { choose(S_CFG, 3) };
        let shutdown = !strict && chance(S_CFG, 3);
        let mut v = w.recorders(1 + choose(S_CFG, 3), 12, gap);
        v.extend(w.callers(nc, 4, gap, shutdown));
        join(v);
        let ins = w.inst();
        w.recs[0].plan.with(|p| *p = Plan { shut_fails: p.shut_fails, shut_slow_us: p.shut_slow_us, ..CALM });
        let down = w.h.with(|h| h.calls.iter().any(|c| c.kind == CK::Shutdown));
        let panicked = w.h.with(|h| h.r[0].panicked);
        if !down && !panicked {
            // a running export may still fail
            let mut ok = false;
            for k in 0..4 {
                w.record(&ins, 0, k);
                ok = ok || w.call(CK::Flush).ok || w.h.with(|h| h.r[0].panicked);
            }
            ensure!(ok, "error-stops-exports", "no flush succeeded after the exporter recovered");
        }
        match choose(S_CFG, 3) {
            0 if !down => {
                w.inst.with(|i| *i = None);
                drop(ins);
                let n = w.h.with(|h| h.meas.len());
                let ts = now();
                let st = stalls();
                w.provider.with(|p| p.take());
                tr!("provider dropped");
                w.h.with(|h| {
                    let r = &h.r[0];
                    if !r.panicked && (now() - ts < 5_000_000_000 || stalls() == st && kind != RK::Thread) {
                        ensure!(r.shut.len() == 1, "drop-no-shutdown", "the exporter was shut down {} times by dropping the provider", r.shut.len());
                        for m in 0..n {
                            ensure!(r.exps.iter().any(|x| x.data.get(&(h.meas[m].inst, h.meas[m].key.clone())).is_some_and(|v| v >> m & 1 == 1)), "drop-incomplete", "measurement {m} was not exported when the provider was dropped");
                        }
                    }
                });
            }
            _ => {
                w.call(CK::Shutdown);
                w.record(&ins, 0, 1);
                w.call(CK::Flush);
                w.call(CK::Shutdown);
                if w.h.with(|h| h.r[0].calls.iter().any(|c| c.kind == CK::Shutdown && !c.err.contains("Timeout"))) {
                    // the reader itself, not only the provider
                    for k in [CK::Flush, CK::Shutdown] {
                        let ts = now();
                        let r = match k {
                            CK::Flush => w.readers[0].force_flush(),
                            CK::Shutdown => w.readers[0].shutdown(),
                        };
                        ensure!(r.is_err(), "ok-after-shutdown", "{k:?} of the reader succeeded after its shutdown");
                        ensure!(stalls() > 0 || now() - ts < 20_000_000, "blocks-after-shutdown", "{k:?} of the reader took {:.3}s after its shutdown", (now() - ts) as f64 / 1e9);
                    }
                }
            }
        }
        thread::sleep(Duration::from_secs(1));
        let settle = w.h.with(|h| h.r[0].calls.iter().any(|c| c.err.contains("Timeout")));
        if settle {
            probe("shutdown_timeout");
            thread::sleep(Duration::from_secs(60));
        }
        let n = w.h.with(|h| h.r[0].exps.len());
        thread::sleep(Duration::from_millis(iv.min(70_000) * 2 + 10));
        w.h.with(|h| {
            ensure!(h.r[0].exps.len() == n, "export-after-shutdown", "something was exported after shutdown");
            ensure!(h.r[0].panicked || h.r[0].shut.len() == 1, "exporter-not-shut-down", "the exporter was shut down {} times", h.r[0].shut.len());
        });
        if kind == RK::Thread {
            check_no_threads_left("the reader was shut down");
        }
        w.check_data();
        w.check_calls(strict && !down);
        w.check_abandoned();
    });
}
fn timely(kinds: &[RK]) {
    no_busy_wait(Duration::from_millis(50));
    let kind = pick(S_CFG, kinds);
    let iv = pick(S_CFG, &[1000u64, 100, 5000, 60_000]);
    let pl = match choose(S_CFG, 4) {
        0 => CALM,
        1 => Plan { ok: 1, err: 1, ..CALM },
        2 => Plan { ok: 2, err: 1, slow: 1, max_slow_us: iv as u32 * 900, ..CALM },
        _ => Plan { ok: 2, err: 1, slow: 1, max_slow_us: iv as u32 * 2500, ..CALM },
    };
    let conf = Conf { kind, temp: temp(), interval: Duration::from_millis(iv), timeout: Duration::from_millis(pick(S_CFG, &[30_000u64, iv / 2, iv * 2])), plan: pl };
    with_runtime(rt_of(kind), || {
        let t0 = now();
        let w = World::new(vec![conf]);
        w.record(&w.inst(), 1, 0);
        let mut v = w.recorders(1, 8, iv as u32 * 2000);
        if chance(S_CFG, 2) {
            v.extend(w.callers(1, 4, iv as u32 * 2500, false));
        }
        thread::sleep(Duration::from_millis(iv * (2 + choose(S_CFG, 6) as u64) + iv / 3));
        join(v);
        let until = now();
        w.check_timely(0, t0, until);
        w.recs[0].plan.with(|p| *p = CALM);
        w.call(CK::Shutdown);
        w.check_data();
        w.check_abandoned();
    });
}
/// Several readers at once: each sees everything, whatever happens to the others.
fn several() {
    let tokio = chance(S_CFG, 3);
    let n = 2 + choose(S_CFG, 2);
    let confs: Vec<Conf> = (0..n).map(|_| {
        let kind = match choose(S_CFG, 4) {
            0 | 1 => RK::Manual,
            2 if tokio => pick(S_CFG, &[RK::Tokio, RK::TokioCurrent]),
            _ => RK::Thread,
        };
        let mut plan = plan(false);
        plan.reader_fails = chance(S_CFG, 6);
        plan.panic = (kind == RK::Thread && chance(S_CFG, 10)) as u32;
        Conf { kind, temp: temp(), interval: Duration::from_millis(pick(S_CFG, &[100u64, 20, 1000, 60_000])), timeout: Duration::from_millis(pick(S_CFG, &[30_000u64, 20, 500])), plan }
    }).collect();
    with_runtime(if tokio { Rt::Tokio } else { Rt::Thread }, || {
        let w = World::new(confs.clone());
        let mut v = w.recorders(1 + choose(S_CFG, 3), 12, 1000);
        v.extend(w.callers(choose(S_CFG, 3), 3, 100_000, chance(S_CFG, 4)));
        for (r, c) in confs.iter().enumerate() {
            if c.kind == RK::Manual {
                let w = w.clone();
                v.push(thread::spawn(move || {
                    let s = 30 + r as u32;
                    for _ in 0..choose(s, 5) {
                        thread::sleep(Duration::from_micros(choose(s, 2000) as u64));
                        w.collect(r);
                    }
                }));
            }
        }
        if chance(S_CFG, 3) {
            // one reader is shut down on its own
            let w = w.clone();
            v.push(thread::spawn(move || {
                let r = choose(40, w.readers.len() as u32) as usize;
                thread::sleep(Duration::from_micros(choose(40, 50_000) as u64));
                fault("reader_shut_down_alone");
                let _ = w.readers[r].shutdown();
            }));
        }
        join(v);
        for (r, c) in confs.iter().enumerate() {
            if c.kind == RK::Manual {
                w.collect(r);
            }
        }
        for r in &w.recs {
            r.plan.with(|p| *p = Plan { shut_fails: p.shut_fails, reader_fails: p.reader_fails, ..CALM });
        }
        if !w.h.with(|h| h.calls.iter().any(|c| c.kind == CK::Shutdown)) {
            w.record(&w.inst(), 0, 0);
            w.call(CK::Flush);
            for (r, c) in confs.iter().enumerate() {
                if c.kind == RK::Manual {
                    w.collect(r);
                }
            }
        }
        w.call(CK::Shutdown);
        w.call(pick(S_CFG, &[CK::Flush, CK::Shutdown]));
        w.check_data();
        w.check_calls(false);
    });
}
/// A reader whose exporter stalls for long delays neither recording nor the other readers.
fn stalled() {
    let slow = Conf { kind: RK::Thread, temp: temp(), interval: Duration::from_millis(pick(S_CFG, &[100u64, 1000])), timeout: Duration::from_secs(30), plan: Plan { ok: 1, err: 1, slow: 4, max_slow_us: 40_000_000, ..CALM } };
    let iv = pick(S_CFG, &[100u64, 700, 5000]);
    let mut confs = vec![slow, Conf { kind: RK::Thread, temp: temp(), interval: Duration::from_millis(iv), timeout: Duration::from_secs(30), plan: CALM }];
    let fast = choose(S_CFG, 2) as usize;
    if fast == 0 {
        confs.reverse();
    }
    let t0 = now();
    let w = World::new(confs);
    w.record(&w.inst(), 1, 0);
    join(w.recorders(2, 10, 2_000_000));
    thread::sleep(Duration::from_millis(iv * 3));
    w.check_timely(fast, t0, now());
    w.h.with(|h| {
        for (i, m) in h.meas.iter().enumerate() {
            ensure!(m.dur < 5_000_000, "recording-delayed", "measurement {i} took {:.6}s to record", m.dur as f64 / 1e9);
        }
    });
    w.check_data();
    w.recs.iter().for_each(|r| r.plan.with(|p| *p = CALM));
    w.call(CK::Shutdown);
    w.check_data();
}
macro_rules! sc {
    ($p:expr, $n:expr, $w:expr, $f:expr, $o:expr) => {
        Scenario { prop: $p, name: $n, weight: $w, run: $f, opts: $o }
    };
}
const ASYNC: &[RK] = &[RK::Tokio, RK::TokioCurrent];
pub const SCEN: &[Scenario] = &[
    sc!("M08", "several-readers", 3, several, DEFAULT),
    sc!("M08", "stalled-reader", 1, stalled, NOSTALL),
    sc!("M09", "periodic-calls", 2, || calls(&[RK::Thread], true), DEFAULT),
    sc!("M09", "periodic-calls-timed", 1, || calls(&[RK::Thread], true), NOSTALL),
    sc!("M09", "periodic-timely", 1, || timely(&[RK::Thread]), NOSTALL),
    sc!("M10", "async-calls", 2, || calls(ASYNC, true), DEFAULT),
    sc!("M10", "async-calls-timed", 1, || calls(ASYNC, true), NOSTALL),
    sc!("M10", "async-timely", 1, || timely(ASYNC), NOSTALL),
];
