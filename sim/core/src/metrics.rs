//! M01–M06: synchronous instruments, concurrent recording, creation and collection.
//!
//! Every measurement of a series is a distinct digit (a power of 2, or ± a power of 4 where negative values are allowed), so
//! the exported sum of a point tells exactly which measurements it contains.
use crate::batch::S_CFG;
use opentelemetry::metrics::{Meter, MeterProvider as _};
use opentelemetry::{InstrumentationScope, Key, KeyValue, StringValue, Value};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{Aggregation, Instrument, InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Stream, Temporality};
use opentelemetry_sdk::Resource;
use simfw::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, Weak};
use std::thread;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Kind {
    Counter,
    UpDown,
    Hist,
    Expo,
    Gauge,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Num {
    U,
    I,
    F,
}
#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub num: Num,
    pub scope: u32,
    pub name: &'static str,
    pub desc: &'static str,
    pub unit: &'static str,
    /// value of one unit for float instruments
    pub step: f64,
    pub bounds: Option<Vec<f64>>,
    pub limit: Option<usize>,
    /// attribute keys a view keeps
    pub keep: Option<&'static [&'static str]>,
    /// never exported: dropped by a view or invalid
    pub dropped: bool,
    /// name it is exported under, when a view renames it
    pub renamed: Option<&'static str>,
    /// the instrument, if a view turns its measurements into a stream of another kind
    made_as: Option<Kind>,
    /// further views of the instrument: stream name and keys kept
    also: Vec<(&'static str, Option<&'static [&'static str]>)>,
    /// stands for the stream a further view of that instrument makes
    copy_of: Option<usize>,
    /// how the view that drops it selects it
    via: u32,
    pub max_size: u32,
    pub max_scale: i8,
    pub min_max: bool,
}
impl Spec {
    fn new(kind: Kind, num: Num, name: &'static str) -> Self {
        let num = match kind {
            Kind::Counter | Kind::Hist | Kind::Expo if num == Num::I => Num::U,
            Kind::UpDown if num == Num::U => Num::I,
            _ => num,
        };
        Spec {
            kind, num, scope: 0, name, desc: "", unit: "", step: 1.0, bounds: None, limit: None, keep: None, dropped: false, renamed: None,
            made_as: None, also: vec![], copy_of: None, via: 0,
            max_size: 160, max_scale: 20, min_max: true,
        }
    }
    fn signed(&self) -> bool {
        match self.kind {
            Kind::UpDown => true,
            Kind::Hist | Kind::Expo => self.num == Num::F,
            _ => false,
        }
    }
    fn max_digits(&self) -> u32 {
        if self.signed() {
            if self.num == Num::F { 24 } else { 30 }
        } else if self.num == Num::F {
            49
        } else {
            62
        }
    }
    /// a single bucket cannot hold every measurement: those that do not fit are documented to be dropped
    fn lossy(&self) -> bool {
        self.kind == Kind::Expo && self.max_size < 2
    }
    fn val(&self, raw: i128) -> f64 {
        if self.num == Num::F { raw as f64 * self.step } else { raw as f64 }
    }
}
pub fn scope_of(i: u32) -> InstrumentationScope {
    match i {
        0 => InstrumentationScope::builder("lib").build(),
        1 => InstrumentationScope::builder("lib").with_version("1").build(),
        2 => InstrumentationScope::builder("lib").with_version("1").with_schema_url("https://x/1").build(),
        3 => InstrumentationScope::builder("lib").with_attributes([KeyValue::new("a", 1)]).build(),
        4 => InstrumentationScope::builder("lib").with_attributes([KeyValue::new("a", 2)]).build(),
        _ => InstrumentationScope::builder("Lib").build(),
    }
}
type Rec = Arc<dyn Fn(i128, &[KeyValue]) + Send + Sync>;
fn variant_case(name: &str, up: u32) -> String {
    match up {
        0 => name.into(),
        1 => name.to_ascii_uppercase(),
        _ => name.char_indices().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
/// Creates the instrument (again) and returns a function recording with it.
pub fn create(m: &Meter, s: &Spec, up: u32) -> Rec {
    let name = variant_case(s.name, up);
    macro_rules! b {
        ($f:ident) => {{
            let mut b = m.$f(name);
            if !s.desc.is_empty() {
                b = b.with_description(s.desc);
            }
            if !s.unit.is_empty() {
                b = b.with_unit(s.unit);
            }
            if let Some(l) = s.limit {
                b = b.with_cardinality_limit(l);
            }
            b
        }};
    }
    let step = s.step;
    match (s.made_as.unwrap_or(s.kind), s.num) {
        (Kind::Counter, Num::F) => { let i = b!(f64_counter).build(); Arc::new(move |v, a| i.add(v as f64 * step, a)) }
        (Kind::Counter, _) => { let i = b!(u64_counter).build(); Arc::new(move |v, a| i.add(v as u64, a)) }
        (Kind::UpDown, Num::F) => { let i = b!(f64_up_down_counter).build(); Arc::new(move |v, a| i.add(v as f64 * step, a)) }
        (Kind::UpDown, _) => { let i = b!(i64_up_down_counter).build(); Arc::new(move |v, a| i.add(v as i64, a)) }
        (Kind::Hist, n) => {
            if n == Num::F {
                let mut x = b!(f64_histogram);
                if let Some(v) = &s.bounds { x = x.with_boundaries(v.clone()) }
                let i = x.build();
                Arc::new(move |v, a| i.record(v as f64 * step, a))
            } else {
                let mut x = b!(u64_histogram);
                if let Some(v) = &s.bounds { x = x.with_boundaries(v.clone()) }
                let i = x.build();
                Arc::new(move |v, a| i.record(v as u64, a))
            }
        }
        (Kind::Expo, Num::F) => { let i = b!(f64_histogram).build(); Arc::new(move |v, a| i.record(v as f64 * step, a)) }
        (Kind::Expo, _) => { let i = b!(u64_histogram).build(); Arc::new(move |v, a| i.record(v as u64, a)) }
        (Kind::Gauge, Num::F) => { let i = b!(f64_gauge).build(); Arc::new(move |v, a| i.record(v as f64 * step, a)) }
        (Kind::Gauge, Num::I) => { let i = b!(i64_gauge).build(); Arc::new(move |v, a| i.record(v as i64, a)) }
        (Kind::Gauge, Num::U) => { let i = b!(u64_gauge).build(); Arc::new(move |v, a| i.record(v as u64, a)) }
    }
}
#[derive(Clone, Debug)]
pub struct SharedReader(pub Arc<ManualReader>);
impl MetricReader for SharedReader {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn shutdown_with_timeout(&self, t: Duration) -> OTelSdkResult {
        self.0.shutdown_with_timeout(t)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}
/// Attribute set number `k` written in one of its equivalent ways.
pub fn attrs(k: u32, way: u32) -> Vec<KeyValue> {
    let mut v = match k {
        0 => return vec![],
        1 => vec![KeyValue::new("k", "a")],
        2 => vec![KeyValue::new("k", "a"), KeyValue::new("b", true)],
        3 => vec![KeyValue::new("k", "a"), KeyValue::new("b", 1)],
        4 => vec![KeyValue::new("k", "a"), KeyValue::new("b", if way % 2 == 0 { 0.0 } else { -0.0 }), KeyValue::new("c", "z")],
        6 => vec![KeyValue::new("k", Value::Array(opentelemetry::Array::String(vec![StringValue::from("a")]))), KeyValue::new("d", if way % 2 == 0 { 0.0 } else { -0.0 })],
        // a key given twice with different values: which of them counts is open, but not that there is only one
        5 => return vec![KeyValue::new("z", "p"), KeyValue::new("b", 1), KeyValue::new("z", "q")],
        n => vec![KeyValue::new("k", n as i64)],
    };
    match way {
        1 => v.reverse(),
        2 => v.push(v[0].clone()),
        3 => { v.push(v[0].clone()); v.reverse() }
        4 => v.rotate_left(1),
        _ => {}
    }
    v
}
pub fn key_of(a: &[KeyValue], keep: Option<&[&str]>) -> String {
    let mut v: Vec<_> = a.iter().filter(|kv| keep.is_none_or(|k| k.contains(&kv.key.as_str()))).map(|kv| (kv.key.as_str(), match &kv.value {
        _ if kv.key.as_str() == "z" => "?".into(),
        Value::F64(f) => format!("F64({:?})", f + 0.0),
        v => format!("{v:?}"),
    })).collect();
    v.sort_by(|x, y| x.0.cmp(y.0));
    v.dedup_by(|x, y| x.0 == y.0);
    format!("{v:?}")
}
/// The attribute set of an exported point.
fn exported_key(a: &[KeyValue]) -> String {
    let mut k: Vec<_> = a.iter().map(|kv| kv.key.as_str()).collect();
    k.sort();
    ensure!(k.windows(2).all(|w| w[0] != w[1]), "duplicate-attribute-key", "a point is exported with the attributes {a:?}");
    key_of(a, None)
}
pub const OVERFLOW: &str = "[(\"otel.metric.overflow\", \"Bool(true)\")]";

/// digit of a measurement of zero, which only shows in counts
const ZERO: u32 = u32::MAX;
#[derive(Clone, Debug)]
pub struct Meas {
    inst: usize,
    key: String,
    digit: u32,
    raw: i128,
    begin: u64,
    end: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Num(i128),
    Hist { sum: i128, count: u64, min: Option<f64>, max: Option<f64>, bounds: Vec<f64>, buckets: Vec<u64> },
    Expo { sum: i128, count: u64, min: Option<f64>, max: Option<f64>, scale: i8, zero: u64, pos: (i32, Vec<u64>), neg: (i32, Vec<u64>) },
}
#[derive(Clone, Debug)]
pub struct Pt {
    pub key: String,
    pub body: Body,
}
#[derive(Clone, Debug)]
pub struct Str {
    pub scope: InstrumentationScope,
    pub name: String,
    pub desc: String,
    pub unit: String,
    pub kind: Kind,
    pub num: Num,
    pub delta: Option<bool>,
    pub start: Option<u64>,
    pub time: u64,
    pub pts: Vec<Pt>,
}
fn ns(t: SystemTime) -> u64 {
    t.duration_since(UNIX_EPOCH).unwrap_or_default().as_nanos() as u64
}
trait Raw: Copy {
    const N: Num;
    fn raw(self, step: f64) -> i128;
    fn f(self) -> f64;
}
impl Raw for u64 {
    const N: Num = Num::U;
    fn raw(self, _: f64) -> i128 { self as i128 }
    fn f(self) -> f64 { self as f64 }
}
impl Raw for i64 {
    const N: Num = Num::I;
    fn raw(self, _: f64) -> i128 { self as i128 }
    fn f(self) -> f64 { self as f64 }
}
impl Raw for f64 {
    const N: Num = Num::F;
    fn raw(self, step: f64) -> i128 {
        let r = self / step;
        ensure!(r.fract() == 0.0 && r.abs() < 1e20, "impossible-value", "the exported value {self} is not a sum of recorded values (unit {step})");
        r as i128
    }
    fn f(self) -> f64 { self }
}
fn body_streams<T: Raw>(d: &MetricData<T>, step: f64, base: Str) -> Str {
    let mut s = Str { num: T::N, ..base };
    match d {
        MetricData::Gauge(g) => {
            s.kind = Kind::Gauge;
            s.start = g.start_time.map(ns);
            s.time = ns(g.time);
            s.pts = g.data_points.iter().map(|p| Pt { key: exported_key(&p.attributes), body: Body::Num(p.value.raw(step)) }).collect();
        }
        MetricData::Sum(g) => {
            s.kind = if g.is_monotonic { Kind::Counter } else { Kind::UpDown };
            s.delta = Some(g.temporality == Temporality::Delta);
            s.start = Some(ns(g.start_time));
            s.time = ns(g.time);
            s.pts = g.data_points.iter().map(|p| Pt { key: exported_key(&p.attributes), body: Body::Num(p.value.raw(step)) }).collect();
        }
        MetricData::Histogram(g) => {
            s.kind = Kind::Hist;
            s.delta = Some(g.temporality == Temporality::Delta);
            s.start = Some(ns(g.start_time));
            s.time = ns(g.time);
            s.pts = g.data_points.iter().map(|p| Pt {
                key: exported_key(&p.attributes),
                body: Body::Hist { sum: p.sum.raw(step), count: p.count, min: p.min.map(T::f), max: p.max.map(T::f), bounds: p.bounds.clone(), buckets: p.bucket_counts.clone() },
            }).collect();
        }
        MetricData::ExponentialHistogram(g) => {
            s.kind = Kind::Expo;
            s.delta = Some(g.temporality == Temporality::Delta);
            s.start = Some(ns(g.start_time));
            s.time = ns(g.time);
            s.pts = g.data_points.iter().map(|p| Pt {
                key: exported_key(&p.attributes),
                body: Body::Expo {
                    sum: p.sum.raw(step), count: p.count as u64, min: p.min.map(T::f), max: p.max.map(T::f), scale: p.scale, zero: p.zero_count,
                    pos: (p.positive_bucket.offset, p.positive_bucket.counts.clone()), neg: (p.negative_bucket.offset, p.negative_bucket.counts.clone()),
                },
            }).collect();
        }
    }
    s
}
/// Flattens an exported batch; `step_of` gives the value unit for a stream of that (lower-case) name.
pub fn streams(rm: &ResourceMetrics, step_of: &dyn Fn(&str) -> f64) -> Vec<Str> {
    let mut out = vec![];
    let mut scopes: Vec<&InstrumentationScope> = vec![];
    for sm in &rm.scope_metrics {
        ensure!(!scopes.contains(&&sm.scope), "scope-twice", "scope {:?} is exported twice in one collection", sm.scope);
        scopes.push(&sm.scope);
        for m in &sm.metrics {
            let base = Str {
                scope: sm.scope.clone(), name: m.name.to_string(), desc: m.description.to_string(), unit: m.unit.to_string(), kind: Kind::Gauge, num: Num::F,
                delta: None, start: None, time: 0, pts: vec![],
            };
            let step = step_of(&m.name.to_ascii_lowercase());
            out.push(match &m.data {
                AggregatedMetrics::F64(d) => body_streams(d, step, base),
                AggregatedMetrics::U64(d) => body_streams(d, step, base),
                AggregatedMetrics::I64(d) => body_streams(d, step, base),
            });
        }
    }
    out
}
#[derive(Clone, Debug)]
pub struct Col {
    pub reader: usize,
    pub begin: u64,
    pub end: u64,
    pub rbegin: u64,
    pub rend: u64,
    pub streams: Vec<Str>,
}
#[derive(Default)]
struct H {
    meas: Vec<Meas>,
    digits: BTreeMap<(usize, String), u32>,
    cols: Vec<Col>,
    created: Vec<(u64, u64)>, // per instrument: real time window in which its first creation happened
}
pub struct World {
    specs: Vec<Spec>,
    /// how many of them are instruments, not copies made by views
    user: usize,
    readers: Vec<Arc<ManualReader>>,
    temps: Vec<Temporality>,
    /// one collection at a time per reader
    serial: Option<Vec<Mutex<Option<ResourceMetrics>>>>,
    provider: SdkMeterProvider,
    h: Shared<H>,
    /// digits are unique per instrument instead of per series
    global_digits: bool,
}
pub fn empty_rm() -> ResourceMetrics {
    ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] }
}
fn expected_delta(t: Temporality, k: Kind) -> bool {
    match t {
        Temporality::Delta => k != Kind::UpDown,
        Temporality::LowMemory => !matches!(k, Kind::UpDown | Kind::Gauge),
        _ => false,
    }
}
impl World {
    fn new(mut specs: Vec<Spec>, nreaders: u32, global_digits: bool) -> Arc<World> {
        let user = specs.len();
        let mut temps = vec![];
        let mut readers = vec![];
        let mut b = SdkMeterProvider::builder().with_resource(Resource::builder_empty().build());
        for _ in 0..nreaders {
            let t = pick(S_CFG, &[Temporality::Delta, Temporality::Cumulative, Temporality::Delta, Temporality::LowMemory]);
            let r = Arc::new(ManualReader::builder().with_temporality(t).build());
            temps.push(t);
            readers.push(r.clone());
            b = b.with_reader(SharedReader(r));
        }
        for s in &specs {
            let crit = || Instrument::new().name(s.name);
            if s.kind == Kind::Expo {
                let (max_size, max_scale, record_min_max) = (s.max_size, s.max_scale, s.min_max);
                if s.made_as.is_some() { probe("view_changes_kind") }
                let mut st = Stream::new().aggregation(Aggregation::Base2ExponentialHistogram { max_size, max_scale, record_min_max });
                if let Some(l) = s.limit { st = st.cardinality_limit(l) }
                if let Some(k) = s.keep { st = st.allowed_attribute_keys(k.iter().map(|k| Key::new(*k))) }
                b = b.with_view(opentelemetry_sdk::metrics::new_view(crit(), st).unwrap());
            } else if s.dropped && s.via > 0 {
                let c = match s.via {
                    1 => crit(),
                    2 => Instrument::new().name("drop*"),
                    3 => Instrument::new().name("?ropped"),
                    4 => crit().unit(s.unit),
                    5 => crit().description(s.desc),
                    6 => Instrument::new().scope(scope_of(s.scope)),
                    _ => Instrument::new().unit(s.unit),
                };
                b = b.with_view(opentelemetry_sdk::metrics::new_view(c, Stream::new().aggregation(Aggregation::Drop)).unwrap());
            } else if !s.also.is_empty() {
                for (n, k) in [(s.renamed.unwrap_or(s.name), s.keep)].iter().chain(&s.also) {
                    let mut st = Stream::new().name(*n);
                    if let Some(k) = k { st = st.allowed_attribute_keys(k.iter().map(|k| Key::new(*k))) }
                    b = b.with_view(opentelemetry_sdk::metrics::new_view(crit(), st).unwrap());
                }
            } else if s.keep.is_some() || s.renamed.is_some() || s.made_as.is_some() {
                let mut st = Stream::new();
                if s.made_as.is_some() {
                    st = st.aggregation(if s.kind == Kind::Hist {
                        Aggregation::ExplicitBucketHistogram { boundaries: s.bounds.clone().unwrap_or_default(), record_min_max: s.min_max }
                    } else {
                        Aggregation::Sum
                    });
                }
                if let Some(k) = s.keep { st = st.allowed_attribute_keys(k.iter().map(|k| Key::new(*k))) }
                if let Some(l) = s.limit { st = st.cardinality_limit(l) }
                if let Some(n) = s.renamed { st = st.name(n) }
                b = b.with_view(opentelemetry_sdk::metrics::new_view(crit(), st).unwrap());
            }
        }
        for i in 0..user {
            let mut known = vec![specs[i].renamed.unwrap_or(specs[i].name).to_ascii_lowercase()];
            for (n, k) in specs[i].also.clone() {
                if !known.contains(&n.to_ascii_lowercase()) {
                    known.push(n.to_ascii_lowercase());
                    specs.push(Spec { renamed: Some(n), keep: k, also: vec![], copy_of: Some(i), ..specs[i].clone() });
                }
            }
        }
        let serial = if chance(S_CFG, 4) { None } else { Some(readers.iter().map(|_| Mutex::new(None)).collect()) };
        tr!("specs {specs:?} temporalities {temps:?} serial {}", serial.is_some());
        let h = H { created: specs.iter().map(|_| (0, 0)).collect(), ..Default::default() };
        Arc::new(World { specs, user, readers, temps, serial, provider: b.build(), h: Shared::new(h), global_digits })
    }
    fn handle(&self, p: &SdkMeterProvider, i: usize, up: u32) -> Rec {
        let r0 = real_now();
        let s = &self.specs[i];
        let m = p.meter_with_scope(scope_of(s.scope));
        // views match names by case
        let r = create(&m, s, if s.dropped || s.renamed.is_some() || s.keep.is_some() || s.made_as.is_some() || s.kind == Kind::Expo || !s.also.is_empty() { 0 } else { up });
        let r1 = real_now();
        self.h.with(|h| {
            for j in self.streams_of(i) {
                let c = &mut h.created[j];
                *c = if *c == (0, 0) { (r0, r1) } else { (c.0.min(r0), c.1.max(r1)) };
            }
        });
        r
    }
    fn streams_of(&self, inst: usize) -> Vec<usize> {
        (0..self.specs.len()).filter(|j| *j == inst || self.specs[*j].copy_of == Some(inst)).collect()
    }
    fn record(&self, rec: &Rec, inst: usize, k: u32, way: u32, neg: bool, zero: bool) {
        let s = &self.specs[inst];
        let a = attrs(k, way);
        let key = key_of(&a, s.keep);
        let slot = (inst, if self.global_digits || !s.also.is_empty() { String::new() } else { key });
        let targets: Vec<_> = self.streams_of(inst).into_iter().map(|j| (j, key_of(&a, self.specs[j].keep))).collect();
        let Some((n, raw)) = self.h.with(|h| {
            let (digit, raw) = if zero {
                (ZERO, 0)
            } else {
                let d = h.digits.entry(slot).or_default();
                if *d >= s.max_digits() {
                    return None;
                }
                let digit = *d;
                *d += 1;
                (digit, if s.signed() { (1i128 << (2 * digit)) * if neg { -1 } else { 1 } } else { 1i128 << digit })
            };
            let n = h.meas.len();
            for (inst, key) in &targets {
                h.meas.push(Meas { inst: *inst, key: key.clone(), digit, raw, begin: seq(), end: 0 });
                tr!("record inst {inst} {raw} {:?}", h.meas.last().unwrap());
            }
            Some((n, raw))
        }) else {
            return;
        };
        rec(raw, &a);
        self.h.with(|h| h.meas[n..n + targets.len()].iter_mut().for_each(|m| m.end = seq()));
    }
    fn step_of(&self, name: &str) -> f64 {
        self.specs.iter().find(|s| s.name == name || s.renamed.is_some_and(|n| n.eq_ignore_ascii_case(name))).map_or(1.0, |s| s.step)
    }
    pub fn collect(&self, r: usize, reuse: bool) {
        let guard = self.serial.as_ref().map(|s| s[r].lock().unwrap());
        let (mut guard, mut rm) = match guard {
            Some(mut g) => {
                let rm = g.take().filter(|_| reuse);
                (Some(g), rm.unwrap_or_else(empty_rm))
            }
            None => (None, empty_rm()),
        };
        let (begin, rbegin) = (seq(), real_now());
        let res = self.readers[r].collect(&mut rm);
        let (end, rend) = (seq(), real_now());
        ensure!(res.is_ok(), "collect-failed", "collect returned {res:?}");
        let _g = Atomic::new();
        let st = streams(&rm, &|n| self.step_of(n));
        tr!("collected reader {r} [{begin},{end}] {st:?}");
        count("probe.points", st.iter().map(|s| s.pts.len() as u64).sum());
        self.h.with(|h| h.cols.push(Col { reader: r, begin, end, rbegin, rend, streams: st }));
        if let Some(g) = guard.as_mut() {
            **g = Some(rm);
        }
    }
    /// which spec a stream belongs to
    fn spec_of(&self, s: &Str) -> usize {
        let f = self.specs.iter().position(|p| {
            !p.dropped && p.kind == s.kind && p.num == s.num && p.desc == s.desc && p.unit == s.unit && p.renamed.unwrap_or(p.name).eq_ignore_ascii_case(&s.name) && scope_of(p.scope) == s.scope
        });
        match f {
            Some(i) => i,
            None => violation("unknown-stream", &format!("exported stream {:?} {} {:?} {:?} {:?}{:?} belongs to no instrument", s.scope, s.name, s.desc, s.unit, s.kind, s.num)),
        }
    }
}
/// the measurements (digits) a value consists of
fn decode(signed: bool, mut x: i128) -> Option<Vec<(u32, bool)>> {
    let mut v = vec![];
    if signed {
        let mut i = 0;
        while x != 0 {
            match x.rem_euclid(4) {
                0 => {}
                1 => { v.push((i, false)); x -= 1 }
                3 => { v.push((i, true)); x += 1 }
                _ => return None,
            }
            x /= 4;
            i += 1;
        }
    } else {
        if x < 0 {
            return None;
        }
        v.extend((0..127).filter(|i| x >> i & 1 == 1).map(|i| (i, false)));
    }
    Some(v)
}
/// The e for which 2^e < v <= 2^(e+1).
fn below(v: f64) -> i32 {
    let (v, shift) = if v < f64::MIN_POSITIVE { (v * 2f64.powi(200), 200) } else { (v, 0) };
    let e = (v.to_bits() >> 52) as i32 - 1023;
    (if v.to_bits() & ((1 << 52) - 1) == 0 { e - 1 } else { e }) - shift
}
fn check_hist(s: &Spec, vals: &[f64], b: &Body, what: &str) {
    let lo = vals.iter().copied().fold(f64::INFINITY, f64::min);
    let hi = vals.iter().copied().fold(f64::NEG_INFINITY, f64::max);
    let mm = |min: &Option<f64>, max: &Option<f64>| {
        if s.min_max {
            ensure!(*min == Some(lo) && *max == Some(hi), "min-max", "{what}: min {min:?} max {max:?} but the measurements in it are {vals:?}");
        } else {
            ensure!(min.is_none() && max.is_none(), "min-max", "{what}: min and max were not asked for");
        }
    };
    match b {
        Body::Hist { count, min, max, bounds, buckets, .. } => {
            ensure!(*count == vals.len() as u64, "count", "{what}: count {count}, but the sum is that of {} measurements {vals:?}", vals.len());
            mm(min, max);
            ensure!(buckets.len() == bounds.len() + 1, "bucket-shape", "{what}: {} buckets for {} bounds", buckets.len(), bounds.len());
            if let Some(want) = &s.bounds {
                ensure!(want == bounds, "bounds", "{what}: bounds {bounds:?} configured {want:?}");
            }
            let mut want = vec![0; buckets.len()];
            for v in vals {
                want[bounds.iter().position(|b| v <= b).unwrap_or(bounds.len())] += 1;
            }
            ensure!(&want == buckets, "buckets", "{what}: bucket counts {buckets:?} but {vals:?} in {bounds:?} give {want:?}");
        }
        Body::Expo { count, min, max, scale, zero, pos, neg, .. } => {
            ensure!(*count == vals.len() as u64, "count", "{what}: count {count}, but the sum is that of {} measurements {vals:?}", vals.len());
            mm(min, max);
            let total = zero + pos.1.iter().sum::<u64>() + neg.1.iter().sum::<u64>();
            ensure!(total == *count, "bucket-total", "{what}: buckets hold {total} measurements, count is {count}: {b:?}");
            ensure!(pos.1.len() <= s.max_size as usize && neg.1.len() <= s.max_size as usize, "max-size", "{what}: {} and {} buckets, maximum {}", pos.1.len(), neg.1.len(), s.max_size);
            ensure!(*scale <= s.max_scale, "scale", "{what}: scale {scale} above the maximum {}", s.max_scale);
            if *scale < s.max_scale {
                // one scale up the measurements must not fit, wherever a value on a boundary is counted
                let fits = [1.0, -1.0].iter().all(|sign| {
                    let p: Vec<f64> = vals.iter().map(|v| v * sign).filter(|v| *v > 0.0).map(|v| v.log2() * 2f64.powi(*scale as i32 + 1)).collect();
                    let (lo, hi) = p.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x), h.max(*x)));
                    let eps = |x: f64| 1e-7 + 1e-11 * x.abs();
                    p.is_empty() || (hi + eps(hi)).ceil() - (lo - eps(lo)).ceil() < s.max_size as f64
                });
                ensure!(!fits, "coarse", "{what}: scale {scale}, although {vals:?} fit in {} buckets at scale {} (maximum {})", s.max_size, scale + 1, s.max_scale);
            }
            ensure!(*zero == vals.iter().filter(|v| **v == 0.0).count() as u64, "zero-count", "{what}: zero count {zero} for {vals:?}");
            for (side, sign) in [(pos, 1.0), (neg, -1.0)] {
                // subnormal values may be counted with the smallest normal one
                let bad = [0.0, f64::MIN_POSITIVE].map(|least| {
                    let mut c = side.1.clone();
                    let mut vs: Vec<f64> = vals.iter().map(|v| v * sign).filter(|v| *v > 0.0).map(|v| v.max(least)).collect();
                    vs.sort_by(f64::total_cmp);
                    vs.into_iter().find_map(|v| {
                        // position in units of buckets: bucket i covers (i, i+1]
                        let p = v.log2() * 2f64.powi(*scale as i32);
                        let near = (p - p.round()).abs() < 1e-7 + 1e-11 * p.abs();
                        let cand = if near { vec![p.round() as i32 - 1, p.round() as i32] } else { vec![p.ceil() as i32 - 1] };
                        // whole powers of two are exact: the upper bound is inclusive
                        let cand = if *scale <= 0 { vec![below(v) >> -*scale] } else { cand };
                        let ok = cand.iter().any(|i| {
                            let x = i - side.0;
                            if x >= 0 && (x as usize) < c.len() && c[x as usize] > 0 {
                                c[x as usize] -= 1;
                                true
                            } else {
                                false
                            }
                        });
                        if ok { None } else { Some((v, cand)) }
                    })
                });
                if let [Some((v, cand)), Some(_)] = &bad {
                    violation("bucket", &format!("{what}: {v:e} is not counted in bucket {cand:?} at scale {scale}: {b:?} for {vals:?}"))
                }
            }
        }
        Body::Num(_) => violation("kind", "not a histogram"),
    }
}
pub const VALUES: u32 = 1;
pub const TIMES: u32 = 2;
pub const LIMIT: u32 = 4;

impl World {
    /// Judges the whole history; the last collection of every reader ran alone at the end.
    fn check(&self, what: u32) {
        let h = self.h.with(|h| std::mem::take(h));
        let _g = Atomic::new();
        let serial = self.serial.is_some();
        for r in 0..self.readers.len() {
            let mut cols: Vec<&Col> = h.cols.iter().filter(|c| c.reader == r).collect();
            cols.sort_by_key(|c| c.end);
            // identity
            for c in &cols {
                let mut seen = BTreeSet::new();
                for s in &c.streams {
                    let i = self.spec_of(s);
                    ensure!(seen.insert(i), "duplicate-stream", "reader {r}: instrument {:?} is exported twice in one collection", self.specs[i]);
                    let mut keys = BTreeSet::new();
                    for p in &s.pts {
                        ensure!(keys.insert(&p.key), "duplicate-series", "reader {r}: series {} of {} exported twice in one collection: {:?}", p.key, s.name, s.pts);
                    }
                    ensure!(!s.pts.is_empty(), "empty-metric", "reader {r}: metric {} exported without points", s.name);
                    if let Some(d) = s.delta {
                        ensure!(d == expected_delta(self.temps[r], { let p = &self.specs[self.spec_of(s)]; p.made_as.unwrap_or(p.kind) }), "temporality", "{} exported with delta={d} for a reader of {:?}", s.name, self.temps[r]);
                    }
                }
            }
            for (i, spec) in self.specs.iter().enumerate() {
                if spec.dropped {
                    continue;
                }
                let delta = expected_delta(self.temps[r], spec.made_as.unwrap_or(spec.kind));
                let per: Vec<(&Col, Option<&Str>)> = cols.iter().map(|c| (*c, c.streams.iter().find(|s| self.spec_of(s) == i))).collect();
                if what & VALUES != 0 {
                    self.check_values(&h, r, i, spec, delta, serial, &per);
                }
                if what & TIMES != 0 && serial {
                    check_times(&h, r, i, spec, delta, &per);
                }
                if what & LIMIT != 0 {
                    self.check_limit(&h, r, i, spec, delta, &per);
                }
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn check_values(&self, h: &H, r: usize, i: usize, spec: &Spec, delta: bool, serial: bool, per: &[(&Col, Option<&Str>)]) {
        let mut keys: BTreeSet<&str> = h.meas.iter().filter(|m| m.inst == i).map(|m| m.key.as_str()).collect();
        for (_, s) in per {
            keys.extend(s.iter().flat_map(|s| s.pts.iter().map(|p| p.key.as_str())));
        }
        for key in keys {
            let meas: BTreeMap<u32, &Meas> = h.meas.iter().filter(|m| m.inst == i && m.key == key && m.digit != ZERO).map(|m| (m.digit, m)).collect();
            let zeros: Vec<&Meas> = h.meas.iter().filter(|m| m.inst == i && m.key == key && m.digit == ZERO).collect();
            let mut zeros_seen = 0;
            // which collection each measurement was first exported in
            let mut first: BTreeMap<u32, usize> = BTreeMap::new();
            let mut all: Vec<(u64, BTreeSet<u32>)> = vec![];
            for (n, (c, s)) in per.iter().enumerate() {
                let what = format!("reader {r} ({:?}) collection {n} [{},{}] {:?} {} series {key}", self.temps[r], c.begin, c.end, spec.kind, spec.name);
                let Some(p) = s.and_then(|s| s.pts.iter().find(|p| p.key == key)) else {
                    if spec.kind == Kind::Gauge {
                        let since = if delta && n > 0 { per[n - 1].0.end } else { 0 };
                        if serial || !delta {
                            let lost = meas.values().find(|m| m.end != 0 && m.end < c.begin && m.begin >= since);
                            ensure!(lost.is_none(), "gauge-missing", "{what}: not exported although {lost:?} completed before the collection");
                        }
                    } else if !delta {
                        let lost = meas.values().find(|m| m.end != 0 && m.end < c.begin);
                        ensure!(lost.is_none() || spec.lossy(), "missing", "{what}: not exported although {lost:?} completed before the collection");
                    }
                    continue;
                };
                let x = match &p.body {
                    Body::Num(x) => *x,
                    Body::Hist { sum, .. } | Body::Expo { sum, .. } => *sum,
                };
                if spec.kind == Kind::Gauge {
                    let Some(m) = meas.values().find(|m| m.raw == x) else {
                        violation("gauge-never-recorded", &format!("{what}: exported {x}, never recorded for it"))
                    };
                    ensure!(m.begin < c.end, "from-the-future", "{what}: exported {m:?}");
                    let newer = meas.values().find(|n| n.begin > m.end && n.end != 0 && n.end < c.begin);
                    ensure!(m.end == 0 || newer.is_none(), "gauge-stale", "{what}: exported {m:?} although {newer:?} is later and complete");
                    if delta && n > 0 && serial {
                        ensure!(m.end == 0 || m.end > per[n - 1].0.begin, "gauge-not-recorded-since", "{what}: exported {m:?} which was completed before the previous collection began");
                    }
                    continue;
                }
                let Some(d) = decode(spec.signed(), x) else {
                    violation("impossible-value", &format!("{what}: exported value {x} is not a sum of measurements"))
                };
                let mut vals = vec![];
                for (digit, neg) in &d {
                    let Some(m) = meas.get(digit).filter(|m| (m.raw < 0) == *neg) else {
                        violation("impossible-value", &format!("{what}: exported value {x} contains a measurement (digit {digit}) never made for it"))
                    };
                    vals.push(spec.val(m.raw));
                    ensure!(m.begin < c.end, "from-the-future", "{what}: contains {m:?}");
                    if delta {
                        ensure!(!first.contains_key(digit), "exported-twice", "{what}: {m:?} was already exported by collection {}", first[digit]);
                    }
                    first.entry(*digit).or_insert(n);
                }
                let nz = match &p.body {
                    Body::Hist { count, .. } | Body::Expo { count, .. } => {
                        ensure!(*count >= vals.len() as u64, "count", "{what}: count {count}, but the sum is that of {} measurements", vals.len());
                        *count as usize - vals.len()
                    }
                    _ => 0,
                };
                vals.extend(std::iter::repeat_n(0.0, nz));
                let begun = zeros.iter().filter(|z| z.begin < c.end).count();
                let done = zeros.iter().filter(|z| z.end != 0 && z.end < c.begin).count();
                if delta {
                    zeros_seen += nz;
                    ensure!(zeros_seen <= zeros.len() && (!serial || spec.lossy() || (done..=begun).contains(&zeros_seen)), "count", "{what}: {zeros_seen} measurements of 0 exported, {done} completed and {begun} begun");
                } else {
                    ensure!((done..=begun).contains(&nz), "count", "{what}: {nz} measurements of 0 in it, {done} completed and {begun} begun");
                }
                if delta {
                    ensure!(!vals.is_empty(), "empty-point", "{what}: a point without any measurement is exported: {:?}", p.body);
                } else {
                    let now: BTreeSet<u32> = d.iter().map(|x| x.0).collect();
                    ensure!(all.iter().all(|(e, old)| *e > c.begin || now.is_superset(old)), "lost", "{what}: measurements of earlier collections are gone");
                    all.push((c.end, now));
                    for m in meas.values() {
                        let has = d.iter().any(|x| x.0 == m.digit);
                        ensure!(has || spec.lossy() || m.end == 0 || m.end >= c.begin, "missing", "{what}: lacks {m:?} which completed before the collection began");
                        if !has && m.end != 0 && !spec.lossy() {
                            let later = meas.values().find(|l| l.begin > m.end && d.iter().any(|x| x.0 == l.digit));
                            ensure!(later.is_none(), "not-a-cut", "{what}: contains {later:?} but not the earlier {m:?}");
                        }
                    }
                }
                if matches!(spec.kind, Kind::Hist | Kind::Expo) {
                    check_hist(spec, &vals, &p.body, &what);
                }
            }
            if spec.kind == Kind::Gauge || spec.lossy() {
                continue;
            }
            if delta {
                ensure!(zeros_seen == zeros.len(), "lost", "reader {r}: {zeros_seen} measurements of 0 exported, {} recorded for {key} of {}", zeros.len(), spec.name);
            }
            for m in meas.values() {
                ensure!(first.contains_key(&m.digit), "lost", "reader {r} ({:?}): {m:?} of {} was never exported", self.temps[r], spec.name);
                let n = first[&m.digit];
                if serial && delta {
                    // a completed measurement appears in the first collection that begins afterwards at the latest
                    let due = per.iter().position(|(c, _)| c.begin > m.end);
                    ensure!(due.is_none_or(|d| n <= d), "late", "reader {r}: {m:?} of {} only appears in collection {n}, due in {due:?}", spec.name);
                    let later = meas.values().find(|l| l.begin > m.end && first.get(&l.digit).is_some_and(|x| *x < n));
                    ensure!(later.is_none(), "not-a-cut", "reader {r}: {later:?} is exported in an earlier collection than {m:?}");
                }
            }
        }
    }
    fn check_limit(&self, h: &H, r: usize, i: usize, spec: &Spec, delta: bool, per: &[(&Col, Option<&Str>)]) {
        let limit = spec.limit.unwrap_or(2000);
        let empty = key_of(&[], None);
        let by: BTreeMap<u32, &Meas> = h.meas.iter().filter(|m| m.inst == i).map(|m| (m.digit, m)).collect();
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        let mut all: Vec<(u64, BTreeSet<u32>)> = vec![];
        let mut prev: BTreeMap<String, u64> = BTreeMap::new(); // cumulative: series -> end of a measurement known to be in it
        for (n, (c, s)) in per.iter().enumerate() {
            let Some(s) = s else { continue };
            let what = format!("reader {r} ({:?}) collection {n} of {}", self.temps[r], spec.name);
            let own = s.pts.iter().filter(|p| p.key != OVERFLOW && p.key != empty).count();
            ensure!(own <= limit, "over-limit", "{what}: {own} series exported, the limit is {limit}");
            if delta {
                prev.clear();
            }
            let mut over: Vec<&Meas> = vec![];
            let mut now: BTreeSet<u32> = BTreeSet::new();
            for p in &s.pts {
                let (x, count) = match &p.body {
                    Body::Num(x) => (*x, None),
                    Body::Hist { sum, count, .. } | Body::Expo { sum, count, .. } => (*sum, Some(*count)),
                };
                let Some(d) = decode(spec.signed(), x) else {
                    violation("impossible-value", &format!("{what}: exported value {x} is not a sum of measurements"))
                };
                ensure!(count.is_none_or(|c| c == d.len() as u64), "count", "{what}: {count:?} but sum of {} measurements", d.len());
                ensure!(!d.is_empty(), "empty-point", "{what}: series {} exported without measurements", p.key);
                for (digit, _) in d {
                    let Some(m) = by.get(&digit) else {
                        violation("impossible-value", &format!("{what}: digit {digit} never recorded"))
                    };
                    ensure!(now.insert(digit), "counted-twice", "{what}: {m:?} is in two series");
                    if p.key == OVERFLOW {
                        over.push(m);
                    } else {
                        ensure!(m.key == p.key, "wrong-series", "{what}: {m:?} is in series {}", p.key);
                        let e = prev.entry(p.key.clone()).or_insert(u64::MAX);
                        *e = (*e).min(m.end);
                    }
                }
            }
            if !over.is_empty() {
                probe("overflow");
                ensure!(own == limit, "early-overflow", "{what}: measurements overflow although only {own} of {limit} series are used");
            }
            for m in over {
                ensure!(m.key != empty, "no-attributes-overflow", "{what}: {m:?} without attributes is in the overflow series");
                ensure!(!prev.contains_key(&m.key), "existing-overflow", "{what}: {m:?} is in the overflow series although its attribute set has a series of its own");
            }
            if delta {
                ensure!(now.is_disjoint(&seen), "exported-twice", "{what}: measurements exported again");
            } else {
                ensure!(all.iter().all(|(e, old)| *e > c.begin || now.is_superset(old)), "lost", "{what}: measurements of earlier collections are gone");
                for m in by.values() {
                    ensure!(m.end >= c.begin || now.contains(&m.digit), "missing", "{what}: lacks {m:?}");
                }
            }
            seen.extend(&now);
            all.push((c.end, now));
        }
        for m in by.values() {
            ensure!(seen.contains(&m.digit), "lost", "reader {r} ({:?}): {m:?} of {} (limit {limit}) was never exported", self.temps[r], spec.name);
        }
    }
}
fn check_times(h: &H, r: usize, i: usize, spec: &Spec, delta: bool, per: &[(&Col, Option<&Str>)]) {
    let created = h.created[i];
    let mut fixed: Option<u64> = None;
    for (n, (c, s)) in per.iter().enumerate() {
        let Some(s) = s else { continue };
        let what = format!("reader {r} collection {n} of {:?} {}", spec.kind, spec.name);
        let Some(start) = s.start else { violation("no-start", &format!("{what}: no start time")) };
        ensure!((c.rbegin..=c.rend).contains(&s.time), "end-time", "{what}: time {} is not within the collection {}..{}", s.time, c.rbegin, c.rend);
        if delta {
            if n == 0 {
                ensure!((created.0..=created.1).contains(&start), "first-start", "{what}: start {start}, instrument created {created:?}");
            } else {
                let p = &per[n - 1];
                ensure!((p.0.rbegin..=p.0.rend).contains(&start), "gap", "{what}: starts at {start}, the previous collection ran {}..{}", p.0.rbegin, p.0.rend);
                if let Some(ps) = p.1 {
                    ensure!(ps.time == start, "gap", "{what}: starts at {start}, the previous collection ended at {}", ps.time);
                }
            }
        } else {
            ensure!((created.0..=created.1).contains(&start), "first-start", "{what}: start {start}, instrument created {created:?}");
            ensure!(*fixed.get_or_insert(start) == start, "moving-start", "{what}: start moved from {fixed:?} to {start}");
        }
    }
}
fn step() -> f64 {
    pick(S_CFG, &[1.0, 1.25, 0.5, 3.0 / 1024.0, 5.0 / 4096.0, 2f64.powi(900), 2f64.powi(-1074), 3.0 * 2f64.powi(-1000)])
}
fn hist_bounds() -> Option<Vec<f64>> {
    match choose(S_CFG, 5) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![1.0]),
        3 => Some(vec![-4.0, 0.0, 4.0, 1024.0]),
        _ => Some(vec![0.5, 1.0, 1.25, 2.0, 5.0, 100.0, 1e6]),
    }
}
const NAMES: [&str; 4] = ["aa", "bb", "cc", "dd"];
fn one(kinds: &[Kind], n: usize) -> Spec {
    let mut s = Spec::new(pick(S_CFG, kinds), pick(S_CFG, &[Num::U, Num::F, Num::I]), NAMES[n]);
    s.step = if s.num == Num::F { step() } else { 1.0 };
    match s.kind {
        Kind::Hist => s.bounds = hist_bounds(),
        Kind::Expo => {
            s.max_size = pick(S_CFG, &[160, 2, 3, 4, 10, 20, 1]);
            s.max_scale = pick(S_CFG, &[20, 0, 3, 8, -2]);
            s.min_max = !chance(S_CFG, 4);
        }
        _ => {}
    }
    let turned: &[Kind] = match (s.kind, s.num) {
        (Kind::Hist | Kind::Expo, Num::U) => &[Kind::Counter, Kind::Gauge],
        (Kind::Hist | Kind::Expo, _) => &[Kind::Gauge],
        (Kind::Counter, _) => &[Kind::Hist],
        _ => &[],
    };
    if !turned.is_empty() && chance(S_CFG, 6) {
        s.made_as = Some(pick(S_CFG, turned));
        s.min_max = !chance(S_CFG, 4);
        if s.kind == Kind::Hist && s.bounds.is_none() {
            s.bounds = Some(vec![]);
        }
    }
    if chance(S_CFG, 4) && s.made_as.is_none_or(|k| k == Kind::Hist) {
        s.bounds = None;
        s.keep = Some(pick(S_CFG, &[&["k"] as &[&str], &["b", "c"], &[]]));
    }
    s
}
#[derive(Clone, Copy)]
struct Shape {
    own_handles: bool,
    jumps: bool,
    series: u32,
    max_ops: u32,
    zeros: bool,
}
fn drive(w: &Arc<World>, shape: Shape) {
    let nt = 2 + choose(S_CFG, 2);
    let handles: Vec<Rec> = if shape.own_handles { vec![] } else { (0..w.user).map(|i| w.handle(&w.provider, i, 0)).collect() };
    let mut ts = vec![];
    for t in 0..nt {
        let (w, handles) = (w.clone(), handles.clone());
        ts.push(thread::spawn(move || {
            let s = 1 + t;
            let p = w.provider.clone();
            let mut mine: Vec<Option<Rec>> = handles.into_iter().map(Some).collect();
            mine.resize_with(w.user, || None);
            for _ in 0..1 + choose(s, shape.max_ops) {
                let i = choose(s, w.user as u32) as usize;
                if shape.own_handles && (mine[i].is_none() || chance(s, 4)) {
                    mine[i] = Some(w.handle(&p, i, choose(s, 3)));
                    if chance(s, 3) {
                        continue;
                    }
                }
                let k = choose(s, shape.series);
                w.record(mine[i].as_ref().unwrap(), i, k, choose(s, 5), choose(s, 2) == 1, shape.zeros && matches!(w.specs[i].kind, Kind::Hist | Kind::Expo) && chance(s, 8));
                if chance(s, 6) {
                    thread::sleep(Duration::from_micros(choose(s, 50) as u64));
                }
            }
        }));
    }
    let nc = 1 + choose(S_CFG, 2);
    for t in 0..nc {
        let w = w.clone();
        ts.push(thread::spawn(move || {
            let s = 10 + t;
            for _ in 0..1 + choose(s, 4) {
                let r = choose(s, w.readers.len() as u32) as usize;
                w.collect(r, choose(s, 3) > 0);
                if shape.jumps && chance(s, 3) {
                    // not during a collection, so that collections have an exact extent on the jumping clock
                    if let Some(l) = &w.serial {
                        let _g: Vec<_> = l.iter().map(|m| m.lock().unwrap()).collect();
                        clock_jump(pick(s, &[1_000_000, -2_000_000, -3_600_000_000_000, 86_400_000_000_000]));
                        fault("clock_jump");
                    }
                }
                if chance(s, 2) {
                    thread::sleep(Duration::from_micros(choose(s, 100) as u64));
                }
            }
        }));
    }
    for t in ts {
        t.join().unwrap();
    }
    for r in 0..w.readers.len() {
        w.collect(r, chance(S_CFG, 2));
    }
}
fn sum_run() {
    let n = 1 + choose(S_CFG, 2) as usize;
    let w = World::new((0..n).map(|n| one(&[Kind::Counter, Kind::UpDown], n)).collect(), 1 + choose(S_CFG, 2), false);
    drive(&w, Shape { own_handles: false, jumps: false, series: 1 + choose(S_CFG, 6), max_ops: 8, zeros: false });
    w.check(VALUES);
}
fn hist_run() {
    let n = 1 + choose(S_CFG, 2) as usize;
    let w = World::new((0..n).map(|n| one(&[Kind::Hist, Kind::Expo], n)).collect(), 1 + choose(S_CFG, 2), false);
    drive(&w, Shape { own_handles: false, jumps: false, series: 1 + choose(S_CFG, 6), max_ops: 10, zeros: true });
    w.check(VALUES);
}
fn gauge_run() {
    let n = 1 + choose(S_CFG, 2) as usize;
    let w = World::new((0..n).map(|n| one(&[Kind::Gauge], n)).collect(), 1 + choose(S_CFG, 2), false);
    drive(&w, Shape { own_handles: false, jumps: false, series: 1 + choose(S_CFG, 6), max_ops: 8, zeros: false });
    w.check(VALUES);
}
fn time_run() {
    let n = 1 + choose(S_CFG, 3) as usize;
    let w = World::new((0..n).map(|n| one(&[Kind::Counter, Kind::UpDown, Kind::Hist, Kind::Expo, Kind::Gauge], n)).collect(), 1 + choose(S_CFG, 2), false);
    drive(&w, Shape { own_handles: false, jumps: choose(S_CFG, 2) == 1, series: 1 + choose(S_CFG, 3), max_ops: 5, zeros: false });
    w.check(TIMES);
}
fn limit_run() {
    let n = 1 + choose(S_CFG, 2) as usize;
    let specs = (0..n).map(|n| {
        let mut s = one(&[Kind::Counter, Kind::UpDown, Kind::Hist, Kind::Expo], n);
        s.keep = None;
        s.limit = Some(1 + choose(S_CFG, 5) as usize);
        s.max_size = s.max_size.max(2);
        s
    }).collect();
    let w = World::new(specs, 1 + choose(S_CFG, 2), true);
    drive(&w, Shape { own_handles: false, jumps: false, series: 3 + choose(S_CFG, 8), max_ops: 8, zeros: false });
    w.check(LIMIT);
}
/// More than 2000 attribute sets with the default limit: only totals and the number of series are judged.
fn default_limit_run() {
    let t = pick(S_CFG, &[Temporality::Delta, Temporality::Cumulative]);
    let r = Arc::new(ManualReader::builder().with_temporality(t).build());
    let p = SdkMeterProvider::builder().with_reader(SharedReader(r.clone())).build();
    let c = p.meter("m").u64_counter("c").build();
    let extra = 1 + choose(S_CFG, 20) as u64;
    let total = 2000 + extra;
    let hs: Vec<_> = (0..2u64).map(|t| {
        let c = c.clone();
        thread::spawn(move || {
            for i in (t..total).step_by(2) {
                c.add(1, &[KeyValue::new("k", i as i64)]);
            }
        })
    }).collect();
    for h in hs {
        h.join().unwrap();
    }
    c.add(1, &[]);
    let mut rm = empty_rm();
    r.collect(&mut rm).unwrap();
    let _g = Atomic::new();
    let st = streams(&rm, &|_| 1.0);
    ensure!(st.len() == 1, "missing", "{} streams", st.len());
    let mut over = 0;
    let mut own = 0;
    for p in &st[0].pts {
        let Body::Num(x) = p.body else { continue };
        match p.key.as_str() {
            OVERFLOW => over = x,
            "[]" => ensure!(x == 1, "impossible-value", "value without attributes is {x}"),
            _ => {
                own += 1;
                ensure!(x == 1, "impossible-value", "series {} has {x}", p.key);
            }
        }
    }
    ensure!(own == 2000, "over-limit", "{own} series exported with the default limit of 2000");
    ensure!(over == extra as i128, "lost", "the overflow series has {over} of {extra} measurements");
    probe("default_limit");
}
fn identity_run() {
    let mut specs = vec![];
    let kinds = [Kind::Counter, Kind::UpDown, Kind::Hist, Kind::Gauge];
    let base = one(&kinds, 0);
    let n = 1 + choose(S_CFG, 4);
    for j in 0..n {
        let mut s = base.clone();
        s.keep = None;
        s.bounds = None;
        (s.made_as, s.min_max) = (None, true);
        if j > 0 {
            match choose(S_CFG, 6) {
                0 => s.name = NAMES[j as usize % 4],
                1 => s.desc = pick(S_CFG, &["some text", "Some Text"]),
                2 => s.unit = pick(S_CFG, &["ms", "MS", "by"]),
                3 => s.scope = 1 + choose(S_CFG, 5),
                4 => {
                    let other = pick(S_CFG, &kinds);
                    s = Spec { step: s.step, ..Spec::new(other, s.num, s.name) };
                }
                _ => match choose(S_CFG, 5) {
                    0 => {
                        s = Spec::new(s.kind, s.num, "dropped");
                        s.dropped = true;
                        s.via = 1 + choose(S_CFG, 7);
                        match s.via {
                            4 => (s.name, s.unit) = (NAMES[0], "By"),
                            5 => (s.name, s.desc) = (NAMES[0], "dropped by description"),
                            6 => s.scope = 5,
                            7 => s.unit = "By",
                            _ => {}
                        }
                    }
                    1 => {
                        s = Spec::new(s.kind, s.num, "multi");
                        s.renamed = pick(S_CFG, &[None, Some("first"), Some("Multi")]);
                        for _ in 0..1 + choose(S_CFG, 3) {
                            s.also.push((pick(S_CFG, &["multi", "MULTI", "First", "second", "Second"]), pick(S_CFG, &[None, None, Some(&["k"] as &[&str]), Some(&[])])));
                        }
                    }
                    2 => {
                        s = Spec::new(s.kind, s.num, pick(S_CFG, &["1bad", "", "bad name", "b\u{e9}"]));
                        s.dropped = true;
                    }
                    _ => {
                        s = Spec::new(s.kind, s.num, "ren");
                        s.renamed = Some("renamed");
                    }
                },
            }
            if s.num == Num::F && s.name != "aa" {
                s.step = 1.0;
            }
        }
        let id = |s: &Spec| (s.kind, s.num, s.name, s.desc, s.unit, s.scope);
        // the scope a view drops as a whole holds nothing else
        if !specs.iter().any(|o: &Spec| id(o) == id(&s) || (o.via == 6) != (s.via == 6) && o.scope == s.scope) {
            specs.push(s);
        }
    }
    let w = World::new(specs, 1 + choose(S_CFG, 2), false);
    drive(&w, Shape { own_handles: true, jumps: false, series: 1 + choose(S_CFG, 3), max_ops: 8, zeros: false });
    w.check(VALUES);
}
/// A finite value of any magnitude.
fn wild(s: u32, range: u32, num: Num) -> f64 {
    if num == Num::U {
        let w = choose(s, if range == 0 { 8 } else { 40 });
        return match choose(s, 4) {
            0 => (1u64 << w) as f64,
            1 => 0.0,
            _ => ((1u64 << w) + (choose(s, 1 << 20) as u64 & ((1 << w) - 1))) as f64,
        };
    }
    let sign = if chance(s, 3) { -1.0 } else { 1.0 };
    let e = match range {
        0 => choose(s, 8) as i32 - 3,
        1 => choose(s, 60) as i32 - 30,
        _ => choose(s, 2090) as i32 - 1068,
    };
    let pow = |e: i32| if e < -1000 { 2f64.powi(e + 500) * 2f64.powi(-500) } else { 2f64.powi(e) };
    sign * match choose(s, 10) {
        0 => 0.0,
        1 | 2 => pow(e),
        3 => pow(e) * (1.0 + f64::EPSILON),
        4 => pow(e) * (1.0 - f64::EPSILON / 2.0),
        5 if range == 2 => pick(s, &[f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::MIN_POSITIVE / 3.0]),
        _ => pow(e) * (1.0 + choose(s, 1 << 30) as f64 / (1u64 << 30) as f64),
    }
}
type WildPoints = Vec<(String, f64, Body)>;
fn wild_points(rm: &ResourceMetrics) -> Vec<(String, bool, WildPoints)> {
    fn one<T: Raw + Copy>(d: &MetricData<T>) -> (bool, WildPoints) {
        match d {
            MetricData::Histogram(h) => (h.temporality == Temporality::Delta, h.data_points.iter().map(|p| (exported_key(&p.attributes), p.sum.f(), Body::Hist { sum: 0, count: p.count, min: p.min.map(|x| x.f()), max: p.max.map(|x| x.f()), bounds: p.bounds.clone(), buckets: p.bucket_counts.clone() })).collect()),
            MetricData::ExponentialHistogram(h) => (h.temporality == Temporality::Delta, h.data_points.iter().map(|p| (exported_key(&p.attributes), p.sum.f(), Body::Expo { sum: 0, count: p.count as u64, min: p.min.map(|x| x.f()), max: p.max.map(|x| x.f()), scale: p.scale, zero: p.zero_count, pos: (p.positive_bucket.offset, p.positive_bucket.counts.clone()), neg: (p.negative_bucket.offset, p.negative_bucket.counts.clone()) })).collect()),
            MetricData::Sum(h) => (h.temporality == Temporality::Delta, h.data_points.iter().map(|p| (exported_key(&p.attributes), p.value.f(), Body::Num(0))).collect()),
            MetricData::Gauge(_) => violation("kind", "a gauge"),
        }
    }
    rm.scope_metrics.iter().flat_map(|s| &s.metrics).map(|m| {
        let (d, p) = match &m.data {
            AggregatedMetrics::F64(d) => one(d),
            AggregatedMetrics::U64(d) => one(d),
            AggregatedMetrics::I64(d) => one(d),
        };
        (m.name.to_string(), d, p)
    }).collect()
}
fn count_of(b: &Body) -> u64 {
    match b {
        Body::Num(_) => 0,
        Body::Hist { count, buckets, .. } => {
            ensure!(buckets.iter().sum::<u64>() == *count, "bucket-total", "count {count}, buckets {buckets:?}");
            *count
        }
        Body::Expo { count, zero, pos, neg, .. } => {
            let t = zero + pos.1.iter().sum::<u64>() + neg.1.iter().sum::<u64>();
            ensure!(t == *count, "bucket-total", "count {count}, buckets hold {t}: {b:?}");
            *count
        }
    }
}
/// Values of any magnitude and sign: threads record, then everything is collected and must be exactly what was recorded.
fn wild_run_of(kinds: &[Kind]) {
    let kind = pick(S_CFG, kinds);
    let mut s = Spec::new(kind, if kind == Kind::UpDown { Num::F } else { pick(S_CFG, &[Num::U, Num::F, Num::F]) }, "wild");
    s.min_max = !chance(S_CFG, 4);
    s.max_size = pick(S_CFG, &[2, 3, 4, 8, 20, 160]);
    s.max_scale = pick(S_CFG, &[20, 20, 10, 4, 1, 0, -3, -10]);
    if kind == Kind::Hist {
        s.bounds = Some(pick(S_CFG, &[&[][..], &[0.0], &[-1.0, 0.0, 1.0], &[1.0, 2.0, 4.0, 1024.0], &[-1e300, -0.5, 1e-300, 0.25, 3.5, 1e300]]).to_vec());
    }
    let range = choose(S_CFG, 3);
    let nreaders = 1 + choose(S_CFG, 2);
    let mut b = SdkMeterProvider::builder();
    let temps: Vec<_> = (0..nreaders).map(|_| pick(S_CFG, &[Temporality::Delta, Temporality::Cumulative])).collect();
    let deltas: Vec<bool> = temps.iter().map(|t| *t == Temporality::Delta && kind != Kind::UpDown).collect();
    let readers: Vec<_> = temps.iter().map(|t| Arc::new(ManualReader::builder().with_temporality(*t).build())).collect();
    for r in &readers {
        b = b.with_reader(SharedReader(r.clone()));
    }
    let (max_size, max_scale, record_min_max) = (s.max_size, s.max_scale, s.min_max);
    if kind == Kind::Expo {
        b = b.with_view(opentelemetry_sdk::metrics::new_view(Instrument::new().name("wild"), Stream::new().aggregation(Aggregation::Base2ExponentialHistogram { max_size, max_scale, record_min_max })).unwrap());
    } else if kind == Kind::Hist {
        b = b.with_view(opentelemetry_sdk::metrics::new_view(Instrument::new().name("wild"), Stream::new().aggregation(Aggregation::ExplicitBucketHistogram { boundaries: s.bounds.clone().unwrap(), record_min_max })).unwrap());
    }
    let p = b.build();
    let m = p.meter("wild");
    let rec: Arc<dyn Fn(f64, &[KeyValue]) + Send + Sync> = match (kind, s.num) {
        (Kind::UpDown, _) => { let i = m.f64_up_down_counter("wild").build(); Arc::new(move |v, a| i.add(v, a)) }
        (Kind::Counter, Num::F) => { let i = m.f64_counter("wild").build(); Arc::new(move |v: f64, a| i.add(v.abs(), a)) }
        (Kind::Counter, _) => { let i = m.u64_counter("wild").build(); Arc::new(move |v, a| i.add(v as u64, a)) }
        (_, Num::F) => { let i = m.f64_histogram("wild").build(); Arc::new(move |v, a| i.record(v, a)) }
        _ => { let i = m.u64_histogram("wild").build(); Arc::new(move |v, a| i.record(v as u64, a)) }
    };
    let all: Arc<Shared<Vec<(String, f64)>>> = Default::default();
    // per reader: how many of the measurements were there at the last collection, and the counts it has seen per series
    let seen: Vec<Arc<Shared<(usize, BTreeMap<String, u64>, BTreeMap<String, f64>)>>> = readers.iter().map(|_| Default::default()).collect();
    // collected while threads recorded, since the last collection after they had ended
    let mut mid = vec![false; readers.len()];
    for phase in 0..1 + choose(S_CFG, 3) {
        let v: Vec<_> = (0..1 + choose(S_CFG, 3)).map(|t| {
            let (all, rec, s) = (all.clone(), rec.clone(), s.clone());
            thread::spawn(move || {
                let st = 1 + t + 4 * phase;
                for _ in 0..choose(st, 14) {
                    let k = choose(st, 3);
                    let a = attrs(k, choose(st, 5));
                    let mut x = wild(st, range, s.num);
                    if s.kind == Kind::Counter {
                        x = x.abs();
                    }
                    all.with(|v| v.push((key_of(&a, None), x)));
                    rec(x, &a);
                }
            })
        }).collect();
        for (i, r) in readers.iter().enumerate() {
            if chance(S_CFG, 4) {
                // while they record
                mid[i] = true;
                let mut rm = empty_rm();
                ensure!(r.collect(&mut rm).is_ok(), "collect-failed", "collect failed");
                let _g = Atomic::new();
                for (_, delta, pts) in wild_points(&rm) {
                    for (k, sum, b) in pts {
                        let n = count_of(&b);
                        if delta {
                            seen[i].with(|x| {
                                *x.1.entry(k.clone()).or_default() += n;
                                *x.2.entry(k).or_default() += sum;
                            });
                        }
                    }
                }
            }
        }
        for t in v {
            ensure!(t.join().is_ok(), "unexpected-panic", "a thread panicked");
        }
        if phase > 0 && chance(S_CFG, 4) {
            continue;
        }
        for (i, r) in readers.iter().enumerate() {
            let mut rm = empty_rm();
            ensure!(r.collect(&mut rm).is_ok(), "collect-failed", "collect failed");
            let _g = Atomic::new();
            let vals = all.with(|v| v.clone());
            let got = wild_points(&rm);
            ensure!(got.len() <= 1, "duplicate-stream", "{} metrics for one instrument", got.len());
            let delta = deltas[i];
            ensure!(got.iter().all(|g| g.1 == delta), "temporality", "a reader of {:?} gets delta={}", temps[i], !delta);
            let from = seen[i].with(|x| std::mem::replace(&mut x.0, vals.len()));
            let mut want: BTreeMap<String, Vec<f64>> = BTreeMap::new();
            for (k, x) in &vals[if delta { from } else { 0 }..] {
                want.entry(k.clone()).or_default().push(*x);
            }
            // all values of a series, to compare what several collections saw of it
            let mut total: BTreeMap<String, Vec<f64>> = BTreeMap::new();
            for (k, x) in &vals {
                total.entry(k.clone()).or_default().push(*x);
            }
            let pts = got.into_iter().next().map_or(vec![], |g| g.2);
            let what = format!("reader {i} phase {phase}");
            let dirty = std::mem::replace(&mut mid[i], false);
            for (k, sum, b) in &pts {
                let n = count_of(b);
                let (n, sum) = if delta {
                    seen[i].with(|x| {
                        let c = x.1.entry(k.clone()).or_default();
                        *c += n;
                        let f = x.2.entry(k.clone()).or_default();
                        *f += sum;
                        (*c, *f)
                    })
                } else {
                    (n, *sum)
                };
                let Some(t) = total.get(k) else { violation("impossible-value", &format!("{what}: series {k} was never recorded")) };
                if kind == Kind::Hist || kind == Kind::Expo {
                    ensure!(n == t.len() as u64, "count", "{what}: {n} measurements of {k} exported in all, {t:?} were recorded");
                    if !delta || !dirty {
                        if let Some(w) = want.get(k) {
                            check_hist(&s, w, b, &what);
                        }
                    }
                }
                let abs: f64 = t.iter().map(|x| x.abs()).sum();
                if abs < 1e300 {
                    let w: f64 = t.iter().sum();
                    ensure!((sum - w).abs() <= 1e-9 * abs, "sum", "{what}: the sum of {k} is {sum} in all, expected {w} of {t:?}");
                }
            }
            for k in want.keys() {
                // a measurement of the last phase may have been exported while it ran
                ensure!(pts.iter().any(|p| p.0 == *k) || delta && dirty, "missing", "{what}: series {k} is not exported");
            }
        }
    }
    count("probe.wild_values", all.with(|v| v.len()) as u64);
}
fn wild_hist() {
    wild_run_of(&[Kind::Hist, Kind::Expo, Kind::Expo])
}
fn wild_sum() {
    wild_run_of(&[Kind::Counter, Kind::UpDown])
}
pub const SCEN: &[Scenario] = &[
    Scenario { prop: "M01", name: "wild", weight: 1, run: wild_sum, opts: DEFAULT },
    Scenario { prop: "M02", name: "wild", weight: 1, run: wild_hist, opts: DEFAULT },
    Scenario { prop: "M01", name: "sum", weight: 4, run: sum_run, opts: DEFAULT },
    Scenario { prop: "M02", name: "hist", weight: 2, run: hist_run, opts: DEFAULT },
    Scenario { prop: "M03", name: "gauge", weight: 1, run: gauge_run, opts: DEFAULT },
    Scenario { prop: "M04", name: "time", weight: 1, run: time_run, opts: DEFAULT },
    Scenario { prop: "M05", name: "limit", weight: 100, run: limit_run, opts: DEFAULT },
    Scenario { prop: "M05", name: "default_limit", weight: 1, run: default_limit_run, opts: Opts { max_steps: 6_000_000, ..DEFAULT } },
    Scenario { prop: "M06", name: "identity", weight: 1, run: identity_run, opts: DEFAULT },
];
