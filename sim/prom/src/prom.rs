//! X07: Prometheus scrapes while threads record.
use opentelemetry::metrics::{Counter, Gauge, Histogram, MeterProvider as _, UpDownCounter};
use opentelemetry::{InstrumentationScope, Key, KeyValue};
use opentelemetry_prometheus::ResourceSelector;
use opentelemetry_sdk::metrics::SdkMeterProvider;
use opentelemetry_sdk::Resource;
use prometheus::proto::{MetricFamily, MetricType};
use simfw::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use std::thread;
use std::time::Duration;

const S_CFG: u32 = 0;
const S_CB: u32 = 40;
const BOUNDS: &[f64] = &[0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0];

#[derive(Clone)]
enum Inst {
    Cu(Counter<u64>),
    Cf(Counter<f64>),
    Ud(UpDownCounter<i64>),
    Gf(Gauge<f64>),
    Gi(Gauge<i64>),
    Hu(Histogram<u64>),
    Hf(Histogram<f64>),
    /// observed by a callback: counter, gauge
    Oc,
    Og,
}
#[derive(Clone)]
struct Def {
    inst: Inst,
    ty: MetricType,
    family: String,
    help: String,
    /// per attribute variant: the labels of its series
    series: [String; 3],
}
#[derive(Clone, Debug)]
struct Rec {
    inst: usize,
    var: usize,
    s: u64,
    e: u64,
    /// gauges: the value; everything else: sign and exponent of the power of three
    v: f64,
}
#[derive(Debug)]
struct Scrape {
    s: u64,
    e: u64,
    shut: bool,
    fam: Vec<Fam>,
}
#[derive(Debug, Clone)]
struct Fam {
    name: String,
    help: String,
    ty: MetricType,
    series: Vec<(String, Val)>,
}
#[derive(Debug, Clone, PartialEq)]
enum Val {
    N(f64),
    H { n: u64, sum: f64, buckets: Vec<(f64, u64)> },
}
#[derive(Default)]
struct H {
    recs: Vec<Rec>,
    scrapes: Vec<Scrape>,
    shut: Option<(u64, u64)>,
    /// what a callback reports: instrument -> (state, began, done)
    obs: HashMap<usize, Vec<Rec>>,
}
type World = Arc<Shared<H>>;

fn labels(m: &prometheus::proto::Metric) -> String {
    let mut v: Vec<String> = m.get_label().iter().map(|l| format!("{}={:?}", l.name(), l.value())).collect();
    v.sort();
    let n = v.len();
    v.dedup_by(|a, b| a.split('=').next() == b.split('=').next());
    ensure!(v.len() == n, "duplicate-label", "{:?}", m.get_label());
    v.join(",")
}
fn parse(f: &MetricFamily) -> Fam {
    let ty = f.get_field_type();
    let series = f.get_metric().iter().map(|m| {
        let v = match ty {
            MetricType::COUNTER => Val::N(m.get_counter().value()),
            MetricType::GAUGE => Val::N(m.get_gauge().value()),
            MetricType::HISTOGRAM => {
                let h = m.get_histogram();
                Val::H { n: h.get_sample_count(), sum: h.get_sample_sum(), buckets: h.get_bucket().iter().map(|b| (b.upper_bound(), b.cumulative_count())).collect() }
            }
            _ => violation("ill-formed", &format!("type of {f:?}")),
        };
        (labels(m), v)
    });
    Fam { name: f.name().into(), help: f.help().into(), ty, series: series.collect() }
}
fn scrape(w: &World, reg: &prometheus::Registry) -> Vec<Fam> {
    let s = seq();
    let out = reg.gather();
    let e = seq();
    let _g = Atomic::new();
    let fam: Vec<Fam> = out.iter().map(parse).collect();
    let mut text = Vec::new();
    if let Err(e) = prometheus::Encoder::encode(&prometheus::TextEncoder::new(), &out, &mut text) {
        violation("ill-formed", &format!("cannot be encoded: {e}"));
    }
    w.with(|h| {
        let shut = h.shut.is_some();
        tr!("scrape {} families{}", fam.len(), if shut { " (shut down)" } else { "" });
        h.scrapes.push(Scrape { s, e, shut, fam: fam.clone() });
    });
    fam
}
/// The set of measurements whose sum this is: exponents of its balanced ternary digits.
fn decode(v: f64) -> Option<Vec<i32>> {
    if v.fract() != 0.0 || v.abs() > 9e15 {
        return None;
    }
    let (mut x, mut k, mut out) = (v as i64, 0, vec![]);
    while x != 0 {
        match x.rem_euclid(3) {
            1 => {
                out.push(k + 1);
                x -= 1;
            }
            2 => {
                out.push(-k - 1);
                x += 1;
            }
            _ => {}
        }
        x /= 3;
        k += 1;
    }
    Some(out)
}
fn value(code: i32) -> f64 {
    let p = 3f64.powi(code.abs() - 1);
    if code < 0 { -p } else { p }
}
fn check(w: &World, defs: &[Def], info: &[String], o: &Options) {
    w.with(|h| {
        let mut seen: BTreeMap<(usize, usize), Vec<(u64, u64, Vec<i32>)>> = BTreeMap::new();
        let mut types: HashMap<String, MetricType> = HashMap::new();
        let mut helps: HashMap<String, String> = HashMap::new();
        for sc in &h.scrapes {
            let d = |x: &str| format!("scrape {}..{}: {x}", sc.s, sc.e);
            let mut names = HashSet::new();
            let mut found: HashMap<(usize, usize), Val> = HashMap::new();
            let mut infos = HashSet::new();
            for f in &sc.fam {
                ensure!(names.insert(&f.name), "duplicate-family", "{}", d(&f.name));
                ensure!(!f.series.is_empty(), "ill-formed", "{}", d(&format!("{} has no series", f.name)));
                ensure!(*types.entry(f.name.clone()).or_insert(f.ty) == f.ty, "type-changed", "{}", d(&format!("{f:?}")));
                ensure!(*helps.entry(f.name.clone()).or_insert(f.help.clone()) == f.help, "help-changed", "{}", d(&format!("{f:?}")));
                if f.name == "target_info" || f.name == "otel_scope_info" {
                    for (l, v) in &f.series {
                        let k = format!("{}{{{l}}}", f.name);
                        ensure!(info.contains(&k) && *v == Val::N(1.0) && infos.insert(k.clone()), "wrong-info", "{}", d(&format!("{k} {v:?}, expected {info:?}")));
                    }
                    continue;
                }
                for (l, v) in &f.series {
                    let m = defs.iter().enumerate().filter(|(_, x)| x.family == f.name && x.ty == f.ty).find_map(|(i, x)| x.series.iter().position(|s| s == l).map(|k| (i, k)));
                    let Some(m) = m else { violation("unknown-series", &d(&format!("{}{{{l}}} {:?}", f.name, f.ty))) };
                    ensure!(found.insert(m, v.clone()).is_none(), "duplicate-series", "{}", d(&format!("{}{{{l}}}", f.name)));
                }
                let help = defs.iter().any(|x| x.family == f.name && x.ty == f.ty && x.help == f.help);
                ensure!(help, "wrong-help", "{}", d(&format!("{f:?}")));
            }
            let dead = h.shut.is_some_and(|x| x.0 < sc.e);
            if !dead || !sc.fam.is_empty() {
                for k in info.iter().filter(|k| k.starts_with("target_info")) {
                    ensure!(infos.contains(k), "missing-info", "{}", d(k));
                }
            }
            for (i, x) in defs.iter().enumerate() {
                let dropped = types.get(&x.family).is_some_and(|t| *t != x.ty);
                for k in 0..3 {
                    let label = || d(&format!("{}{{{}}}", x.family, x.series[k]));
                    let rs: Vec<&Rec> = h.recs.iter().chain(h.obs.values().flatten()).filter(|r| r.inst == i && r.var == k).collect();
                    // an observable gauge has the series that were observed for this scrape
                    let alone = !h.scrapes.iter().any(|x| x.s != sc.s && x.s < sc.e && x.e > sc.s);
                    let obs = |r: &Rec| if matches!(x.inst, Inst::Og) { alone && r.s > sc.s && r.e < sc.e } else { r.e < sc.s };
                    let must = !dead && !dropped && rs.iter().any(|r| obs(r));
                    let Some(v) = found.get(&(i, k)) else {
                        ensure!(!must, "missing-series", "{}", label());
                        continue;
                    };
                    if matches!(x.inst, Inst::Gf(_) | Inst::Gi(_) | Inst::Oc | Inst::Og) {
                        // the last value, also of a series that was not observed this time
                        let Val::N(n) = v else { violation("ill-formed", &label()) };
                        let ok = rs.iter().any(|r| r.v == *n && r.s < sc.e && !rs.iter().any(|q| q.s > r.e && q.e < sc.s));
                        ensure!(ok, "wrong-value", "{}: {n}: {rs:?}", label());
                        continue;
                    }
                    let sum = match v {
                        Val::N(n) => *n,
                        Val::H { sum, .. } => *sum,
                    };
                    let Some(set) = decode(sum) else { violation("wrong-value", &format!("{}: {sum}", label())) };
                    for c in &set {
                        ensure!(rs.iter().any(|r| r.v == *c as f64 && r.s < sc.e), "wrong-value", "{}: {sum} contains {c}, which was not recorded: {rs:?}", label());
                    }
                    for r in rs.iter().filter(|r| r.e < sc.s) {
                        ensure!(set.contains(&(r.v as i32)), "lost-measurement", "{}: {r:?} is not in {set:?}", label());
                    }
                    if let Val::H { n, buckets, .. } = v {
                        ensure!(*n as usize == set.len(), "inconsistent-histogram", "{}: count {n}, sum of {set:?}", label());
                        let want: Vec<(f64, u64)> = BOUNDS.iter().map(|b| (*b, set.iter().filter(|c| value(**c) <= *b).count() as u64)).collect();
                        ensure!(*buckets == want, "inconsistent-histogram", "{}: {buckets:?}, should be {want:?}", label());
                    }
                    for (ps, pe, p) in seen.entry((i, k)).or_default().iter() {
                        if *pe < sc.s {
                            ensure!(p.iter().all(|c| set.contains(c)), "went-back", "{}: {set:?}, scrape {ps}..{pe} had {p:?}", label());
                        }
                    }
                    seen.get_mut(&(i, k)).unwrap().push((sc.s, sc.e, set));
                }
            }
            if o.scope_info && !sc.fam.is_empty() {
                for k in info.iter().filter(|k| k.starts_with("otel_scope_info")) {
                    // the scope appears with its first series
                    let name = k.split("otel_scope_name=").nth(1).unwrap().split(',').next().unwrap().trim_end_matches('}');
                    let any = found.keys().any(|(i, k)| defs[*i].series[*k].contains(&format!("otel_scope_name={name}")));
                    ensure!(!any || infos.contains(k), "missing-info", "{}", d(k));
                }
            }
        }
        count("scrapes", h.scrapes.len() as u64);
        count("measurements", h.recs.len() as u64);
    })
}
struct Options {
    units: bool,
    suffix: bool,
    ns: bool,
    scope_info: bool,
    target: bool,
    res: u32,
}
fn run() {
    let o = Options { units: !chance(S_CFG, 4), suffix: !chance(S_CFG, 4), ns: chance(S_CFG, 4), scope_info: !chance(S_CFG, 4), target: !chance(S_CFG, 4), res: choose(S_CFG, 4) };
    let reg = prometheus::Registry::new();
    let mut b = opentelemetry_prometheus::exporter().with_registry(reg.clone());
    if !o.units {
        b = b.without_units();
    }
    if !o.suffix {
        b = b.without_counter_suffixes();
    }
    if o.ns {
        b = b.with_namespace("app");
    }
    if !o.scope_info {
        b = b.without_scope_info();
    }
    if !o.target {
        b = b.without_target_info();
    }
    match o.res {
        1 => b = b.with_resource_selector(ResourceSelector::All),
        2 => b = b.with_resource_selector(HashSet::from([Key::new("host.name")])),
        _ => {}
    }
    let w: World = Default::default();
    let provider = SdkMeterProvider::builder()
        .with_reader(b.build().unwrap())
        .with_resource(Resource::builder_empty().with_attributes([KeyValue::new("service.name", "svc"), KeyValue::new("host.name", "h1")]).build())
        .build();
    let res_labels: &[(&str, &str)] = match o.res {
        1 => &[("service_name", "svc"), ("host_name", "h1")],
        2 => &[("host_name", "h1")],
        _ => &[],
    };
    let mut info = vec![];
    if o.target {
        info.push("target_info{host_name=\"h1\",service_name=\"svc\"}".to_string());
    }
    let line = |v: &[(String, String)]| {
        let mut v: Vec<String> = v.iter().map(|(a, b)| format!("{a}={b:?}")).collect();
        v.sort();
        v.join(",")
    };
    let mut defs: Vec<Def> = vec![];
    let nsc = 1 + choose(S_CFG, 3) as usize;
    let first_kind = choose(S_CFG, 9);
    for sc in 0..nsc {
        let (name, version, attr) = [("lib-a", None, false), ("lib-b", Some("1.2"), true), ("lib-c", None, true)][sc];
        let mut sb = InstrumentationScope::builder(name);
        if let Some(v) = version {
            sb = sb.with_version(v);
        }
        if attr {
            sb = sb.with_attributes([KeyValue::new("x", 1)]);
        }
        let mut base: Vec<(String, String)> = vec![];
        if o.scope_info {
            base.push(("otel_scope_name".into(), name.into()));
            if let Some(v) = version {
                base.push(("otel_scope_version".into(), v.into()));
            }
            if attr {
                info.push(format!("otel_scope_info{{{}}}", line(&base)));
            }
        }
        base.extend(res_labels.iter().map(|(a, b)| (a.to_string(), b.to_string())));
        let meter = provider.meter_with_scope(sb.build());
        for k in 0..1 + choose(S_CFG, 3) as usize {
            // the same name in several scopes, sometimes with different types and descriptions
            let shared = o.scope_info && k == 0 && nsc > 1;
            let kind = if shared && !chance(S_CFG, 3) { first_kind } else { choose(S_CFG, 9) };
            let raw = if shared { "req.count".to_string() } else { format!("m-{sc}.{k}") };
            let (unit, us) = if shared { ("ms", "_milliseconds") } else { pick(S_CFG, &[("", ""), ("ms", "_milliseconds"), ("By/s", "_bytes_per_second"), ("{x}", ""), ("1", "_ratio")]) };
            let help = if shared && chance(S_CFG, 3) { "another description" } else { "a description" };
            let i = defs.len();
            macro_rules! mk {
                ($f:ident) => {{
                    let mut b = meter.$f(raw.clone()).with_description(help);
                    if !unit.is_empty() {
                        b = b.with_unit(unit);
                    }
                    b
                }};
            }
            macro_rules! obs {
                ($t:ty) => {{
                    let w = w.clone();
                    move |ob: &dyn opentelemetry::metrics::AsyncInstrument<$t>| {
                        for var in 0..3usize {
                            if chance(S_CB, 4) {
                                continue;
                            }
                            let s = seq();
                            let n = w.with(|h| h.obs.get(&i).map_or(0, |v| v.len()) as u64 + 1);
                            ob.observe(n as $t, &attrs(var));
                            w.with(|h| h.obs.entry(i).or_default().push(Rec { inst: i, var, s, e: seq(), v: n as f64 }));
                        }
                    }
                }};
            }
            let (inst, ty) = match kind {
                0 => (Inst::Cu(mk!(u64_counter).build()), MetricType::COUNTER),
                1 => (Inst::Cf(mk!(f64_counter).build()), MetricType::COUNTER),
                2 => (Inst::Ud(mk!(i64_up_down_counter).build()), MetricType::GAUGE),
                3 => (Inst::Gf(mk!(f64_gauge).build()), MetricType::GAUGE),
                4 => (Inst::Gi(mk!(i64_gauge).build()), MetricType::GAUGE),
                5 => (Inst::Hu(mk!(u64_histogram).build()), MetricType::HISTOGRAM),
                6 => (Inst::Hf(mk!(f64_histogram).build()), MetricType::HISTOGRAM),
                7 => {
                    mk!(u64_observable_counter).with_callback(obs!(u64)).build();
                    (Inst::Oc, MetricType::COUNTER)
                }
                _ => {
                    mk!(f64_observable_gauge).with_callback(obs!(f64)).build();
                    (Inst::Og, MetricType::GAUGE)
                }
            };
            let family = format!(
                "{}{}{}{}",
                if o.ns { "app_" } else { "" },
                raw.replace(['.', '-'], "_"),
                if o.units { us } else { "" },
                if o.suffix && ty == MetricType::COUNTER { "_total" } else { "" }
            );
            let series = [0, 1, 2].map(|v| {
                let mut l = base.clone();
                l.extend(match v {
                    0 => vec![],
                    1 => vec![("k_a".to_string(), "1".to_string())],
                    _ => vec![("k_a".to_string(), "a;b".to_string()), ("z".to_string(), "true".to_string())],
                });
                line(&l)
            });
            defs.push(Def { inst, ty, family, help: help.into(), series });
        }
    }
    let defs = Arc::new(defs);
    let shut_early = chance(S_CFG, 4);
    let mut ths = vec![];
    for t in 0..1 + choose(S_CFG, 3) {
        let (w, defs) = (w.clone(), defs.clone());
        ths.push(thread::spawn(move || {
            let st = 2 + t;
            for _ in 0..1 + choose(st, 12) {
                if chance(st, 8) {
                    thread::sleep(Duration::from_micros(choose(st, 1000) as u64));
                }
                let (i, var) = (choose(st, defs.len() as u32) as usize, choose(st, 3) as usize);
                record(&w, &defs, i, var, st);
            }
        }));
    }
    for t in 0..1 + choose(S_CFG, 3) {
        let (w, reg) = (w.clone(), reg.clone());
        ths.push(thread::spawn(move || {
            let st = 10 + t;
            for _ in 0..1 + choose(st, 4) {
                if chance(st, 4) {
                    thread::sleep(Duration::from_micros(choose(st, 2000) as u64));
                }
                scrape(&w, &reg);
            }
        }));
    }
    let shut = |w: &World| {
        let s = seq();
        w.with(|h| h.shut = Some((s, u64::MAX)));
        let _ = provider.shutdown();
        w.with(|h| h.shut = Some((s, seq())));
    };
    if shut_early {
        thread::sleep(Duration::from_micros(choose(S_CFG, 3000) as u64));
        shut(&w);
    }
    for t in ths {
        t.join().unwrap();
    }
    // twice at rest: complete and equal
    let a = scrape(&w, &reg);
    let b = scrape(&w, &reg);
    if !shut_early {
        let norm = |v: &[Fam]| {
            let mut out = vec![];
            for f in v.iter().filter(|f| f.name != "otel_scope_info") {
                for (l, x) in &f.series {
                    if !defs.iter().any(|d| d.family == f.name && matches!(d.inst, Inst::Oc | Inst::Og)) {
                        out.push(format!("{}{{{l}}} {x:?}", f.name));
                    }
                }
            }
            out.sort();
            out
        };
        ensure!(norm(&a) == norm(&b), "unstable", "two scrapes at rest differ:\n{a:#?}\n{b:#?}");
        if chance(S_CFG, 2) {
            shut(&w);
            scrape(&w, &reg);
        }
    }
    check(&w, &defs, &info, &o);
}
fn attrs(var: usize) -> Vec<KeyValue> {
    match var {
        0 => vec![],
        1 => vec![KeyValue::new("k.a", 1)],
        // two keys become one label
        _ => vec![KeyValue::new("k.a", "b"), KeyValue::new("k-a", "a"), KeyValue::new("z", true)],
    }
}
fn record(w: &World, defs: &[Def], i: usize, var: usize, st: u32) {
    let a = attrs(var);
    let gauge = matches!(defs[i].inst, Inst::Gf(_) | Inst::Gi(_));
    let ud = matches!(defs[i].inst, Inst::Ud(_));
    if matches!(defs[i].inst, Inst::Oc | Inst::Og) {
        return;
    }
    let neg = ud && chance(st, 3);
    let (k, v) = w.with(|h| {
        let n = h.recs.iter().filter(|r| r.inst == i && r.var == var).count() as i32 + 1;
        let v = if gauge { n as f64 + var as f64 * 100.0 } else if neg { -n as f64 } else { n as f64 };
        h.recs.push(Rec { inst: i, var, s: seq(), e: u64::MAX, v });
        (h.recs.len() - 1, v)
    });
    if !gauge && v.abs() > 33.0 {
        w.with(|h| h.recs[k].s = u64::MAX);
        return;
    }
    let p = if gauge { v } else { value(v as i32) };
    match &defs[i].inst {
        Inst::Cu(c) => c.add(p as u64, &a),
        Inst::Cf(c) => c.add(p, &a),
        Inst::Ud(c) => c.add(p as i64, &a),
        Inst::Gf(c) => c.record(p, &a),
        Inst::Gi(c) => c.record(p as i64, &a),
        Inst::Hu(c) => c.record(p as u64, &a),
        Inst::Hf(c) => c.record(p, &a),
        Inst::Oc | Inst::Og => {}
    }
    w.with(|h| h.recs[k].e = seq());
}
macro_rules! sc {
    ($p:expr, $n:expr, $w:expr, $f:expr) => {
        Scenario { prop: $p, name: $n, weight: $w, run: $f, opts: DEFAULT }
    };
}
pub const SCEN: &[Scenario] = &[sc!("X07", "scrapes", 1, run)];
