//! M07: observable instruments. Every collection is compared with the observations callbacks made on its thread.
use crate::batch::S_CFG;
use crate::metrics::{attrs, empty_rm, key_of, scope_of, streams, Body, Kind, Num, SharedReader, Str, OVERFLOW};
use opentelemetry::metrics::{AsyncInstrument, MeterProvider as _};
use opentelemetry::KeyValue;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{Aggregation, Instrument, ManualReader, Stream, SdkMeterProvider, Temporality};
use simfw::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum OK {
    Counter,
    UpDown,
    Gauge,
}
#[derive(Clone, Debug)]
struct Spec {
    kind: OK,
    num: Num,
    name: &'static str,
    scope: u32,
    limit: Option<usize>,
    /// the streams views make of it
    streams: Vec<&'static str>,
}
struct Obs {
    col: usize,
    inst: usize,
    key: String,
    val: i128,
}
struct Cb {
    inst: usize,
    begin: u64,
    end: u64, // 0: not registered yet
    calls: Vec<usize>, // collections it was invoked in
}
struct Col {
    reader: usize,
    begin: u64,
    end: u64,
    streams: Vec<Str>,
}
#[derive(Default)]
struct H {
    obs: Vec<Obs>,
    cbs: Vec<Cb>,
    cols: Vec<Col>,
    last: BTreeMap<(usize, String), i128>,
}
thread_local! { static CUR: Cell<Option<usize>> = const { Cell::new(None) }; }
struct World {
    specs: Vec<Spec>,
    readers: Vec<Arc<ManualReader>>,
    temps: Vec<Temporality>,
    locks: Vec<Mutex<()>>,
    provider: SdkMeterProvider,
    h: Shared<H>,
    keys: u32,
}
fn callback(w: &World, id: usize, put: &mut dyn FnMut(i128, &[KeyValue])) {
    let Some(col) = CUR.with(|c| c.get()) else {
        violation("callback-outside-collection", "a callback is invoked outside any collection");
    };
    let inst = w.h.with(|h| {
        h.cbs[id].calls.push(col);
        h.cbs[id].inst
    });
    let s = 20 + (tid() as u32 % 8);
    let sp = &w.specs[inst];
    for _ in 0..choose(s, 5) {
        let k = choose(s, w.keys);
        let a = attrs(k, choose(s, 5));
        let key = key_of(&a, None);
        let v = w.h.with(|h| {
            let last = h.last.entry((inst, key.clone())).or_default();
            let v = match (sp.kind, choose(s, 3)) {
                // what is observed is restarted
                (OK::Counter, _) if chance(s, 12) => choose(s, 50) as i128,
                (OK::Counter, d) => *last + d as i128 * (1 + choose(s, 100) as i128),
                (_, 0) => *last,
                (_, _) if sp.num == Num::U => choose(s, 1000) as i128,
                _ => choose(s, 1000) as i128 - 500,
            };
            *last = v;
            tr!("observe col {col} cb {id} inst {inst} {key} {v}");
            h.obs.push(Obs { col, inst, key, val: v });
            v
        });
        put(v, &a);
        if chance(s, 5) {
            thread::sleep(Duration::from_micros(choose(s, 40) as u64));
        }
    }
}
impl World {
    fn register(self: &Arc<Self>, inst: usize, ncb: u32) {
        let sp = &self.specs[inst];
        let m = self.provider.meter_with_scope(scope_of(sp.scope));
        let first = self.h.with(|h| {
            for _ in 0..ncb {
                h.cbs.push(Cb { inst, begin: seq(), end: 0, calls: vec![] });
            }
            h.cbs.len() - ncb as usize
        });
        macro_rules! go {
            ($f:ident, $t:ty) => {{
                let mut b = m.$f(sp.name);
                if let Some(l) = sp.limit {
                    b = b.with_cardinality_limit(l);
                }
                for id in first..first + ncb as usize {
                    let w = Arc::downgrade(self);
                    b = b.with_callback(move |o: &dyn AsyncInstrument<$t>| {
                        let Some(w) = w.upgrade() else { return };
                        callback(&w, id, &mut |v, a| o.observe(v as $t, a))
                    });
                }
                let _ = b.build();
            }};
        }
        match (sp.kind, sp.num) {
            (OK::Counter, Num::F) => go!(f64_observable_counter, f64),
            (OK::Counter, _) => go!(u64_observable_counter, u64),
            (OK::UpDown, Num::F) => go!(f64_observable_up_down_counter, f64),
            (OK::UpDown, _) => go!(i64_observable_up_down_counter, i64),
            (OK::Gauge, Num::F) => go!(f64_observable_gauge, f64),
            (OK::Gauge, Num::I) => go!(i64_observable_gauge, i64),
            (OK::Gauge, Num::U) => go!(u64_observable_gauge, u64),
        }
        self.h.with(|h| {
            for c in &mut h.cbs[first..first + ncb as usize] {
                c.end = seq();
            }
        });
    }
    fn collect(&self, r: usize) {
        let _l = self.locks[r].lock().unwrap();
        let id = self.h.with(|h| {
            h.cols.push(Col { reader: r, begin: seq(), end: 0, streams: vec![] });
            h.cols.len() - 1
        });
        CUR.with(|c| c.set(Some(id)));
        let mut rm = empty_rm();
        let res = self.readers[r].collect(&mut rm);
        CUR.with(|c| c.set(None));
        ensure!(res.is_ok(), "collect-failed", "{res:?}");
        let st = streams(&rm, &|_| 1.0);
        tr!("collection {id} of reader {r}: {st:?}");
        count("probe.points", st.iter().map(|s| s.pts.len() as u64).sum());
        self.h.with(|h| {
            h.cols[id].end = seq();
            h.cols[id].streams = st;
        });
    }
    fn check(&self) {
        let h = self.h.with(std::mem::take);
        let _g = Atomic::new();
        for (i, cb) in h.cbs.iter().enumerate() {
            for (n, c) in h.cols.iter().enumerate() {
                let calls = cb.calls.iter().filter(|x| **x == n).count();
                ensure!(calls <= 1, "callback-twice", "callback {i} was invoked {calls} times by collection {n} of reader {}", c.reader);
                ensure!(calls == 1 || cb.end > c.begin || self.specs[cb.inst].streams.is_empty(), "callback-not-invoked", "callback {i}, registered before, was not invoked by collection {n} of reader {}", c.reader);
                ensure!(calls == 0 || cb.begin < c.end, "callback-early", "callback {i}");
            }
        }
        for r in 0..self.readers.len() {
            let cols: Vec<usize> = (0..h.cols.len()).filter(|c| h.cols[*c].reader == r).collect();
            for (i, sp, name) in self.specs.iter().enumerate().flat_map(|(i, sp)| sp.streams.iter().map(move |n| (i, sp, *n))) {
                let delta = match (sp.kind, self.temps[r]) {
                    (OK::Counter, Temporality::Delta) => true,
                    _ => false,
                };
                let mut prev: BTreeMap<&str, i128> = BTreeMap::new(); // observed in the previous collection
                let mut known: Vec<&str> = vec![]; // attribute sets within the limit
                let mut over = false; // some are beyond it
                let mut ever: BTreeMap<&str, i128> = BTreeMap::new(); // last observed for this reader
                for &n in &cols {
                    let c = &h.cols[n];
                    let what = format!("reader {r} ({:?}) collection {n} [{},{}] of {sp:?} as {name}", self.temps[r], c.begin, c.end);
                    if delta || sp.kind == OK::Gauge {
                        known.clear();
                        over = false;
                    }
                    let mut now: BTreeMap<&str, i128> = BTreeMap::new();
                    for o in h.obs.iter().filter(|o| o.col == n && o.inst == i) {
                        if o.key != "[]" && !known.contains(&o.key.as_str()) {
                            if sp.limit.is_some_and(|l| known.len() >= l) {
                                over = true;
                                continue;
                            }
                            known.push(&o.key);
                        }
                        now.insert(&o.key, o.val);
                    }
                    let kind = match sp.kind {
                        OK::Counter => Kind::Counter,
                        OK::UpDown => Kind::UpDown,
                        OK::Gauge => Kind::Gauge,
                    };
                    let st: Vec<&Str> = c.streams.iter().filter(|s| s.kind == kind && s.num == sp.num && s.name == name && s.scope == scope_of(sp.scope)).collect();
                    ensure!(st.len() <= 1, "duplicate-stream", "{what}: exported {} times", st.len());
                    let mut got: BTreeMap<&str, i128> = BTreeMap::new();
                    for p in st.iter().flat_map(|s| &s.pts) {
                        let Body::Num(v) = p.body else { violation("kind", "not a number") };
                        ensure!(got.insert(&p.key, v).is_none(), "duplicate-series", "{what}: {} exported twice", p.key);
                    }
                    if let Some(s) = st.first() {
                        ensure!(s.delta.is_none_or(|d| d == delta), "temporality", "{what}: exported with delta={:?}", s.delta);
                    }
                    if sp.limit.is_some() {
                        // what the overflow series of an observable instrument is worth is not specified
                        ensure!(got.remove(OVERFLOW).is_some() == over, "overflow", "{what}: the overflow series is {}exported; attribute sets within the limit: {known:?}", if over { "not " } else { "" });
                        if over { probe("overflow") }
                    }
                    ever.extend(now.iter());
                    let want: BTreeMap<&str, i128> = if delta {
                        now.iter().map(|(k, v)| (*k, v - prev.get(k).copied().filter(|p| p <= v).unwrap_or(0))).collect()
                    } else if sp.kind == OK::Gauge {
                        now.clone()
                    } else {
                        ever.clone()
                    };
                    ensure!(got == want, "not-what-was-observed", "{what}: exported {got:?}, expected {want:?} from observations {now:?}, previously {prev:?}");
                    prev = now;
                }
            }
            for &n in &cols {
                for s in &h.cols[n].streams {
                    ensure!(self.specs.iter().any(|p| p.streams.contains(&&*s.name) && scope_of(p.scope) == s.scope), "unknown-stream", "{s:?}");
                }
            }
        }
    }
}
fn run() {
    let nr = 1 + choose(S_CFG, 3);
    let mut temps = vec![];
    let mut readers = vec![];
    let mut b = SdkMeterProvider::builder();
    for _ in 0..nr {
        let t = pick(S_CFG, &[Temporality::Delta, Temporality::Cumulative, Temporality::Delta, Temporality::LowMemory]);
        let r = Arc::new(ManualReader::builder().with_temporality(t).build());
        temps.push(t);
        readers.push(r.clone());
        b = b.with_reader(SharedReader(r));
    }
    let ni = 1 + choose(S_CFG, 3);
    let mut ob = vec!["ob"];
    if chance(S_CFG, 4) {
        ob = pick(S_CFG, &[&["oc"] as &[&str], &["ob", "oc"], &["oc", "od"], &[]]).to_vec();
        for n in &ob {
            b = b.with_view(opentelemetry_sdk::metrics::new_view(Instrument::new().name("ob"), Stream::new().name(*n)).unwrap());
        }
        if ob.is_empty() {
            b = b.with_view(opentelemetry_sdk::metrics::new_view(Instrument::new().name("ob"), Stream::new().aggregation(Aggregation::Drop)).unwrap());
        }
        probe("views");
    }
    let mut specs: Vec<Spec> = vec![];
    let mut seen = BTreeSet::new();
    for i in 0..ni {
        let kind = pick(S_CFG, &[OK::Counter, OK::Gauge, OK::UpDown]);
        let num = match (kind, choose(S_CFG, 3)) {
            (_, 1) => Num::F,
            (OK::Counter, _) => Num::U,
            (OK::UpDown, _) => Num::I,
            (_, 0) => Num::I,
            _ => Num::U,
        };
        let name = ["oa", "ob", "oa"][i as usize];
        let s = Spec { kind, num, name, scope: choose(S_CFG, 2), limit: if name == "oa" && chance(S_CFG, 4) { Some(1 + choose(S_CFG, 4) as usize) } else { None }, streams: if name == "ob" { ob.clone() } else { vec![name] } };
        if seen.insert((s.name, s.scope)) {
            specs.push(s);
        }
    }
    let w = Arc::new(World {
        temps, locks: readers.iter().map(|_| Mutex::new(())).collect(), readers, provider: b.build(), h: Shared::default(),
        keys: 1 + choose(S_CFG, 7), specs,
    });
    tr!("specs {:?} temps {:?}", w.specs, w.temps);
    let early = choose(S_CFG, w.specs.len() as u32 + 1) as usize;
    let (first, late): (Vec<usize>, Vec<usize>) = (0..w.specs.len()).partition(|i| *i >= early);
    for i in first {
        w.register(i, 1 + choose(S_CFG, 4));
    }
    let mut ts = vec![];
    for t in 0..1 + choose(S_CFG, 3) {
        let w = w.clone();
        ts.push(thread::spawn(move || {
            let s = 1 + t;
            for _ in 0..1 + choose(s, 4) {
                w.collect(choose(s, w.readers.len() as u32) as usize);
                if chance(s, 2) {
                    thread::sleep(Duration::from_micros(choose(s, 60) as u64));
                }
            }
        }));
    }
    let again = chance(S_CFG, 3);
    if !late.is_empty() || again {
        let w = w.clone();
        ts.push(thread::spawn(move || {
            for i in late {
                w.register(i, 1 + choose(9, 2));
                thread::sleep(Duration::from_micros(choose(9, 60) as u64));
            }
            if again {
                // the same instrument once more, with another callback
                w.register(choose(9, w.specs.len() as u32) as usize, 1);
            }
        }));
    }
    for t in ts {
        t.join().unwrap();
    }
    for r in 0..w.readers.len() {
        w.collect(r);
    }
    w.check();
}
pub const SCEN: &[Scenario] = &[Scenario { prop: "M07", name: "observable", weight: 1, run, opts: DEFAULT }];
