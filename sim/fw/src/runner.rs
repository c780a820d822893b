use crate::ffi::*;
use crate::{Scenario, Shared, INJECTED};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

static mut SHM: *mut Shm = std::ptr::null_mut();
static mut TRACE: bool = false;
static mut RANGES: Vec<Range> = Vec::new();
static mut SYMS: Vec<(u64, u64, String)> = Vec::new();
pub static PANICS: Shared<Vec<String>> = Shared::new(Vec::new());

static mut IGNORE: Vec<String> = Vec::new();
#[allow(static_mut_refs)]
pub fn ignored(cls: &str) -> bool {
    unsafe { IGNORE.iter().any(|p| p == cls) }
}
pub fn tracing() -> bool {
    unsafe { TRACE }
}
#[allow(static_mut_refs)]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}
fn map_shm() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap");
        SHM = p as *mut Shm;
    }
}
fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(b).wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Status {
    Ok,
    Violation,
    Internal,
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: Status,
    pub cls: String,
    pub msg: String,
    pub hash: u64,
    pub steps: u64,
}
#[derive(Clone)]
pub struct Choices {
    pub w: Vec<Vec<u32>>,
    pub sched: Vec<(u64, u32)>,
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

// ---------------------------------------------------------------- symbols: which code is "interesting"
#[allow(static_mut_refs)]
fn load_symbols(interest: &[&str]) {
    let d = std::fs::read("/proc/self/exe").expect("exe");
    let u16_ = |o: usize| u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as u64;
    let u32_ = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as u64;
    let u64_ = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
    let shoff = u64_(40) as usize;
    let (shes, shn) = (u16_(58) as usize, u16_(60) as usize);
    let mut v = Vec::new();
    for i in 0..shn {
        let s = shoff + i * shes;
        if u32_(s + 4) != 2 {
            continue;
        }
        let (off, size, link) = (u64_(s + 24) as usize, u64_(s + 32) as usize, u32_(s + 40) as usize);
        let str_off = u64_(shoff + link * shes + 24) as usize;
        for k in 0..size / 24 {
            let e = off + k * 24;
            if d[e + 4] & 15 != 2 {
                continue;
            }
            let (addr, sz) = (u64_(e + 8), u64_(e + 16));
            if sz == 0 {
                continue;
            }
            let n = str_off + u32_(e) as usize;
            let end = d[n..].iter().position(|b| *b == 0).unwrap();
            v.push((addr, addr + sz, String::from_utf8_lossy(&d[n..n + end]).into_owned()));
        }
    }
    v.sort();
    let mut r: Vec<Range> = Vec::new();
    for (a, b, n) in &v {
        if interest.iter().any(|s| n.contains(s)) && !n.contains("tracing_core8callsite") {
            match r.last_mut() {
                Some(l) if l.hi >= *a => l.hi = l.hi.max(*b),
                _ => r.push(Range { lo: *a, hi: *b }),
            }
        }
    }
    unsafe {
        RANGES = r;
        SYMS = v;
    }
}
#[allow(static_mut_refs)]
fn symbol(site: u64) -> String {
    let s = unsafe { &SYMS };
    match s.binary_search_by(|x| {
        if x.1 <= site {
            std::cmp::Ordering::Less
        } else if x.0 > site {
            std::cmp::Ordering::Greater
        } else {
            std::cmp::Ordering::Equal
        }
    }) {
        Ok(i) => demangle(&s[i].2),
        Err(_) => format!("{site:#x}"),
    }
}
fn demangle(s: &str) -> String {
    let Some(mut r) = s.strip_prefix("_ZN") else { return s.to_string() };
    let mut out = Vec::new();
    while let Some(k) = r.find(|c: char| !c.is_ascii_digit()) {
        let Ok(n) = r[..k].parse::<usize>() else { break };
        if k + n > r.len() {
            break;
        }
        out.push(r[k..k + n].to_string());
        r = &r[k + n..];
    }
    out.pop();
    out.join("::").replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::").replace("$RF$", "&").replace("$C$", ",")
}

// ---------------------------------------------------------------- configuration of one run
#[allow(static_mut_refs)]
fn config(sc: &Scenario, seed: u64) -> Cfg {
    let mut k = 0u64;
    let mut r = |n: u64| {
        k += 1;
        mix(mix(seed, 4242), k) % n
    };
    let mode = [0u32, 0, 0, 1, 1, 1, 2, 2, 2, 3][r(10) as usize];
    let steps_ns: Vec<u64> = [1u64, 10, 50, 200, 1000, 5000].into_iter().filter(|x| *x <= sc.opts.max_step_ns).collect();
    let stall_on = sc.opts.stalls && r(4) == 0;
    let stall_p = [200u32, 1000, 5000][r(3) as usize];
    let stall = [(0u32, 10u32), (10, 8), (16, 8)][r(3) as usize];
    let spur_on = sc.opts.spurious && r(8) == 0;
    let cfg = Cfg {
        seed,
        max_steps: sc.opts.max_steps,
        max_vtime: sc.opts.max_vtime.as_nanos() as u64,
        step_ns: steps_ns[r(steps_ns.len() as u64) as usize],
        mono_base: 1_000_000_000_000 + r(1_000_000_000_000),
        real_base: 1_700_000_000_000_000_000 + r(1_000_000_000_000_000),
        mode,
        p_switch: [2u32, 4, 8, 20, 50, 200][r(6) as usize],
        p_stall: if stall_on { stall_p } else { 0 },
        stall_lo: stall.0,
        stall_span: stall.1,
        p_spurious: if spur_on { 4 } else { 0 },
        pct_depth: 1 + r(4) as u32,
        site_mod: [2u32, 4, 8, 16, 40][r(5) as usize],
        pct_len: [30u64, 100, 300, 1000, 4000][r(5) as usize],
        replay: 0,
        trace: 0,
        trace_fd: 2,
        nopreempt: 0,
        ranges: unsafe { RANGES.as_ptr() },
        nranges: unsafe { RANGES.len() as u64 },
    };
    cfg
}

// ---------------------------------------------------------------- one run in a forked child
fn clear_shm() {
    let h = shm();
    h.status = 0;
    h.nsched = 0;
    h.cls[0] = 0;
    h.msg[0] = 0;
    h.nswitch = 0;
    h.npreempt = 0;
    h.nstall = 0;
    h.nspurious = 0;
    h.idle_jumps = 0;
    h.hash = 0;
    h.steps = 0;
    for c in h.count.iter_mut() {
        if c.name[0] == 0 {
            break;
        }
        c.name[0] = 0;
        c.v = 0;
    }
    for w in h.w.iter_mut() {
        w.pos = 0;
        w.len = 0;
    }
}
fn child(sc: &Scenario, cfg: &Cfg) -> ! {
    unsafe {
        alarm(30);
        if cfg.trace == 0 {
            let fd = open(c"/dev/null".as_ptr(), 2);
            dup2(fd, 1);
            dup2(fd, 2);
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let _g = crate::Atomic::new();
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if m.contains(INJECTED) {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("T{} panicked at {loc}: {m}", crate::tid());
        crate::trace(&s);
        PANICS.with(|p| p.push(s));
    }));
    unsafe { sim_start(cfg, SHM) };
    let r = std::panic::catch_unwind(sc.run);
    let _g = crate::Atomic::new();
    let p = PANICS.with(|p| p.clone());
    if r.is_err() {
        crate::violation("panic", &format!("the application thread panicked: {}", p.join("; ")));
    }
    if !p.is_empty() {
        crate::violation("panic", &format!("unexpected panic: {}", p.join("; ")));
    }
    unsafe { sim_done() }
}
fn exec(sc: &Scenario, cfg: &Cfg) -> Outcome {
    let h = shm();
    unsafe {
        TRACE = cfg.trace != 0;
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            child(sc, cfg);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let msg = cstr(&h.msg);
        let (status, cls, msg) = match std::ptr::read_volatile(&h.status) {
            1 => (Status::Ok, String::new(), msg),
            2 => (Status::Violation, cstr(&h.cls), msg),
            3 | 4 => (Status::Violation, cstr(&h.cls), msg),
            5 => (Status::Internal, "internal".into(), msg),
            _ => {
                let sig = st & 127;
                if sig == 14 {
                    (Status::Violation, "watchdog".into(), "one simulated run kept running for 30 s of real time without reaching a scheduling point that could end it".into())
                } else if sig != 0 {
                    (Status::Violation, format!("crash(signal {sig})"), format!("the process died with signal {sig}"))
                } else {
                    (Status::Violation, "exit".into(), format!("the process exited unexpectedly, status {st:#x}"))
                }
            }
        };
        Outcome { status, cls, msg, hash: h.hash, steps: h.steps }
    }
}
fn run_seed(sc: &Scenario, seed: u64, trace: bool) -> (Outcome, Cfg) {
    clear_shm();
    let mut cfg = config(sc, seed);
    cfg.trace = trace as u32;
    (exec(sc, &cfg), cfg)
}
fn taken() -> Choices {
    let h = shm();
    Choices {
        w: h.w.iter().map(|s| s.v[..s.len as usize].to_vec()).collect(),
        sched: h.sched[..h.nsched as usize].iter().map(|s| (s.at, s.v)).collect(),
    }
}
fn run_choices(sc: &Scenario, base: &Cfg, c: &Choices, trace: bool) -> Outcome {
    clear_shm();
    let h = shm();
    for (i, w) in c.w.iter().enumerate() {
        h.w[i].len = w.len() as u32;
        h.w[i].v[..w.len()].copy_from_slice(w);
    }
    for (i, (at, v)) in c.sched.iter().enumerate() {
        h.sched[i] = Sched { at: *at, v: *v, pad: 0 };
    }
    h.nsched = c.sched.len() as u32;
    let mut cfg = *base;
    cfg.replay = 1;
    cfg.trace = trace as u32;
    exec(sc, &cfg)
}
fn same(a: &Outcome, b: &Outcome) -> bool {
    a.status == b.status && a.cls == b.cls
}

// ---------------------------------------------------------------- minimisation
fn minimise(sc: &Scenario, cfg: &Cfg, c0: Choices, want: &Outcome, budget: Duration) -> (Choices, u64) {
    let t0 = Instant::now();
    let mut c = c0;
    let mut n = 0u64;
    let ok = |c: &Choices, n: &mut u64| {
        *n += 1;
        same(&run_choices(sc, cfg, c, false), want)
    };
    loop {
        let before = (c.sched.len(), c.w.iter().flatten().filter(|x| **x != 0).count(), c.w.iter().map(|w| w.len()).sum::<usize>());
        // drop schedule choices, coarse to fine
        let mut chunk = c.sched.len().max(1).div_ceil(2);
        while chunk >= 1 && !c.sched.is_empty() {
            let mut i = 0;
            while i < c.sched.len() && t0.elapsed() < budget {
                let mut d = c.clone();
                let e = (i + chunk).min(d.sched.len());
                d.sched.drain(i..e);
                if ok(&d, &mut n) {
                    c = d;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // simplify workload choices: zero whole streams, truncate, zero single entries, halve
        for s in 0..c.w.len() {
            if t0.elapsed() >= budget {
                break;
            }
            if c.w[s].is_empty() {
                continue;
            }
            let mut d = c.clone();
            d.w[s].clear();
            if ok(&d, &mut n) {
                c = d;
                continue;
            }
            for i in 0..c.w[s].len() {
                if t0.elapsed() >= budget {
                    break;
                }
                let v = c.w[s][i];
                if v == 0 {
                    continue;
                }
                for x in [0, v / 2, v - 1] {
                    if x >= c.w[s][i] {
                        continue;
                    }
                    let mut d = c.clone();
                    d.w[s][i] = x;
                    if ok(&d, &mut n) {
                        c = d;
                        break;
                    }
                }
            }
            while c.w[s].last() == Some(&0) {
                c.w[s].pop();
            }
        }
        let after = (c.sched.len(), c.w.iter().flatten().filter(|x| **x != 0).count(), c.w.iter().map(|w| w.len()).sum::<usize>());
        if after == before || t0.elapsed() >= budget {
            return (c, n);
        }
    }
}

// ---------------------------------------------------------------- replay files
fn write_replay(path: &str, sc: &Scenario, cfg: &Cfg, c: &Choices, o: &Outcome, seed: u64) {
    let mut s = String::new();
    let _ = writeln!(s, "otelsim-replay 1");
    let _ = writeln!(s, "property {}", sc.prop);
    let _ = writeln!(s, "scenario {}", sc.name);
    let _ = writeln!(s, "seed {seed}");
    let _ = writeln!(s, "class {}", o.cls.replace('\n', " "));
    let _ = writeln!(s, "message {}", o.msg.replace('\n', " | "));
    let _ = writeln!(s, "hash {:016x}", o.hash);
    for i in unsafe { &*std::ptr::addr_of!(IGNORE) } {
        let _ = writeln!(s, "known {i}");
    }
    let _ = writeln!(s, "cfg {} {} {} {} {}", cfg.max_steps, cfg.max_vtime, cfg.step_ns, cfg.mono_base, cfg.real_base);
    for (i, w) in c.w.iter().enumerate() {
        if !w.is_empty() {
            let _ = writeln!(s, "w {i} {}", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
    }
    for (at, v) in &c.sched {
        let what = match v {
            2000 => "spurious-wakeup".to_string(),
            1000..=1999 => format!("stall-2^{}us", v - 1000),
            _ => format!("switch-{v}"),
        };
        let _ = writeln!(s, "s {at} {v} # {what}");
    }
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, s).expect("write replay");
}
fn read_replay<'a>(path: &str, all: &'a [Scenario]) -> (&'a Scenario, Cfg, Choices, String, String) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let (mut name, mut seed, mut hash, mut cls) = (String::new(), 0u64, String::new(), String::new());
    let mut cfgv: Vec<u64> = vec![];
    let mut c = Choices { w: vec![vec![]; STREAMS], sched: vec![] };
    for l in t.lines() {
        let l = if l.starts_with("s ") { l.split('#').next().unwrap() } else { l };
        let Some((k, r)) = l.split_once(' ') else { continue };
        match k {
            "scenario" => name = r.to_string(),
            "seed" => seed = r.parse().unwrap(),
            "known" => unsafe { (*std::ptr::addr_of_mut!(IGNORE)).push(r.to_string()) },
            "hash" => hash = r.to_string(),
            "class" => cls = r.to_string(),
            "cfg" => cfgv = r.split(' ').map(|x| x.parse().unwrap()).collect(),
            "w" => {
                let v: Vec<u32> = r.split(' ').map(|x| x.parse().unwrap()).collect();
                c.w[v[0] as usize] = v[1..].to_vec();
            }
            "s" => {
                let v: Vec<u64> = r.split_whitespace().map(|x| x.parse().unwrap()).collect();
                c.sched.push((v[0], v[1] as u32));
            }
            _ => {}
        }
    }
    let sc = all.iter().find(|s| s.name == name).expect("unknown scenario in replay file");
    let mut cfg = config(sc, seed);
    cfg.max_steps = cfgv[0];
    cfg.max_vtime = cfgv[1];
    cfg.step_ns = cfgv[2];
    cfg.mono_base = cfgv[3];
    cfg.real_base = cfgv[4];
    (sc, cfg, c, hash, cls)
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Stats {
    runs: u64,
    steps: u64,
    vtime: u64,
    switches: u64,
    preempt: u64,
    threads: u64,
    nontrivial: u64,
    hashes: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    runs_with: BTreeMap<String, u64>,
    scen: BTreeMap<String, u64>,
    modes: BTreeMap<u32, u64>,
    samples: Vec<String>,
}
impl Stats {
    fn add(&mut self, sc: &Scenario, cfg: &Cfg, o: &Outcome, seed: u64) {
        let h = shm();
        self.runs += 1;
        self.steps += h.steps;
        self.vtime += h.vtime;
        self.switches += h.nswitch;
        self.preempt += h.npreempt;
        self.threads += h.nthreads;
        *self.scen.entry(sc.name.into()).or_default() += 1;
        *self.modes.entry(cfg.mode).or_default() += 1;
        // non-trivial: at least two threads ran and the scheduler switched between them at least 4 times
        let mut cnt = vec![];
        if h.nthreads >= 2 && h.nswitch >= 4 {
            self.nontrivial += 1;
            self.hashes.insert(mix(o.hash, sc.name.len() as u64));
        }
        for (n, v) in [("fault.thread_stall", h.nstall), ("fault.spurious_wakeup", h.nspurious), ("sched.preemption", h.npreempt), ("time.idle_jump", h.idle_jumps)] {
            if v > 0 {
                cnt.push((n.to_string(), v));
            }
        }
        for c in h.count.iter() {
            if c.name[0] == 0 {
                break;
            }
            cnt.push((cstr(&c.name), c.v));
        }
        for (n, v) in &cnt {
            *self.counts.entry(n.clone()).or_default() += v;
            *self.runs_with.entry(n.clone()).or_default() += 1;
        }
        if self.samples.len() < 3 && (self.runs % 7 == 1 || self.samples.is_empty()) {
            let first: Vec<String> = h.sched[..(h.nsched as usize).min(6)].iter().map(|s| format!("{}:{}", s.at, s.v)).collect();
            self.samples.push(format!(
                "seed={seed} scenario={} mode={} threads={} steps={} switches={} simulated_s={:.3} workload={:?} first_schedule_choices=[{}] counts={:?}",
                sc.name, cfg.mode, h.nthreads, h.steps, h.nswitch, h.vtime as f64 / 1e9,
                &h.w[0].v[..(h.w[0].len as usize).min(12)], first.join(" "), cnt
            ));
        }
    }
    fn json(&self, secs: f64) -> String {
        let m = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect::<Vec<_>>().join(",");
        format!(
            "{{\"runs\":{},\"steps\":{},\"vtime_s\":{:.6},\"switches\":{},\"preemptions\":{},\"threads\":{},\"nontrivial\":{},\"secs\":{:.3},\"hashes\":[{}],\"counts\":{{{}}},\"runs_with\":{{{}}},\"scenarios\":{{{}}},\"modes\":{{{}}},\"samples\":[{}]}}",
            self.runs, self.steps, self.vtime as f64 / 1e9, self.switches, self.preempt, self.threads, self.nontrivial, secs,
            self.hashes.iter().map(|h| format!("\"{h:016x}\"")).collect::<Vec<_>>().join(","),
            m(&self.counts), m(&self.runs_with), m(&self.scen),
            self.modes.iter().map(|(k, v)| format!("\"{}\":{v}", ["random-walk", "priority(PCT)", "hot-sites", "block-only"][*k as usize])).collect::<Vec<_>>().join(","),
            self.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")
        )
    }
}

pub fn main(all: &[Scenario], interest: &[&str]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let num = |k: &str, d: u64| opt(k).map(|s| s.parse().unwrap()).unwrap_or(d);
    // same addresses in every process, so that a run is a function of its seed alone
    if std::env::var_os("OTELSIM_NOASLR").is_none() {
        unsafe {
            if personality(0x0040000) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(&a[1..]).env("OTELSIM_NOASLR", "1").exec();
                eprintln!("exec: {e}");
            }
        }
    }
    map_shm();
    load_symbols(interest);
    unsafe { IGNORE = a.iter().enumerate().filter(|(_, x)| *x == "--ignore").map(|(i, _)| a[i + 1].clone()).collect() };
    let core = num("--core", u64::MAX);
    if core != u64::MAX {
        let m = [1u64 << core; 1];
        unsafe { sched_setaffinity(0, 8, m.as_ptr()) };
    }
    let prop = opt("--prop").unwrap_or_default();
    let only = opt("--scenario");
    let mine: Vec<&Scenario> = all.iter().filter(|s| s.prop == prop && only.as_ref().is_none_or(|o| o == s.name)).collect();
    let choose_sc = |seed: u64| -> &Scenario {
        let t: u64 = mine.iter().map(|s| s.weight as u64).sum();
        assert!(t > 0, "no scenario for {prop}");
        let mut x = mix(seed, 99) % t;
        for s in &mine {
            if x < s.weight as u64 {
                return s;
            }
            x -= s.weight as u64;
        }
        unreachable!()
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for s in all {
                println!("{} {} weight={}", s.prop, s.name, s.weight);
            }
            std::process::exit(0)
        }
        Some("hunt") => {
            // --base B --start i --stride k --runs N --secs S --out F --replay-dir D [--ignore CLASS]*
            let (base, start, stride, runs, secs) = (num("--base", 1), num("--start", 0), num("--stride", 1), num("--runs", 1000), num("--secs", 60));
            let t0 = Instant::now();
            let mut st = Stats::default();
            let mut found: Option<(u64, Outcome)> = None;
            let mut known: BTreeMap<String, (u64, String, u64)> = BTreeMap::new();
            let mut internal = String::new();
            let mut unreproduced: Vec<String> = vec![];
            let mut i = start;
            while i < runs && t0.elapsed().as_secs() < secs {
                let seed = mix(base, 1 + i);
                let sc = choose_sc(seed);
                let (o, cfg) = run_seed(sc, seed, false);
                st.add(sc, &cfg, &o, seed);
                match o.status {
                    Status::Ok => {}
                    Status::Internal => {
                        internal = format!("seed {seed} scenario {}: {} {}", sc.name, o.cls, o.msg);
                        break;
                    }
                    Status::Violation => {
                        if ignored(&o.cls) {
                            let e = known.entry(o.cls.clone()).or_insert((seed, o.msg.clone(), 0));
                            e.2 += 1;
                        } else if same(&run_seed(sc, seed, false).0, &o) {
                            found = Some((seed, o));
                            break;
                        } else {
                            // a run is a function of its seed: what happens once and not again came from outside (say, a sandbox
                            // that stood still for the 30 s of the watchdog), and is counted instead of reported
                            unreproduced.push(format!("seed {seed}: {}: {}", o.cls, o.msg));
                        }
                    }
                }
                i += stride;
            }
            let mut s = format!("{{\"stats\":{}", st.json(t0.elapsed().as_secs_f64()));
            if !internal.is_empty() {
                let _ = write!(s, ",\"internal\":{}", jstr(&internal));
            }
            let _ = write!(s, ",\"known\":[{}]", known.iter().map(|(k, v)| format!("{{\"class\":{},\"seed\":{},\"msg\":{},\"n\":{}}}", jstr(k), v.0, jstr(&v.1), v.2)).collect::<Vec<_>>().join(","));
            let _ = write!(s, ",\"unreproduced\":[{}]", unreproduced.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
            if let Some((seed, o)) = &found {
                let _ = write!(s, ",\"violation\":{{\"seed\":{seed},\"class\":{},\"msg\":{}}}", jstr(&o.cls), jstr(&o.msg));
            }
            s.push('}');
            std::fs::write(opt("--out").expect("--out"), s).unwrap();
            std::process::exit(0)
        }
        Some("minimise") => {
            let seed = num("--seed", 0);
            let sc = choose_sc(seed);
            let (o, cfg) = run_seed(sc, seed, false);
            if o.status != Status::Violation {
                eprintln!("seed {seed} does not violate: {o:?}");
                std::process::exit(3);
            }
            let c = taken();
            let r = run_choices(sc, &cfg, &c, false);
            if !same(&r, &o) || r.hash != o.hash {
                eprintln!("replay of seed {seed} diverged: {o:?} vs {r:?}");
                std::process::exit(3);
            }
            let (m, n) = minimise(sc, &cfg, c.clone(), &o, Duration::from_secs(num("--secs", 60)));
            let f = run_choices(sc, &cfg, &m, false);
            assert!(same(&f, &o));
            let path = opt("--out").expect("--out");
            write_replay(&path, sc, &cfg, &m, &f, seed);
            println!(
                "minimised in {n} runs: schedule/fault choices {} -> {}, workload choices {} -> {}",
                c.sched.len(), m.sched.len(), c.w.iter().map(|w| w.len()).sum::<usize>(), m.w.iter().map(|w| w.len()).sum::<usize>()
            );
            println!("class: {}\n{}", f.cls, f.msg);
            std::process::exit(0)
        }
        Some("replay") => {
            let trace = a.iter().any(|x| x == "--trace");
            let (sc, cfg, c, hash, cls) = read_replay(&a[2], all);
            let o = run_choices(sc, &cfg, &c, trace);
            println!("status={:?} class={} steps={} hash={:016x} (recorded class={cls} hash={hash})\n{}", o.status, o.cls, o.steps, o.hash, o.msg);
            if o.status == Status::Violation {
                println!("VIOLATION property={} replay={}", sc.prop, a[2]);
                std::process::exit(1)
            }
            std::process::exit(0)
        }
        Some("one") => {
            let seed = num("--seed", 0);
            let sc = choose_sc(seed);
            let (o, cfg) = run_seed(sc, seed, a.iter().any(|x| x == "--trace"));
            println!("{} {o:?}\n{cfg:?}", sc.name);
            std::process::exit(0)
        }
        Some("determinism") => {
            // print one line per run: seed and hashes, to be diffed between processes; also replays each
            let (base, runs) = (num("--base", 1), num("--runs", 100));
            for i in num("--start", 0)..runs {
                let seed = mix(base, 1 + i);
                let sc = choose_sc(seed);
                let (o, cfg) = run_seed(sc, seed, false);
                let h = shm();
                println!("{seed} {} {:?} {} {:016x} steps={} vt={} sw={} msg={}", sc.name, o.status, o.cls, o.hash, o.steps, h.vtime, h.nswitch, o.msg.replace('\n', "|"));
                let c = taken();
                if c.sched.len() < SMAX && c.w.iter().all(|w| w.len() < WMAX) {
                    let r = run_choices(sc, &cfg, &c, false);
                    if r.hash != o.hash || r.steps != o.steps || r.status != o.status || r.cls != o.cls {
                        println!("REPLAY-DIVERGED {seed} {o:?} {r:?}");
                    }
                }
            }
            std::process::exit(0)
        }
        Some("sym") => {
            println!("{}", symbol(u64::from_str_radix(&a[2], 16).unwrap()));
            std::process::exit(0)
        }
        _ => {
            eprintln!("usage: list | hunt | minimise | replay FILE | one | determinism");
            std::process::exit(2)
        }
    }
}
