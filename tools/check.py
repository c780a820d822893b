#!/usr/bin/env python3
"""Decide one property by seeded simulation: tools/check.py PROPERTY [quick|thorough]

Builds the simulation binary from /repo's working tree, searches schedules and fault sequences with one worker
process per core, minimises the first violation to a replay file, and writes evidence/<PROPERTY>.json.
Exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself failed."""
import json, os, re, subprocess, sys, time, fcntl, tempfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from table import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402


def known_findings(prop):
    out = []
    for line in open(os.path.join(ROOT, "known-findings.txt")):
        m = re.match(r"KNOWN-FINDING: property=(\S+) class=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def build(name):
    os.makedirs(os.path.join(ROOT, "target"), exist_ok=True)
    with open(os.path.join(ROOT, "target", ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = subprocess.run(["bash", os.path.join(ROOT, "tools/build.sh"), name], cwd=ROOT)
    if r.returncode:
        print(f"ERROR: building the simulation binary {name} failed", flush=True)
        sys.exit(2)
    t = os.environ.get("OTELSIM_TARGET", os.path.join(ROOT, "target"))
    return os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "sim" + name)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[prop]
    secs = int(os.environ.get("OTELSIM_SECS", c.get("quick", 20) if tier == "quick" else c.get("thorough", 600)))
    t0 = time.time()
    exe = build(c["bin"])
    t_build = time.time() - t0
    known = known_findings(prop)
    ign = [x for k, _ in known for x in ("--ignore", k)]
    cores = sorted(os.sched_getaffinity(0))
    tmp = tempfile.mkdtemp(prefix="otelsim.")
    print(f"{prop} tier={tier} VERIF_SEED={seed} workers={len(cores)} seconds={secs}", flush=True)
    try:
        rc = run(prop, tier, seed, c, secs, exe, t_build, known, ign, cores, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def determinism(prop, exe, seed, ign, n):
    """The same seeds in two fresh processes, one with address space randomisation: every run must be identical."""
    cmd = [exe, "determinism", "--prop", prop, "--base", str(seed), "--runs", str(n)] + ign
    env = dict(os.environ)
    a = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    b = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env={**env, "OTELSIM_NOASLR": "skip"})
    oa, ob = a.communicate()[0].splitlines(), b.communicate()[0].splitlines()
    bad = [x for x in oa + ob if x.startswith("REPLAY-DIVERGED")]
    diff = [1 for x, y in zip(oa, ob) if x != y]
    return {"runs_executed_twice": min(len(oa), len(ob)), "different": len(diff) + abs(len(oa) - len(ob)), "replays_diverged": len(bad)}


def run(prop, tier, seed, c, secs, exe, t_build, known, ign, cores, tmp, t0):
    det = determinism(prop, exe, seed, ign, 40 if tier == "quick" else 400)
    procs = []
    outs = []
    t1 = time.time()
    for i, core in enumerate(cores):
        o = os.path.join(tmp, f"w{i}.json")
        outs.append(o)
        procs.append(subprocess.Popen([exe, "hunt", "--prop", prop, "--base", str(seed), "--start", str(i), "--stride", str(len(cores)),
                                       "--runs", str(c.get("max_runs", 10**9)), "--secs", str(secs), "--core", str(core), "--out", o] + ign))
    found = None
    err = None
    res = {}
    deadline = time.time() + secs + 120
    while len(res) < len(procs):
        time.sleep(0.05)
        for i, p in enumerate(procs):
            if i in res or p.poll() is None:
                continue
            if p.returncode != 0 or not os.path.exists(outs[i]):
                err = err or f"worker {i} ended with status {p.returncode}"
                res[i] = None
                continue
            res[i] = json.load(open(outs[i]))
            if "internal" in res[i]:
                err = err or res[i]["internal"]
            if "violation" in res[i] and not found:
                found = res[i]["violation"]
        if found or time.time() > deadline:
            break
    for i, p in enumerate(procs):
        if p.poll() is None:
            p.kill()
        p.wait()
    hunt_s = time.time() - t1
    done = [r for r in res.values() if r]
    replay = None
    if found:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        replay = os.path.join(ROOT, "replays", f"{prop}-{found['seed']}.replay")
        budget = 40 if tier == "quick" else 120
        m = subprocess.run([exe, "minimise", "--prop", prop, "--seed", str(found["seed"]), "--secs", str(budget), "--out", replay] + ign,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(m.stdout.strip(), flush=True)
        if m.returncode or not os.path.exists(replay):
            print(f"(the run could not be minimised; re-run it with: {exe} one --prop {prop} --seed {found['seed']} --trace)")
            with open(replay, "w") as f:
                f.write(f"otelsim-seed\nproperty {prop}\nseed {found['seed']}\nclass {found['class']}\nmessage {found['msg']}\n")
        else:
            r = subprocess.run([exe, "replay", replay], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            print("fresh replay:", r.stdout.strip().split("\n")[0])
    evidence(prop, tier, seed, c, secs, done, det, hunt_s, t_build, len(cores), known, found, replay, t0)
    counts = {}
    for r in done:
        for k, v in r["stats"]["counts"].items():
            counts[k] = counts.get(k, 0) + v
    if found:
        print(f"violated: {found['class']}: {found['msg']}")
        print(f"VIOLATION property={prop} replay={replay}", flush=True)
        return 1
    if err or not done or time.time() > deadline:
        print(f"ERROR: {err or 'workers did not finish'}", flush=True)
        return 2
    for k, w in known:
        print(f"KNOWN-FINDING: property={prop} {w} [class {k}, seen {counts.get('known.' + k, 0)} times in this run]")
    runs = sum(r["stats"]["runs"] for r in done)
    print(f"{prop} held in {runs} simulated runs ({hunt_s:.0f} s)")
    return 0


def evidence(prop, tier, seed, c, secs, done, det, hunt_s, t_build, workers, known, found, replay, t0):
    S = [r["stats"] for r in done]

    def tot(k):
        return sum(s[k] for s in S)

    def merge(k):
        m = {}
        for s in S:
            for a, b in s[k].items():
                m[a] = m.get(a, 0) + b
        return dict(sorted(m.items()))

    hashes = set()
    for s in S:
        hashes.update(s["hashes"])
    counts, runs_with = merge("counts"), merge("runs_with")
    runs = tot("runs") if S else 0
    samples = [x for s in S for x in s["samples"][:1]][:4]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": "One evaluation is one simulated run of a whole scenario from one seed. It is non-trivial if at least two threads ran and control "
                "passed between threads at least four times. Two runs are distinct if the hash over (scenario, every thread switch, the code "
                "location it happened at) differs, i.e. they are different interleavings.",
        "samples": samples,
        "nontrivial_runs": tot("nontrivial") if S else 0,
        "scenarios": merge("scenarios"),
        "runs_per_hour": int(runs / hunt_s * 3600) if hunt_s else 0,
        "seeds_per_hour": int(runs / hunt_s * 3600) if hunt_s else 0,
        "simulated_hours": round(tot("vtime_s") / 3600, 3) if S else 0,
        "scheduling_steps": tot("steps") if S else 0,
        "thread_switches": tot("switches") if S else 0,
        "preemptions": tot("preemptions") if S else 0,
        "scheduler_modes": merge("modes"),
        "faults_injected": {k[6:]: v for k, v in counts.items() if k.startswith("fault.")},
        "runs_with_fault": {k[6:]: v for k, v in runs_with.items() if k.startswith("fault.")},
        "rare_conditions_reached": {k[6:]: v for k, v in counts.items() if k.startswith("probe.")},
        "known_findings_seen": {k: counts.get("known." + k, 0) for k, _ in known},
        "determinism": det,
        "outcomes_not_reproduced": [x for r in done for x in r.get("unreproduced", [])],
        "real_code": c["real"],
        "stubs": c["stub"],
        "workers": workers,
        "search_s": round(hunt_s, 1),
        "build_s": round(t_build, 1),
    }
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "coverage": cov,
        "assumptions": COMMON_ASSUMPTIONS + c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": 1 if found else 0,
    }
    if found:
        e["violation"] = {**found, "replay": replay}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.rename(p + ".tmp", p)


main()
