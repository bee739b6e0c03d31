#!/usr/bin/env python3
"""Decides one property by deterministic simulation of /repo's current tree.

  check.py P01 quick|thorough     search seeded runs; exit 0 held / 1 VIOLATION / 2 no answer
  check.py --replay FILE          re-execute a replay file (exit 1: reproduced exactly)
  check.py --build                build only
"""
import fcntl, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
BIN = None                                     # set by build()
WORKERS = min(8, os.cpu_count() or 4)
sys.path.insert(0, VERIF)
from props import PROPS  # per-property run counts, rules, stubs, assumptions


def build(part="core"):
    """Compiles the part of the current tree that the property needs; everything, should that not link."""
    global BIN
    BIN = os.path.join(BUILD, "dst_" + part)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for attempt in (1, 2):
            log = ""
            if attempt == 2 and part != "full": BIN = os.path.join(BUILD, "dst_%s_all" % part)
            p = subprocess.run(["cmake", "-S", os.path.join(VERIF, "sim"), "-B", BUILD, "-G", "Ninja", "-DREPO=" + REPO],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            log += p.stdout
            if p.returncode == 0:
                p = subprocess.run(["ninja", "-C", BUILD, os.path.basename(BIN)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                log += p.stdout
                if p.returncode == 0:
                    return
            if attempt == 1:                       # stale cache from elsewhere: start over once
                for n in ("CMakeCache.txt", "build.ninja"):
                    try: os.unlink(os.path.join(BUILD, n))
                    except OSError: pass
        sys.stderr.write(log[-6000:] + "\n")
        print("ERROR: the simulator does not build against the current tree")
        sys.exit(2)


def known(pid):
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' suppresses exactly that key;
    'fixed: ...' lines suppress nothing."""
    out = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return out


def replay(path, scratch):
    d = json.load(open(path))
    cmd = [BIN, "--property", d["property"], "--replay", path, "--scratch", scratch]
    for k in known(d["property"]):
        cmd += ["--suppress", k]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for part in sorted(set(p["part"] for p in PROPS.values())): build(part)
        return 0
    base = tempfile.mkdtemp(prefix="dst-scratch-")
    try:
        if a and a[0] == "--replay":
            build(PROPS[json.load(open(a[1]))["property"]]["part"]); rc, out = replay(os.path.abspath(a[1]), base); print(out, end=""); return rc
        return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"), base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def check(pid, tier, base):
    t0 = time.time()
    cfg = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build(cfg["part"])
    t_build = time.time() - t0
    kn = known(pid)
    if tier == "thorough":
        runs, max_s = 1 << 40, cfg.get("thorough_s", 600)
    else:
        runs, max_s = cfg["runs"], cfg.get("quick_s", 150)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    procs = []
    for w in range(WORKERS):
        sc = os.path.join(base, "worker%d" % w); os.makedirs(sc)
        cmd = [BIN, "--property", pid, "--seed", str(seed), "--runs", str(runs), "--offset", str(w), "--stride", str(WORKERS),
               "--max-seconds", str(max_s), "--tier", tier, "--scratch", sc, "--out", os.path.join(base, "out%d.json" % w),
               "--replay-out", os.path.join(base, "replay%d.json" % w), "--cpu", str(cfg.get("cpu", 30))]
        for k in kn: cmd += ["--suppress", k]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(base, "err%d" % w), "w")))
    hard = time.time() + max_s + 200
    first = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if first is None and any(p.poll() == 1 for p in procs):
            first = time.time()
        if (first and time.time() > first + 5) or time.time() > hard:
            for p in procs:
                if p.poll() is None: p.terminate()
            for p in procs: p.wait()
    rcs = [p.returncode for p in procs]
    res = []
    for w in range(WORKERS):
        try: res.append((w, json.load(open(os.path.join(base, "out%d.json" % w)))))
        except Exception: pass
    viol = [(w, r) for w, r in res if r["violation"]]
    if not viol and (len(res) < WORKERS or any(rc not in (0, 1) for rc in rcs)):
        for w in range(WORKERS): sys.stderr.write(open(os.path.join(base, "err%d" % w)).read()[-1500:])
        print("ERROR: a simulation worker ended abnormally", rcs)
        return 2
    cnt, scen, known_hits, shapes = {}, {}, {}, set()
    tot = {k: 0 for k in ("runs", "nontrivial", "steps", "choices", "determinism_checks", "determinism_failures")}
    simtime, sim_wall, samples = 0.0, 0.0, []
    for w, r in res:
        for k in tot: tot[k] += r[k]
        for d, src in ((cnt, "counters"), (scen, "scenarios"), (known_hits, "known")):
            for k, v in r[src].items(): d[k] = d.get(k, 0) + v
        shapes.update(r["shapes"]); simtime += r["simtime"]; sim_wall = max(sim_wall, r["wall_s"])
        if r["sample"] and len(samples) < 2: samples.append(r["sample"])
    # a violation counts only if the written replay file reproduces it in a fresh process
    status, vline = 0, None
    for w, r in sorted(viol, key=lambda x: len(open(os.path.join(base, "replay%d.json" % x[0])).read()) if os.path.exists(os.path.join(base, "replay%d.json" % x[0])) else 1 << 60):
        src = os.path.join(base, "replay%d.json" % w)
        if not os.path.exists(src): continue
        dst = os.path.join(VERIF, "replay", "%s_seed%s.json" % (pid, r["vseed"])); shutil.copy(src, dst)
        sc = os.path.join(base, "fresh%d" % w); os.makedirs(sc, exist_ok=True)
        outs = [replay(dst, sc) for _ in range(3)]
        if r["key"] == "nondeterminism" or any(rc in (1, 2) for rc, _ in outs):
            exact = all(rc == 1 for rc, _ in outs)
            print("violated: %s: %s" % (r["key"], r["msg"]))
            print("seed %s; replay %s" % (r["vseed"], "reproduces it exactly (3 of 3 fresh processes)" if exact else "outcomes: " + "; ".join(o.strip()[:200] for _, o in outs)))
            vline = "VIOLATION property=%s replay=%s" % (pid, dst); status = 1
            break
    if viol and status == 0:
        print("ERROR: a failure was seen but does not replay:", viol[0][1]["key"], viol[0][1]["msg"])
        status = 2
    wall = time.time() - t0
    faults = {k[6:]: v for k, v in cnt.items() if k.startswith("fault.")}
    other = {k: v for k, v in cnt.items() if not k.startswith("fault.")}
    cov = {
        "evaluations": tot["runs"], "distinct_nontrivial": len(shapes), "rule": cfg["rule"], "samples": samples,
        "nontrivial_runs": tot["nontrivial"], "runs_per_hour": int(tot["runs"] / max(sim_wall, 1e-3) * 3600),
        "seeds_per_hour": int(tot["runs"] / max(sim_wall, 1e-3) * 3600), "simulated_steps": tot["steps"],
        "scheduler_choices": tot["choices"], "simulated_physical_time_s": simtime, "faults_injected": faults, "observations": other,
        "scenarios": scen, "distinct_measure": "hash of the sequence of operation kinds, scheduling decisions and fired faults of a run",
        "determinism_self_checks": tot["determinism_checks"], "determinism_failures": tot["determinism_failures"],
        "real_components": cfg["real"], "stubbed_components": cfg["stub"], "build_s": round(t_build, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if status == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d runs (%d distinct non-trivial), %d faults, %.1f s build, %.1f s simulation" % (
        pid, tier, seed, tot["runs"], len(shapes), sum(faults.values()), t_build, sim_wall))
    for k, what in kn.items():
        if k in known_hits: print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if vline: print(vline)
    return status


sys.exit(main())
