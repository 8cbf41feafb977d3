#!/usr/bin/env python3
"""check.py <property> : decide one property by seeded simulation (see DESIGN.md).

Environment: VERIF_TIER (quick|thorough), VERIF_SEED (integer).
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed.
  check.py --replay FILE : re-execute a replay file, exit 1 if it reproduces.
  check.py --audit [N]   : determinism audit of every scenario.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B

WORKERS = 8
KNOWN = os.path.join(VERIF, "known-findings.txt")
# property -> (executable, scenario, runs in quick, runs in thorough)
PROPS = json.load(open(os.path.join(VERIF, "scenarios.json")))

REAL = {
    "A": ["libl1c, all of src/*.c and src/vcl/*.cpp, compiled from /repo with every memory access a scheduling point"],
    "B": ["libl1c, all of src/*.c and src/vcl/*.cpp, compiled from /repo at the shipped optimisation level"],
    "M": ["libl1c as in A", "interfaces/mex/*.c"],
    "P": ["libl1c as in A", "interfaces/python/l1cPy.c", "CPython 3.12 and numpy (installed binaries)"],
}
STUB = ["OpenMP runtime (simulated teams on one OS thread)", "heap allocator", "FFTW planner (simulated; transforms computed by the installed FFTW from estimated plans)",
        "BLAS (reference loops)", "clock", "stdio streams and files (over a scratch directory)"]
STUBX = {"M": ["mx/mex API"], "P": [], "A": [], "B": []}


def known_lines(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\w+) kind=(\S+) match="([^"]*)" (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def where(exe, text):
    """addresses in a message -> function and line"""
    def f(m):
        r = subprocess.run(["addr2line", "-f", "-s", "-e", exe, m.group(1)], stdout=subprocess.PIPE, text=True)
        l = r.stdout.split("\n")
        return "in %s (%s)" % (l[0], l[1]) if len(l) > 1 else m.group(0)
    return re.sub(r"pc=(0x[0-9a-f]+)", f, text)


def run_part(exe, kind, pid, scen, count, seed, tier, scratch, secs, known, rdir):
    stop = os.path.join(scratch, "stop")
    kf = os.path.join(scratch, "known")
    with open(kf, "w") as fh:
        for k, sub, _ in known:
            fh.write("%s\t%s\n" % (k, sub))
    procs = []
    for w in range(WORKERS):
        n = count // WORKERS + (1 if w < count % WORKERS else 0)
        if not n:
            continue
        sd = os.path.join(scratch, "%s%s%d" % (kind, scen, w))
        out = sd + ".json"
        rep = os.path.join(rdir, "%s-%s-%s-seed%d-w%d.replay" % (pid, scen, kind, seed, w))
        err = open(sd + ".err", "w")
        p = subprocess.Popen([exe, "run", "--scen", scen, "--seed", str(seed), "--first", str(w), "--stride", str(WORKERS),
                              "--count", str(n), "--secs", str(int(secs)), "--minsecs", "25" if tier == "quick" else "120",
                              "--out", out, "--stop", stop, "--replay", rep, "--known", kf, "--scratch", sd, "--tier", tier],
                             stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL)
        procs.append((p, out, rep, sd + ".err"))
    res = []
    for p, out, rep, err in procs:
        try:
            rc = p.wait(secs + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 2
        j = None
        if os.path.exists(out):
            j = json.load(open(out))
        res.append((rc, j, rep, open(err).read()[-2000:]))
    return res


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    parts = PROPS[pid]["parts"]
    known = known_lines(pid)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        exes = B.build(sorted({p["exe"] for p in parts}))
    except B.BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    cap = 420 if tier == "quick" else 6 * 3600
    scratch = tempfile.mkdtemp(prefix="l1csim-")
    agg = {"runs": 0, "steps": 0, "faults": 0, "preemptions": 0, "sim_seconds": 0.0, "rechecked": 0, "runs_with_fault": 0,
           "runs_preempted": 0}
    probes, scheds, states, digests, samples, kh = {}, set(), set(), set(), [], {}
    viol = None
    error = ""
    per = []
    cpu = 0.0
    try:
        for p in parts:
            left = cap - (time.time() - t0)
            if left < 5:
                break
            n = int(os.environ.get("L1C_RUNS", 0)) or p[tier]
            tp = time.time()
            res = run_part(exes[p["exe"]], p["exe"], pid, p["scen"], n, seed, tier, scratch, left, known, rdir)
            runs = 0
            for rc, j, rep, err in res:
                if j is None or rc not in (0, 3):
                    error = error or "worker failed (%s): %s" % (rc, err)
                if j is None:
                    continue
                runs += j["runs"]
                cpu += j["wall"]
                for k in agg:
                    agg[k] += j[k]
                for k, v in j["probes"].items():
                    probes[k] = probes.get(k, 0) + v
                for k, v in j["known"].items():
                    kh[k] = kh.get(k, 0) + v
                scheds.update(j["scheds"])
                states.update(j["states"])
                digests.update(j["digests"])
                if len(samples) < 4:
                    samples += j["samples"][:1]
                if rc == 3 and j["violation"] and viol is None:
                    viol = (p, j["violation"], rep)
            per.append({"scenario": p["scen"], "build": p["exe"], "runs": runs, "runs_per_hour": int(runs / max(time.time() - tp, 1e-3) * 3600)})
            if viol:
                break
        confirmed = False
        if viol:
            p, v, rep = viol
            r = subprocess.run([exes[p["exe"]], "replay", "--file", rep, "--scratch", os.path.join(scratch, "rep")],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            confirmed = r.returncode == 3
            if not confirmed:
                error = "replay of %s in a fresh process gave %d: %s" % (rep, r.returncode, r.stdout[:500])
            msg = where(exes[p["exe"]], v["msg"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    if not viol or confirmed:
        fk = {k[6:]: v for k, v in probes.items() if k.startswith("fault.")}
        kinds = sorted({p["exe"] for p in parts})
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {
                  "evaluations": agg["runs"],
                  "distinct_nontrivial": len(digests),
                  "rule": "one evaluation is one simulated run: " + PROPS[pid]["rule"] +
                          " Distinct: different hash over every result, status and schedule of the run. Non-trivial: at least one "
                          "fault, preemption or memory perturbation took effect in it.",
                  "samples": samples[:4],
                  "scenarios": per,
                  "simulated_runs_per_hour": int(agg["runs"] / max(wall, 1e-3) * 3600),
                  "seeds_per_hour": int(agg["runs"] / max(wall, 1e-3) * 3600),
                  "seeds_used": "VERIF_SEED=%d, run numbers 0..%d of each scenario" % (seed, max([x["runs"] for x in per] or [1]) - 1),
                  "simulated_seconds": round(agg["sim_seconds"], 6),
                  "simulated_steps": agg["steps"],
                  "faults_injected": agg["faults"], "fault_kinds": fk,
                  "runs_with_a_fault": agg["runs_with_fault"],
                  "preemptions": agg["preemptions"], "runs_with_a_preemption": agg["runs_preempted"],
                  "distinct_schedules": len(scheds),
                  "distinct_schedules_measure": "hash of the sequence (step, thread) of all context switches",
                  "distinct_states": len(states),
                  "distinct_states_measure": "hash of (kind of call, outcome, faults in it) or as given by the scenario",
                  "runs_that_met_a_known_finding": sum(kh.values()),
                  "probes": {k: v for k, v in sorted(probes.items()) if not k.startswith("fault.")},
                  "runs_executed_twice_with_equal_digest": agg["rechecked"],
                  "real_code": sorted({x for k in kinds for x in REAL[k]}),
                  "stubs": STUB + sorted({x for k in kinds for x in STUBX[k]}),
              },
              "assumptions": PROPS[pid].get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if viol else 0}
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    if viol and confirmed:
        p, v, rep = viol
        rel = os.path.relpath(rep, VERIF)
        with open(rep + ".txt", "w") as fh:
            fh.write("%s\n%s: %s\n%s" % (PROPS[pid]["title"], v["kind"], msg, v["hist"]))
        print("%s: %s\n%s" % (v["kind"], msg, v["hist"].rstrip()))
        print("reproduce: python3 check.py --replay %s" % rel)
        print("VIOLATION property=%s replay=%s" % (pid, rel))
        return 1
    if error:
        print("error: " + error)
        return 2
    for k, sub, what in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s: held in %d runs (%d distinct non-trivial, %d faults, %d preemptions) in %.1f s" %
          (pid, agg["runs"], len(digests), agg["faults"], agg["preemptions"], wall))
    return 0


def replay(path):
    kind = re.search(r"^flavour (\w)", open(path).read(), re.M).group(1)
    exe = B.build([kind])[kind]
    scratch = tempfile.mkdtemp(prefix="l1csim-")
    try:
        r = subprocess.run([exe, "replay", "--file", path, "--scratch", os.path.join(scratch, "r")], stdout=subprocess.PIPE, text=True,
                           errors="replace")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(where(exe, r.stdout))
    return 1 if r.returncode == 3 else 0 if r.returncode == 0 else 2


def audit(n):
    """the same seeds in different processes, different splits over workers: equal digests"""
    bad = 0
    seen = set()
    for pid in sorted(PROPS):
        for p in PROPS[pid]["parts"]:
            if (p["exe"], p["scen"]) in seen:
                continue
            seen.add((p["exe"], p["scen"]))
            exe = B.build([p["exe"]])[p["exe"]]
            outs = []
            for w in (8, 3):
                scratch = tempfile.mkdtemp(prefix="l1csim-")
                ps = []
                for i in range(w):
                    lo, hi = n * i // w, n * (i + 1) // w
                    ps.append(subprocess.Popen([exe, "digests", "--scen", p["scen"], "--seed", "77", "--first", str(lo), "--count", str(hi - lo),
                                                "--scratch", os.path.join(scratch, str(i))], stdout=subprocess.PIPE, text=True,
                                               env=dict(os.environ, NOISE="x" * (17 * w))))
                outs.append("".join(q.communicate()[0] for q in ps))
                shutil.rmtree(scratch, ignore_errors=True)
            same = outs[0] == outs[1]
            bad += not same
            print("%s %s: %d runs twice, %s" % (p["exe"], p["scen"], n, "equal" if same else "DIFFERENT"))
    return 1 if bad else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["--audit"]:
        sys.exit(audit(int(a[1]) if len(a) > 1 else 200))
    try:
        rc = check(a[0])
    except Exception as e:  # no verdict: neither held (0) nor violated (1)
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
