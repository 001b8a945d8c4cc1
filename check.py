#!/usr/bin/env python3
"""Builds one simulation from /repo's working tree, searches it, gates what it finds, writes the evidence.

  check.py PROPERTY [--tier quick|thorough] [--seed N] [--time S]     search
  check.py PROPERTY --replay FILE                                     replay one recorded schedule and fault trace
Exit 0: held on everything explored; 1: violation (line on stdout); 2: the check itself failed."""
import argparse, json, os, re, shlex, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("STATOR_REPO", "/repo")
SIM = os.path.join(V, "sim")
BUILD = os.path.join(V, ".build")
REPLAYS = os.path.join(V, "replays")
sys.path.insert(0, V)
from worlds import WORLDS, CHECKS  # noqa

def fail(msg, rc=2):
    print("CHECK-ERROR: " + msg, flush=True); sys.exit(rc)

def build(worlds):
    os.makedirs(BUILD, exist_ok=True)
    common = ["-g1", "-std=c++17", "-w"]
    jobs = [("rt", ["clang++", "-O2"] + common + ["-c", SIM + "/rt.cpp", "-o", BUILD + "/rt.o"]),
            ("frame", ["clang++", "-O1"] + common + ["-c", SIM + "/frame.cpp", "-o", BUILD + "/frame.o"])]
    for world in worlds:
        w = WORLDS[world]; inc = ["-I" + REPO, "-isystem", "/usr/include/eigen3"] + [a.replace("@SIM@", SIM) for a in w.get("flags", [])]
        for src in w["src"]:
            o = "%s/%s.o" % (BUILD, src.replace(".cpp", ""))
            if os.path.exists(o): os.unlink(o)
            jobs.append((src, ["clang++", w.get("opt", "-O0"), "-fsanitize=thread", "-fsized-deallocation", "-include", SIM + "/noextern.h"] + common + inc + ["-c", SIM + "/" + src, "-o", o]))
    t0 = time.time(); ps = [(n, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for n, c in jobs]
    for n, p in ps:
        out, _ = p.communicate()
        if p.returncode: fail("compiling %s failed\n%s" % (n, out[-4000:]))
    wraps = ["-Wl,--wrap=" + l.strip() for l in open(SIM + "/wraps.txt") if l.strip()]; exes = []
    for world in worlds:
        w = WORLDS[world]; exe = "%s/%s" % (BUILD, world); objs = ["%s/%s.o" % (BUILD, src.replace(".cpp", "")) for src in w["src"]]; exes.append(exe)
        r = subprocess.run(["clang++", "-static"] + objs + [BUILD + "/rt.o", BUILD + "/frame.o"] + wraps + w.get("libs", []) + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: fail("linking failed\n" + r.stdout[-4000:])
    return exes, time.time() - t0

def part_of(path):
    m = re.search(r"^cfg part (\d+)", open(path, errors="replace").read(), re.M); return int(m.group(1)) if m else 0

def merge(a, b):
    "sums the counters of one part's search into those of the others"
    for k, v in b.items():
        if isinstance(v, bool) or isinstance(v, str) or k not in a: a.setdefault(k, v)
        elif isinstance(v, dict): merge(a[k], v)
        elif isinstance(v, (int, float)): a[k] += v
    return a

def known_findings(prop):
    f = os.path.join(V, "known-findings.txt"); out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def replay_fresh(exe, prop, path):
    r = subprocess.run([exe, "--property", prop, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    k = re.search(r"^replay .*?: (.*)$", r.stdout, re.M); t = re.search(r"^trace (\S+)(.*)$", r.stdout, re.M)
    return r.returncode, (k.group(1) if k else "?"), (t.group(1) if t else "?"), bool(t and "differs" in t.group(2)), r.stdout

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))); ap.add_argument("--time", type=float); ap.add_argument("--replay"); ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--determinism", action="store_true")
    a = ap.parse_args()
    if a.property not in CHECKS: fail("unknown property " + a.property)
    C = CHECKS[a.property]; t0 = time.time()
    parts = C.get("parts", [[C["world"], 1.0]])   # the worlds that decide the property and their share of the search time
    if a.replay:
        part = parts[part_of(a.replay)]; exes, tb = build([part[0]])
        rc, kind, tr, diff, out = replay_fresh(exes[0], a.property, a.replay); print(out, end="")
        if rc == 1: print("VIOLATION property=%s replay=%s" % (a.property, a.replay))
        sys.exit(rc)
    exes, tb = build([x[0] for x in parts])
    budget = a.time or (C.get("quick", 45) if a.tier == "quick" else C.get("thorough", 600))
    work = os.path.join(BUILD, "run-" + a.property); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    found = work + "/" + a.property + ".found"; st = None; by_part = {}
    for (world, share), exe in zip(parts, exes):
        stats = work + "/stats.json"
        if os.path.exists(stats): os.unlink(stats)
        cmd = [exe, "--property", a.property, "--seed", str(a.seed), "--time", str(budget * share), "--workers", str(a.workers), "--out", stats, "--dir", work] + (["--determinism"] if a.determinism else [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=budget * share + 300)
        if not os.path.exists(stats): fail("the search produced no statistics\n" + r.stdout[-3000:])
        one = json.load(open(stats)); by_part[world] = {"runs": one["runs"], "distinct": one["distinct"], "search_s": round(one["wall"], 1)}
        st = one if st is None else merge(st, one)
        sm = "%s/%s.sample" % (work, a.property)
        if os.path.exists(sm): os.rename(sm, "%s/%s.sample" % (work, world))
        if r.returncode or one["found"]: break
    samples = []
    for f in sorted(os.listdir(work)):
        if f.endswith(".sample"): samples.append(open(work + "/" + f, errors="replace").read()[:6000])
    hours = max(st["wall"], 1e-9) / 3600
    reference_kind = C.get("reference", "the same operation alone in a fresh simulated process without faults")
    cov = {"evaluations": st["runs"], "distinct_nontrivial": st["distinct"], "rule": st["rule"], "samples": samples or ["(no sample: the search ended before the first workload)"],
           "workloads": st["workloads"], "reference_executions": st["reference_runs"], "outcomes_recorded": st["outcomes_compared"],
           "runs_per_hour": int(st["runs"] / hours), "seeds_per_hour": int(st["workloads"] / hours),
           "simulated_steps": st["steps"], "simulated_accesses": st["accesses"], "simulated_time_s": round(st["accesses"] * 1e-6, 3), "simulated_time_note": "the simulated clock advances one microsecond per instrumented access",
           "shared_events": st["shared_events"], "context_switches": st["switches"], "preemptions_inside_operations": st["preemptions_in_ops"],
           "faults_fired": st["faults"], "probes": st["probes"], "interleaving_measure": "64-bit hash of the global sequence of shared accesses and switches of a run, its length and its recorded outcomes; one table for all workers",
           "real_components": C["real"], "stub_components": C["stub"], "reference_model": reference_kind, "build_s": round(tb, 1), "search_s": round(st["wall"], 1), "workers": a.workers}
    ev = {"property": a.property, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov, "assumptions": C["assumptions"], "wall_s": round(time.time() - t0, 1), "violations": 0}
    def evidence(): 
        os.makedirs(V + "/evidence", exist_ok=True); ev["wall_s"] = round(time.time() - t0, 1)
        json.dump(ev, open("%s/evidence/%s.json" % (V, a.property), "w"), indent=1)
    known = known_findings(a.property)
    for m, d in known: print("KNOWN-FINDING: property=%s %s" % (a.property, d))
    if len(parts) > 1: cov["search_per_simulated_world"] = by_part
    if r.returncode == 0 and not st["found"]:
        evidence(); print("%s: held on %d runs (%d distinct non-trivial), %d workloads, build %.0f s, search %.0f s" % (a.property, st["runs"], st["distinct"], st["workloads"], tb, st["wall"])); return 0
    if not os.path.exists(found): evidence(); fail("search ended with status %d\n%s" % (r.returncode, r.stdout[-4000:]))
    path, kind, msg = (open(found, errors="replace").read().split("\n", 2) + ["", ""])[:3]
    rcs = [replay_fresh(exe, a.property, path) for _ in range(2)]
    if any(x[0] != 1 or x[1] != kind or x[3] for x in rcs) or rcs[0][2] != rcs[1][2]: evidence(); fail("a violation (%s) did not replay exactly in a fresh process: %s" % (kind, [x[:4] for x in rcs]))
    os.makedirs(REPLAYS, exist_ok=True); dst = os.path.join(REPLAYS, os.path.basename(path)); shutil.copy(path, dst)
    ev["violations"] = 1; ev["coverage"]["violation"] = {"kind": kind, "message": msg[:2000], "replay": dst}; evidence()
    print("%s: %s\n%s" % (a.property, kind, msg.strip()[:2000])); print("replay with: %s %s --replay %s" % (os.path.abspath(__file__), a.property, dst))
    print("VIOLATION property=%s replay=%s" % (a.property, dst)); return 1

if __name__ == "__main__":
    sys.exit(main())
