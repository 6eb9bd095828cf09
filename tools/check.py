#!/usr/bin/env python3
"""Runs the check of one property: rebuild from /repo, simulate, write evidence.

usage: check.py ID            (tier from VERIF_TIER, seed from VERIF_SEED)
       check.py --replay FILE (re-executes a replay file, exit 1 when it reproduces)
"""
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS, RULE

VERIF = B.VERIF
LEVEL = "exploration"


def symbolize(exe, pcs):
    try:
        out = subprocess.run(["addr2line", "-Cfpe", exe] + list(pcs), stdout=subprocess.PIPE, text=True, timeout=60).stdout
        return [l.replace(B.SRC, "/repo/src") for l in out.splitlines()]
    except Exception:
        return list(pcs)


def known_findings(prop):
    res = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                if l.startswith("known: property=%s " % prop):
                    res.append(l[len("known: "):].strip())
    except OSError:
        pass
    return res


def replay(path):
    prop = harness = None
    with open(path) as f:
        for l in f:
            if l.startswith("harness "):
                harness = l.split()[1]
            if l.startswith("property "):
                prop = l.split()[1]
    if not harness or not B.build([harness]):
        return 2
    exe = os.path.join(B.BUILD, "bin", harness)
    p = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, text=True)
    print(p.stdout, end="")
    for l in p.stdout.splitlines():
        if l.startswith("stack "):
            for s in symbolize(exe, l.split()[1:]):
                print("  at " + s)
    if p.returncode == 1:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return p.returncode


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[prop]
    t0 = time.time()
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    try:
        os.unlink(ev_path)
    except OSError:
        pass
    harnesses = [h for h, _ in spec["harnesses"]]
    if not B.build(harnesses):
        sys.stderr.write("build failed\n")
        return 2
    build_s = time.time() - t0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    total = spec["thorough_s" if tier == "thorough" else "quick_s"]
    wsum = float(sum(w for _, w in spec["harnesses"]))
    rc = 0
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE + " " + spec.get("rule", ""), "samples": [],
           "operations": 0, "scheduling_points": 0, "context_switches": 0, "preemptions_inside_operations": 0,
           "lock_contention_events": 0, "runs_with_faults": 0, "faults_injected": {}, "simulated_seconds": 0.0,
           "distinct_abstract_states": 0, "determinism_rechecks": 0, "reach_probes": {}, "workloads": {}}
    viol = None
    sim_wall = 0.0
    for h, w in spec["harnesses"]:
        exe = os.path.join(B.BUILD, "bin", h)
        summ = os.path.join(rdir, "%s.%s.summary.json" % (prop, h))
        rep = os.path.join(rdir, "%s.%s.replay" % (prop, h))
        for p in (summ, rep):
            if os.path.exists(p):
                os.unlink(p)
        secs = total * w / wsum
        cmd = [exe, "run", "--property", prop, "--seed", str(seed), "--runs", str(2 ** 40), "--seconds", "%.1f" % secs,
               "--workers", str(max(2, min(8, os.cpu_count() or 8))), "--summary", summ, "--replay-out", rep,
               "--determinism", "64" if tier == "quick" else "512"]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 300)
            code = p.returncode
        except subprocess.TimeoutExpired:
            sys.stderr.write("simulation did not finish\n")
            code, p = 2, None
        if code not in (0, 1) or not os.path.exists(summ):
            sys.stderr.write("harness %s: exit %s\n%s\n" % (h, code, p.stderr[-3000:] if p else ""))
            return 2
        with open(summ) as f:
            s = json.load(f)
        os.unlink(summ)
        sim_wall += s["wall_s"]
        cov["evaluations"] += s["runs"]
        cov["distinct_nontrivial"] += s["distinct_runs"]
        cov["operations"] += s["operations"]
        cov["scheduling_points"] += s["steps"]
        cov["context_switches"] += s["switches"]
        cov["preemptions_inside_operations"] += s["preemptions_inside_operations"]
        cov["lock_contention_events"] += s["lock_contention"]
        cov["runs_with_faults"] += s["runs_with_faults"]
        cov["simulated_seconds"] += s["simulated_seconds"]
        cov["distinct_abstract_states"] += s["distinct_states"]
        cov["determinism_rechecks"] += s["determinism_rechecks"]
        for k, v in s["faults"].items():
            cov["faults_injected"][k] = cov["faults_injected"].get(k, 0) + v
        for k, v in s["probes"].items():
            cov["reach_probes"][k] = v
        cov["workloads"][h] = {"runs": s["runs"], "wall_s": round(s["wall_s"], 2),
                               "runs_per_hour": int(s["runs"] / max(s["wall_s"], 1e-3) * 3600)}
        if "sample" in s:
            sp = s["sample"]
            try:
                q = subprocess.run([exe, "one", sp["seed"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
                lines = [l for l in q.stdout.decode("utf8", "replace").splitlines() if not l.startswith("stack")]
                sp["log"] = [l[:200] for l in lines[:25]]
            except subprocess.TimeoutExpired:
                pass
            sp["workload"] = h
            cov["samples"].append(sp)
        if code == 1:
            v = s["violation"]
            v["where"] = symbolize(exe, v.pop("stack"))
            viol = (h, v, rep)
            with open(rep, "a") as f:
                for l in v["where"]:
                    f.write("# at %s\n" % l)
            break
    cov["runs_per_hour"] = int(cov["evaluations"] / max(sim_wall, 1e-3) * 3600)
    cov["components"] = {"real": spec["real"], "simulated": spec["stub"]}
    if not cov["samples"]:
        cov["samples"].append({"note": "the run ended before a sample was selected"})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "violations": 1 if viol else 0,
          "wall_s": round(time.time() - t0, 2), "build_s": round(build_s, 2)}
    if viol:
        ev["violation"] = viol[1]
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: %s" % k)
    if viol:
        h, v, rep = viol
        print("%s: %s: %s" % (h, v["class"], v["message"]))
        print("minimised to %d switches and %d faults" % (v["switches"], v["faults"]))
        for l in v["where"][:12]:
            print("  at " + l)
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("%s held on %d simulated runs (%d distinct non-trivial) in %.0f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
