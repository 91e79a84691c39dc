#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   run the check of one property
   check.py --replay FILE             run a recorded violation again (exit 1: it happened again)"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build

# property -> [(variant, share of the search time)]
PLAN = {
    "C04": [("asan", 1.0)],
    "C05": [("plain", 0.6), ("asan", 0.4)],
    "C06": [("plain", 0.8), ("asan", 0.2)],
    "C08": [("plain", 0.7), ("asan", 0.3)],
    "C14": [("plain", 0.6), ("tsan", 0.4)],
    "C18": [("plain", 0.75), ("asan", 0.25)],
    "C21": [("tsan", 1.0)],
    "C22": [("plain", 0.6), ("tsan", 0.4)],
    "C23": [("plain", 0.6), ("asan", 0.4)],
    "C26": [("plain", 0.7), ("asan", 0.3)],
}
QUICK_S = {"C01": 75, "C04": 80, "C05": 80, "C21": 80}
NEVER = ("the trusted base is the simulator in /verif/sim: interposed pthread, atomic, allocation and (for the tool) stdio calls; "
         "C code paths only, assembly is switched off")
RULE = ("each case is one seed: stream structure and payload, settings, packetization, call pattern, schedule strategy and fault plan are all drawn "
        "from it, each case makes several runs of the simulated process; a run is non-trivial when the property's precondition was exercised "
        "(two or more library threads for schedule properties, a fault or an operation of the property that actually happened), and two runs are "
        "distinct when the sequence of (fibre, scheduling point) pairs or the case shape differs")
STUBS = {"real": ["all C code of /repo/src (8 and 16 bit templates)", "sim stream generator feeds real OBU bytes"],
         "real_tools": ["C18, C20, C23, C24: all C code of /repo/tools", "C26: /repo/examples without libplacebo, ivf demuxer"],
         "stub": ["threads, mutexes, condition variables, atomics (simulated scheduler)", "malloc/free family (ledger, guard bytes, fault injection)",
                  "CPU count and CPU flags (simulated, no SIMD)", "logger sink", "tool and player: stdio, files, clock, signals", "player: SDL 2, renderer in place of libplacebo"]}

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        variant = "plain"
        for l in open(sys.argv[2]):
            if l.startswith("variant "): variant = l.split()[1]
        exe = build.build(variant)
        sys.exit(subprocess.run([exe, "--replay", sys.argv[2], "-v"]).returncode)
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    total = QUICK_S.get(prop, 60) if tier == "quick" else 780
    if "CHECK_SECONDS" in os.environ: total = float(os.environ["CHECK_SECONDS"])
    plan = PLAN.get(prop, [("plain", 1.0)])
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    res, rc = [], 0
    exes = {v: build.build(v) for v, _ in plan}
    build_s = time.time() - t0
    if tier != "quick": total = min(total, 830 - build_s)
    for v, share in plan:
        rep = os.path.join(edir, f"{prop}.{v}.replay")
        out = os.path.join(edir, f".{prop}.{v}.json")
        for f in (rep, out):
            if os.path.exists(f): os.unlink(f)
        r = subprocess.run([exes[v], "--prop", prop, "--seed", str(seed), "--time", f"{total * share:.1f}", "--mintime", "30",
                            "--jobs", "8", "--out", out, "--replay-out", rep, "--known", os.path.join(HERE, "known_findings")],
                           stdout=subprocess.PIPE, text=True)
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if os.path.exists(out):
            res.append(json.load(open(out)))
            os.unlink(out)
        if r.returncode:
            rc = r.returncode
            break
    known_lines(prop, res)
    if not res:
        sys.exit(rc or 3)
    cov = {"evaluations": sum(x["evaluations"] for x in res), "distinct_nontrivial": sum(x["distinct_nontrivial"] for x in res), "rule": RULE,
           "samples": [s for x in res for s in x["samples"]][:8]}
    secs = sum(x["search_s"] for x in res)
    cov["runs_per_hour"] = round(cov["evaluations"] / max(secs, 0.01) * 3600)
    cov["seeds_per_hour"] = round(sum(x["cases"] for x in res) / max(secs, 0.01) * 3600)
    cov["seeds"] = sum(x["cases"] for x in res)
    cov["simulated_steps"] = sum(x["steps"] for x in res)
    cov["simulated_time_note"] = "the library has no timers; simulated time is counted in scheduling steps"
    cov["distinct_interleavings"] = sum(x["distinct_traces"] for x in res)
    cov["distinct_interleavings_measure"] = "hash over the ordered (fibre, point kind) sequence of a run"
    for k in ("faults_fired", "fault_opportunities", "points", "strategies", "probes", "known"):
        d = {}
        for x in res:
            for n, c in x[k].items(): d[n] = d.get(n, 0) + c
        cov[k] = d
    for k in ("switches", "contended_locks", "cond_waits", "threads_created", "allocations", "api_calls", "pictures", "frames", "streams", "rejected_streams"):
        cov[k] = sum(x[k] for x in res)
    cov["control_flow_edges"] = {x["variant"]: [x["edges"], x["edges_total"]] for x in res}
    cov["builds"] = [x["variant"] for x in res]
    cov["components"] = STUBS
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": [NEVER], "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0}
    with open(os.path.join(edir, prop + ".json.tmp"), "w") as f: json.dump(ev, f, indent=1)
    os.replace(os.path.join(edir, prop + ".json.tmp"), os.path.join(edir, prop + ".json"))
    print(f"{prop} {tier}: {cov['evaluations']} runs, {cov['distinct_nontrivial']} distinct non-trivial, {cov['distinct_interleavings']} interleavings, "
          f"{cov['simulated_steps']} steps, build {build_s:.1f} s, total {time.time() - t0:.1f} s, exit {rc}")
    sys.exit(rc)

def known_lines(prop, res):
    """every listed finding of this property is announced, also when this run's seeds did not hit it"""
    f = os.path.join(HERE, "known_findings")
    if not os.path.exists(f): return
    hit = {k for x in res for k in x["known"]}
    for l in open(f):
        p = l.rstrip("\n").split("|")
        if p[0] == "known" and len(p) >= 5 and p[1] == prop and p[4] not in hit:
            print(f"KNOWN-FINDING: property={prop} {p[4]} (not hit by this run)")

main()
