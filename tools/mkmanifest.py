#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
 "C01": "deterministic simulation: seeded schedules of real decoder threads on fibres, differential oracle against single-threaded decode",
 "C02": "deterministic simulation with spurious wakeups, starvation, allocation faults; deadlock, livelock and bounded-progress detection",
 "C03": "deterministic simulation with fault injection; ledger of memory, threads, locks and buffers at close",
 "C04": "deterministic simulation of damaged streams and schedules under address and undefined-behaviour sanitizers plus guard bytes",
 "C05": "deterministic simulation with injected allocation, thread, lock and picture-buffer failures; recovery oracle",
 "C06": "deterministic simulation of flush at arbitrary points of seeded schedules; refinement against a fresh decoder",
 "C07": "deterministic simulation; ownership ledger, checksums and poisoning of tracked input buffers",
 "C08": "deterministic simulation; tracked picture allocator with poisoning, checksums of held pictures, fibre identity of callbacks",
 "C09": "deterministic simulation; reference model of the stream for properties of pictures and errors",
 "C10": "deterministic simulation; reference model of shown frames, order and delay bound",
 "C11": "deterministic simulation of packetizations and call patterns; reference model",
 "C12": "deterministic simulation of output-selection settings; reference model",
 "C13": "deterministic simulation; three film-grain paths compared under seeded schedules",
 "C14": "deterministic simulation of several decoders in one process, cold start included; each compared with running alone",
 "C15": "deterministic simulation; reference model of headers and metadata",
 "C16": "deterministic simulation; reference model of event flags",
 "C17": "deterministic simulation with corrupted, lost, duplicated and reordered input; recovery oracle",
 "C18": "deterministic simulation of the command line tool on a simulated disk and clock with I/O faults",
 "C23": "deterministic simulation of the command line tool on a simulated disk: cut and damaged containers, read and seek histories against a model",
 "C24": "deterministic simulation of the command line tool with a simulated clock and signals; timing bounds and output model",
 "C25": "deterministic simulation of long histories; resource ledger compared across repetitions",
 "C26": "deterministic simulation of the player under a simulated SDL (threads, events, clock, window) and a simulated user; output model",
 "C19": "deterministic simulation; allocator log and reference model under frame size limits",
 "C20": "deterministic simulation of misuse histories interleaved with decoding; state-unchanged oracle",
 "C21": "deterministic simulation with a happens-before race detector over seeded fibre schedules",
 "C22": "deterministic simulation of application threads holding and releasing pictures; ledger and checksums",
}
NOTE = "Seeded sampling of schedules, inputs and faults on the real C code (no SIMD); a clean run is evidence, not proof. Trusted: the simulator, the stream generator and its reference model."
NA = {
 "N01": "a pure function of the input: no schedule, fault, clock or history to simulate, and no independent reference decoder or conformance vectors are available offline",
 "N02": "a pure function of its input, without schedule, fault or history; the simulator also runs the portable C paths only",
}
SKIP = {}
checks = []
for k in sorted(T):
    if k in SKIP: continue
    checks.append({"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough",
                   "evidence_file": f"evidence/{k}.json", "technique": T[k], "level": "exploration", "level_note": NOTE})
na = [{"property": k, "reason": v} for k, v in sorted({**NA, **SKIP}.items())]
m = {"version": 1, "setup_cmd": "python3 build.py plain asan tsan",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: pthread, atomics, allocation and stdio are interposed by symbol renaming of the compiled objects and by headers in /verif/sim/inc", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "replay of a recorded violation: python3 check.py --replay FILE"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
