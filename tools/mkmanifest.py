#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (run by hand when it changes)."""
import json, os

LIN = "runtime monitoring: recorded concurrent histories under a controlled scheduler and on free goroutines, linearizability oracle"
TRACE = "runtime monitoring: recorded event traces on a virtual clock under a controlled scheduler, offline trace checkers"
SEQ = "runtime monitoring: random operation sequences on the real code, reference-model oracle after every operation"
T = {
    "C01": LIN, "C02": LIN + " (whole map, Clear included)",
    "C03": "runtime monitoring: controlled schedules, parallel stress and panicking calls, conservation oracle at quiescence",
    "C04": LIN + " per key, with every Range decomposed into reads",
    "C05": "Go race detector under mixed workloads, plain and with injected preemption",
    "C06": "runtime monitoring: re-entrant and panicking user functions under a controlled scheduler with deadlock detection, history oracles",
    "C30": "runtime monitoring: user functions that outlast all other calls, under a controlled scheduler with deadlock detection",
    "C31": "runtime monitoring: weak pointers and live-heap measurements after collections during random and long workloads",
    "C32": "Go race detector under concurrent reads and under use of separate containers; answers compared with a sequential rerun",
    "C33": "runtime monitoring: user functions that panic at every kind of point or re-enter, content compared with a reference model",
    "C34": "runtime monitoring: argument and result slices watched and overwritten during random operation sequences, reference-model oracle",
    "C35": "runtime monitoring: owners of thousands of keys counted after random membership changes, statistical oracle with wide bounds",
    "C36": "runtime monitoring: statements executed, user functions called, bytes allocated and processor time of every operation on the instrumented library, compared between small and large containers",
    "C07": TRACE.replace("trace checkers", "linearizability check with expiry"),
    "C08": TRACE.replace("trace checkers", "exactly-once checker"),
    "C09": TRACE + ", weak pointers for release",
    "C10": TRACE, "C11": TRACE, "C12": TRACE, "C13": TRACE,
    "C29": "runtime monitoring: 386 builds executed under the model and trace monitors, compared with the native target",
}
for i in range(14, 29):
    T.setdefault(f"C{i:02d}", SEQ)
NOTE = {
    "conc": "Seeded exploration: small concurrent programs and their interleavings are sampled, not enumerated; every history observed is decided exactly, within the bounds given in DESIGN.md.",
    "seq": "Seeded exploration: operation sequences, types and inputs are sampled; each is decided exactly by the reference model.",
}
checks = []
for pid in sorted(T):
    n = int(pid[1:])
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} quick",
        "thorough_cmd": f"python3 check.py {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": T[pid],
        "level": "exploration",
        "level_note": NOTE["conc" if n <= 13 or n in (29, 30, 32) else "seq"],
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []}
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
