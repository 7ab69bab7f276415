"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {  # property: (technique, level)
}
DEF = "runtime monitoring: the real code under generated workloads, judged by an independent oracle"
TECH = {
    "C01": "runtime monitoring: every step checked online against an extended-precision reference of the published scheme",
    "C02": "runtime monitoring: every step checked online against an extended-precision reference of the published scheme",
    "C03": "runtime monitoring: differential monitor over operator forms",
    "C04": "runtime monitoring: trajectory monitor against the exact propagator",
    "C05": "runtime monitoring: convergence-order monitor over refined runs",
    "C06": "runtime monitoring: accept decision of every recorded step rechecked with an independent error estimate",
    "C07": "runtime monitoring: online checker of the step-control specification over recorded attempts, scripted and fault-injected",
    "C08": "runtime monitoring: offline checker over the recorded step log of adaptive runs",
    "C09": "runtime monitoring: offline checker over the recorded step log of constant-step runs, exact rational oracle",
    "C10": "runtime monitoring: dirty-history versus fresh-instance differential, bitwise",
    "C11": "runtime monitoring: shadow execution (every step mirrored on a fresh solver)",
    "C12": "runtime monitoring with enumerated fault injection at every nonlinear call and coefficient computation",
    "C13": "runtime monitoring: write-protected inputs and fingerprints of every input and result",
    "C14": "runtime monitoring: controlled thread and call interleavings versus isolated runs, bitwise",
    "C15": "runtime monitoring: model-based monitor over setter histories and live effect of settings",
    "C16": "runtime monitoring: metamorphic monitor over evaluation settings and extended-precision psi oracle",
    "C17": "runtime monitoring: metamorphic monitor over shifted time intervals",
    "C18": "runtime monitoring: metamorphic monitor over storage/log options and log-record monitor",
    "C19": "runtime monitoring: accept/refuse monitor over operator shapes, dtypes and layouts",
    "C20": "runtime monitoring: floating-point trap (over/invalid/divide) sanitizer and non-finite injection",
    "C21": "runtime monitoring: grid invariants against exact rational arithmetic",
    "C22": "runtime monitoring: differentiation oracle in exact/extended arithmetic",
    "C23": "runtime monitoring: formula oracle and setter-history monitor",
    "C24": "runtime monitoring: analytic-derivative oracle",
    "C25": "runtime monitoring: right-hand-side oracle in physical space",
    "C26": "runtime monitoring: conserved-quantity monitors along trajectories and cross-solver agreement",
    "C27": "runtime monitoring: global error and cost monitor against a tight reference integration",
    "C28": "runtime monitoring: metamorphic monitor (permutation, conjugation, padding, symmetry)",
    "C29": "runtime monitoring: call-trace checker of nonlinear evaluations",
    "C30": "runtime monitoring: symmetry oracle on recorded inputs and outputs",
    "C31": "runtime monitoring: snapshots of process-wide state around sessions, and differential runs under altered state",
    "C32": "runtime monitoring: allocation, call-count, lifetime and processor-time monitors",
    "C33": "runtime monitoring: metamorphic monitor over representations of the same input",
    "C34": "runtime monitoring: copied/pickled continuation versus never-copied control, bitwise, also across processes",
}
LEVEL = {"C12": "fault_enumeration"}
NOTE = "Sampled executions of the real code on seeded workloads; trusts numpy/scipy, the oracle in lib/rkv and the check's tolerances (DESIGN.md)."
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(here, "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "bash run.sh " + pid, "thorough_cmd": "bash run.sh " + pid, "evidence_file": "evidence/%s.json" % pid,
                       "technique": TECH[pid], "level": LEVEL.get(pid, "exploration"), "level_note": NOTE})
    else:
        na.append({"property": pid, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "run.sh <ID> reads VERIF_SEED and VERIF_TIER; no hooks in /repo are needed (the checks observe through public and documented extension points)."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
