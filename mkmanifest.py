"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

TECH = {
    "C01": "re-evaluation oracle over recorded runs (runtime monitor)",
    "C02": "monitor inside the user likelihood and on stored rows",
    "C03": "offline trace checker of the temperature ladder",
    "C04": "reference-weights monitor of posterior()",
    "C05": "recomputation of the evidence from recorded evaluations",
    "C06": "distribution-invariance monitor of the running kernels (confirmed z tests)",
    "C07": "fuzzed runtime oracle with numerical Jacobians",
    "C08": "fuzzed runtime oracle with closed-form folding",
    "C09": "fuzzed runtime oracle with autograd Jacobians",
    "C10": "instrumented flow: trace monitor of training",
    "C11": "count monitors over draws and runs (confirmed z tests)",
    "C12": "fuzzed runtime oracle in extended precision",
    "C13": "bitwise differential monitor of evaluation modes",
    "C14": "bitwise differential monitor of resumed runs in fresh processes",
    "C15": "system-call fault injection (LD_PRELOAD) and trace monitor",
    "C16": "call counters inside the user likelihood",
    "C17": "online monitors under a simulated MPI scheduler (seeded interleavings)",
    "C18": "fuzzed runtime oracle against scipy, confirmed statistical tests",
    "C19": "calibration monitor against analytic posteriors and evidences",
    "C20": "fuzzed runtime oracle and equivariance monitor",
    "C21": "history monitor: snapshots and twin runs",
    "C22": "argument and refusal monitor",
    "C23": "exception injection into user code, monitored against an undisturbed twin run",
    "C24": "bitwise differential monitor of interleaved samplers; settings monitor",
    "C25": "bitwise differential monitor of runs under user code that re-uses and overwrites exchanged arrays",
    "C26": "bitwise differential monitor of copied samplers (pickle, dill, deepcopy) against their original",
    "C27": "monitor of the captured progress display against what is stored at every iteration boundary",
}
NOTE = ("Held on the executions produced (generated workloads, counts in the evidence file); nothing is claimed for "
        "behaviour the workloads never reach. Trusts numpy, scipy, torch, the harness and its reference formulas.")
here = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(here, "pmon/checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="./check %s --thorough" % p,
                           technique=TECH[p], level="fault_enumeration" if p == "C15" else "exploration",
                           level_note=NOTE))
    else:
        na.append(dict(property=p, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo. Replay a violation with ./check <id> --replay <file>."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
