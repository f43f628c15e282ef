#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the property modules that exist."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("deterministic simulation with fault injection: seeded search over schedules and fault sequences of simulated "
        "%s, judged against %s")
HOW = {
 "C01": ("MPI processes", "a single-process run of the same model"),
 "C02": ("MPI processes", "a single-process run of the same model"),
 "C03": ("MPI processes", "a single-process run with the total number of random samples"),
 "C04": ("MPI processes with stalls", "progress: all ranks finish with matching collectives"),
 "C05": ("MPI processes", "the analysis without MPI"),
 "C06": ("MPI processes", "the partition laws"),
 "C07": ("MPI processes", "the element-wise sum, mean or master copy"),
 "C08": ("OpenMP threads pre-empted at memory accesses", "the one-thread run"),
 "C09": ("memory contents and call histories", "the run in zeroed memory in a fresh process"),
 "C10": ("storage with crashes, torn writes, full disks and I/O errors", "the history of completed saves"),
 "C11": ("storage with crashes, full disks and I/O errors under MPI processes", "the arrays returned"),
 "C12": ("storage with crashes, torn writes, full disks and I/O errors", "the history of saved configurations"),
 "C13": ("concurrent jobs of several processes with skewed clocks on shared storage", "each job running alone"),
 "C14": ("storage that lost or truncated files or fails reads", "the model of the intact files"),
 "C15": ("edit/query histories with interruptions and allocation failures", "an executable reference model of the cell"),
 "C16": ("edit/query histories with interruptions and allocation failures", "an explicitly expanded reference model"),
 "C17": ("histories of building, locking, editing and announcing", "a reference model of the dependency graph"),
 "C18": ("histories with refused operations", "the state before the refused call"),
 "C19": ("histories of calculations with interruptions", "a freshly created calculator"),
 "C20": ("clocks that are stepped", "the simulated elapsed time"),
}
NOT = {
 "C30": "pure functions of their arguments: no scheduling, time, I/O, randomness or multi-step state for a simulator to vary",
 "C31": "pure functions of their arguments: no scheduling, time, I/O, randomness or multi-step state for a simulator to vary",
 "C32": "constant parameter tables: nothing for a simulator to schedule or fault",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sim", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./check --property %s --tier quick" % i,
                       "thorough_cmd": "./check --property %s --tier thorough" % i,
                       "technique": TECH % HOW[i], "level": "exploration",
                       "level_note": "seeded random exploration of schedules, faults and inputs; no exhaustiveness claimed"})
    else:
        na.append({"property": i, "reason": NOT.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python sim/build.py fast omp",
     "checks": checks,
     "hooks": {"guard": "none", "enable": "no hooks were needed: all seams are module-level (mpi4py, time, open/os, libgomp symbols)",
               "source_commits": []},
     "not_applicable": na,
     "notes": "All checks build the native modules from /repo's working tree into /verif/.work and import the Python code from /repo."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
