"""Writes /verif/MANIFEST.json from the properties and the checks."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
    "model": "runtime monitoring: a dictionary model checked online along random histories of calls",
    "num": "runtime monitoring: real executions on generated inputs watched by an independent numerical oracle",
    "phys": "runtime monitoring: physical-law monitors (exact quadrature, differences) and an independent oracle over real executions",
    "file": "runtime monitoring: byte-level monitors of files around real reads, writes and commands, with an independent parser",
    "cli": "runtime monitoring: directory snapshots and an independent oracle around real runs of the command, with faults",
    "plot": "runtime monitoring: the artists of the figures really drawn, read back and judged by an independent oracle",
    "conc": "runtime monitoring: snapshot and repeat monitors over random histories and threads with failing calls injected",
}
KIND = {}
for k, ids in dict(model="1 2 3 4 5 6 20 44", file="7 8 9", cli="12 13 37 40 46", plot="36 38 39 41 42", conc="32 45",
                   phys="18 19 22 24 25 29 48").items():
    for i in ids.split():
        KIND["C%02d" % int(i)] = k
NOTE = dict(
    model="Held on every generated history; trusts the small model and the generators.",
    num="Held on every generated input within stated floating-point tolerances; trusts the reference in lib/ref.py, which the self-test checks against its own defining properties.",
    phys="Held on every generated input within stated tolerances; trusts the quadrature and reference in lib/ref.py, which the self-test checks.",
    file="Held on every generated file; trusts the independent parser in lib/files.py.",
    cli="Held on every generated command line, file and directory layout; a few runs use the separate program, most call its main function.",
    plot="Held on every generated figure; judges the artists and saved files, not pixels; trusts matplotlib and lib/ref.py.",
    conc="Held on every generated history and on the thread schedules that occurred with rapid switching; not all interleavings.",
)
ids = []
with open(os.path.join(ROOT, "properties.jsonl")) as f:
    for line in f:
        ids.append(json.loads(line)["id"])
m = dict(version=1, setup_cmd="./run --selftest", checks=[], not_applicable=[],
         notes="VERIF_SEED selects the workload, VERIF_TIER its size. No hooks in /repo. A run that cannot observe enough prints INCONCLUSIVE and exits 2. "
               "./run ID --replay FILE repeats one case. Repaired defects are listed in known_findings.json.")
for i in ids:
    k = KIND.get(i, "num")
    m["checks"].append(dict(property=i, quick_cmd="VERIF_TIER=quick ./run " + i, thorough_cmd="VERIF_TIER=thorough ./run " + i,
                            technique=T[k], level="exploration", level_note=NOTE[k]))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
