"""Writes MANIFEST.json: a check for every property whose module exists."""
import json, os, sys

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, ROOT)
from rvmon import registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = {
    "C05": "runtime monitoring: fit/predict event log of recording estimators, offline trace checker",
    "C06": "runtime monitoring: fit/predict event log of recording regressors, offline trace checker",
    "C07": "runtime monitoring: crash injection at every method/stage with an on-disk event log, offline exactly-once checker",
    "C11": "runtime monitoring: recorded resampling weights, online oracle recomputing every report from them",
    "C21": "runtime monitoring: recording curve functions, offline checker over the recorded replicates",
    "C23": "runtime monitoring: event log of recording estimators, offline pipeline oracle",
    "C24": "runtime monitoring: event log of recording regressors, offline pipeline oracle",
    "C36": "runtime monitoring: argument/global-state sanitizer on every public call, histories compared with a pristine process",
    "C37": "runtime monitoring: single-fault injection at every entry point, online acceptance monitor",
    "C38": "runtime monitoring: paired executions related by a transformation, relational trace oracle",
}
checks, na = [], []
for p in props:
    pid = p["id"]
    mod = os.path.join(ROOT, "rvmon", registry.WHERE[pid] + ".py")
    if not os.path.exists(mod):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    fault = pid == "C07"
    checks.append(dict(
        property=pid,
        quick_cmd="bash run.sh %s" % pid,
        thorough_cmd="VERIF_TIER=thorough bash run.sh %s" % pid,
        technique=TECH.get(pid, "runtime monitoring: contract hooks on the live functions with an independent online oracle"),
        level="fault_enumeration" if fault else "exploration",
        level_note="every crash point (method x stage x kind) of the generated runs is injected; data and estimators are sampled" if fault
        else "the monitors judge every observed call of seeded hostile workloads; inputs outside the generated classes are not covered",
    ))
man = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/repo\"); sys.dont_write_bytecode = True; import mlpaper.classification'", checks=checks, not_applicable=na)
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
