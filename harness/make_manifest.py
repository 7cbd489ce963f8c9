#!/opt/venv/bin/python
"""Regenerates MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime oracle: independent density evaluated at every observed point",
    "C02": "runtime oracle: exact complex-step derivatives vs hooked objective/gradient/Hessian",
    "C03": "runtime monitor of profile fits against an independent conditional optimum",
    "C04": "runtime monitor of global fits against an independent optimum and profile scans",
    "C05": "recorded query histories replayed on fresh models; fingerprints of caller objects",
    "C06": "threaded stress with gated interleavings; concurrent answers compared with serial ones",
    "C07": "online reference memo table over recorded call histories; weak-reference release monitor",
    "C08": "offline history checker over concurrent event logs with injected pre-emption, faults, clears",
    "C09": "online checker of test statistics and p-values against published formulas",
    "C10": "offline recomputation of exclusion/significance from hooked likelihood calls",
    "C11": "monitors on returned limits: exclusion re-evaluated at the limit, metamorphic relations",
    "C12": "monitors re-evaluating the profile likelihood at every chi-square end point",
    "C13": "independent conditional fit compared with observed Asimov data",
    "C14": "runtime comparison of combinations with sums over their members",
    "C15": "metamorphic runtime monitoring over pairs of equivalent models",
    "C16": "moment-preservation monitors on every expansion/helper result",
    "C17": "closed-form monitor of modifier factors through the expected data",
    "C18": "seeded sampling runs judged by exact-distribution statistics",
    "C19": "fit monitors with fault injection into the minimisers and container fingerprints",
    "C20": "executable reference model of configuration queries over recorded call sequences",
    "C21": "likelihood re-evaluated at every reported contour point",
    "C22": "dictionary reference model over registry operation histories",
    "C23": "logger/warning state snapshots around fault-injected scopes; delivery counting",
    "C24": "fault injection into a stubbed network and scratch cache, reference policy oracle",
    "C25": "plug-in backends with recorded hook calls compared with the in-tree models they wrap",
}
LEVEL = {"C24": "fault_enumeration"}
PY = "/opt/venv/bin/python"
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "props", i.lower() + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"{PY} harness/check.py {i}",
                "thorough_cmd": f"VERIF_TIER=thorough {PY} harness/check.py {i}",
                "technique": TECH[i],
                "level": LEVEL.get(i, "exploration"),
                "level_note": "runtime monitoring of the real code over seeded generated workloads; nothing is claimed beyond the executions observed",
            }
        )
    else:
        na.append({"property": i, "reason": "check not built yet"})
man = {
    "version": 1,
    "setup_cmd": f"{PY} -c \"import sys; sys.path.insert(0, '/repo/src'); import spey, iminuit, autograd\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: monitors attach from /verif by wrapping public call sites at run time. Checks import /repo/src directly (pure Python, nothing to rebuild).",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not built")
