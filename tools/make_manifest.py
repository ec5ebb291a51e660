"""Writes MANIFEST.json from sim/meta.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sim import meta
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
PURE = "A pure function of its arguments: no scheduling, time, I/O, randomness or failure for a simulator to decide. " \
       "What simulation can decide about these functions (independence from other threads, earlier calls, interrupts) is T01, T02 and G02."
NA = {p: PURE for p in ("N01", "N02", "N03", "N04", "N05", "N06", "N07", "N08")}
NA["N09"] = ("apply_mpi_lya_c.py cannot run on this Python: it imports mpi4py (absent) and reads sys.argv at import time, uses a relative import "
             "although it is a stand-alone script, and sizes its arrays with floats: there is no execution to simulate.")
NA.update(getattr(meta, "NOT_CLAIMED", {}))
checks = []
for p in props:
    if p in meta.PROPS:
        i = meta.PROPS[p]
        checks.append(dict(property=p, quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % p,
                           thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p,
                           technique="deterministic simulation with fault injection",
                           level="exploration",
                           level_note=i.get("note", "Seeded search over simulated runs of the real library; a violation comes with a replay "
                                            "file. No guarantee beyond the runs explored.") + " Stubbed: " + "; ".join(i["stub"]) + "."))
na = [dict(property=p, reason=NA.get(p, "No check built yet.")) for p in props if p not in meta.PROPS]
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -m sim.build", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam is the process's own (module instances, joblib, libc calls behind LD_PRELOAD, "
                     "time, thread switching by sys.monitoring). See DESIGN.md."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
