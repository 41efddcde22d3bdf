#!/usr/bin/env python3
"""Generates MANIFEST.json: every property with a scenario in harness/ is claimed, the rest is listed as not applicable with its reason."""
import json, os, re, glob, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
scen = {}
for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.cpp"))):
    for p, n in re.findall(r"^SCENARIO(?:_F)?\(\s*(\w+)\s*,\s*(\w+)", open(f).read(), re.M):
        scen.setdefault(p, []).append(n)
NA = {}
exec(open(os.path.join(HERE, "tools", "na.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "na.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in scen:
        checks.append(dict(property=i, quick_cmd="python3 dst.py check %s --tier quick" % i, thorough_cmd="python3 dst.py check %s --tier thorough" % i,
                           technique="deterministic simulation with fault injection (seeded schedule and fault search; scenarios: %s)" % ", ".join(scen[i]),
                           level="exploration",
                           level_note="seeded sampling of executions under sequential consistency; not exhaustive; workload sizes are small (about ten elements, a few threads)"))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 dst.py build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are the compiler's thread instrumentation entry points, pthread/futex/clock/file interposition and operator new, provided by /verif/sim; the repository's sources are compiled unmodified. DESIGN.md describes it.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "claimed;", [x["property"] for x in na])
