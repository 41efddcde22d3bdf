#!/usr/bin/env python3
"""Sets the number of quick runs per property in conf.json from the measured speed (SECONDS of searching per quick check)."""
import json, os, re, subprocess, sys
SECONDS = 38.0
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
conf = json.load(open("conf.json")); only = sys.argv[1:]
for c in json.load(open("MANIFEST.json"))["checks"]:
    p = c["property"]
    if (only and p not in only) or "weights" in conf["properties"].get(p, {}): continue
    out = subprocess.run(["python3", "dst.py", "check", p, "--runs", "3000"], capture_output=True, text=True).stdout
    m = re.search(r"(\d+) runs in ([\d.]+) s", out)
    if not m: print(p, "failed", out[-300:]); continue
    n = int(m.group(1)) // 3000; per = int(m.group(1)) / max(float(m.group(2)), .1) * SECONDS / n
    conf["properties"].setdefault(p, {})["runs"] = max(2000, int(per) // 1000 * 1000); print(p, n, "scenarios", conf["properties"][p])
json.dump(conf, open("conf.json", "w"), indent=1); open("conf.json", "a").write("\n")
