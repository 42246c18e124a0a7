#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the registered checks."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import jobs

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        s = jobs.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i}", thorough_cmd=f"python3 run.py {i}",
                           evidence_file=f"evidence/{i}.json", technique=s.get("technique", "runtime monitoring against a reachability model"),
                           level=s.get("level", "exploration"),
                           level_note=s.get("note", "Sampled executions, judged by an oracle while they run; assumes the tracking allocator and the model are right. " + "; ".join(s["assumptions"]))))
    else:
        missing.append(i)
m = dict(version=1, setup_cmd="python3 -c 'import sys; assert sys.version_info >= (3, 8)' && cargo --version",
         hooks=dict(guard="--cfg dumpster_vp (a rustc flag, set through RUSTFLAGS; not a cargo feature)",
                    enable="RUSTFLAGS='--cfg dumpster_vp' (tools/build.py does this)",
                    source_commits=["c98ffb19eafcad3ca3c142e0dbda8eb45ca64d77"]),
         checks=checks, not_applicable=[dict(property=i, reason="not built yet") for i in missing])
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks; missing:", missing)
