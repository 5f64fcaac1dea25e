#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BFS = "explicit-state exploration of operation sequences on the real code against a reference model"
BFS_NOTE = ("Every operation sequence up to the stated depth over the stated alphabet from several start states runs on the real code; after each "
  "operation the whole observable state is compared with the reference model. Assumes the stand-ins for xz/zstd and leveldb's storage, and small universes.")
C = {}
for i in "C01 C02 C03 C04 C05 C07 C08 C09 C10 C11 C12 C14 C29 C31".split():
    C[i] = (BFS, BFS_NOTE)
exec(open(os.path.join(here, "tools", "claims.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in C and i not in NOT_YET:
        t, n = C[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
na = [{"property": i, "reason": NOT_YET.get(i, "no check built yet")} for i in ids if i not in C or i in NOT_YET]
m = {"version": 1, "setup_cmd": "./setup.sh",
  "hooks": {"guard": "none in /repo: instrumentation is a build-time source overlay (go build -overlay) generated by tools/instr", "enable": "./run.sh", "source_commits": []},
  "checks": checks, "not_applicable": na,
  "notes": "run.sh rebuilds the instrumented repository and the harness from /repo's working tree into a scratch directory on every run."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
