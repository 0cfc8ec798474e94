#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py and properties.jsonl (run by hand after editing either)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
for c in CHECKS:
    assert c in props, c
m = {
    "version": 1,
    "setup_cmd": "python3 tools/build.py asan && python3 tools/build.py tsan",
    "hooks": {"guard": "none: no source hooks are used; monitors observe through -Wl,--wrap interposition at link time",
              "enable": "tools/build.py compiles /repo's sources unmodified with sanitizers and links the monitors",
              "source_commits": []},
    "checks": [dict(property=i, quick_cmd=f"python3 tools/run.py {i}",
                    thorough_cmd=f"VERIF_TIER=thorough python3 tools/run.py {i}", evidence_file=f"evidence/{i}.json",
                    technique=c["technique"], level=c["level"], level_note=c["note"])
               for i, c in sorted(CHECKS.items())],
    "not_applicable": [dict(property=p, reason=NOT_APPLICABLE.get(p, "not built yet"))
                       for p in props if p not in CHECKS],
}
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
