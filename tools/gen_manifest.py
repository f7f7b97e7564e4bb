#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        fl = sorted({f for r in s["runs"] for f in r.get("flavors", ["asan", "tsan"])})
        san = " and ".join({"asan": "ASan+UBSan", "tsan": "TSan"}[f] for f in fl)
        checks.append({
            "property": i,
            "quick_cmd": f"python3 tools/check.py {i} --tier quick",
            "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
            "technique": "runtime monitoring: " + s.get("technique", "randomised workloads with injected delays on the real code, "
                         "online monitors and offline log checkers") + f", under {san}",
            "level": s.get("level", "exploration"),
            "level_note": s.get("note", "Holds on every execution observed (counts in the evidence file); the verdict is an oracle's over "
                                "recorded behaviour plus the sanitizers; schedules and inputs not produced are not covered."),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not claimed yet: the monitored workload for it is still being built")})
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks are committed in /repo: every basic block of the library becomes a possible delay point by "
              "compiler instrumentation (-fsanitize-coverage=trace-pc-guard, mon/perturb.cpp), socket I/O is made short by linker wrapping", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Each check rebuilds the library from /repo's working tree under two sanitizer flavours and decides one property; see DESIGN.md.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
