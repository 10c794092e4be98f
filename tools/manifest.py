"""Writes MANIFEST.json from checks/*.py and tools/props.py."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/engine/py", V + "/checks", V + "/tools"]
sys.setrecursionlimit(50000)
import props
from na import NA
checks, na = [], []
for p in props.P:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i.lower()}.py"):
        m = importlib.import_module(i.lower())
        checks.append({"property": i, "quick_cmd": f"python3 engine/check.py {i}", "thorough_cmd": f"python3 engine/check.py {i} thorough",
                       "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": getattr(m, "NOTE", m.EXPLANATION)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
json.dump({"version": 1, "setup_cmd": "python3 engine/py/facts.py", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
