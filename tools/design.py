"""Write DESIGN.md."""
import glob, importlib, importlib.machinery, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + "/checks", ROOT + "/engine/py", ROOT + "/tools"]
from na import NA
head = open(ROOT + "/tools/design_head.md").read()
kf = [json.loads(l) for l in open(ROOT + "/known_findings.jsonl") if l.strip()]
open_ = [k for k in kf if k.get("status") != "fixed"]
find = ""
if open_:
    find = "Recorded, not repaired (printed as KNOWN-FINDING):\n\n" + "".join(
        "* **%s** `%s`: %s\n" % (k["property"], k["key"], k.get("design") or k["what"]) for k in open_) + "\n"
out = [head.replace("@FINDINGS@\n", find)]
for l in open(ROOT + "/properties.jsonl"):
    p = json.loads(l)
    pid = p["id"]
    out.append("\n### %s %s\n\n%s\n\n" % (pid, p["title"], p["statement"]))
    if pid in NA:
        out.append("*Not applicable:* %s.\n" % NA[pid].rstrip("."))
        continue
    if not os.path.exists(ROOT + "/checks/%s.py" % pid.lower()):
        out.append("*Not claimed:* in reach of this technique, but its check is not finished.\n")
        continue
    m = importlib.import_module(pid.lower())
    out.append("*Decided by* %s.\n\n%s\n" % (m.TECHNIQUE.rstrip("."), m.EXPLANATION))
    if getattr(m, "NOTE", ""):
        out.append("\n*Assumes / bounds:* %s\n" % m.NOTE)
    if getattr(m, "DESIGN", ""):
        out.append("\n%s\n" % m.DESIGN.strip())
    ev = ROOT + "/evidence/%s.json" % pid
    st = ROOT + "/selftest/%s.py" % pid.lower()
    if os.path.exists(st):
        t = importlib.machinery.SourceFileLoader("st_" + pid, st).load_module()
        cs = getattr(t, "CASES", None)
        if cs:
            bad = [c for c in cs if "bug" == c[1]]
            same = [c for c in cs if "same" == c[1]]
            out.append("\n*Tried with* %d breaking and %d behaviour-preserving edits (`selftest/%s.py`).\n" % (len(bad), len(same), pid.lower()))
out.append("\n## 5. Planted bugs\n\nEach is caught by the check of the property named (`tools/seed.py --run`).\n\n| bug | property | needs | breaks |\n|---|---|---|---|\n")
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
open(ROOT + "/DESIGN.md", "w").write("".join(out))
