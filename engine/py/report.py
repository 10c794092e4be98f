"""Obligations, verdicts, evidence. A check is a function check(R) that records obligations:

  proved     the rule was decided to hold for the named construct
  violated   the construct breaks the rule; the analysis knows every operation involved
  undecided  the construct could not be classified (an operation outside the rule's vocabulary); never an alarm
"""
import json, os, re, sys, time, traceback

sys.path.insert(0, os.path.dirname(__file__))
sys.setrecursionlimit(50000)
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("AIR_REPO", "/repo")
import facts
from terms import *
import flow
from flow import Prog, Interp, State, Unanalysable

CRATES = {}


class Missing(Exception):
    pass


class NoFacts(Exception):
    pass


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.t0 = pid, tier, time.time()
        self.obs, self.functions, self.files, self.notes = [], {}, set(), []
        self.sites = 0
        self.prog = None

    # ---- program access ----
    def program(self, *crates):
        errs = facts.ensure(list(crates))
        bad = {c: e for c, e in errs.items() if e and c in crates}
        self.unavailable = bad
        for c, e in bad.items():
            self.undecided("facts", c, "the crate does not type-check in the analysis overlay: " + str(e).strip()[:400])
        good = [c for c in crates if c not in bad]
        if not good:
            raise NoFacts()
        self.prog = Prog(good)
        for c in good:
            for f in self.prog.crate_files.get(c, ()) if hasattr(self.prog, "crate_files") else ():
                self.files.add(rel(f))
        return self.prog

    def interp(self, **kw):
        return Interp(self.prog, **kw)

    def fn(self, *paths):
        """the analysed body of a public function (the first of the given paths which exists)"""
        for p in paths:
            f = self.prog.fn(p)
            if f is not None:
                self.saw(f)
                return f
        raise Missing(paths[0])

    def saw(self, f):
        self.functions[f["path"]] = f"{rel(f['span'][0])}:{f['span'][1]}"

    def where(self, path):
        f = self.prog.fn(path) if self.prog else None
        return f"{rel(f['span'][0])}:{f['span'][1]} {path}" if f else path

    def summary(self, path, names=None, I=None, mem=None, conds=None):
        """path summaries with arguments named by position, so that renaming one changes nothing"""
        f = self.fn(path)
        I = I or self.interp()
        st = State(dict(mem or {}), dict(conds or {}), ())
        body, args = f["body"], []
        names = names.split() if isinstance(names, str) else (names or [])
        for i in range(1, body["argc"] + 1):
            ty, nm = body["locals"][i]
            if i <= len(names):
                nm = names[i - 1]
            if isinstance(nm, T):
                args.append(nm)
                continue
            nm = nm or f"a{i}"
            if re.match(r"&('[a-z_]+ )?mut ", ty):
                cell = ("h", nm)
                st.mem.setdefault(cell, mk("arg", nm))
                args.append(mk("mref", cell, ()))
            else:
                args.append(mk("arg", nm))
        outs = [o for s, v in I.exec_fn(f, args, st, 0, {}) for o in I.drive(s, v, {})]
        for p in I.inlined:
            g = self.prog.fn(p)
            if g:
                self.saw(g)
        self.last = I
        return outs

    # ---- obligations ----
    def add(self, status, rule, construct, detail="", key=None):
        self.obs.append({"rule": rule, "construct": construct, "status": status, "detail": detail[:1500], "key": key or f"{rule}|" + re.sub(r":\d+(:\d+)?\b", "", construct)})

    def proved(self, rule, construct, detail=""):
        self.add("proved", rule, construct, detail)

    def violated(self, rule, construct, detail="", key=None):
        self.add("violated", rule, construct, detail, key)

    def undecided(self, rule, construct, detail=""):
        self.add("undecided", rule, construct, detail)

    def check(self, ok, rule, construct, detail=""):
        """ok: True / False / None (unknown)"""
        (self.proved if ok else self.undecided if ok is None else self.violated)(rule, construct, detail)
        return ok

    def floor(self, rule, what, got, least):
        """instances the rule must find; fewer means the rule has lost its subject, which is no violation of it"""
        if got < least:
            self.undecided(rule, what, f"only {got} instances found, at least {least} expected")
        else:
            self.notes.append(f"{rule}: {got} {what} (floor {least})")

    def guard(self, f, rule, construct):
        """runs one part of a check; neither a missing anchor nor an unknown is a violation"""
        try:
            return f()
        except Missing as e:
            self.undecided("anchor", str(e), f"{construct}: the function the rule is anchored at no longer exists under this name")
        except Unanalysable as e:
            self.undecided(rule, construct, "not analysable: " + str(e))
        except NoFacts:
            pass
        except RecursionError:
            self.undecided(rule, construct, "term too deep")
        except Exception:
            self.undecided(rule, construct, "internal: " + " / ".join(traceback.format_exc().splitlines()[-6:]))
        return None

    # ---- end ----
    def finish(self, level, explanation, techniques):
        known = {}
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line:
                    k = json.loads(line)
                    if k.get("status") == "known":
                        known[(k["property"], k["key"])] = k
        by = {"proved": [], "violated": [], "undecided": []}
        for o in self.obs:
            by[o["status"]].append(o)
        viol, kn = [], []
        for o in by["violated"]:
            k = known.get((self.pid, o["key"]))
            (kn if k else viol).append((o, k))
        cov = {
            "explanation": explanation,
            "rule": techniques,
            "functions_analysed": len(self.functions),
            "functions": dict(sorted(self.functions.items())[:400]),
            "files": sorted({v.split(":")[0] for v in self.functions.values()} | self.files),
            "obligations": {"total": len(self.obs), "proved": len(by["proved"]), "undecided": len(by["undecided"]), "violated": len(viol), "known_findings": len(kn)},
            "proved": [{"rule": o["rule"], "construct": o["construct"], "detail": o["detail"][:300]} for o in by["proved"]][:400],
            "undecided": [{"rule": o["rule"], "construct": o["construct"], "detail": o["detail"][:600]} for o in by["undecided"]][:200],
            "violations": [o for o, _ in viol][:50],
            "notes": self.notes,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 3)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o, k in kn:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        for o in by["undecided"]:
            print(f"undecided: {o['rule']}: {o['construct']}: {o['detail'][:300]}")
        print(f"{self.pid}: {len(by['proved'])} obligations proved, {len(by['undecided'])} undecided, {len(viol)} violated, {len(self.functions)} functions analysed, {ev['wall_s']} s")
        if viol:
            rp = os.path.join(VERIF, "evidence", self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for o, _ in viol:
                    f.write(f"rule: {o['rule']}\nconstruct: {o['construct']}\n{o['detail']}\n\n")
            for o, _ in viol:
                print(f"  {o['rule']}: {o['construct']}: {o['detail'][:600]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        return 0
