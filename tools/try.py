"""Self-test of the checks: applies each listed edit to /repo, runs the property's check and undoes the edit.
python3 tools/try.py C07 [name-substring]   reads selftest/c07.py: CASES = [(name, 'bug' | 'same', [(file, old, new)])]"""
import importlib.util, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AIR_REPO", "/repo")


def run(pid, only=None, build=False):
    spec = importlib.util.spec_from_file_location("cases", f"{VERIF}/selftest/{pid.lower()}.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout.strip(), "repo is dirty"
    bad = 0
    for name, kind, edits in m.CASES:
        if only and only not in name:
            continue
        try:
            for f, old, new in edits:
                p = f"{REPO}/{f}"
                s = open(p).read()
                if old not in s:
                    print("!! edit does not apply", name, f, old[:60])
                    raise KeyError
                open(p, "w").write(s.replace(old, new, 1))
            b = ""
            if build:
                r = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
                b = "build ok; " if r.returncode == 0 else "BUILD FAILS " + r.stderr[-600:]
            t = time.time()
            r = subprocess.run([sys.executable, f"{VERIF}/engine/check.py", pid], capture_output=True, text=True)
            want = 1 if kind == "bug" else 0
            und = [l for l in r.stdout.splitlines() if l.startswith("undecided")]
            ok = r.returncode == want and (want == 0 or f'VIOLATION property={pid} ' in r.stdout)
            bad += not ok
            print(("ok  " if ok else "BAD ") + f"{kind:5} {name}: exit {r.returncode} {b}({time.time() - t:.1f} s)" + (f" [{len(und)} undecided]" if und else ""))
            if not ok or "-v" in sys.argv:
                print("\n".join("      " + l[:330] for l in r.stdout.splitlines()[:4]), r.stderr[-500:])
            elif und and kind == "same":
                print("\n".join("      " + l[:330] for l in und[:2]))
        except KeyError:
            bad += 1
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    return bad


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    sys.exit(1 if run(a[0], a[1] if len(a) > 1 else None, "--build" in sys.argv) else 0)
