"""Runs one check: python3 engine/check.py <property> [--tier quick|thorough]"""
import importlib, os, signal, sys, traceback
if os.environ.get("PYTHONHASHSEED") != "0":  # the same order of everything on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "py"), os.path.join(os.path.dirname(HERE), "checks")]
import report


def late(*_):
    raise report.Unanalysable("out of time")


def main():
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    # a part that takes too long is given up, so that the check always answers
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 600, 10)
    mod = importlib.import_module(pid.lower())
    R = report.Report(pid, tier)
    try:
        mod.check(R)
    except report.Missing as e:
        R.undecided("anchor", str(e), "the function the rule is anchored at no longer exists under this name")
    except report.NoFacts:
        pass
    except report.Unanalysable as e:
        R.undecided("analysis", pid, str(e))
    except Exception as e:
        R.undecided("analysis", pid, "internal: " + " / ".join(traceback.format_exc().splitlines()[-6:]))
    signal.setitimer(signal.ITIMER_REAL, 0)
    return R.finish(mod.LEVEL, mod.EXPLANATION, mod.TECHNIQUE)


sys.exit(main())
