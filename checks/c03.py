"""C03: every failure reaches the exit status."""
from terms import *
from cases import *
import cli, words as W
from report import Missing

LEVEL = "proof"
TECHNIQUE = "whole-command path summary from MIR (all outcomes of `air format` with their effects); conditions on the discovered files evaluated over every set of per-file happenings; propagation of the status to the process exit code"
EXPLANATION = ("Every outcome of commands::format::format is computed with the results of all fallible calls as path conditions. For paths, the discovered files are abstracted to the set of things that happen to them "
               "(not visitable, unreadable, unparsable, unchanged, changed, unwritable); for each of those sets and each outcome compatible with it, the status is compared with the documented one. "
               "For standard input, each combination of results is compared. run, main and the conversion to ExitCode are compared case by case.")
FALLIBLE = ("Read::read_to_string", "io::read_to_string", "read::read_to_string", "Write::write_all", "Write::flush", "Write::write", "Stdout::flush", cli.SOURCE, cli.SETTINGS, "fs::read_to_string", "fs::write")


def status(v):
    """name of the ExitStatus a term stands for"""
    return v.a[1] if v.tag == "adt" and v.a[0].endswith("ExitStatus") else None


def failures(C, conds):
    """fallible calls (not about one of the files) known to have failed / succeeded"""
    bad = []
    for t, c in conds.items():
        if C.reporting(t) and (isvar(conds, t, "Err") or truth(conds, t)):
            bad.append("writing a message")
        elif t.tag == "ecall" and isvar(conds, t, "Err") is True and not C.about_files(t):
            if not any(h in t.a[0].lower() for h in cli.HARMLESS):
                bad.append(t.a[0])
    return bad


def shown(C, s):
    return f"standard input: {isvar(s.conds, C.stdin, 'Some')}, check: {truth(s.conds, C.check)}, force: {truth(s.conds, C.force)}"


def paths(R, C):
    rule = "C03.paths"
    n = 0
    for check in (True, False):
        scs = C.scenarios(check)
        reached, ok, unsure = {}, True, False
        for s, k, v in C.outs:
            if isvar(s.conds, C.stdin, "None") is not True or truth(s.conds, C.check) is (not check):
                continue
            if not C.files or not any(e in C.files or cli.DISCOVER in {u.a[0] for u in subterms(e) if u.tag in ("ecall", "eff")} for e in s.eff):
                # returned before any file was looked for
                bad = failures(C, s.conds)
                got = "Error" if k == "Err" else status(v)
                n += 1
                if got != "Error":
                    if bad:
                        R.violated(rule, C.where, f"returns {show(v)[:60]} although {bad[0]} failed ({shown(C, s)})")
                    else:
                        R.check(None, rule, C.where, f"returns {show(v)[:60]} without looking for files ({shown(C, s)})")
                elif not bad:
                    R.undecided(rule, C.where, f"fails before looking for files: {show_conds(s.conds)[:200]}")
                continue
            bad = failures(C, s.conds)
            for S in C.subsets(scs):
                try:
                    if not C.consistent(s.conds, S, scs):
                        continue
                    gots = {"Error"} if k == "Err" else {status(v)} if v.tag != "fold" else {status(x) for x in C.folded(v, S)}
                except cli.Odd as e:
                    unsure = True
                    R.undecided(rule, C.where, f"{shown(C, s)}: {e}")
                    break
                if None in gots:
                    unsure = True
                    R.undecided(rule, C.where, f"result {show(v)[:200]}")
                    break
                n += 1
                want = "Error" if bad else C.expected(S, check)
                reached.setdefault(S, set()).add(want)
                wrong = gots - {want}
                if wrong:
                    ok = False
                    what = ", ".join(map(cli.describe, sorted(S))) or "no file"
                    R.violated(rule, f"{C.where}: {'check' if check else 'write'}", f"with {what}{' and ' + bad[0] + ' failing' if bad else ''} the status is {'/'.join(map(str, sorted(wrong)))} instead of {want}")
                    break
            if not ok:
                break
        if ok and not unsure:
            missing = [S for S in C.subsets(scs) if S not in reached]
            R.check(True if not missing else None, rule, f"{C.where}: {'check' if check else 'write'}", f"{len(reached)} of {2 ** len(scs)} sets of happenings lead to an outcome, each with the documented status")
    if not n:
        R.undecided(rule, C.where, "no outcome for paths")


def stdin(R, C):
    rule = "C03.stdin"
    n = 0
    for s, k, v in C.outs:
        if isvar(s.conds, C.stdin, "Some") is not True:
            continue
        n += 1
        case = f"{C.where}: {C.label(s.conds)}"
        got = "Error" if k == "Err" else status(v)
        if got is None:
            R.undecided(rule, case, f"result {show(v)[:200]}")
            continue
        npaths = s.conds.get(call("len", C.paths))
        both = npaths and npaths[0] == "i" and not any((a is None or a <= 0) and (b is None or b >= 0) for a, b in npaths[1])
        bad = failures(C, s.conds)
        if not npaths and got != "Error" and not bad:
            looked = any(u is C.paths for t in s.conds for u in subterms(t))
            R.check(None if looked else False, rule, case, f"the status is {got} whether or not there are paths, which standard input excludes")
            continue
        if both or bad:
            R.check(got == "Error", rule, case, f"the status is {got}" + (", though paths and standard input exclude each other" if both else f" although {bad[0]} failed" if got != "Error" else f" when {bad[0]} fails"))
            continue
        ignored = []
        for e, conds, over in C.effects(s.eff, dict(s.conds)):
            if e.tag == "eff" and e.a[0] in FALLIBLE and not any(u.tag == "ecall" and u.a[0] in ("stdio::stderr", "io::stderr") for u in subterms(e)):
                if isvar(conds, mk("ecall", *e.a), "Ok") is None:
                    ignored.append(e.a[0])
        if ignored and got != "Error":
            R.violated(rule, case, f"the status is {got} whatever {ignored[0]} returns")
            continue
        if got != "Error":
            ev = list(C.printed(s.eff))
            last = max([i for i, (what, _, _) in enumerate(ev) if what == "write"], default=None)
            if any(what == "other" for what, _, _ in ev):
                R.undecided(rule, case, "standard output is handed to " + ", ".join(e.a[0] for what, _, e in ev if what == "other"))
                continue
            if last is not None and not any(what == "flush" and isvar(s.conds, mk("ecall", *e.a), "Ok") for what, _, e in ev[last + 1:]):
                R.violated(rule, case, f"the status is {got} although the text may still be in the buffer of standard output, where an error goes unnoticed")
                continue
            if any(what == "print" for what, _, e in ev):
                R.violated(rule, case, "prints to standard output with a macro that panics when writing fails")
                continue
        res = [isvar(s.conds, t, "Changed") for t in s.conds if t.tag == "pay" and t.a[0].tag == "ecall" and t.a[0].a[0] == cli.SOURCE and t.a[1] == "Ok"]
        chk = truth(s.conds, C.check)
        ran = any(e.a[0] == cli.SOURCE for e, _, _ in C.effects(s.eff, {}) if e.tag == "eff")
        if chk is None and ran and res != [False]:
            R.undecided(rule, case, "mode not known")
            continue
        want = "Failure" if chk and ran and res == [True] else "Success"
        if chk and ran and res not in ([True], [False]):
            R.undecided(rule, case, "changed or not is not looked at")
            continue
        if got == want:
            R.proved(rule, case, f"{got}")
        else:
            unk = [t for t in s.conds if t.tag not in ("ecall", "pay", "fld", "arg") and op(t) not in ("len",)]
            R.check(False if not unk else None, rule, case, f"the status is {got} instead of {want}")
    if not n:
        R.undecided(rule, C.where, "no outcome for standard input")


def panics(R, C):
    rule = "C03.panic"
    bad = 0
    for s, sp in C.I.panics:
        f = [x for x in failures(C, s.conds) if not x.startswith("DefaultFilePatterns") and "default" not in x.lower()]
        names = {u.a[0] for t in s.conds for u in subterms(t) if u.tag == "ecall" and isvar(s.conds, t, "Err")}
        f = f or [x for t in s.conds if C.kind(t) in ("entry", "read", "fmt", "write") and isvar(s.conds, t, "Err") for x in [C.kind(t)]]
        if f:
            bad += 1
            R.violated(rule, f"{sp[0]}:{sp[1]}" if isinstance(sp, (list, tuple)) else C.where, f"panics when {f[0]} fails instead of reporting the error")
    if not bad:
        R.proved(rule, C.where, f"{len(C.I.panics)} panicking paths, none on a failed call")


COMMANDS = {"Format": "air::commands::format::format", "GenerateShellCompletion": "air::commands::generate_shell_completion::generate_shell_completion", "LanguageServer": "air::commands::language_server::language_server"}


def run(R):
    fn = "air::run"
    R.fn(fn)
    where = R.where(fn)
    I = R.interp(opaque=tuple(COMMANDS.values()) + ("air::logging::init_logging",))
    cmd = mk("fld", mk("arg", "args"), "command")
    for s, v in R.summary(fn, "args", I):
        which = [n for n in COMMANDS if isvar(s.conds, cmd, n)]
        case = f"{where}: {'/'.join(which) or show_conds(s.conds)[:100]}"
        if len(which) != 1:
            R.undecided("C03.run", case, "command not known")
            continue
        short = "::".join(COMMANDS[which[0]].split("::")[-2:])
        if v.tag in ("ecall", "call") and v.a[0] == short:
            R.proved("C03.run", case, "the command's result is returned")
            continue
        outs = split_res(I, [(s, v)])
        for s2, k, x in outs:
            r = [t for t in s2.conds if t.tag in ("ecall", "call") and t.a[0] == short]
            if k == "Err" or not r:
                R.check(None, "C03.run", case, f"returns {show(v)[:150]}")
            elif isvar(s2.conds, r[0], "Err"):
                R.check(status(x) == "Error" if status(x) else None, "C03.run", case, f"a failed command gives {show(x)[:100]}")
            else:
                R.check(True if x is payload(r[0], "Ok", 0) else False if status(x) else None, "C03.run", case, f"a successful command gives {show(x)[:100]}")


CODES = {"Success": 0, "Failure": 1, "Error": 255}


def code(v):
    """the number of an ExitCode"""
    while v.tag in ("call", "ecall") and v.a[1]:
        v = v.a[1][-1]
    return v.a[0] if v.tag == "int" else 0 if show(v).endswith("ExitCode::SUCCESS") else 1 if show(v).endswith("ExitCode::FAILURE") else None


def main(R):
    fn = "air::main"
    R.fn(fn)
    where = R.where(fn)
    I = R.interp(opaque=("air::run",))
    seen = set()
    for s, v in R.summary(fn, None, I):
        r = [t for t in s.conds if t.tag == "ecall" and t.a[0] == "air::run"]
        if len(r) != 1:
            R.undecided("C03.main", where, show_conds(s.conds)[:200])
            continue
        c = code(v)
        if isvar(s.conds, r[0], "Err"):
            seen.add("Err")
            R.check(None if c is None else c == 255, "C03.main", f"{where}: failed", f"exit code {c if c is not None else show(v)[:100]}, documented 255")
            continue
        st = payload(r[0], "Ok", 0)
        names = [n for n in CODES if isvar(s.conds, st, n) is not False]
        for n in names:
            seen.add(n)
            good = None if c is None else c == CODES[n]
            R.check(good, "C03.main", f"{where}: {n}", f"exit code {c if c is not None else show(v)[:100]}, documented {CODES[n]}")
    if seen != set(CODES) | {"Err"}:
        R.undecided("C03.main", where, f"cases seen: {sorted(seen)}")


def check(R):
    R.program(*cli.CRATES)
    C = cli.Command(R)
    R.guard(lambda: paths(R, C), "C03.paths", cli.FORMAT)
    R.guard(lambda: stdin(R, C), "C03.stdin", cli.FORMAT)
    R.guard(lambda: panics(R, C), "C03.panic", cli.FORMAT)
    R.guard(lambda: run(R), "C03.run", "air::run")
    R.guard(lambda: main(R), "C03.main", "air::main")
