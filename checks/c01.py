"""C01: check mode never changes anything."""
from terms import *
from cases import *
import cli, mir
from report import Missing

LEVEL = "proof"
TECHNIQUE = "effect analysis: all outcomes of `air format` with their effects from MIR, restricted to those compatible with --check; conservative call graph from every function they call into the other crates; derived argument parsing read off its summary"
EXPLANATION = ("No outcome of commands::format::format compatible with --check has an effect that creates, changes or deletes a file or that writes to standard output, and no function reachable from the library functions such outcomes call "
               "(calls, functions used as values, closures, impls that outside code may call) names one. The field tested is the one --check sets.")


def outcomes(R, C):
    rule = "C01.effects"
    n = bad = 0
    called = set()
    for s, k, v in C.outs:
        if truth(s.conds, C.check) is False:
            continue
        n += 1
        what = C.label(s.conds)
        seen = {u for e in s.eff for u in subterms(e) if u.tag == "eff"}
        called |= {u.a[0] for u in seen}
        for u in seen:
            if u.a[0] in cli.WRITERS:
                bad += 1
                certain = truth(s.conds, C.check) is True or not any(u is C.check for t in s.conds for u in subterms(t))
                R.check(False if certain else None, rule, f"{C.where}: {what}", f"{u.a[0]} is called with --check")
        for how, text, e in C.printed(s.eff):
            if how == "flush":
                continue
            bad += 1
            source = text is not None and any(w.tag in ("ecall", "call") and w.a[0] in (cli.SOURCE, "fs::read_to_string") or w.tag == "after" and w.a[0].startswith("Read::") for w in subterms(text))
            R.check(False if source else None, rule, f"{C.where}: {what}", f"{e.a[0]} to standard output with --check")
    if n and not bad:
        R.proved(rule, C.where, f"{n} outcomes compatible with --check, {len(called)} different calls, none changes a file or writes to standard output")
    if not n:
        R.undecided(rule, C.where, "no outcome compatible with --check")
    return called


def library(R, C, called):
    rule = "C01.calls"
    P = R.prog
    roots = [p for p in cli.named(P, called) if not p.startswith("air::commands::format")] + cli.outside_impls(P) + ["air::main"]
    seen = mir.reachable(P, sorted(roots), stop=cli.COMMANDS)
    bad = 0
    for p in sorted(seen):
        for c in mir.names(P.fns[p]):
            names = {c["path"], c.get("res") or ""}
            hit = [x for x in names if x.startswith(cli.CHANGES) or x in cli.PRINTS]
            if hit:
                bad += 1
                R.violated(rule, R.where(p), f"{hit[0]} is reachable with --check: {' -> '.join(mir.chain(seen, p))[:300]}")
    if not bad:
        R.proved(rule, "library calls", f"{len(seen)} functions reachable from {len(roots)} called or outside-callable functions, none names a file-changing function or standard output")


def dispatch(R):
    fn = "air::run"
    R.fn(fn)
    I = R.interp(opaque=("air::commands::format::format", "air::commands::generate_shell_completion::generate_shell_completion", "air::commands::language_server::language_server", "air::logging::init_logging"))
    cmd = mk("fld", mk("arg", "args"), "command")
    n = 0
    for s, v in R.summary(fn, "args", I):
        if isvar(s.conds, cmd, "Format") is not True:
            continue
        for e in s.eff:
            if e.tag == "eff" and e.a[0] == "format::format":
                n += 1
                R.check(True if e.a[1] == (payload(cmd, "Format", 0),) else None, "C01.flag", R.where(fn), f"the command is called with {show(e.a[1][0])[:150]}")
    if not n:
        R.undecided("C01.flag", R.where(fn), "the command's call was not found")


def check(R):
    R.program(*cli.ALL)
    C = cli.Command(R)
    called = set()
    R.guard(lambda: called.update(outcomes(R, C)), "C01.effects", cli.FORMAT)
    R.guard(lambda: library(R, C, called), "C01.calls", cli.FORMAT)
    R.guard(lambda: cli.flag(R, "C01.flag", "check", "check"), "C01.flag", "air::args::FormatCommand")
    R.guard(lambda: dispatch(R), "C01.flag", "air::run")
