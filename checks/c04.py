"""C04: formatting standard input prints the formatted text or the input unchanged."""
from terms import *
from cases import *
import cli, mir
from c03 import failures, status

LEVEL = "proof"
TECHNIQUE = "effect analysis over the whole-command path summary from MIR: every effect on standard output with the provenance of the text written; call graph for the rest of the code; log writer read off the call that sets it"
EXPLANATION = ("In every outcome of `air format --stdin-file-path` the effects on standard output are listed. A successful outcome in write mode writes once, all of the Changed payload of formatting the text read or all of the text read; a failing outcome "
               "writes nothing unless writing is what failed; with --check nothing is written. No function that can be reached from there prints, main and run print nothing, and log messages go to standard error.")


def cases(R, C):
    rule = "C04.text"
    n = 0
    for s, k, v in C.outs:
        if isvar(s.conds, C.stdin, "Some") is not True:
            continue
        n += 1
        case = f"{C.where}: {C.label(s.conds)}"
        ev = [x for x in C.printed(s.eff) if x[0] != "flush"]
        if any(how == "other" for how, _, _ in ev):
            R.undecided(rule, case, "standard output is handed to " + ", ".join(e.a[0] for how, _, e in ev if how == "other"))
            continue
        got = "Error" if k == "Err" else status(v)
        bad = failures(C, s.conds)
        ran = [u for e in s.eff for u in [e] if u.tag == "eff" and u.a[0] == cli.SOURCE]
        if truth(s.conds, C.check) is True:
            if not ev:
                R.proved(rule, case, "nothing is printed with --check")
            else:
                R.violated(rule, case, "prints with --check")
            if not ran and not bad and got == "Failure":
                R.violated("C04.check", case, "an excluded file counts as one that would change")
            continue
        own = [b for b in bad if b.startswith("Write::") or b.endswith("flush")]
        if bad and not own or got == "Error" and not bad or got == "Failure":
            R.check(not ev or None if got != "Error" and not bad else not ev, rule, case, "nothing is printed" if not ev else f"prints although {(bad or ['the command'])[0]} failed")
            continue
        if own:
            # writing failed: what was being written is checked with the outcome where it succeeds
            R.check(len(ev) <= 1 or None, rule, case, "printing itself failed")
            continue
        if truth(s.conds, C.check) is None:
            R.undecided(rule, case, "mode not known")
            continue
        if not ev:
            R.violated(rule, case, "succeeds without printing anything")
            continue
        how, text, e = ev[0]
        if e.a[0] == "Write::write":
            R.violated(rule, case, "Write::write may print only part of the text")
            continue
        t = cli.strip(text)
        want, fine = expected(C, s, ran, t)
        if fine and len(ev) == 1:
            R.proved(rule, case, f"prints {want}")
        elif fine:
            R.violated(rule, case, f"prints {len(ev)} times")
        else:
            R.check(None if want is None or not plain(C, t) else False, rule, case, f"prints {show(t)[:60]}..., expected {want}")
        for u in ran:
            if C.stdin_text(u.a[1][0]):
                R.proved("C04.source", case, "the text read is what is formatted")
            else:
                R.check(False if plain(C, cli.strip(u.a[1][0])) else None, "C04.source", case, "the text formatted is not the text as read")
    if not n:
        R.undecided(rule, C.where, "no outcome for standard input")


def expected(C, s, ran, t):
    if not ran:
        return "the input as read (excluded)", C.stdin_text(t)
    res = [payload(mk("ecall", *u.a), "Ok", 0) for u in ran]
    if len(res) != 1:
        return None, False
    changed = isvar(s.conds, res[0], "Changed")
    if changed is None:
        return None, False
    if changed:
        return "the formatted text", t is payload(res[0], "Changed", 0)
    return "the input as read (already formatted)", C.stdin_text(t)


PLAIN = ("str::", "String::", "From<", "Into<", "slice::", "Read::read_to_string", "stdio::stdin", "Stdin::lock", "FormatSettings::", "PathResolver::", "discovery::", "fs::normalize_path", "DefaultFilePatterns::", "format::format_source", "len", "io::read_to_string", "read::read_to_string", "from_utf8")


def plain(C, t):
    """made only of what was read, the formatted text and operations on text"""
    return all(not cli.fname(u) or cli.fname(u).startswith(PLAIN) for u in subterms(t))


def library(R, C):
    rule = "C04.calls"
    P = R.prog
    called = {u.a[0] for s, k, v in C.outs if isvar(s.conds, C.stdin, "Some") is not False for e in s.eff for u in subterms(e) if u.tag == "eff"}
    roots = [p for p in cli.named(P, called) if not p.startswith("air::commands::format")] + cli.outside_impls(P) + ["air::main"]
    seen = mir.reachable(P, sorted(roots), stop=cli.COMMANDS)
    bad = 0
    for p in sorted(seen):
        for c in mir.names(P.fns[p]):
            hit = [x for x in (c["path"], c.get("res") or "") if x in cli.PRINTS]
            if hit:
                bad += 1
                R.violated(rule, R.where(p), f"{hit[0]} is reachable while formatting standard input: {' -> '.join(mir.chain(seen, p))[:300]}")
    if not bad:
        R.proved(rule, "other functions", f"{len(seen)} functions reachable from main and from {len(roots) - 1} called or outside-callable functions, none names standard output")


def logs(R):
    """tracing_subscriber's fmt layer writes to standard output unless told otherwise"""
    rule = "C04.log"
    P = R.prog
    layers = [p for p in P.fns if p.startswith("air::") for c in mir.names(P.fns[p]) if c["path"].endswith(("tracing_subscriber::fmt::layer", "tracing_subscriber::fmt::fmt", "tracing_subscriber::fmt_layer::layer", "fmt_layer::Layer::<S>::new")) or c["path"] in ("tracing_subscriber::fmt::layer", "tracing_subscriber::fmt")]
    if not layers:
        return R.undecided(rule, "air", "no log layer found")
    for p in sorted(set(layers)):
        writers = [c for c in mir.names(P.fns[p]) if c["name"] == "with_writer"]
        stderr = any(c["path"] == "std::io::stdio::stderr" for c in mir.names(P.fns[p]))
        if not writers:
            R.violated(rule, R.where(p), "log messages go to standard output, the default of the log layer")
        else:
            R.check(True if stderr else None, rule, R.where(p), "log messages go to standard error")


def check(R):
    R.program(*cli.ALL)
    C = cli.Command(R)
    R.guard(lambda: cases(R, C), "C04.text", cli.FORMAT)
    R.guard(lambda: library(R, C), "C04.calls", cli.FORMAT)
    R.guard(lambda: logs(R), "C04.log", "air::logging")
