"""C02: a file is only ever replaced by the complete formatted text of that file."""
from terms import *
from cases import *
import cli, mir

LEVEL = "proof"
TECHNIQUE = "effect analysis over the whole-command path summary from MIR: every file-changing effect with its arguments (provenance terms) and path condition; call graph for the rest of the code; case table of format_source"
EXPLANATION = ("In every outcome of `air format` the file-changing effects are listed with the conditions of the loop over the files. For each thing that can happen to a file the number of writes is counted: one when it changed, none otherwise; "
               "the path written is the path read, the text written is the Changed payload of formatting the text read from it. No other function that outside code or those outcomes can reach changes files. "
               "format_source returns as Changed only the complete printed text and as Unchanged only when it equals the source.")


def writes(R, C):
    rule = "C02.write"
    n = 0
    counted = {True: 0, False: 0}
    for s, k, v in C.outs:
        what = C.label(s.conds)
        stdin = isvar(s.conds, C.stdin, "Some")
        per = []
        for e, conds, over in C.effects(s.eff, dict(s.conds)):
            if e.tag != "eff":
                if any(u.tag == "eff" and u.a[0] in cli.WRITERS for u in subterms(e)):
                    R.undecided(rule, f"{C.where}: {what}", f"effects of a loop are not listed: {show(e)[:200]}")
                continue
            if e.a[0] not in cli.WRITERS:
                continue
            n += 1
            case = f"{C.where}: {what}: {e.a[0]}"
            if e.a[0] != "fs::write":
                others = {u.a[0] for x in s.eff for u in subterms(x) if u.tag == "eff"}
                R.check(False if e.a[0] in ("fs::remove_file", "fs::remove_dir", "fs::remove_dir_all") and not others & {"fs::rename"} or stdin else None, rule, case, "changes files other than by writing the formatted text")
                continue
            if stdin:
                R.violated(rule, case, "a file is written while formatting standard input")
                continue
            path, text = e.a[1][0], cli.strip(e.a[1][1])
            temp = any(u.tag == "eff" and u.a[0] == "fs::rename" for x in s.eff for u in subterms(x))
            if not C.kind_of_path(path):
                R.check(None if temp or not C.about_files(path) and not known(path) else False, rule, case, f"the file written is {show(cli.strip(path))[-160:]}, not the one read")
                continue
            res = text.a[0] if text.tag == "pay" and text.a[1] == "Changed" else None
            if res is None or C.kind(res) != "res":
                made = any(u.tag == "pay" and u.a[1] == "Changed" and C.kind(u.a[0]) == "res" for u in subterms(text))
                R.check(False if known(text) else None, rule, case, f"the text written is {'made from ' if made else 'not '}the formatted text: {cli.fname(text) or text.tag}")
                continue
            if isvar(conds, res, "Changed") is not True:
                R.undecided(rule, case, "the text written is not known to exist")
                continue
            read = cli.strip(res.a[0].a[1][0]).a[0]
            if cli.strip(read.a[1][0]) is not cli.strip(path):
                R.violated(rule, case, f"the path written is {show(cli.strip(path))[-100:]}, the text comes from {show(cli.strip(read.a[1][0]))[-100:]}")
                continue
            per.append((e, conds, over))
            R.proved(rule, case, "the formatted text of the text read from the path written")
        if stdin is not True and truth(s.conds, C.check) is False and any(u in C.files for e in s.eff for u in subterms(e)):
            looked = any(u in C.files for e in s.eff if e.tag == "foreach" for u in [e.a[0]])
            if k == "Err" or not looked:
                continue
            count(R, C, s, per, what)


def count(R, C, s, per, what):
    """one write per changed file, none for another"""
    rule = "C02.count"
    for sc in C.scenarios(False):
        n, unsure = 0, False
        for e, conds, over in per:
            h = C.all_hold({t: c for t, c in conds.items() if C.kind(t)}, sc) if len(over) == 1 and over[0] in C.files else None
            if h is None and len(over) == 1 and over[0] not in C.files:
                try:
                    h = sc in C.members(over[0], C.scenarios(False)) and None
                except cli.Odd:
                    h = None
            if h is None:
                unsure = True
            elif h:
                n += 1
        d = dict(sc)
        want = 1 if d.get("res") == "Changed" else 0
        case = f"{C.where}: {cli.describe(sc)}"
        if d.get("write") == "Err" or unsure and n == want:
            if unsure:
                R.undecided(rule, case, "the conditions of a write are not understood")
            continue
        if not unsure:
            R.check(n == want or (None if n < want else False), rule, case, f"{n} writes, expected {want}")


KNOWN = ("str::", "String::", "Path::", "PathBuf::", "From<", "Into<", "cat", "slice::", "concat")


def known(t):
    """built only from parts the analysis understands"""
    for u in subterms(t):
        o = cli.fname(u)
        if o and not o.startswith(KNOWN) and o not in ("fs::read_to_string", cli.SOURCE, cli.DISCOVER, cli.SETTINGS, "FormatSettings::to_format_options", "PathResolver::resolve_or_fallback", "PathResolver::new", "PathResolver::add", "DefaultFilePatterns::try_from_iter", "len", "join"):
            return False
    return True


def library(R, C):
    rule = "C02.calls"
    P = R.prog
    called = {u.a[0] for s, k, v in C.outs for e in s.eff for u in subterms(e) if u.tag == "eff"}
    roots = [p for p in cli.named(P, called) if not p.startswith("air::commands::format")] + cli.outside_impls(P) + ["air::main"]
    seen = mir.reachable(P, sorted(roots), stop=cli.COMMANDS)
    bad = 0
    for p in sorted(seen):
        for c in mir.names(P.fns[p]):
            hit = [x for x in (c["path"], c.get("res") or "") if x.startswith(cli.CHANGES)]
            if hit:
                bad += 1
                R.undecided(rule, R.where(p), f"{hit[0]} is reachable from the format command: {' -> '.join(mir.chain(seen, p))[:300]}") if p.split("::")[-1] in {c2.split("::")[-1] for c2 in called} else \
                    R.violated(rule, R.where(p), f"{hit[0]} is reachable from the format command outside the command itself: {' -> '.join(mir.chain(seen, p))[:300]}")
    if not bad:
        R.proved(rule, "library calls", f"{len(seen)} functions reachable from {len(roots)} called or outside-callable functions, none changes files")


def source(R, S):
    rule = "C02.source"
    n = 0
    for s, k, v in S.outs:
        if k != "Ok":
            continue
        n += 1
        kind = v.a[1] if v.tag == "adt" else None
        if kind not in ("Changed", "Unchanged"):
            R.undecided(rule, S.where, f"returns {show(v)[:150]}")
            continue
        eq, ne, odd = S.equality(s.conds)
        case = f"{S.where}: {kind}"
        if kind == "Changed":
            t = payload(v, "Changed", 0)
            c = S.code(t)
            if c != "yes":
                R.check(False if c == "part" and known_text(t) else None, rule, case, f"the changed text is {'only made from' if c else 'not'} the printed text: {show(cli.strip(t))[:80]}")
                continue
            nodes = S.nodes(s)
            fine = len(nodes) == 1 and any(u.tag == "ecall" and u.a[0] == "parse::parse" and cli.strip(u.a[1][0]) is S.text for u in subterms(nodes[0].a[1][1]))
            R.check(True if fine else None, rule, case, "the complete printed text of the parsed source")
            if not ne:
                R.check(False if not odd and not eq else None, rule, case + " differs", "a text equal to the source is reported as changed")
            else:
                R.proved(rule, case + " differs", "only when it differs from the source")
        else:
            R.check(True if eq else False if not odd else None, rule, case, "only when the printed text equals the source" if eq else "a text different from the source may be reported as unchanged")
    if not n:
        R.undecided(rule, S.where, "no successful outcome")


def known_text(t):
    return all(not cli.fname(u) or cli.fname(u).startswith(KNOWN) or cli.fname(u) in ("Printed::into_code", "Printed::as_code", cli.PRINT, cli.NODE, "Parse::syntax", "parse::parse") for u in subterms(t))


def check(R):
    R.program(*cli.ALL)
    C = cli.Command(R)
    R.guard(lambda: writes(R, C), "C02.write", cli.FORMAT)
    R.guard(lambda: library(R, C), "C02.calls", cli.FORMAT)
    R.guard(lambda: source(R, cli.Source(R)), "C02.source", cli.FORMAT_SOURCE)
