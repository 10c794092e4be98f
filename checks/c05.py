"""C05: paths, standard input and the editor apply the same exclusion rules."""
from terms import *
from cases import *
import cli, filters, flow, lsp, walk
from c03 import failures, status

LEVEL = "proof"
TECHNIQUE = "decision tables by abstract interpretation of MIR: for each front end every outcome's knowledge about the exclude and include queries against what it does with the file"
EXPLANATION = ("The two pattern helpers are tabled against the patterns they are given. For every outcome of the visitor of the directory walk, of `air format --stdin-file-path`, of the editor's "
               "exclusion decision and of both formatting requests it is determined from the path condition whether an exclude pattern of the settings of that path matched (with parents when named "
               "directly), and whether an include pattern matched; the outcome must accept or reject the file accordingly. --force must hand both filters off to both modes and nothing else may.")


def helper(R, name, parents):
    rule = "C05.patterns"
    fn = "workspace::discovery::" + name.split("::")[1]
    R.fn(fn)
    where = R.where(fn)
    I = R.interp()
    I.opaque_fn = walk.PRIMITIVE
    path, d = mk("arg", "path"), mk("arg", "is_directory")
    want = {"exclude": mk("arg", "exclude"), "default_exclude": mk("arg", "default_exclude")}
    for s, k, v in split_enum(I, R.summary(fn, "path is_directory exclude default_exclude", I), flow.OPT, ("None", "Some")):
        case = f"{where}: {show_conds(s.conds)[:200] or 'always'}"
        got = {}
        odd = []
        for t, c in s.conds.items():
            a = isvar(s.conds, t, "Some")
            if t in want.values():
                if a is False:
                    got[[n for n in want if want[n] is t][0]] = False
            elif cli.fname(t) in filters.ONE:
                q, p, dd = args(t)
                which = [n for n in want if filters.base(q) is want[n]]
                right = which and cli.strip(p) is path and (dd is d or truth(s.conds, d) is not None and dd.tag == "int" and bool(dd.a[0]) == truth(s.conds, d))
                if right and filters.ONE[cli.fname(t)] == parents:
                    got[which[0]] = a
                else:
                    odd.append(f"asks {show(t)[:120]}")
            elif t is not d:
                odd.append(None)
        hit = True if True in got.values() else False if list(got.values()).count(False) == 2 else None
        if hit is None:
            R.check(False if None not in odd else None, rule, case, f"answers {k} " + ("; ".join(x for x in odd if x) or f"without asking the {' and '.join(n for n in want if n not in got)} patterns"))
        else:
            R.check(hit == (k == "Some"), rule, case, f"answers {k} when " + ("a pattern matches" if hit else "no pattern matches"))


def include(R):
    rule = "C05.patterns"
    fn = "workspace::" + filters.INCLUDE
    R.fn(fn)
    where = R.where(fn)
    I = R.interp()
    I.opaque_fn = walk.PRIMITIVE
    inc, path = mk("arg", "include"), mk("arg", "path")
    for s, k, v in split_enum(I, R.summary(fn, "path include", I), flow.OPT, ("None", "Some")):
        case = f"{where}: {show_conds(s.conds)[:200] or 'always'}"
        hit, odd = None, []
        for t, c in s.conds.items():
            if t is inc:
                hit = False if isvar(s.conds, t, "None") else hit
            elif cli.fname(t) in filters.ONE and filters.base(args(t)[0]) is inc and cli.strip(args(t)[1]) is path and args(t)[2] is Int(0) and not filters.ONE[cli.fname(t)]:
                hit = isvar(s.conds, t, "Some")
            else:
                odd.append(t)
        if hit is None:
            R.check(False if not any(cli.fname(t) not in filters.ONE for t in odd) else None, rule, case, f"answers {k} without asking the include patterns for this file")
        else:
            R.check(hit == (k == "Some"), rule, case, f"answers {k} when " + ("a pattern matches" if hit else "no pattern matches"))


def visitor(R):
    rule = "C05.walk"
    V = walk.Visit(R)
    for o in V.outs:
        case = f"{V.where}: {o.label}"
        if o.entry is not True:
            continue
        F = o.filter
        nothing = isvar(o.conds, V.exclude, "Nothing")
        everything = isvar(o.conds, V.include, "Everything")
        ex, odd = (False, []) if nothing else F.excluded(o.conds, parents=o.direct is not False)
        if nothing is None and ex is False:
            nothing = False
        inc, odd2 = (True, []) if everything else F.included(o.conds)
        d = o.directory
        odd += odd2
        strange = [t for t in o.conds if not o.known(t)]
        wrong = F.others(o.conds)
        odd += wrong
        why = ("; " + "; ".join(sorted(set(odd)))) if odd else ""

        def soft(msg):
            R.check(None if strange and not wrong else False, rule, case, msg + why)

        if o.pushes is None or o.state is None:
            R.undecided(rule, case, f"what it collects or answers is not known: {o.note}")
        elif o.pushes > 1:
            R.violated(rule, case, "the file is reported more than once")
        elif ex is True:
            R.check(not o.pushes and (o.state == "Skip" or d is False), rule, case, "an excluded path is skipped" if not o.pushes and o.state == "Skip" else "an excluded path is " + ("reported" if o.pushes else "entered"))
        elif o.pushes and d is not False:
            soft("reports a path which may be a directory")
        elif o.pushes:
            if ex is None:
                soft("accepts a file without knowing that no exclude pattern matches")
            elif inc is not True:
                R.violated(rule, case, "accepts a file although no include pattern matches") if inc is False else soft("accepts a file without knowing that an include pattern matches")
            else:
                R.proved(rule, case, "a file which is not excluded and is included is reported")
        elif ex is None and (d is not False or inc is not False):
            soft("turns a path down without knowing that an exclude pattern matches" if o.state == "Skip" else "neither excluded nor entered or reported")
        elif d is True:
            R.check(o.state == "Continue", rule, case, "a directory which is not excluded is entered" if o.state == "Continue" else "a directory which is not excluded is skipped")
        elif d is None:
            soft("not reported, although it may be a file")
        elif inc is False:
            R.proved(rule, case, "a file which no include pattern matches is not reported")
        elif inc is True:
            R.violated(rule, case, "a file which is not excluded and is included is not reported")
        else:
            soft("a file is dropped without asking the include patterns")


def command(R):
    C = cli.Command(R)
    names = ["paths", "resolver", "mode", "exclude", "include"]
    for s, k, v in C.outs:
        case = f"{C.where}: {C.label(s.conds)}"
        force = truth(s.conds, C.force)
        if isvar(s.conds, C.stdin, "Some") is True:
            stdin(R, C, s, k, v, case, force)
            continue
        for e in s.eff:
            if e.tag != "eff" or e.a[0] != cli.DISCOVER:
                continue
            a = dict(zip(names, e.a[1]))
            R.check(cli.strip(a["paths"]) is C.paths or None, "C05.force", case + ": paths", "the paths of the command are searched")
            for what, off in (("exclude", "Nothing"), ("include", "Everything")):
                t = a[what]
                if t.tag != "adt":
                    R.undecided("C05.force", f"{case}: {what}", f"not known which filter is used: {show(t)[:100]}")
                    continue
                is_off = t.a[1] == off
                if force is None:
                    R.violated("C05.force", f"{case}: {what}", f"{what} is {t.a[1]} whether or not --force is given")
                else:
                    R.check(is_off == force, "C05.force", f"{case}: {what}", f"{what} is {t.a[1]} " + ("with" if force else "without") + " --force")


def stdin(R, C, s, k, v, case, force):
    rule = "C05.stdin"
    ran = [e for e in s.eff if e.tag == "eff" and e.a[0] == cli.SOURCE]
    path = payload(C.stdin, "Some", 0)
    norm = {u for e in s.eff for u in subterms(e) if u.tag == "ecall" and u.a[0] == "fs::normalize_path" and cli.strip(args(u)[0]) is path}

    def fmt(t):
        return t.tag == "fld" and t.a[1] == "format" and cli.fname(t.a[0]) == "PathResolver::resolve_or_fallback" and (cli.strip(args(t.a[0])[1]) in norm or cli.strip(args(t.a[0])[1]) is path)

    bad = failures(C, s.conds)
    if not ran and (bad or (k == "Err" or status(v) == "Error") and any(fname_len(t, C) for t in s.conds)):
        return
    best = [(None, []), (None, [])]
    for p in [*norm, path]:
        F = filters.Filter(p, fmt)
        ex, inc = F.excluded(s.conds, True), F.included(s.conds)
        best = [y if y[0] is not None or not x[1] and x[0] is None else x for x, y in zip((ex, inc), best)]
    (ex, odd), (inc, odd2) = best
    why = "; ".join(sorted(set(odd + odd2)))
    strange = [t for t, c in s.conds.items() if cli.fname(t) and (c[0] == "v" and c[2] and "Some" in c[2] or c[0] == "b") and not F.mine(t) and "::" in t.a[0]]
    if force is True:
        R.check(bool(ran), rule, case, "formatted with --force" if ran else "not formatted with --force")
    elif ran:
        if ex is True or inc is False:
            R.violated(rule, case, "formats " + ("an excluded file" if ex else "a file which no include pattern matches"))
        elif ex is False and inc is True:
            R.check(True if force is False else None, rule, case, "formatted as it is not excluded and is included")
        else:
            R.check(None if strange else False, rule, case, "formats without knowing that " + ("no exclude pattern matches the path or its parents" if ex is None else "an include pattern matches") + (": " + why if why else ""))
    elif ex is True or inc is False:
        R.check(True if force is False else False, rule, case, "not formatted as it is " + ("excluded" if ex else "not included") + ("" if force is False else ", whether or not --force is given"))
    else:
        R.check(None if strange and not (ex is False and inc is True) else False, rule, case, "not formatted although " + ("it is not excluded and is included" if ex is False and inc is True else "no pattern decides so") + (": " + why if why else ""))


def fname_len(t, C):
    """paths given together with --stdin-file-path: the command refuses"""
    return cli.fname(t) == "len" and args(t)[0] is C.paths


def decision(R):
    rule = "C05.editor"
    fn = "lsp::file_patterns::is_document_excluded_from_formatting"
    R.fn(fn)
    where = R.where(fn)
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and "::discovery::" in x for x in (p, res)) or walk.PRIMITIVE(p, res)
    F = filters.Filter(mk("arg", "path"), mk("arg", "settings"))
    lang = mk("arg", "language_id")
    for s, v, b in bools(I, R.summary(fn, "path settings language_id", I)):
        case = f"{where}: {label(s.conds)}"
        ex, odd = F.excluded(s.conds, True)
        inc, odd2 = F.included(s.conds)
        r = None
        for t, c in s.conds.items():
            if any(u is lang for u in subterms(t)):
                r = says_r(t, c, lang)
        why = "; ".join(sorted(set(odd + odd2)))
        want = True if ex is True else None if ex is None else not (inc is True or r is True) if inc is True or r is True or inc is False and r is False else None
        if v is None:
            R.undecided(rule, case, "answer not known")
        elif want is None:
            strange = [t for t in s.conds if not F.mine(t) and not any(u is lang for u in subterms(t))]
            R.check(None if strange else False, rule, case, f"answers {'excluded' if v else 'formattable'} without asking " + ("the exclude patterns" if ex is None else "the include patterns and the language") + (": " + why if why else ""))
        else:
            R.check(v == want, rule, case, f"{'excluded' if v else 'formattable'}: exclude pattern matches: {ex}, include pattern: {inc}, language R: {r}")


def says_r(t, c, lang):
    """does a condition on the language say that it is R"""
    if c[0] == "s" and t is lang:
        return c[2] == frozenset(("r",)) if c[1] else (False if "r" in c[2] else None)
    if c[0] == "b" and len(c[1]) == 1 and cli.fname(t) in ("eq", "ne", "PartialEq::eq", "str::eq") and any(x is Str("r") for x in args(t)):
        return (True in c[1]) == (cli.fname(t) != "ne")
    return None


def label(conds):
    out = []
    for t, c in conds.items():
        n = cli.fname(t).split("::")[-1] if cli.fname(t) else show(t)
        out.append(n[:60] + " " + ("/".join(sorted(c[1])) if c[0] == "v" else show_cond(t, c)[-20:]))
    return ", ".join(out)[:300]


def bools(I, outs):
    for s, v in outs:
        if v.tag == "int":
            yield s, bool(v.a[0]), v
        else:
            b = truth(s.conds, v)
            yield s, b, v


def requests(R, rule="C05.request"):
    for kind, fn in lsp.HANDLERS.items():
        H = lsp.Request(R, fn)
        path = payload(mk("call", "Url::to_file_path", (H.uri,)), "Ok", 0)
        for s, k, v in H.outs:
            case = f"{H.where}: {kind}: {label(s.conds)}"
            ed = H.edits(k, v)
            did = H.formatting(s)
            ft = [t for t in s.conds if cli.fname(t) == "Url::to_file_path" and cli.strip(args(t)[0]) is H.uri]
            if not ft:
                if did or ed:
                    R.check(None if any(about(H, t, s) for t in s.conds) else False, rule, case, "formats a document without a decision on its path or settings" if did else "does not look at the path of the document")
                continue
            if isvar(s.conds, ft[0], "Err") is True:
                if did:
                    R.proved(rule, case, "a document without a path cannot be excluded")
                continue
            F = filters.Filter(payload(ft[0], "Ok", 0), lambda t: t.tag == "fld" and t.a[1] == "format" and lsp.settings_of(t.a[0]) is H.uri)
            ex, odd = F.excluded(s.conds, True)
            if did:
                strange = [t for t in s.conds if not F.mine(t) and t is not ft[0] and any(u is F.path or cli.fname(u) == "WorkspaceSettings::settings" for u in subterms(t)) and not any(u in lsp_results(s) for u in subterms(t))]
                R.check(True if ex is False else False if ex or odd or not strange else None, rule, case, "formats a document which is not excluded" if ex is False else "formats a document without knowing that it is not excluded" + ("" if not odd else ": " + "; ".join(odd)))
            elif ex is True:
                R.check(ed is False, rule, case, "no edits for an excluded document")


def about(H, t, s):
    """may a condition decide on the exclusion of the document: it depends on the name or the settings of the document, not only on its stored state"""
    stored = {u: mk("arg", "stored") for u in subterms(t) if cli.fname(u) == "HashMap::get" and args(u)[0] is mk("fld", mk("arg", "state"), "documents")}
    stored.update({u: mk("arg", "formatted") for u in lsp_results(s)})
    t = subst(t, stored)
    return any(u is H.uri or u is mk("arg", "lsp_state") for u in subterms(t))


def lsp_results(s):
    """results of the formatting calls of an outcome"""
    return {mk("ecall", *e.a) for e in s.eff if e.tag == "eff" and e.a[0] in lsp.FORMATTING}


def check(R):
    R.program(*sorted(set(cli.ALL) | set(lsp.CRATES)))
    for n, par in filters.EITHER.items():
        R.guard(lambda n=n, par=par: helper(R, n, par), "C05.patterns", "workspace::" + n)
    R.guard(lambda: include(R), "C05.patterns", "workspace::" + filters.INCLUDE)
    R.guard(lambda: visitor(R), "C05.walk", "workspace::discovery")
    R.guard(lambda: command(R), "C05.stdin", cli.FORMAT)
    R.guard(lambda: decision(R), "C05.editor", "lsp::file_patterns")
    R.guard(lambda: requests(R), "C05.request", "lsp::handlers_format")
