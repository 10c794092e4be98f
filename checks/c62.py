"""C62: line ending normalisation removes exactly the carriage returns before line feeds."""
from terms import *
from cases import *
import flow, lang, words as W
from report import Missing

LEVEL = "proof"
TECHNIQUE = "symbolic-free loop analysis of the MIR summary: affine forms of the gap-compaction loop's slices, gap and tail compared with the loop's invariant; regular-language domain for fast paths"
EXPLANATION = ("`line_ending::normalize` is summarised from MIR as a loop over (buffer, gap, tail, seen). Every transition's copied range, destination, advance and gap are extracted as affine forms in "
               "(position found, gap, tail length) and compared with the invariant of in-place deletion: the first `gap` bytes of the tail are free, the rest is unprocessed input. "
               "Library replacements are compared by their arguments. All inputs are covered; a loop of another shape is reported undecided.")
NORM = "line_ending::normalize"
INFER = "line_ending::infer"
REF = "line_ending::normalize_ref"
x = mk("arg", "x")


def lin(t, atoms):
    """affine form {atom: coefficient, 1: constant} or None; atoms maps terms to names"""
    if t in atoms:
        return {atoms[t]: 1}
    if t.tag == "int":
        return {1: t.a[0]} if t.a[0] else {}
    if t.tag == "bin" and t.a[0] in ("Add", "Sub"):
        a, b = lin(t.a[1], atoms), lin(t.a[2], atoms)
        if a is None or b is None:
            return None
        s = 1 if t.a[0] == "Add" else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if not r[k]:
                del r[k]
        return r
    if op(t) == "len":
        b = args(t)[0]
        if op(b) == "index" and args(b)[1].tag == "adt":
            rg = args(b)[1]
            n = rg.a[0].split("::")[-1]
            l = lin(call("len", args(b)[0]), atoms)
            if n == "RangeFrom" and l is not None:
                f = lin(rg.a[2][0], atoms)
                if f is None:
                    return None
                r = dict(l)
                for k, v in f.items():
                    r[k] = r.get(k, 0) - v
                    if not r[k]:
                        del r[k]
                return r
        if b.tag == "after" and b.a[0] in ("slice::copy_within", "Finder::find"):
            return lin(call("len", b.a[1][0] if b.a[0] == "slice::copy_within" else b.a[1][b.a[2] - 1]), atoms)
    return None


def form(t, atoms):
    l = lin(t, atoms)
    return None if l is None else tuple(sorted(l.items(), key=str))


def fs(f):
    return "?" if f is None else " + ".join((str(k) if v == 1 else f"{v}*{k}") if k != 1 else str(v) for k, v in f) or "0"


def F(**k):
    return tuple(sorted(((1 if a == "one" else a, v) for a, v in k.items() if v), key=str))


def is_needle(t):
    """b"\\r\\n" or a Finder made of it"""
    if op(t) in ("Finder::new", "memmem::Finder::new") and args(t):
        t = args(t)[0]
    return t.tag in ("bytes", "str") and (t.a[0] in (b"\r\n", "\r\n"))


def needle_text(t):
    if op(t) in ("Finder::new", "memmem::Finder::new") and args(t):
        t = args(t)[0]
    return t.a[0] if t.tag in ("bytes", "str") else None


def strip_copies(t):
    while True:
        if op(t) in ("String::into_bytes", "str::as_bytes", "String::as_bytes", "str::to_string", "str::to_owned") or (op(t) or "").startswith(("From<", "Into<")):
            t = args(t)[-1] if (op(t) or "").startswith(("From<", "Into<")) else args(t)[0]
        elif t.tag in ("ecall", "call") and t.a[0] in ("String::from_utf8_unchecked", "str::from_utf8_unchecked", "String::from_utf8"):
            t = t.a[1][0]
        elif t.tag == "after" and t.a[0] == "Finder::find":
            t = t.a[1][t.a[2] - 1]
        else:
            return t


def the_loop(ts):
    ls = {u.a[0] for t in ts for u in subterms(t) if u.tag == "loopval"}
    return next(iter(ls)) if len(ls) == 1 else None


class Shape(Exception):
    pass


def loop_values(L, k):
    return mk("loopval", L, k)


def algorithm(R, rule):
    where = R.where(NORM)
    I = R.interp()
    outs = R.summary(NORM, "x", I)
    plain, loops = [], []
    for s, v in outs:
        # an outcome whose value and conditions do not involve a loop
        L = the_loop(list(s.conds) + [v])
        (loops if L is not None else plain).append((s, v, L))
    ok = True
    for s, v, _ in plain:
        base = strip_copies(v)
        if base is x:
            # unchanged: only texts without \r\n
            r = W.languages(R, rule, where, I, [(s, v)], x, lambda v, s: "unchanged", lambda A: {"unchanged": A.conds(s.conds, x) - A.cat(A.all, A.lit("\r\n"), A.all)}, consts={"\r", "\n"}, what="texts returned")
            continue
        replacement(R, rule, where, s, v)
    if loops:
        try:
            gap_loop(R, rule, where, loops)
        except Shape as e:
            R.undecided(rule, where, "the loop is not of a known shape: " + str(e))
    if not outs:
        R.undecided(rule, where, "no outcome")


def replacement(R, rule, where, s, v):
    """str::replace(x, "\\r\\n", "\\n"), or split and join"""
    u = v
    while (op(u) or "").startswith(("From<", "Into<")) or op(u) in ("Cow::into_owned", "str::to_string"):
        u = args(u)[-1]
    if op(u) in ("str::replace", "str::replacen") and strip_copies(args(u)[0]) is x and args(u)[1].tag in ("str", "char", "int") and args(u)[2].tag == "str":
        a, b = args(u)[1].a[0], args(u)[2].a[0]
        a = chr(a) if isinstance(a, int) else a
        good = op(u) == "str::replace" and a == "\r\n" and b == "\n"
        R.check(good, rule, where, f"`{op(u)}` of {a!r} by {b!r}; each \\r\\n must become \\n and nothing else may change")
        return
    names = {op(w) for w in subterms(v) if op(w)}
    if op(v) in ("slice::join", "join") and op(args(v)[0]) in ("str::split",):
        sp = args(v)[0]
        if strip_copies(args(sp)[0]) is x and args(sp)[1].tag == "str" and args(v)[1].tag == "str":
            R.check(args(sp)[1].a[0] == "\r\n" and args(v)[1].a[0] == "\n", rule, where, f"split at {args(sp)[1].a[0]!r} and joined with {args(v)[1].a[0]!r}")
            return
    if "str::lines" in names and not unknown_parts(v, ok=()):
        R.violated(rule, where, "`lines` drops the difference between a text that ends in a line ending and one that does not")
        return
    R.undecided(rule, where, f"the result is {show(v)[:300]}")


def gap_loop(R, rule, where, loops):
    Ls = {L for _, _, L in loops}
    if len(Ls) != 1:
        raise Shape("several loops")
    L = next(iter(Ls))
    inits, steps, depth = L.a[0], L.a[1], L.a[2]
    phis = [mk("phi", depth, k, init) for k, init in enumerate(inits)]

    def phi_of(k, t):
        return t.tag == "phi" and t.a[0] == depth and t.a[1] == k

    # roles
    buf = [k for k, i in enumerate(inits) if strip_copies(i) is x]
    tail = [k for k, i in enumerate(inits) if i.tag == "mref"]
    if len(tail) != 1 or len(buf) != 1:
        raise Shape("no buffer and tail")
    buf, tail = buf[0], tail[0]
    zeros = [k for k, i in enumerate(inits) if i is Int(0) or (i.tag == "bool" and not i.a[0])]
    nexts = {}
    for case in steps:
        conds, (nx, eff) = case[0], case[1][:2]
        for k, t in nx:
            nexts.setdefault(k, []).append(t)
    gaps, flags = [], []
    for k in zeros:
        ts = nexts.get(k, [])
        if any(t.tag == "bin" for t in ts):
            gaps.append(k)
        elif all(t.tag in ("int", "bool") or phi_of(k, t) for t in ts):
            flags.append(k)
    if len(gaps) != 1 or len(flags) > 1:
        if not gaps:
            R.violated(rule, where, "the number of bytes removed never changes from 0 in the loop, so carriage returns are not removed") if all(phi_of(k, t) or t.tag in ("int", "bool") for k in zeros for t in nexts.get(k, [])) else None
        raise Shape("no gap length")
    g, flag = gaps[0], flags[0] if flags else None

    def judge(conds, eff, val, end, what):
        """one transition; val(k): the term of loop variable k; end: None for a step, else the result value"""
        finds = [u for t in list(conds) + [e for e in eff] for u in subterms(t) if u.tag in ("ecall", "call", "eff") and u.a[0].endswith(("Finder::find", "memmem::find")) and any(w is val(tail) for w in subterms(u))]
        finds = list(dict.fromkeys(u for u in finds if u.tag != "eff"))
        copies = [e for e in eff if e.tag == "eff" and e.a[0] == "slice::copy_within"]
        if len(finds) != 1:
            raise Shape("not one search per round")
        fd = finds[0]
        hay = [a for a in fd.a[1] if any(w is val(tail) for w in subterms(a))]
        nd = [a for a in fd.a[1] if a not in hay]
        n = [needle_text(a) for a in nd]
        n = [m for m in n if m is not None]
        if len(n) != 1 or len(hay) != 1:
            raise Shape("search arguments")
        if n[0] not in (b"\r\n", "\r\n"):
            R.violated(rule, f"{where}: search", f"the loop searches for {n[0]!r} instead of \\r\\n")
        hay = hay[0]
        if hay is val(tail):
            start = Int(0)
        elif op(hay) == "index" and args(hay)[0] is val(tail) and args(hay)[1].tag == "adt" and args(hay)[1].a[0].endswith("RangeFrom"):
            start = args(hay)[1].a[2][0]
        else:
            raise Shape("searched slice " + show(hay)[:100])
        pos = payload(fd, "Some", 0)
        atoms = {val(g): "gap", pos: "found", call("len", val(tail)): "len"}
        found = isvar(conds, fd, "Some")
        if found is None:
            raise Shape("search result not examined")
        problems = []

        def eq(name, t, want):
            f = form(t, atoms)
            if f is None:
                raise Shape(f"{name} is {show(t)[:100]}")
            if f != want:
                problems.append(f"{name} is {fs(f)} instead of {fs(want)}")
        eq("the start of the search", start, F(gap=1))
        # \r found at tail[gap + found]; the unprocessed bytes before it are tail[gap .. gap + found]
        hi = F(gap=1, found=1) if found else F(len=1)
        adv = F(found=1) if found else F(len=1, gap=-1)
        done = end is not None
        if done and not found:
            seen = None
            for t, c in conds.items():
                if flag is not None and t is val(flag):
                    seen = truth(conds, t) if c[0] == "b" else None
                    if c[0] == "i":
                        seen = c[1] == ((1, 1),) or (False if c[1] == ((0, 0),) else None)
                if t is val(g) and c[0] == "i":
                    seen = False if c[1] == ((0, 0),) else True if not any(lo <= 0 <= hi for lo, hi in c[1]) else None
                if t.tag == "eq" and val(g) in t.a and Int(0) in t.a and c[0] == "b":
                    seen = not truth(conds, t)
            if not copies and strip_copies(end) is not None:
                base = end
                while base.tag in ("ecall", "call") and base.a[0].split("::")[-1] in ("from_utf8_unchecked", "from_utf8", "unwrap", "expect"):
                    base = base.a[1][0]
                if seen is False:
                    cut = any(u.tag == "truncated" or u.tag == "after" and u.a[0] in ("Vec::set_len", "Vec::truncate") for u in subterms(base))
                    R.check(True if not cut else None, rule, f"{where}: {what}", "no \\r\\n: the text is returned as it is")
                    return
                if seen is True or flag is None and not any(val(g) in subterms(t) and t is not fd for t in conds):
                    R.violated(rule, f"{where}: {what}", "after carriage returns were removed the function returns without moving the rest of the text")
                    return
                raise Shape("end without copying")
        if len(copies) != 1:
            if not copies:
                problems.append("the bytes before the position found are not moved")
            else:
                raise Shape("several moves")
        else:
            dst, rg, to = copies[0].a[1][:3]
            if dst is not val(tail) and not (dst.tag == "after"):
                raise Shape("moves in " + show(dst)[:80])
            if rg.tag != "adt" or not rg.a[0].endswith("ops::Range") and not rg.a[0].endswith("::Range") and rg.a[0] != "Range":
                raise Shape("moved range " + show(rg)[:80])
            eq("the start of the moved bytes", rg.a[2][0], F(gap=1))
            eq("the end of the moved bytes", rg.a[2][1], hi)
            eq("their destination", to, ())
        if not done:
            nx = val("next")
            t = nx.get(tail)
            if t is None or t is val(tail):
                problems.append("the tail does not advance")
            elif op(t) == "index" and args(t)[0] is val(tail) and args(t)[1].tag == "adt" and args(t)[1].a[0].endswith("RangeFrom"):
                eq("the advance of the tail", args(t)[1].a[2][0], adv)
            else:
                raise Shape("tail " + show(t)[:80])
            if found:
                eq("the gap", nx.get(g, val(g)), F(gap=1, one=1))
                if flag is not None:
                    fv = nx.get(flag)
                    if fv is None or phi_of(flag, fv) or fv is Int(0):
                        problems.append("the removal is not remembered")
            else:
                # continuing without finding anything: the exit test can only fail for an impossible length
                pass
        else:
            cuts = [u for u in subterms(end) if u.tag == "after" and u.a[0] in ("Vec::set_len", "Vec::truncate")] + [u for u in subterms(end) if u.tag == "truncated"]
            if not cuts:
                problems.append("the buffer is not shortened by the bytes removed")
            else:
                c = cuts[0]
                new = c.a[1] if c.tag == "truncated" else c.a[1][1]
                # its length: that of the buffer, whatever was moved inside it
                at2 = dict(atoms)
                for u in subterms(new):
                    if op(u) == "len":
                        b = args(u)[0]
                        while b.tag == "after" and b.a[0] in ("slice::copy_within", "Finder::find"):
                            b = b.a[1][0] if b.a[0] == "slice::copy_within" else b.a[1][b.a[2] - 1]
                        if b is val(buf) or b is val(tail) or strip_copies(b) is x:
                            at2[u] = "buffer"
                f = form(new, at2)
                if f is None:
                    raise Shape("new length " + show(new)[:100])
                if f != F(buffer=1, gap=-1):
                    problems.append(f"the new length is {fs(f)} instead of buffer + -1*gap")
            # leaving the loop after a match would lose the rest, unless nothing is left
            if found:
                t = None
                for t, c in conds.items():
                    if t.tag == "eq" and truth(conds, t):
                        a, b = form(t.a[0], atoms), form(t.a[1], atoms)
                        if a is not None and b is not None:
                            d = dict(a)
                            for k, v in b:
                                d[k] = d.get(k, 0) - v
                            d = {k: v for k, v in d.items() if v}
                            if d in ({"len": 1, "found": -1, "gap": -1}, {"len": -1, "found": 1, "gap": 1}):
                                break   # nothing remains after the match: impossible, since the match itself remains
                else:
                    if any(form(a, atoms) is None for t in conds if t.tag == "eq" for a in t.a):
                        raise Shape("exit after a match")
                    problems.append("the loop ends after a match although text remains")
        R.check(not problems, rule, f"{where}: {what}", "; ".join(problems) or "affine forms agree with in-place deletion of each \\r before \\n")

    n = 0
    for case in steps:
        conds, nx, eff = dict(case[0]), dict(case[1][0]), case[1][1]
        pm = {}
        for t in list(conds) + list(nx.values()) + list(eff):
            for u in subterms(t):
                if u.tag == "phi" and u.a[0] == depth:
                    pm[u.a[1]] = u
        val = lambda k, nx=nx, pm=pm: nx if k == "next" else pm.get(k, mk("phi", depth, k, inits[k]))
        # the move also shows as an effect
        fd = any(isvar(conds, t, "Some") for t in conds)
        judge(conds, list(eff), val, None, "a round with a match" if fd else "a round without a match")
        n += 1
    for s, v, _ in loops:
        fd = any(isvar(s.conds, t, "Some") for t in s.conds if t.tag in ("ecall", "call") and t.a[0].endswith("find"))
        val = lambda k: mk("loopval", L, k)
        effs = [e for e in s.eff if e.tag == "eff"]
        judge(s.conds, effs, val, v, "end after a match" if fd else "end without a match")
        n += 1
    if flag is None and not any(t.tag == "eq" and Int(0) in t.a for s, v, _ in loops for t in s.conds):
        pass


def detection(R, rule):
    """infer: Crlf exactly for the texts with a \\r\\n"""
    where = R.where(INFER)
    I = R.interp()
    outs = R.summary(INFER, "x", I)

    def spec(A):
        c = A.cat(A.all, A.lit("\r\n"), A.all)
        return {"Crlf": c, "Lf": ~c}
    W.languages(R, rule, where, I, outs, x, lambda v, s: v.a[1] if v.tag == "adt" else "?", spec, consts={"\r", "\n"}, unbounded="a \\r\\n can be at any distance from the start")


def borrowed(R, rule):
    """normalize_ref: the text itself only where it has no \\r\\n, otherwise normalize of it"""
    where = R.where(REF)
    I = R.interp(opaque=(NORM,))
    outs = R.summary(REF, "x", I)
    keep = []
    for s, v in outs:
        u = v
        while u.tag == "adt" and len(u.a[2]) == 1:
            u = u.a[2][0]
        if u.tag in ("ecall", "call") and u.a[0] == NORM:
            R.check(strip_copies(u.a[1][0]) is x or None, rule, f"{where}: owned", f"normalize is given {show(u.a[1][0])[:200]}")
        elif strip_copies(u) is x:
            keep.append((s, v))
        else:
            replacement(R, rule, where, s, u)
    if keep:
        def spec(A):
            got = A.none
            for s, v in keep:
                got = got | A.conds(s.conds, x)
            return {"kept": got - A.cat(A.all, A.lit("\r\n"), A.all)}
        W.languages(R, rule, where, I, keep, x, lambda v, s: "kept", spec, consts={"\r", "\n"}, what="texts left as they are: those", unbounded="a \\r\\n can be at any distance from the start")


def check(R, rule="C62"):
    R.program("line_ending", "settings")
    R.guard(lambda: detection(R, rule + ".detect"), rule + ".detect", INFER)
    R.guard(lambda: borrowed(R, rule + ".ref"), rule + ".ref", REF)
    R.guard(lambda: algorithm(R, rule + ".algorithm"), rule + ".algorithm", NORM)
