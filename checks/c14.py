"""C14: line ending options select the documented line ending."""
from terms import *
from cases import *
import flow, lang, mir, words as W
from report import Missing

LEVEL = "proof"
TECHNIQUE = "case tables over MIR summaries, regular-language abstract interpretation of the text test behind `auto`, and value-numbering dataflow to the printer options"
EXPLANATION = ("For each option value the line ending chosen is computed: fixed for `lf`, `crlf` and `native`; for `auto` the set of source texts that give each answer is computed as an automaton and compared with "
               "`the first line feed is preceded by a carriage return`. The choice is followed through the formatter's options to the printer's, where each value must map to itself.")

FIN = "workspace::settings::line_ending::LineEnding::finalize"
src = mk("arg", "source")


def variant(v):
    return v.a[1] if v.tag == "adt" and not v.a[2] else None


def choice(R):
    fn = FIN if R.prog.fn(FIN) else None
    if fn is None:
        hits = [p for p in R.prog.fns if p.startswith("workspace::settings") and p.endswith("LineEnding::finalize")]
        if not hits:
            raise Missing(FIN)
        fn = hits[0]
    where = R.where(fn)
    I = R.interp()
    outs = R.summary(fn, "self source", I)
    me = mk("arg", "self")
    allv = frozenset(v["name"] for v in R.prog.adt(W.adt_name(R, "LineEnding", "workspace"))["variants"])
    want = {"Lf": "Lf", "Native": "Lf", "Crlf": "Crlf"}
    for opt in sorted(allv - {"Auto"}):
        if opt not in want:
            R.undecided("C14.fixed", f"{where}: {opt}", "an option the rule does not know")
            continue
        c = {me: ("v", frozenset((opt,)), allv)}
        def expect(v, s, j, opt=opt):
            if any(src in subterms(t) for t in s.conds):
                return f"the choice for `{opt.lower()}` looks at the file"
            return variant(v) == want[opt]
        table(R, "C14.fixed", where, I, outs, [(opt, c, expect)])
    auto = []
    for s, v in outs:
        j = meet(s.conds, {me: ("v", frozenset(("Auto",)), allv)})
        if j is None:
            continue
        s = s.fork()
        s.conds = {t: c for t, c in j.items() if t is not me}
        auto.append((s, v))

    def spec(A):
        nl, cr = A.lit("\n"), A.lit("\r")
        before = ~A.cat(A.all, nl, A.all)
        crlf = A.cat(before, cr, nl, A.all)
        return {"Crlf": crlf, "Lf": ~crlf}
    W.languages(R, "C14.auto", where, I, auto, src, lambda v, s: variant(v) or "?", spec, consts={"\r", "\n"}, what="source texts", unbounded="the first line ending can be at any distance from the start")


def conversion(R):
    """settings' line ending to the printer's, and back"""
    sl = W.adt_name(R, "LineEnding", "settings")
    for i in R.prog.impls:
        if not i["trait"] or W.last(i["trait"]) not in ("From", "Into"):
            continue
        sig = (i["traitref"] or "") + " " + (i["self"] or "")
        if sl not in sig or "biome_formatter" not in sig or "LineEnding" not in flow.norm_ty(i["self"]):
            continue
        if "biome_formatter" in i["self"]:
            for it in i["items"]:
                where = R.where(it[1])
                I = R.interp()
                outs = R.summary(it[1], "value", I)
                val = mk("arg", "value")
                allv = frozenset(("Lf", "Crlf"))
                for n in sorted(allv):
                    table(R, "C14.printer", where, I, outs, [(n, {val: ("v", frozenset((n,)), allv)}, lambda v, s, j, n=n: variant(v) == n)])


def chain(t):
    """[(method, value)] of a builder chain, outermost last; and its start"""
    ms = []
    while op(t) or t.tag == "ecall":
        ar = args(t) if op(t) else t.a[1]
        name = op(t) or t.a[0]
        if len(ar) != 2 or "::with_" not in name:
            break
        ms.append((name.split("::")[-1], ar[1]))
        t = ar[0]
    return t, ms[::-1]


WITH = {"RFormatOptions::" + n for n in ("new", "with_indent_style", "with_indent_width", "with_line_width", "with_persistent_line_breaks", "with_assignment_style", "with_skip", "with_table")}


def options(R):
    """the choice made for the source being formatted is what reaches the formatter"""
    fn = "workspace::settings::FormatSettings::to_format_options"
    where = R.where(fn)
    fin = [p for p in R.prog.fns if p.startswith("workspace::settings") and p.endswith("LineEnding::finalize")]
    wle = [p for p in R.prog.fns if p.endswith("RFormatOptions::with_line_ending")]
    I = R.interp(gate=True, opaque=tuple(fin) + tuple(wle))
    outs = R.summary(fn, "self source", I)
    own = project(mk("arg", "self"), "line_ending")
    n = 0
    for s, v in outs:
        hits = {u for u in subterms(v) if u.tag in ("ecall", "call") and u.a[0].endswith("with_line_ending")}
        sets = [u for u in hits]
        if not sets:
            if v.tag == "adt":
                x = project(v, "line_ending")
                sets_val = [x]
            else:
                R.check(None if unknown_parts(v, ok=WITH) else False, "C14.options", where, f"the line ending is not set: {show(v)[:200]}")
                continue
        else:
            sets_val = [u.a[1][1] for u in sets]
        for x in sets_val:
            n += 1
            while op(x) and op(x).startswith(("From<", "Into<")):
                x = args(x)[-1]
            fz = x.tag in ("ecall", "call") and x.a[0].endswith("LineEnding::finalize")
            if fz:
                R.check(x.a[1][0] is own and x.a[1][1] is src or (None if unknown_parts(list(x.a[1])) else False), "C14.options", where, f"the line ending used is {show(x)[:200]}")
            else:
                R.check(None if unknown_parts(x) else False, "C14.options", where, f"the line ending used is {show(x)[:200]}")
    if not n and not outs:
        R.undecided("C14.options", where, "no outcome sets the line ending")


def formatter(R):
    """with_line_ending stores it, line_ending() and the printer read the same field"""
    ty = "air_r_formatter::context::RFormatOptions"
    R.program("air_r_formatter", "settings")
    fn = ty + "::with_line_ending"
    where = R.where(fn)
    I = R.interp()
    x = mk("arg", "x")
    stored = None
    for s, v in R.summary(fn, "self x", I):
        if v.tag != "adt":
            fs = [u for u in subterms(v) if u is x]
            stored = [k for k in R.prog.adt_fields(ty) if project(v, k) is x] if hasattr(R.prog, "adt_fields") else ["line_ending"] if project(v, "line_ending") is x else []
        else:
            stored = [n for n, f in zip(v.a[3], v.a[2]) if f is x]
        R.check(True if stored == ["line_ending"] else None if unknown_parts(v) else False, "C14.formatter", where, f"stored in {stored}")
    for tr, m in (("FormatOptions", "line_ending"),):
        p = W.impl_fn(R, ty, tr, m)
        if p is None:
            R.undecided("C14.formatter", f"{ty} as {tr}", "no " + m)
            continue
        for s, v in R.summary(p, "self", R.interp()):
            u = v
            while op(u) and op(u).startswith(("From<", "Into<")):
                u = args(u)[-1]
            ok = u is project(mk("arg", "self"), "line_ending")
            if not ok and v.tag == "adt":
                c = s.conds.get(project(mk("arg", "self"), "line_ending"))
                ok = bool(c and c[0] == "v" and c[1] == frozenset((v.a[1],)))
            R.check(True if ok else None if unknown_parts(v) else False, "C14.formatter", R.where(p), f"the printer is given {show(v)[:200]}")


def check(R):
    R.program("workspace", "settings", "line_ending")
    R.guard(lambda: choice(R), "C14.fixed", FIN)
    R.guard(lambda: options(R), "C14.options", "to_format_options")
    R.program("settings", "workspace")
    R.guard(lambda: conversion(R), "C14.printer", "settings::LineEnding")
    R.guard(lambda: formatter(R), "C14.formatter", "RFormatOptions")
