"""C18: only the documented comments are directives."""
from terms import *
from cases import *
import flow, lang

LEVEL = "proof"
TECHNIQUE = "regular-language abstract interpretation of the recogniser's MIR summary (preimages of strip/trim/split), automaton equivalence with the documented language"
EXPLANATION = ("Each outcome of the directive recognisers is summarised from MIR as a condition on the comment text; the set of texts that satisfy it is computed as a finite automaton "
               "(exact preimages through strip_prefix, trim, split_once, comparisons) and compared with the automaton of the documented spelling. Equality means the property holds for every comment text; "
               "a difference is reported with a shortest differing text.")
D = "comments::directive::"
WANT = {"Skip": "skip", "SkipFile": "skip file", "Table": "table"}


def directive_name(v):
    """the directive a result value stands for: None, its name, or '?'"""
    if v is None:
        return None
    inner = v
    names = []
    while inner.tag == "adt":
        names.append(inner.a[1])
        if len(inner.a[2]) != 1:
            break
        inner = inner.a[2][0]
    return names[-1] if inner.tag == "adt" and not inner.a[2] else "?"


def language(R, fn, spec_of, consts):
    where = R.where(fn)
    I = R.interp()
    outs = split_opt(I, R.summary(fn, "text", I))
    root = mk("arg", "text")
    cs = set(consts)
    for s, v in outs:
        cs |= lang.cond_constants(s.conds)
    A = lang.Alphabet(cs)
    got = {}
    try:
        for s, v in outs:
            n = directive_name(I.deref(v, s) if v is not None else None)
            if s.eff:
                raise lang.Unknown("effects " + show(s.eff)[:200])
            if n == "?":
                raise lang.Unknown("result " + show(v)[:200])
            got[n] = got.get(n, A.none) | A.conds(s.conds, root)
    except lang.Unknown as e:
        R.undecided("C18.language", where, str(e))
        return
    spec = spec_of(A)
    for n in sorted(set(got) | set(spec), key=str):
        if n is None:
            continue
        g, w = got.get(n, A.none), spec.get(n, A.none)
        what = f"{where}: comments recognised as {n}"
        if g == w:
            R.proved("C18.language", what, f"automaton with {len(w.minimal().trans)} states over {len(A.sigma)} character classes")
            continue
        d1, d2 = A.definite(g - w).witness(), A.definite(w - g).witness()
        if d1 is None and d2 is None:
            R.undecided("C18.language", what, "differs only where text lengths are not known")
            continue
        msg = []
        if d1 is not None:
            msg.append(f"the comment {d1!r} is taken as {n} but is not documented as one")
        if d2 is not None:
            msg.append(f"the comment {d2!r} should be {n} but is not recognised")
        R.violated("C18.language", what, "; ".join(msg))
    panics = [p for p in I.panics]
    if panics:
        for s, sp in panics:
            try:
                w = A.conds(s.conds, root).witness()
            except lang.Unknown as e:
                R.undecided("C18.no-panic", where, str(e))
                continue
            R.check(w is None, "C18.no-panic", where, f"panics on {w!r}")


def check(R):
    R.program("comments")

    def comment(A):
        h = A.plus(A.lit("#"))
        w = A.star(A.cls(A.ws))
        return {n: A.cat(h, w, A.lit("fmt:"), w, A.lit(k), w) for n, k in WANT.items()}

    def generated(A):
        return {"SkipFile": A.cat(A.plus(A.lit("#")), A.star(A.cls(A.ws)), A.lit("Generated by"), A.all)}
    R.guard(lambda: language(R, D + "parse_comment_directive", comment, ["#fmt:", *WANT.values()]), "C18.language", "parse_comment_directive")
    R.guard(lambda: language(R, D + "parse_special_skip_file", generated, ["#Generated by"]), "C18.language", "parse_special_skip_file")
