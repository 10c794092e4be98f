"""C38: only files with an R extension count as R files; path helpers."""
from terms import *
from cases import *
import flow, lang

LEVEL = "proof"
TECHNIQUE = "regular-language abstract interpretation over path text for the extension test; value-numbering dataflow for the path helpers"
EXPLANATION = ("The extension test is summarised from MIR and the set of paths it accepts computed as an automaton over the path's text (exact for paths whose last component is a normal name), "
               "compared with the automaton of `a name, a dot, R or r`. Path helpers are matched case by case: absolutised path or the input, prefix stripped only when it applies.")


def recogniser(R, fn, argname, ispath, spec):
    where = R.where(fn)
    I = R.interp()
    outs = split_bool(I, R.summary(fn, argname, I))
    root = mk("arg", argname)
    cs = {"/", ".", "R", "r"}
    for s, b in outs:
        cs |= lang.cond_constants(s.conds)
    A = lang.Alphabet(cs)
    U = A.paths() if ispath else A.all
    got = A.none
    try:
        for s, b in outs:
            if s.eff:
                raise lang.Unknown("effects " + show(s.eff)[:200])
            if b:
                got = got | A.conds(s.conds, root)
    except lang.Unknown as e:
        R.undecided("C38.extension", where, str(e))
        return
    w = spec(A) & U
    g = got & U
    if g == w:
        R.proved("C38.extension", where, f"accepted set is exactly the specified automaton ({len(w.minimal().trans)} states, {len(A.sigma)} character classes)")
        return
    d1, d2 = A.definite(g - w).witness(), A.definite(w - g).witness()
    if d1 is not None:
        R.violated("C38.extension", where, f"{d1!r} counts as an R file")
    if d2 is not None:
        R.violated("C38.extension", where, f"{d2!r} does not count as an R file")
    if d1 is None and d2 is None:
        R.undecided("C38.extension", where, "differs only where text lengths are not known")


def unwrap_cat(t):
    while t.tag == "cat" and len(t.a[0]) == 1:
        t = t.a[0][0]
    while t.tag == "call" and (t.a[0].startswith(("From<", "Into<")) or t.a[0] in ("Path::to_string_lossy", "Cow::into_owned", "OsStr::to_string_lossy")):
        t = t.a[1][-1]
        while t.tag == "cat" and len(t.a[0]) == 1:
            t = t.a[0][0]
    return t


def helpers(R):
    pth = mk("arg", "path")
    # normalize_path: the absolute form, the path itself only when that cannot be determined
    fn = "fs::normalize_path"
    where = R.where(fn)
    I = R.interp()
    n = 0
    for s, v in R.summary(fn, "path", I):
        v = unwrap_cat(I.deref(v, s))
        case = show_conds(s.conds)[:300]
        abs_ = [t for t in s.conds if op(t) in ("Absolutize::absolutize", "path::absolute") and strip(args(t)[0]) is pth]
        if v.tag == "pay" and v.a[1] == "Ok" and v.a[0] in abs_:
            good = isvar(s.conds, v.a[0], "Ok")
        elif strip(v) is pth:
            good = any(isvar(s.conds, t, "Err") for t in abs_)
        else:
            good = False
        if not good and unknown_parts([v] + list(s.conds), ok=("Absolutize::absolutize", "path::absolute")):
            good = None
        R.check(good, "C38.absolute", where, f"[{case}] gives {show(v)[:200]}")
        n += 1
    # relativize_path
    fn = "fs::relativize_path"
    where = R.where(fn)
    for s, v in R.summary(fn, "path", R.interp()):
        v = unwrap_cat(v)
        case = show_conds(s.conds)[:300]
        sp = [t for t in s.conds if op(t) == "Path::strip_prefix" and strip(args(t)[0]) is pth]
        good = False
        if v.tag == "pay" and v.a[1] == "Ok" and v.a[0] in sp:
            good = isvar(s.conds, v.a[0], "Ok") and is_cwd(args(v.a[0])[1])
        elif strip(v) is pth:
            good = any(isvar(s.conds, t, "Err") and is_cwd(args(t)[1]) for t in sp)
        if not good and unknown_parts([v] + list(s.conds), ok=("Path::display", "env::current_dir")):
            good = None
        R.check(good, "C38.relative", where, f"[{case}] gives {show(v)[:200]}")
        n += 1
    R.floor("C38.helpers", "outcomes of the path helpers", n, 2)


def strip(t):
    while t.tag == "call" and (t.a[0].startswith(("From<", "Into<", "Into::", "AsRef"))):
        t = t.a[1][-1]
    return t


def is_cwd(t):
    t = strip(t)
    if t.tag == "pay" and t.a[1] == "Ok":
        t = t.a[0]
    return t.tag == "const" and show(t).endswith("CWD')") or t.tag == "ecall" and t.a[0] == "env::current_dir"


def check(R):
    R.program("fs")
    R.guard(lambda: recogniser(R, "fs::has_r_extension", "path", True,
                               lambda A: A.cat(A.eps | A.cat(A.all, A.lit("/")), A.plus(A.cls(A.every - {A.ix["/"]})), A.lit("."), A.lit("R") | A.lit("r"))), "C38.extension", "has_r_extension")
    R.guard(lambda: helpers(R), "C38.helpers", "helpers")
