"""C16: built-in patterns apply at any depth and are the documented ones."""
import os, re
from terms import *
from cases import *
import flow, lang, globs, words as W
from report import Missing, REPO

LEVEL = "proof"
TECHNIQUE = "constant dataflow from the built-in lists through the matcher construction, then regular-language comparison of the patterns' path sets with the documentation"
EXPLANATION = ("The matcher behind each set of built-in patterns is reconstructed as the chain of builder calls with the constant lines that reach it; the paths those lines match (files and directories separately, by gitignore's "
               "and globset's rules, with an empty root) are computed as automata over path text and compared with: the documented list at any depth (excludes), the files with extension R or r (includes).")


def lines_of(R, rule, selfty):
    """the constant lines of the built-in matcher of selfty, from <selfty as Default>::default"""
    fn = W.need_impl(R, selfty, "Default", "default")
    where = R.where(fn)
    I = R.interp()
    res = None
    for s, v in R.summary(fn, None, I):
        while v.tag == "adt" and len(v.a[2]) == 1:
            v = v.a[2][0]
        ch = globs.matcher(v)
        if ch is None:
            R.undecided(rule, where, "matcher: " + show(v)[:300])
            return None, where
        root, items = ch
        ls = []
        for it in items:
            if it[0] == "conf" and globs.NEUTRAL.get(it[1]) is it[2]:
                continue
            if it[0] == "conf" and it[1] == "case_insensitive":
                R.violated(rule, where, "the built-in patterns ignore case")
                return None, where
            if it[0] != "one" or it[1].tag != "str":
                R.undecided(rule, where, "line: " + show(it)[:300])
                return None, where
            ls.append(it[1].a[0])
        r = globs.strip(root)
        if r.tag == "str" and r.a[0] not in ("", ".", "./"):
            R.violated(rule, where, f"the built-in patterns are relative to {show(root)}")
            return None, where
        if r.tag != "str" and op(r) not in ("PathBuf::new", "OsString::new"):
            R.check(None if unknown_parts(r) else False, rule, where, f"the built-in patterns are relative to {show(root)[:200]}")
            return None, where
        if res is not None and res != ls:
            R.undecided(rule, where, "the built-in list depends on a condition")
            return None, where
        res = ls
    if res is None:
        R.undecided(rule, where, "no way to build the list succeeds")
    return res, where


def compare(R, rule, where, got, want, what, domain):
    g, w = got & domain, want & domain
    if g == w:
        R.proved(rule, f"{where}: {what}", f"automaton with {len(w.minimal().trans)} states")
        return True
    a, b = (g - w).witness(), (w - g).witness()
    msg = []
    if a is not None:
        msg.append(f"{a!r} is matched, though the documented set does not include it")
    if b is not None:
        msg.append(f"{b!r} is not matched, though the documented set includes it")
    R.violated(rule, f"{where}: {what}", "; ".join(msg))
    return False


def any_depth(R, where, lines):
    for l in lines:
        A = lang.Alphabet(globs.alphabet_of(lines) | {"x"})
        r = globs.gitignore(A, l)
        if r is None:
            R.violated("C16.depth", f"{where}: {l!r}", "adds no pattern")
            continue
        L = r[2] & A.paths()
        deep = A.cat(A.lit("x/"), L)
        R.check((deep - r[2]).empty() and not L.empty(), "C16.depth", f"{where}: {l!r}", "whatever it matches, it matches below any directory too" if (deep - r[2]).empty() else f"{(deep - r[2]).witness()!r} is not matched")


def excludes(R):
    lines, where = lines_of(R, "C16.exclude", W.adt_name(R, "DefaultExcludePatterns", "workspace"))
    sec = W.doc_sections().get("default-exclude", "")
    doc = re.findall(r"^-\s+`([^`]+)`", sec, re.M)
    R.floor("C16.exclude", "documented default exclude patterns", len(doc), 1)
    if not lines:
        if lines is not None:
            R.violated("C16.exclude", where, "there are no built-in exclude patterns")
        return
    A = lang.Alphabet(globs.alphabet_of(lines + doc) | {"x"})
    F, D = globs.matched_sets(A, lines)
    # documented at any depth below any directory
    f, d = globs.matched_sets(A, doc)
    U = A.paths()
    compare(R, "C16.exclude", where, F, f, "excluded files", U)
    compare(R, "C16.exclude", where, D, d, "excluded directories", U)
    any_depth(R, where, lines)


def includes(R):
    lines, where = lines_of(R, "C16.include", W.adt_name(R, "DefaultIncludePatterns", "workspace"))
    if not lines:
        if lines is not None:
            R.violated("C16.include", where, "there are no built-in include patterns")
        return
    A = lang.Alphabet(globs.alphabet_of(lines) | {"x", "R", "r", "."})
    F, D = globs.matched_sets(A, lines)
    slash = A.lit("/")
    pre = A.eps | A.cat(A.all, slash)
    name = A.plus(A.cls(A.every - {A.ix["/"]}))
    want = A.cat(pre, name, A.lit("."), A.lit("R") | A.lit("r"))
    # a file named just `.R` has no extension; either answer is fine
    U = A.paths() - A.cat(pre, A.lit("."), A.lit("R") | A.lit("r"))
    compare(R, "C16.include", where, F, want, "included files", U)
    any_depth(R, where, lines)


def check(R):
    R.program("workspace")
    R.guard(lambda: excludes(R), "C16.exclude", "DefaultExcludePatterns")
    R.guard(lambda: includes(R), "C16.include", "DefaultIncludePatterns")
