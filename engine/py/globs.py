"""Gitignore matchers: which patterns a matcher value holds, and the paths a pattern matches (as automata over path text)."""
from terms import *
from cases import *
import lang

BUILDER = "GitignoreBuilder::"
#: configuration of the builder that is already its default, or that cannot change which paths match
NEUTRAL = {"case_insensitive": FALSE, "allow_unclosed_class": TRUE}


def strip(t):
    while True:
        if op(t) and op(t).startswith(("From<", "Into<", "AsRef")) and args(t):
            t = args(t)[-1]
        elif t.tag == "cat" and len(t.a[0]) == 1:
            t = t.a[0][0]
        else:
            return t


def is_err_free(t):
    return t.tag == "ecall" and t.a[0] == BUILDER + "build"


def builder_chain(t):
    """(root, [item]) of a builder value; item: ('one', pattern) | ('each', list, depth, cases) | ('conf', name, value).
    None when it is not a chain of known builder calls."""
    if t.tag == "ecall" and t.a[0] == BUILDER + "new":
        return strip(t.a[1][0]), []
    if t.tag == "after" and t.a[0].startswith(BUILDER) and t.a[1]:
        r = builder_chain(t.a[1][0])
        if r is None:
            return None
        name = t.a[0][len(BUILDER):]
        if name == "add_line":
            return r[0], r[1] + [("one", strip(t.a[1][2]))]
        if name == "build":
            return r
        return r[0], r[1] + [("conf", name, t.a[1][1] if len(t.a[1]) > 1 else None)]
    if t.tag == "prefix":
        r = builder_chain(t.a[0])
        return r and (r[0], r[1] + [("cut", t)])
    if t.tag == "fold" and len(t.a) == 5:
        r = builder_chain(t.a[3])
        return r and (r[0], r[1] + [("each", t.a[0], t.a[2], t.a[4], t.a[1])])
    return None


def matcher(t):
    """chain of the matcher value t (the payload of a successful build)"""
    t = strip(t)
    if t.tag == "pay":
        t = t.a[0]
    if t.tag == "ecall" and t.a[0] == BUILDER + "build":
        return builder_chain(t.a[1][0])
    return None


# ---------------------------------------------------------------- pattern language
def glob(A, g):
    """automaton of globset's reading of g, with `/` never matched by a wildcard and backslash escapes"""
    notsl = A.cls(A.every - {A.ix["/"]})
    slash = A.lit("/")
    i, parts = 0, []

    def seq(i, stop):
        parts = []
        while i < len(g):
            c = g[i]
            if c in stop:
                break
            if c == "\\":
                if i + 1 >= len(g):
                    raise lang.Unknown("dangling escape in " + g)
                parts.append(A.lit(g[i + 1]))
                i += 2
            elif c == "?":
                parts.append(notsl)
                i += 1
            elif c == "*":
                j = i
                while j < len(g) and g[j] == "*":
                    j += 1
                if j - i == 2 and (i == 0 or g[i - 1] == "/") and (j == len(g) or g[j] == "/"):
                    if i == 0 and j == len(g):
                        parts.append(A.all)
                        i = j
                    elif i == 0:
                        parts.append(A.eps | slash | A.cat(A.all, slash))
                        i = j + 1
                    elif j == len(g):
                        parts.append(A.plus(A.cls(A.every)))
                        i = j
                    else:
                        parts.append(A.eps | A.cat(A.all, slash))
                        i = j + 1
                else:
                    parts.append(A.star(notsl))
                    i = j
            elif c == "[":
                j = i + 1
                neg = j < len(g) and g[j] in "!^"
                j += neg
                syms, first = set(), True
                while j < len(g) and (g[j] != "]" or first):
                    first = False
                    if j + 2 < len(g) and g[j + 1] == "-" and g[j + 2] != "]":
                        syms |= {chr(x) for x in range(ord(g[j]), ord(g[j + 2]) + 1)}
                        j += 3
                    else:
                        syms.add(g[j])
                        j += 1
                if j >= len(g):
                    raise lang.Unknown("unclosed class in " + g)
                ixs = set()
                for s in syms:
                    if s not in A.ix:
                        raise lang.Unknown("character class outside the alphabet: " + g)
                    ixs.add(A.ix[s])
                parts.append(A.cls((A.every - ixs if neg else ixs) - {A.ix["/"]}))
                i = j + 1
            elif c == "{":
                alts, j = [], i + 1
                while True:
                    l, j = seq(j, ",}")
                    alts.append(l)
                    if j >= len(g):
                        raise lang.Unknown("unclosed alternates in " + g)
                    if g[j] == "}":
                        break
                    j += 1
                parts.append(A.union(alts))
                i = j + 1
            else:
                parts.append(A.lit(c))
                i += 1
        return (A.cat(*parts) if parts else A.eps), i

    return seq(0, "")[0]


def gitignore(A, line):
    """(whitelist, only_dir, Lang) of one line of a matcher with an empty root; None for a line that adds nothing"""
    if line.startswith("#"):
        return None
    if not line.endswith("\\ "):
        line = line.rstrip()
    if not line:
        return None
    white = absolute = False
    if line.startswith(("\\!", "\\#")):
        line = line[1:]
        absolute = line[:1] == "/"
    else:
        if line.startswith("!"):
            white, line = True, line[1:]
        if line.startswith("/"):
            absolute, line = True, line[1:]
    only_dir = line.endswith("/")
    if only_dir:
        line = line[:-1]
        if line.endswith("\\"):
            raise lang.Unknown("escaped trailing slash")
    g = line
    if not absolute and "/" not in line and not g.startswith("**/"):
        g = "**/" + g
    if g.endswith("/**"):
        g += "/*"
    return white, only_dir, glob(A, g)


def alphabet_of(lines):
    cs = {"/", "."}
    for l in lines:
        cs |= set(l)
        for m in range(len(l) - 2):
            if l[m + 1] == "-" and l[m].isalnum() and l[m + 2].isalnum() and ord(l[m]) < ord(l[m + 2]):
                cs |= {chr(x) for x in range(ord(l[m]), ord(l[m + 2]) + 1)}
    return cs


def matched_sets(A, lines):
    """(files, directories): the paths whose last matching line ignores them"""
    F, D = A.none, A.none
    for l in lines:
        r = gitignore(A, l)
        if r is None:
            continue
        white, only_dir, L = r
        D = D - L if white else D | L
        if not only_dir:
            F = F - L if white else F | L
    return F, D


def skipped_lines(A):
    """the lines for which add_line adds nothing: comments and blank lines"""
    blank = A.star(A.union([A.lit(c) for c in " \t\r\n\x0b\x0c"]))
    return A.cat(A.lit("#"), A.all) | blank
