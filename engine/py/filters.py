"""Exclude and include patterns: what an outcome knows about whether they match a path.

An outcome is a set of conditions. It knows that the exclude patterns match when one of its conditions says that a query for this path,
with the patterns of these settings, found a pattern; it knows that they do not match when both the user's and the default patterns are
absent or were queried without result."""
from terms import *
from cases import *
import cli

EITHER = {"discovery::any_exclude_matched_path": False, "discovery::any_exclude_matched_path_or_any_parents": True}
INCLUDE = "discovery::any_include_matched_path"
ONE = {"FilePatterns::matched": False, "DefaultFilePatterns::matched": False, "FilePatterns::matched_path_or_any_parents": True, "DefaultFilePatterns::matched_path_or_any_parents": True}


def base(t):
    """the option which holds the patterns a query is made on"""
    while t.tag in ("pay", "fld") and (t.tag == "pay" and t.a[1] == "Some" or t.tag == "fld" and t.a[1] == "0"):
        t = t.a[0]
    return t


class Filter:
    """one path, its settings (term of type FormatSettings, or a predicate on such terms)"""

    def __init__(self, path, fmt, directory=None):
        self.path, self.fmt = path, fmt
        self.directory = directory or (lambda conds, t: t.tag == "int" and t.a[0] == 0)

    def field(self, t, name):
        t = base(t)
        return t.tag == "fld" and t.a[1] == name and (self.fmt(t.a[0]) if callable(self.fmt) else t.a[0] is self.fmt)

    def right_path(self, t):
        return cli.strip(t) is self.path

    def answer(self, conds, c, t):
        if c[0] != "v":
            return None
        return True if isvar(conds, t, "Some") is True else False if isvar(conds, t, "None") is True else None

    def excluded(self, conds, parents):
        """(does some exclude pattern match, what was asked in a way that does not count)"""
        got = {"exclude": None, "default_exclude": None}
        odd = []
        for t, c in conds.items():
            n = cli.fname(t)
            a = self.answer(conds, c, t)
            if a is None:
                continue
            if n in EITHER:
                p, d, e, de = args(t)
                if not (self.right_path(p) and self.directory(conds, d)):
                    odd.append(f"{n} for another path")
                    continue
                fields = [k for k, x in (("exclude", e), ("default_exclude", de)) if self.field(x, k)]
                if len(fields) < 2:
                    odd.append(f"{n} without the {' and '.join(k for k in got if k not in fields)} patterns of its settings")
                if a and fields:
                    return True, odd
                if not a and parents and not EITHER[n]:
                    odd.append("its parents are not looked at")
                    continue
                if not a:
                    for k in fields:
                        got[k] = False
            elif n in ONE:
                q, p, d = args(t)
                which = [k for k in got if self.field(q, k)]
                if not which:
                    continue
                if not (self.right_path(p) and self.directory(conds, d)):
                    odd.append(f"{n} for another path")
                    continue
                if a:
                    return True, odd
                if parents and not ONE[n]:
                    odd.append("its parents are not looked at")
                    continue
                got[which[0]] = False
            else:
                for k in got:
                    if a is False and self.field(t, k):
                        got[k] = False
        if all(v is False for v in got.values()):
            return False, odd
        return None, odd

    def included(self, conds):
        odd = []
        for t, c in conds.items():
            n = cli.fname(t)
            a = self.answer(conds, c, t)
            if a is None:
                continue
            if n == INCLUDE or n in ONE:
                p, q = args(t)[:2] if n == INCLUDE else (args(t)[1], args(t)[0])
                if not self.field(q, "default_include"):
                    continue
                if not self.right_path(p):
                    odd.append(f"{n} for another path")
                    continue
                return a, odd
            if a is False and self.field(t, "default_include"):
                return False, odd
        return None, odd

    def others(self, conds):
        """queries for this path with the patterns of settings which are surely resolved for another path"""
        out = []
        for t in conds:
            if cli.fname(t) not in ONE and cli.fname(t) not in EITHER and cli.fname(t) != INCLUDE:
                continue
            for x in args(t):
                b = base(x)
                if b.tag == "fld" and b.a[1] in ("exclude", "default_exclude", "default_include") and b.a[0].tag == "fld" and cli.fname(b.a[0].a[0]) == "PathResolver::resolve_or_fallback":
                    p = cli.strip(args(b.a[0].a[0])[1])
                    up = [u for u in subterms(p) if cli.fname(u) == "Path::parent"]
                    if p is not self.path and (len(up) > 1 or not any(u is self.path for u in subterms(p)) and p.tag != "arg"):
                        out.append("the patterns asked are those of another path's settings")
        return out

    def mine(self, t):
        """is this a condition the two questions above understand"""
        return cli.fname(t) in EITHER or cli.fname(t) in ONE or cli.fname(t) == INCLUDE or any(self.field(t, k) for k in ("exclude", "default_exclude", "default_include"))
