"""Hash-consed value-numbering terms (Herbrand universe) and path constraints.

Two expressions get the same term exactly when they apply the same operations to the same inputs;
the analysis never knows more about an uninterpreted operation than its name and operands."""

_table = {}


class T:
    __slots__ = ("tag", "a", "_s", "_sub", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return show(self) < show(o)


def mk(tag, *a):
    key = (tag, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.tag, t.a, t._s, t._sub = tag, a, None, None
        _table[key] = t
    return t


def show(t):
    if isinstance(t, T):
        if t._s is None:
            t._s = _show(t)
        return t._s
    if isinstance(t, (tuple, list)):
        return "(" + ", ".join(show(x) for x in t) + ")"
    if isinstance(t, frozenset):
        return "{" + ", ".join(sorted(show(x) for x in t)) + "}"
    return repr(t)


def _show(t):
    a = t.a
    if t.tag == "int":
        return str(a[0])
    if t.tag in ("str", "bytes"):
        return repr(a[0])
    if t.tag == "arg":
        return "$" + str(a[0])
    if t.tag == "adt":
        n = a[0].split("::")[-1]
        if a[1]:
            n += "::" + a[1]
        return n + ("{" + ", ".join(f"{k}: {show(v)}" for k, v in zip(a[3], a[2])) + "}" if a[2] else "")
    if t.tag == "tup":
        return "(" + ", ".join(map(show, a[0])) + ")"
    if t.tag == "arr":
        return "[" + ", ".join(map(show, a[0])) + "]"
    if t.tag == "call":
        return a[0] + "(" + ", ".join(map(show, a[1])) + ")"
    if t.tag == "ecall":
        return a[0] + "#" + str(a[2]) + "(" + ", ".join(map(show, a[1])) + ")"
    if t.tag == "fld":
        return show(a[0]) + "." + str(a[1])
    if t.tag == "pay":
        return show(a[0]) + "." + a[1] + "." + str(a[2])
    if t.tag == "cat":
        return "cat" + show(a[0])
    if t.tag == "ite":
        return "{" + "; ".join(sorted(f"{show_conds(c)} -> {show(v)}" for c, v in a[0])) + "}"
    return t.tag + "(" + ", ".join(show(x) for x in a) + ")"


UNIT = mk("tup", ())
TRUE, FALSE = mk("int", 1), mk("int", 0)


def Int(n):
    return mk("int", n)


def Str(s):
    return mk("str", s)


def adt(path, variant, fields=(), names=None):
    fields = tuple(fields)
    if names is None:
        names = tuple(str(i) for i in range(len(fields)))
    return mk("adt", path, variant, fields, tuple(names))


OPT, RES, CF, ORD, COW = ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow",
                          "core::cmp::Ordering", "alloc::borrow::Cow")
NONE = adt(OPT, "None")


def Some(x):
    return adt(OPT, "Some", (x,))


def Ok(x):
    return adt(RES, "Ok", (x,))


def Err(x):
    return adt(RES, "Err", (x,))


def tup(*a):
    return mk("tup", tuple(a))


def call(name, *a):
    return mk("call", name, tuple(a))


def is_const(t):
    if t.tag in ("int", "str", "bytes", "fn"):
        return True
    if t.tag == "adt":
        return all(is_const(x) for x in t.a[2])
    if t.tag in ("tup", "arr"):
        return all(is_const(x) for x in t.a[0])
    return False


def subterms(t, seen=None):
    """all terms reachable from t (t included)"""
    if seen is None:
        seen = set()
    if isinstance(t, T):
        if t in seen:
            return seen
        seen.add(t)
        for x in t.a:
            subterms(x, seen)
    elif isinstance(t, (tuple, list, frozenset)):
        for x in t:
            subterms(x, seen)
    return seen


def contains_any(t, pred, cache=None):
    return any(pred(x) for x in subterms(t))


def subst(t, m, cache=None):
    """replace sub-terms by m (dict term -> term)"""
    if cache is None:
        cache = {}
    if isinstance(t, T):
        if t in m:
            return m[t]
        if t in cache:
            return cache[t]
        a = tuple(subst(x, m, cache) for x in t.a)
        r = t if all(x is y or x == y for x, y in zip(a, t.a)) else rebuild(t.tag, a)
        cache[t] = r
        return r
    if isinstance(t, tuple):
        return tuple(subst(x, m, cache) for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, m, cache) for x in t)
    return t


def rebuild(tag, a):
    if tag == "fld":
        return project(a[0], a[1])
    if tag == "pay":
        return payload(a[0], a[1], a[2])
    if tag == "cat":
        return cat(*a[0])
    if tag == "ite":
        return ite(a[0])
    return mk(tag, *a)


def ite(cases):
    """a value chosen by conditions: cases [(frozen conditions, value)]"""
    cs = {}
    for c, v in cases:
        if v.tag == "ite":
            for c2, v2 in v.a[0]:
                m = dict(c)
                for t, k in c2:
                    j = c_and(m.get(t), k)
                    if j is False:
                        m = None
                        break
                    m[t] = j
                if m is not None:
                    cs.setdefault(v2, []).append(m)
        else:
            cs.setdefault(v, []).append(dict(c))
    if len(cs) == 1:
        return next(iter(cs))
    return mk("ite", frozenset((freeze(m), v) for v, ms in cs.items() for m in merge_conds(ms)))


def ite_map(t, f):
    return ite([(c, f(v)) for c, v in t.a[0]])


def project(t, name):
    if t.tag == "ite":
        return ite_map(t, lambda v: project(v, name))
    if t.tag == "adt":
        if name in t.a[3]:
            return t.a[2][t.a[3].index(name)]
        return mk("fld", t, name)
    if t.tag == "tup":
        i = int(name)
        if i < len(t.a[0]):
            return t.a[0][i]
    if t.tag in ("clo", "cor"):
        i = int(name)
        if i < len(t.a[1]):
            return t.a[1][i]
    if t.tag == "upd":
        base, n, v = t.a
        if n == name:
            return v
        return project(base, name)
    return mk("fld", t, name)


def payload(t, variant, i):
    i = str(i)
    if t.tag == "ite":
        cs = [(c, payload(v, variant, i)) for c, v in t.a[0] if v.tag != "adt" or v.a[1] == variant]
        if cs:
            return ite(cs)
        return mk("pay", t, variant, i)
    if t.tag == "adt":
        if t.a[1] == variant:
            n = str(i)
            if n in t.a[3]:
                return t.a[2][t.a[3].index(n)]
            if isinstance(i, str) and i in t.a[3]:
                return t.a[2][t.a[3].index(i)]
            if str(i).isdigit() and int(i) < len(t.a[2]):
                return t.a[2][int(i)]
        return mk("pay", t, variant, i)
    if t.tag == "updv":
        base, var, n, v = t.a
        if var == variant and n == i:
            return v
        return payload(base, variant, i)
    return mk("pay", t, variant, i)


def cat(*pieces):
    out = []
    for p in pieces:
        if p.tag == "cat":
            ps = p.a[0]
        else:
            ps = (p,)
        for q in ps:
            if q.tag == "str":
                if q.a[0] == "":
                    continue
                if out and out[-1].tag == "str":
                    out[-1] = Str(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return Str("")
    if len(out) == 1 and (out[0].tag == "str"):
        return out[0]
    return mk("cat", tuple(out))


# ---- constraints ------------------------------------------------------------------------------
# A constraint restricts one term's value to a set. kinds:
#   ("b", frozenset of bool)            boolean atoms
#   ("v", allowed variants, all variants)   enum discriminants
#   ("i", ((lo,hi),...))                integers, inclusive ranges, None for unbounded
#   ("s", positive?, frozenset)         strings: in the set / not in the set
#   ("e",) ...

INF = float("inf")


def c_and(c, d):
    """meet; None when empty"""
    if c is None:
        return d
    k = c[0]
    if k != d[0]:
        return c  # incomparable descriptions of one term: keep the first (sound: weaker)
    if k == "b":
        r = c[1] & d[1]
        return ("b", r) if r else False
    if k == "v":
        r = c[1] & d[1]
        return ("v", r, c[2] | d[2]) if r else False
    if k == "i":
        out = []
        for lo, hi in c[1]:
            for lo2, hi2 in d[1]:
                a, b = max(lo, lo2), min(hi, hi2)
                if a <= b:
                    out.append((a, b))
        return ("i", _normr(out)) if out else False
    if k == "s":
        if c[1] and d[1]:
            r = c[2] & d[2]
            return ("s", True, r) if r else False
        if c[1]:
            r = c[2] - d[2]
            return ("s", True, r) if r else False
        if d[1]:
            r = d[2] - c[2]
            return ("s", True, r) if r else False
        return ("s", False, c[2] | d[2])


def c_or(c, d):
    """join, or None when everything"""
    if c is None or d is None or c[0] != d[0]:
        return None
    k = c[0]
    if k == "b":
        r = c[1] | d[1]
        return None if len(r) == 2 else ("b", r)
    if k == "v":
        r = c[1] | d[1]
        allv = c[2] | d[2]
        return None if r >= allv else ("v", r, allv)
    if k == "i":
        r = _normr(list(c[1]) + list(d[1]))
        return None if r == ((-INF, INF),) else ("i", r)
    if k == "s":
        if c[1] and d[1]:
            return ("s", True, c[2] | d[2])
        if not c[1] and not d[1]:
            r = c[2] & d[2]
            return ("s", False, r) if r else None
        if not c[1]:
            c, d = d, c
        r = d[2] - c[2]
        return ("s", False, r) if r else None


def c_sub(c, d):
    """is every value allowed by c allowed by d"""
    m = c_and(c, d)
    return m == c


def _normr(rs):
    rs = sorted(rs)
    out = []
    for lo, hi in rs:
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def c_not(c):
    k = c[0]
    if k == "b":
        r = frozenset((True, False)) - c[1]
        return ("b", r) if r else False
    if k == "v":
        r = c[2] - c[1]
        return ("v", r, c[2]) if r else False
    if k == "i":
        out, lo = [], -INF
        for a, b in c[1]:
            if a > lo:
                out.append((lo, a - 1))
            lo = b + 1
        if lo < INF:
            out.append((lo, INF))
        return ("i", tuple(out)) if out else False
    if k == "s":
        return ("s", not c[1], c[2])


BT, BF = ("b", frozenset((True,))), ("b", frozenset((False,)))


def show_cond(t, c):
    k = c[0]
    if k == "b":
        return ("" if True in c[1] else "not ") + show(t)
    if k == "v":
        return f"{show(t)} is {'|'.join(sorted(c[1]))}"
    if k == "i":
        f = lambda x: "" if x in (INF, -INF) else str(x)
        return f"{show(t)} in " + "+".join(f"{f(a)}..{f(b)}" if a != b else str(a) for a, b in c[1])
    if k == "s":
        return f"{show(t)} {'in' if c[1] else 'not in'} {{{', '.join(sorted(map(repr, c[2])))}}}"


def show_conds(conds):
    items = conds.items() if isinstance(conds, dict) else conds
    return " & ".join(sorted(show_cond(t, c) for t, c in items)) or "always"


def freeze(conds):
    return frozenset(conds.items())


def merge_cases(cases):
    """cases: list of (dict conds, key). Joins cases with equal keys whose conditions differ in one
    term only; a language-preserving simplification."""
    groups = {}
    for c, k in cases:
        groups.setdefault(k, []).append(c)
    out = []
    for k, cs in groups.items():
        out += [(c, k) for c in merge_conds(cs)]
    return out


def merge_conds(cs):
    cs = [dict(c) for c in cs]
    changed = True
    while changed and len(cs) > 1:
        changed = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                m = _join(cs[i], cs[j])
                if m is not None:
                    cs[i] = m
                    del cs[j]
                    changed = True
                    break
            if changed:
                break
    return cs


def _join(a, b):
    if len(a) > len(b):
        a, b = b, a
    diff = [t for t in b if a.get(t) != b[t]]
    extra = [t for t in a if t not in b]
    if not diff and not extra:
        return dict(a)
    if not extra and all(t not in a for t in diff):
        return dict(a)  # a is weaker: absorbs b
    if extra and not diff:
        return dict(b)
    if extra:
        return None
    ds = [t for t in diff if t in a]
    if len(diff) == 1 and len(ds) == 1:
        t = diff[0]
        m = dict(a)
        j = c_or(a[t], b[t])
        if j is None:
            del m[t]
        else:
            m[t] = j
        return m
    # absorption: every constraint of the weaker implied by the stronger
    return None


def op(t):
    """the operation at the root of a term"""
    return t.a[0] if t.tag in ("call", "ecall") else t.tag


def args(t):
    return t.a[1] if t.tag in ("call", "ecall") else t.a
