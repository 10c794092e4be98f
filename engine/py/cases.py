"""Comparing path summaries with a specification given by cases."""
from terms import *
import flow

# Parts of a term whose meaning the analysis does not know.
UNKNOWN = {"itend", "itrest", "itadv", "nextof", "loop", "loopval", "loopeff", "after", "phi", "eresult", "ecall", "eff", "foreach", "fold", "opaque", "vararg", "updx", "cor", "unk"}


def unknown_parts(t, ok=()):
    """names of unknown operations in t; ok: names of effectful calls the rule understands"""
    bad = set()
    for s in (t if isinstance(t, (list, tuple)) else [t]):
        for u in subterms(s):
            if u.tag == "ecall" or u.tag == "eff":
                if u.a[0] not in ok:
                    bad.add(u.a[0])
            elif u.tag == "after":
                if u.a[0] not in ok:
                    bad.add("after " + str(u.a[0]))
            elif u.tag in UNKNOWN:
                bad.add(u.tag)
    return bad


def split_bool(I, outs):
    """outcomes of a predicate, each with a definite answer"""
    res = []
    for s, v in outs:
        v = I.deref(v, s)
        for s2, b in I.decide(v, s):
            res.append((s2, b))
    return res


def split_enum(I, outs, path, order):
    res = []
    for s, v in outs:
        v = I.deref(v, s)
        for s2, n in I.split(s, v, path, order):
            res.append((s2, n, v))
    return res


def split_opt(I, outs):
    """(state, None | payload)"""
    return [(s, payload(v, "Some", 0) if n == "Some" else None) for s, n, v in split_enum(I, outs, flow.OPT, ("None", "Some"))]


def split_res(I, outs):
    """(state, 'Ok' | 'Err', payload)"""
    return [(s, n, payload(v, n, 0)) for s, n, v in split_enum(I, outs, flow.RES, ("Ok", "Err"))]


def meet(a, b):
    """conjunction of two condition maps, or None when they exclude each other"""
    r = dict(a)
    for t, c in b.items():
        j = c_and(r.get(t), c)
        if j is False:
            return None
        r[t] = j
    if excluded(r):
        return None
    return r


AXIOMS = []


def axiom(f):
    AXIOMS.append(f)
    return f


def excluded(conds):
    return any(f(conds) for f in AXIOMS)


def truth(conds, t):
    c = conds.get(t)
    if c and c[0] == "b" and len(c[1]) == 1:
        return next(iter(c[1]))
    return None


def isvar(conds, t, name):
    """True / False / None: is the enum term t known to be variant name"""
    c = conds.get(t)
    if c and c[0] == "v":
        if c[1] == frozenset((name,)):
            return True
        if name not in c[1]:
            return False
    return None


@axiom
def empty_has_no_member(conds):
    for t, c in conds.items():
        if t.tag == "exists" and truth(conds, t):
            n = call("len", t.a[0])
            d = conds.get(n)
            if d and d[0] == "i" and d[1] == ((0, 0),):
                return True
            if truth(conds, mk("eq", n, Int(0))):
                return True
    return False


@axiom
def one_path(conds):
    """joined paths: one of their conditions holds"""
    for t in conds:
        if t.tag == "dnf" and not any(all(c_and(conds.get(u), k) is not False for u, k in d) for d in t.a[0]):
            return True
    return False


@axiom
def last_of_popped(conds):
    """a list with elements left after taking some off had a last element before; an empty one has none"""
    for t in conds:
        if op(t) == "last":
            x = args(t)[0]
            some = isvar(conds, t, "Some")
            if some:
                while x.tag == "popped":
                    x = x.a[0]
                    if isvar(conds, call("last", x), "None"):
                        return True
            n = call("len", args(t)[0])
            e = truth(conds, mk("eq", n, Int(0)))
            if e is None:
                d = conds.get(n)
                e = True if d and d[0] == "i" and d[1] == ((0, 0),) else False if d and d[0] == "i" and not any(lo <= 0 <= hi for lo, hi in ((l if l is not None else -1, h if h is not None else 1) for l, h in d[1])) else None
            if some is not None and e is not None and some == e:
                return True
    return False


@axiom
def found_satisfies(conds):
    """the element a search stopped at satisfies one of the search's cases"""
    for t in list(conds):
        for u in subterms(t):
            if u.tag == "found" and len(u.a) == 4:
                bs, _, cases, depth = u.a
                el = mk("elem", bs, depth)
                ok = False
                for case in cases:
                    r = dict(conds)
                    for tt, c in case:
                        tt = subst(tt, {el: u})
                        j = c_and(r.get(tt), c)
                        if j is False:
                            break
                        r[tt] = j
                    else:
                        ok = True
                        break
                if cases and not ok:
                    return True
    return False


def table(R, rule, where, I, outs, spec, ok=(), extra=None):
    """outs: [(state, value)]; spec: [(name, conds, expect)], expect(value, state, conds) -> True | False | None | reason.
    Every outcome of the code is compared with every case of the specification it is compatible with."""
    n = 0
    for name, conds, expect in spec:
        hit, worst = 0, True
        for s, v in outs:
            j = meet(s.conds, conds)
            if j is None:
                continue
            hit += 1
            r = expect(v, s, j)
            if r is True:
                continue
            detail = f"in the case [{show_conds(j)[:700]}] the result is {show(v)[:300]}" if isinstance(v, T) else f"in the case [{show_conds(j)[:700]}] the result is {v!r}"
            if isinstance(r, str):
                detail += "; " + r
            terms = list(j) + ([v] if isinstance(v, T) else []) + list(s.eff)
            unk = unknown_parts(terms, ok)
            if r is None or unk:
                if worst is True:
                    worst = None
                R.undecided(rule, f"{where}: {name}", detail + (f"; unknown: {sorted(unk)}" if unk else ""))
            else:
                worst = False
                R.violated(rule, f"{where}: {name}", detail)
        if not hit:
            R.undecided(rule, f"{where}: {name}", "no outcome of the code is compatible with this case")
        elif worst is True:
            R.proved(rule, f"{where}: {name}", f"{hit} outcomes agree")
        n += hit
    return n


def is_term(t):
    return lambda v, s, j: v is t
