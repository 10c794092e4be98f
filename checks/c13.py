"""C13: skip and table names match exactly, whatever order they are listed in."""
from terms import *
from cases import *
import flow, lang, mir, words as W
from report import Missing

LEVEL = "proof"
TECHNIQUE = "sortedness and element-set dataflow over MIR value summaries, at every construction of the sorted storage found by a query over all aggregates; matching of the lookup against its defining predicate"
EXPLANATION = ("Every construction of SortedStrings in the program stores a value proved to be in natural string order; each constructor, merge and deserializer keeps exactly the listed names (as a set); "
               "every lookup is a binary search of the whole list by that same order, or an equality scan; and the formatter asks it about the called function's own name.")

#: operations that keep every element; first operand is the collection
KEEP = {"sorted", "dedup", "rev", "sortedby", "reversed", "iter", "arr_iter", "cloned", "deref"}
KEEPCALL = ("From<", "Into<", "Into::", "FromIterator", "AsRef", "Iterator::collect", "slice::to_vec", "Vec::into_boxed_slice", "Arc::new", "Arc::clone", "Vec::clone", "String::clone")
DROP = {"filter", "filtermap", "take", "skip", "dedupby"}


def unwrap(t):
    while True:
        if t.tag == "call" and t.a[1] and t.a[0].startswith(KEEPCALL):
            t = t.a[1][-1]
        elif t.tag == "cat" and len(t.a[0]) == 1:
            t = t.a[0][0]
        else:
            return t


def elements(t):
    """(sources, exact): the collections whose elements t holds, exact = True / False (may drop or invent) / None (unknown)"""
    t = unwrap(t)
    if t.tag in KEEP and t.a and isinstance(t.a[0], T):
        return elements(t.a[0])
    if t.tag in ("append", "chain"):
        (a, x), (b, y) = elements(t.a[0]), elements(t.a[1])
        return a | b, False if x is False or y is False else None if None in (x, y) else True
    if op(t) in ("append", "chain"):
        (a, x), (b, y) = elements(args(t)[0]), elements(args(t)[1])
        return a | b, False if x is False or y is False else None if None in (x, y) else True
    if op(t) in ("concat", "flatten") and unwrap(args(t)[0]).tag == "arr":
        parts = [elements(x) for x in unwrap(args(t)[0]).a[0]]
        return frozenset().union(*(e for e, _ in parts)), False if any(x is False for _, x in parts) else None if any(x is None for _, x in parts) else True
    if t.tag == "arr":
        # fixed elements: a source of its own
        return frozenset((t,)) if t.a[0] else frozenset(), True
    if t.tag == "call" and t.a[0].startswith("default<"):
        return frozenset(), True
    if t.tag == "comp" and len(t.a) == 4:
        es, x = elements(t.a[0])
        el = mk("elem", t.a[0], t.a[2])
        cases = tuple(t.a[3])
        if all(unwrap(v) is el for _, v in cases):
            whole = len(cases) == 1 and not cases[0][0]
            return es, x if whole else False if x is not None and not unknown_parts([c for cs, _ in cases for c, _ in cs]) else None
        return frozenset((t,)), None
    if t.tag == "truncated" or t.tag in DROP or op(t) in ("filter", "take", "skip", "truncate", "Iterator::take", "Iterator::skip", "Iterator::step_by"):
        xs = t.a if t.tag in DROP else args(t)
        return elements(xs[0])[0], False
    if op(t) in ("index", "slice", "subslice"):
        return elements(args(t)[0])[0], False
    if t.tag in ("arg", "pay", "fld", "ecall", "const"):
        return frozenset((strip_wrap(t),)), True
    return frozenset((t,)), None


def strip_wrap(t):
    """a wrapped list and its only field are the same collection"""
    while t.tag == "fld" and t.a[1] == "0":
        t = t.a[0]
    return t


def is_sorted(t, R):
    """is the sequence t in natural string order: True / False / None"""
    t = unwrap(t)
    if t.tag == "sorted":
        return True
    if t.tag == "dedup":
        return is_sorted(t.a[0], R)
    if t.tag == "sortedby":
        return None if unknown_parts(t) else natural_key(t)
    if t.tag == "call" and t.a[0].startswith("default<"):
        return True
    if t.tag in ("filter", "take", "skip"):
        return is_sorted(t.a[0], R)
    if t.tag == "arr":
        xs = [x.a[0] if x.tag == "str" else None for x in map(unwrap, t.a[0])]
        return None if None in xs else xs == sorted(xs, key=lambda s: s.encode())
    if t.tag == "fld" and t.a[1] == "0":
        return R.stored(t.a[0])
    if t.tag == "arg":
        return False
    if t.tag == "pay" and t.a[0].tag == "ecall":
        return False if t.a[0].a[0] in ("Deserialize::deserialize",) else None
    if t.tag == "dedupby":
        return is_sorted(t.a[0], R)
    if t.tag in ("append", "rev", "reversed") or op(t) in ("append", "chain", "rev"):
        return False
    return None


def natural_key(t):
    key = t.a[1:]
    s = show(key)
    if "cmp(param(1), param(0))" in s or "len(param" in s or "lower" in s:
        return False
    if "cmp(param(0), param(1))" in s:
        return True
    return None


class Lists:
    def __init__(self, R):
        self.R = R
        self.adt = W.adt_name(R, "SortedStrings", "settings")
        self.wrap = {self.adt, W.adt_name(R, "Table", "settings"), W.adt_name(R, "Skip", "settings")}

    def stored(self, owner):
        """is owner a value of the sorted storage (so that its field is in order by the invariant)"""
        return True if owner in self.typed else None

    typed = ()


def contents(v, L):
    """the stored sequence of a value built by this function, or None"""
    while v.tag == "adt" and v.a[0] in L.wrap and v.a[2]:
        v = v.a[2][0]
        if not (v.tag == "adt" and v.a[0] in L.wrap):
            return v
    return None


def typed_args(f, L):
    """terms over the arguments that denote sorted storage"""
    res = set()
    for i in range(1, f["body"]["argc"] + 1):
        ty, nm = f["body"]["locals"][i]
        t = flow.norm_ty(ty.replace("&", "").replace("mut ", "").strip())
        a = mk("arg", nm or f"a{i}")
        if t == L.adt:
            res.add(a)
        elif t in L.wrap:
            res.add(mk("fld", a, "0"))
    return res


def builders(R, L):
    """every construction of the storage holds a sorted sequence"""
    n = 0
    for p in sorted(R.prog.fns):
        f = R.prog.fns[p]
        if not mir.builds(f, L.adt) or "{closure" in p:
            continue
        n += 1
        R.guard(lambda: builder(R, L, p), "C13.sorted", p)
    R.floor("C13.sorted", "functions that build SortedStrings", n, 1)


def builder(R, L, p):
    f = R.prog.fn(p)
    I = R.interp()
    outs = R.summary(p, None, I)
    L.typed = typed_args(f, L)
    found = 0
    for s, v in outs:
        for u in {u for t in [I.deref(v, s), *s.mem.values()] for u in subterms(t)}:
            if u.tag == "adt" and u.a[0] == L.adt and u.a[2]:
                found += 1
                x = I.deref(u.a[2][0], s)
                R.check(is_sorted(x, L), "C13.sorted", R.where(p), f"the storage is searched by natural string order and holds {show(x)[:300]} when [{show_conds(s.conds)[:200]}]")
    if not found:
        R.undecided("C13.sorted", R.where(p), "the constructed value was not traced")


def keeps(R, L, p, names, expect, rule="C13.elements"):
    """the value built by p holds exactly the elements of the expected sources"""
    I = R.interp()
    where = R.where(p)
    n = 0
    for s, v in R.summary(p, names, I):
        v = I.deref(v, s)
        if v.tag == "adt" and v.a[1] in ("Ok", "Err"):
            if v.a[1] == "Err":
                continue
            v = v.a[2][0]
        x = contents(v, L)
        if x is None:
            es, exact = elements(v)
            if not any(u in es for u in expect(s)):
                R.undecided(rule, where, f"returns {show(v)[:300]}")
                continue
        else:
            es, exact = elements(x)
        n += 1
        want = expect(s)
        if es == want and exact:
            R.proved(rule, where, f"holds exactly the elements of {', '.join(map(show, want))}")
        elif exact is None or exact is True and unknown_parts(list(es), ok=("Deserialize::deserialize",)):
            R.undecided(rule, where, f"holds {show(x if x is not None else v)[:300]}")
        else:
            R.violated(rule, where, f"holds {show(x if x is not None else v)[:300]} when [{show_conds(s.conds)[:300]}]; must keep exactly the elements of {', '.join(map(show, want))}")
    if not n:
        R.undecided(rule, where, "no successful outcome")


def natural(t, ordered=True):
    """the predicate `element compared with name`: returns name, or None"""
    if t.tag == "lam" and len(t.a) == 2 and len(t.a[1]) == 1 and t.a[1][0][0] == ():
        c = t.a[1][0][1]
        if op(c) == "cmp" and args(c)[0] is mk("param", 0):
            return unwrap(args(c)[1])
    return None


def member(conds, root_ok):
    """[(haystack, name, found?)] lookups decided in conds"""
    res = []
    for t, c in conds.items():
        if op(t) == "bsearch":
            b = isvar(conds, t, "Ok")
            if b is not None:
                res.append((args(t)[0], natural(args(t)[1]), b))
        elif t.tag == "exists":
            b = truth(conds, t)
            cases = tuple(t.a[2])
            name = None
            if len(cases) == 1 and len(tuple(cases[0])) == 1:
                (e, k), = tuple(cases[0])
                el = [u for u in subterms(e) if u.tag == "elem"]
                if op(e) == "eq" and el and k == ("b", frozenset((True,))):
                    a, b2 = map(unwrap, args(e))
                    name = b2 if a in el else a if b2 in el else None
            if b is not None:
                res.append((t.a[0], name, b))
    return res


def lookup(R, L, p):
    I = R.interp()
    where = R.where(p)
    self_, name = mk("arg", "self"), mk("arg", "name")
    outs = split_bool(I, R.summary(p, "self name", I))
    for s, b in outs:
        ms = member(s.conds, None)
        case = show_conds(s.conds)[:300]
        if len(ms) == 1 and len(s.conds) == 1:
            hay, nm, found = ms[0]
            if strip_wrap(unwrap(hay)) is self_ and nm is name:
                R.check(found == b, "C13.lookup", where, f"[{case}] answers {b}")
                continue
        good = None
        mine = [m for m in ms if strip_wrap(unwrap(m[0])) is self_ and m[1] is name]
        others = [t for t in s.conds if not member({t: s.conds[t]}, None)]
        if len(mine) == len(ms) == 1 and mine[0][2] == b:
            good = True
        elif not b and any(op(t) in ("len", "is_empty") and strip_wrap(unwrap(args(t)[0])) is self_ and (truth(s.conds, t) or s.conds[t] == ("i", ((0, 0),))) for t in others):
            good = True  # nothing is in an empty list
        elif not unknown_parts(list(s.conds)) and all(known_lookup(t, name) for t in s.conds):
            good = False
        R.check(good, "C13.lookup", where, f"answers {b} when [{case}]; must be exactly `the list has this name`")


def known_lookup(t, name):
    """a condition whose meaning is understood, so that it not being the membership test is a fact"""
    if t is name or op(t) == "len" and unwrap(args(t)[0]) is name:
        return True
    if op(t) == "bsearch":
        return True
    if t.tag in ("exists", "forall", "eq", "contains"):
        return True
    return op(t) in ("len", "eq", "starts_with", "ends_with", "contains", "is_empty", "lt", "str::starts_with", "str::ends_with")


def formatter(R, L):
    """the formatter asks each list about the called function's name"""
    node, f = mk("arg", "node"), mk("arg", "f")
    for which, fn in (("skip", W.need_impl(R, "FormatRCall", "FormatNodeRule", "is_suppressed")),):
        R.guard(lambda: asked(R, L, fn, "self node f", which, True), "C13.asked", fn)


def asked(R, L, fn, names, which, wantval):
    I = R.interp(gate=False)
    where = R.where(fn)
    outs = split_bool(I, R.summary(fn, names, I))
    node = mk("arg", "node")
    call_ = lambda t, n: op(t) == n and args(t)
    for s, b in outs:
        case = show_conds(s.conds)[:600]
        ms = [m for m in member(s.conds, None) if any(op(u) == "Formatter::options" for u in subterms(m[0]))]
        opts = [t for t in s.conds if t.tag == "fld" and t.a[1] == which and isvar(s.conds, t, "Some") is not None]
        if any(isvar(s.conds, t, "Err") for t in s.conds):
            continue  # a malformed node
        hit = [m for m in ms if m[2]]
        for hay, nm, found in ms:
            h = strip_wrap(unwrap(hay))
            ok = h.tag == "pay" and h.a[0] in opts and is_name(nm, node, s.conds)
            if not ok and (nm is None or unknown_parts([hay, nm], ok=KNOWN)):
                ok = None
            R.check(ok, "C13.asked", where, f"looks {show(nm) if nm is not None else '?'} up in {show(hay)[:200]}; must look up the called function's name in the `{which}` list")
        named = [t for t in s.conds if is_callee(t, node, s.conds)]
        if any(isvar(s.conds, t, "Some") for t in opts) and named and not ms and not b:
            R.check(None if unknown_parts(list(s.conds), ok=KNOWN) else False, "C13.asked", where, f"is not suppressed when [{case}] without looking the name up")
        elif hit and not b:
            R.violated("C13.asked", where, f"the name is listed but the call is not suppressed when [{case}]")
        elif ms:
            R.proved("C13.asked", where, f"[{case}] {b}")


KNOWN = ("RCall::function", "RNamespaceExpression::right", "RIdentifier::name_token", "Formatter::options", "Formatter::comments", "SyntaxToken::text_trimmed", "SyntaxNode::text_trimmed")


def is_callee(t, node, conds):
    """t is the enum of the called expression (or selector), known to be an identifier"""
    return isvar(conds, t, "RIdentifier") and any(op(u) == "RCall::function" and args(u)[0] is node for u in subterms(t))


def is_name(nm, node, conds):
    if nm is None or not op(nm) or not op(nm).endswith("text_trimmed"):
        return False
    for u in subterms(nm):
        if op(u) == "RCall::function" and args(u)[0] is node:
            return any(op(w) == "RIdentifier::name_token" for w in subterms(nm))
    return False


def check(R):
    R.program("settings", "air_r_formatter")
    L = R.guard(lambda: Lists(R), "C13.sorted", "SortedStrings")
    if not L:
        return
    R.guard(lambda: builders(R, L), "C13.sorted", "builders")
    arg = lambda *ns: (lambda s: frozenset(mk("arg", n) for n in ns))
    R.guard(lambda: keeps(R, L, "settings::sorted_strings::SortedStrings::new", "strings", arg("strings")), "C13.elements", "SortedStrings::new")
    R.guard(lambda: keeps(R, L, "settings::table::Table::new", "names", arg("names")), "C13.elements", "Table::new")
    R.guard(lambda: keeps(R, L, "settings::table::Table::merge", "self table", arg("self", "table")), "C13.elements", "Table::merge")
    for n in ("SortedStrings", "Table", "Skip"):
        def deser():
            p = W.need_impl(R, n, "Deserialize", "deserialize")
            read = lambda s: frozenset(payload(t, "Ok", 0) for t in s.conds if op(t) == "Deserialize::deserialize")
            keeps(R, L, p, "deserializer", read)
        R.guard(deser, "C13.elements", f"<{n} as Deserialize>::deserialize")
        R.guard(lambda: lookup(R, L, W.adt_name(R, n, "settings") + "::contains"), "C13.lookup", n + "::contains")
    if "air_r_formatter" not in R.unavailable:
        R.guard(lambda: formatter(R, L), "C13.asked", "formatter")
