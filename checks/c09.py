"""C09: invalid configuration is rejected."""
from terms import *
from cases import *
import flow, lang, mir, words as W
from report import Missing

LEVEL = "proof"
TECHNIQUE = "interval analysis of every construction of the bounded widths; exact key languages of the serde derives; error-propagation analysis of the loading functions, over MIR summaries"
EXPLANATION = ("Every place that builds an IndentWidth or LineWidth is found by a query over all MIR aggregates and constructor uses; the value stored is proved to lie in the documented interval on each path that reaches it. "
               "Every conversion accepts exactly the interval. The derived key recognisers accept exactly the documented keys at each level and fail on any other, "
               "and no function between the file and the options turns a reading, parsing or validation error into success.")
INF = float("inf")
WIDTHS = [("IndentWidth", 24), ("LineWidth", 320)]
OPTIONS = {"line-width", "indent-width", "indent-style", "line-ending", "persistent-line-breaks", "assignment-style", "exclude",
           "default-exclude", "skip", "table", "default-table"}


def domain(ty):
    ty = ty.replace("&", "").strip()
    if "NonZero" in ty:
        return ("i", ((1, INF),))
    if ty in ("u8", "u16", "u32", "u64", "usize", "u128"):
        return ("i", ((0, INF),))
    return ("i", ((-INF, INF),))


def in_range(v, conds, hi):
    """is integer term v within 1..=hi: True / False (definitely not always) / None"""
    if v.tag == "int":
        return 1 <= v.a[0] <= hi
    c = conds.get(v)
    if c and c[0] == "i":
        lo = c[1][0][0]
        return c[1][-1][1] <= hi and (lo >= 1 or lo == -INF and None)
    return None


def widths(R, name, hi):
    adt = W.adt_name(R, name, "settings")
    R.sites = 0
    for p in sorted(R.prog.fns):
        f = R.prog.fns[p]
        if mir.builds(f, adt):
            if "{closure" in p:
                continue  # seen through the function that contains it
            R.sites += 1
            R.guard(lambda: site(R, p, adt, name, hi), "C09.range", p)
    R.floor("C09.range", f"constructions of {name}", R.sites, 2)
    # conversions accept exactly the documented interval
    n = 0
    for i in R.prog.impls:
        if i["trait"] and W.last(i["trait"]) == "TryFrom" and flow.norm_ty(i["self"]) == adt:
            for it in i["items"]:
                if it[0] == "try_from" and R.prog.fn(it[1]):
                    n += 1
                    R.guard(lambda: conversion(R, it[1], adt, hi), "C09.interval", it[1])
    R.floor("C09.interval", f"conversions to {name}", n, 2)
    p = W.need_impl(R, adt, "Deserialize", "deserialize")
    R.guard(lambda: deserialize(R, p, adt, hi), "C09.interval", p)


def site(R, p, adt, name, hi):
    I = R.interp()
    outs = R.summary(p, None, I)
    f = R.prog.fn(p)
    where = R.where(p)
    dom = {mk("arg", nm or f"a{i}"): domain(ty) for i, (ty, nm) in enumerate(f["body"]["locals"]) if 1 <= i <= f["body"]["argc"]}
    found = 0
    for s, v in outs:
        for u in {u for t in [v, *s.mem.values(), *s.eff] for u in subterms(t)}:
            if u.tag == "adt" and u.a[0] == adt and u.a[2]:
                found += 1
                x = I.deref(u.a[2][0], s)
                conds = dict(s.conds)
                if x in dom:
                    conds[x] = c_and(conds.get(x), dom[x]) or conds.get(x)
                ok = in_range(x, conds, hi)
                if ok is None:
                    lo2, hi2 = interval(x, conds, adt, hi)
                    if lo2 >= 1 and hi2 <= hi:
                        ok = True
                    elif any(x in set(subterms(t)) for t in s.conds if t is not x):
                        ok = None  # a condition on the value which is not an interval
                    elif free(x, adt):
                        ok = False  # nothing bounds what is stored
                R.check(ok, "C09.range", f"{where} builds {name}", f"holds {show(x)[:200]} when [{show_conds(s.conds)[:300]}]; must lie in 1..={hi}")
    if not found:
        R.undecided("C09.range", where, f"mentions the constructor of {name} but the value was not traced")


READERS = ("Deserialize::deserialize", "SeqAccess::next_element", "MapAccess::next_value", "str::parse", "FromStr::from_str")


def free(x, adt):
    """is x arithmetic over inputs which may have any value of their type"""
    while x.tag in ("pay", "fld"):
        x = x.a[0]
    if x.tag == "arg":
        return True
    if x.tag == "ecall":
        return x.a[0] in READERS
    if x.tag == "call" and x.a[0] in ARITH or x.tag in ("Add", "Mul", "Sub", "bin", "cast"):
        return all(y.tag == "int" or free(y, adt) for y in args(x) if isinstance(y, T))
    return False


ARITH = {"saturating_mul": "*", "saturating_add": "+", "Mul::mul": "*", "Add::add": "+"}
ARITH = {f"{k}::{n}" if "::" not in n else n: o for n, o in ARITH.items() for k in ("NonZero", "u8", "u16", "u32", "usize")}


def interval(x, conds, adt, hi):
    if x.tag == "int":
        return x.a[0], x.a[0]
    c = conds.get(x)
    lo, h = (c[1][0][0], c[1][-1][1]) if c and c[0] == "i" and c[1] else (-INF, INF)
    if x.tag == "fld" and x.a[0].tag == "arg" and x.a[0].a[0] == "self":
        lo, h = max(lo, 1), min(h, hi)  # the value of an existing width is within its bounds
    if x.tag == "call" and x.a[0] in ARITH and len(x.a[1]) == 2:
        (a, b), (e, f) = (interval(y, conds, adt, hi) for y in x.a[1])
        if a >= 0 and e >= 0:
            if ARITH[x.a[0]] == "*":
                lo, h = max(lo, a * e), min(h, b * f)
            else:
                lo, h = max(lo, a + e), min(h, b + f)
    return lo, h


def conversion(R, p, adt, hi):
    I = R.interp()
    outs = split_res(I, R.summary(p, "value", I))
    root = mk("arg", "value")
    dom = domain(R.prog.fn(p)["body"]["locals"][1][0])
    acc, unsure = ("i", ()), False
    where = R.where(p)
    for s, n, v in outs:
        c = c_and(s.conds.get(root), dom) if root in s.conds else dom
        if c is False:
            continue
        if any(t is not root for t in s.conds):
            unsure = True
            R.notes.append("other condition: " + show_conds(s.conds)[:200])
        if n == "Ok":
            acc = ("i", acc[1] + c[1])
            R.check(True if v.tag == "adt" and v.a[2] and I.deref(v.a[2][0], s) is root else None if unknown_parts(v) else False, "C09.value", where,
                    f"converts {show(root)} to {show(v)[:200]}")
    got = _normr(sorted(acc[1]))
    R.check(got == _normr([(1, hi)]) or (None if unsure else False), "C09.interval", where, f"accepts {got}; documented is 1..={hi}")
    for s, sp in I.panics:
        R.check(None if unknown_parts(list(s.conds)) else False, "C09.interval", where, f"panics when [{show_conds(s.conds)[:200]}]")


def _normr(rs):
    import terms
    return tuple(terms._normr(list(rs)))


def accepted(R, p):
    """(values accepted by a numeric Deserialize, whether other conditions play a part), or None"""
    I = R.interp()
    acc, other, raw = (), False, None
    for s, n, v in split_res(I, R.summary(p, "deserializer", I)):
        if n == "Ok" and not [t for t, c in s.conds.items() if isvar(s.conds, t, "Err") is True]:
            x = I.deref(v.a[2][0], s) if v.tag == "adt" and v.a[2] else None
            if x is None or x.tag not in ("pay", "fld"):
                return None
            raw = x
            c = s.conds.get(x)
            other = other or any(x in set(subterms(t)) for t in s.conds if t is not x)
            acc += c[1] if c and c[0] == "i" else ((-INF, INF),)
    return None if raw is None else (_normr([(max(a, 0), b) for a, b in acc]), other)


def deserialize(R, p, adt, hi):
    I = R.interp()
    outs = split_res(I, R.summary(p, "deserializer", I))
    where = R.where(p)
    acc, other = (), False
    raw = None
    for s, n, v in outs:
        errs = [t for t, c in s.conds.items() if isvar(s.conds, t, "Err") is True]
        if n == "Ok":
            if errs:
                R.violated("C09.error", where, f"succeeds although {show(errs[0])[:200]} failed")
                continue
            x = I.deref(v.a[2][0], s) if v.tag == "adt" and v.a[2] else None
            if x is None:
                R.undecided("C09.value", where, show(v)[:200])
                continue
            if x.tag == "cast":
                R.violated("C09.value", where, f"the value read is truncated before it is checked: {show(x)[:200]}")
                continue
            if not (x.tag in ("pay", "fld")):
                R.check(False if x.tag == "int" else None, "C09.value", where, f"the stored value is {show(x)[:200]}, not the one read")
                continue
            raw = x
            c = s.conds.get(x)
            other = other or any(x in set(subterms(t)) for t in s.conds if t is not x)
            acc += c[1] if c and c[0] == "i" else ((-INF, INF),)
    if raw is not None:
        lo_hi = _normr([(max(a, 0), b) for a, b in acc])
        R.check(lo_hi == _normr([(1, hi)]) or (None if other else False), "C09.interval", where, f"accepts {lo_hi}; documented is 1..={hi}")
    else:
        R.undecided("C09.interval", where, "no accepted value traced")


# ------------------------------------------------------------------ keys
def keys(R, name, want):
    adt = W.adt_name(R, name, "workspace")
    vs = W.serde_identifier(R, "C09.keys", adt)
    if vs is None:
        R.undecided("C09.keys", adt, "Deserialize is not derived")
        return
    I = R.interp()
    outs = R.summary(vs, "visitor text", I)
    where = f"{R.where(vs).split(' ')[0]} {name}"

    def classify(v, s):
        v = I.deref(v, s)
        if v.tag != "adt":
            return "?"
        if v.a[1] == "Err":
            return None
        f = I.deref(v.a[2][0], s)
        if f.tag == "adt" and f.a[1] in ("__ignore",):
            return "an ignored key"
        if f.tag == "adt" and f.a[1].startswith("__other"):
            return None  # left over for the flattened part; see leftovers
        return "a key"
    other = any(u.tag == "adt" and str(u.a[1]).startswith("__other") for s, v in outs for u in subterms(v))

    def spec(A):
        l = A.none
        for w in want:
            l = l | A.lit(w)
        return {"a key": l, "an ignored key": A.none}
    W.languages(R, "C09.keys", where, I, outs, mk("arg", "text"), classify, spec, sorted(want), what="text taken")
    if other:
        leftovers(R, adt, name)
    for p in W.derived(R, adt, "::deserialize"):
        if "__DeserializeWith" in p:
            no_swallow(R, p)


def leftovers(R, adt, name):
    """keys no field takes are collected; the derived visitor must fail if one is left at the end"""
    vm = W.derived(R, adt, "::visit_map")
    if len(vm) != 1:
        R.undecided("C09.leftover-keys", name, "no derived visit_map")
        return
    I = R.interp()
    outs = split_res(I, R.summary(vm[0], "visitor map", I))
    where = R.where(vm[0])
    for s, n, v in outs:
        if n != "Ok" or excluded(s.conds):
            continue
        left = [t for t, c in s.conds.items() if t.tag == "exists" and truth(s.conds, t) is False]
        R.check(bool(left), "C09.leftover-keys", f"{where}: {name}", "succeeds without checking that every collected key was used")


def no_swallow(R, p, names=None):
    """an error of a fallible step is an error of the whole"""
    I = R.interp()
    outs = split_res(I, R.summary(p, names, I))
    where = R.where(p)
    bad = 0
    for s, n, v in outs:
        if n == "Ok":
            errs = [t for t, c in s.conds.items() if isvar(s.conds, t, "Err") is True and t.tag == "ecall"]
            for t in errs:
                bad += 1
                R.violated("C09.error", where, f"succeeds although {show(t)[:200]} failed")
    for s, sp in I.panics:
        pass
    if not bad:
        R.proved("C09.error", where, f"{len(outs)} outcomes; no failure turned into success")


def carried(R, p, fallible, names=None):
    """every call of `fallible` made on the way to a success has itself succeeded, also inside loops"""
    I = R.interp(opaque=fallible + ("workspace::toml::find_air_toml_in_directory", "fs::normalize_path"))
    short = tuple("::".join(f.split("::")[-2:]) for f in fallible)
    where = R.where(p)
    n = bad = 0

    def walk(effs, conds):
        nonlocal n, bad
        for e in effs:
            if e.tag == "foreach" and isinstance(e.a[2], frozenset):
                for cs, inner in e.a[2]:
                    walk(inner, {**conds, **dict(cs)})
            elif e.tag == "eff" and e.a[0] in short + tuple(fallible):
                n += 1
                r = mk("ecall", e.a[0], e.a[1], e.a[2])
                if isvar(conds, r, "Ok") is True:
                    continue
                if isvar(conds, r, "Err") is True:
                    bad += 1
                    R.violated("C09.error", where, f"succeeds although {e.a[0]} failed, when {show_conds({t: c for t, c in conds.items() if t is not r})[:200]}")
                else:
                    bad += 1
                    R.undecided("C09.error", where, f"the result of {e.a[0]} is not looked at")

    for s, k, v in split_res(I, R.summary(p, names, I)):
        if k == "Ok":
            walk(s.eff, dict(s.conds))
    if not n:
        R.undecided("C09.error", where, f"no success that uses {' or '.join(short)}")
    elif not bad:
        R.proved("C09.error", where, f"{n} ways to a success; each has the result of {' and '.join(short)} as a success")


def check(R):
    R.program("settings", "workspace", "line_ending")
    for name, hi in WIDTHS:
        R.guard(lambda: widths(R, name, hi), "C09.range", name)
    R.guard(lambda: keys(R, "FormatTomlOptions", OPTIONS), "C09.keys", "FormatTomlOptions")
    R.guard(lambda: keys(R, "TomlOptions", {"format"}), "C09.keys", "TomlOptions")
    R.guard(lambda: keys(R, "GlobalTomlOptions", set()), "C09.keys", "GlobalTomlOptions")
    R.guard(lambda: no_swallow(R, "workspace::toml::parse_air_toml", "path"), "C09.error", "parse_air_toml")
    R.guard(lambda: no_swallow(R, "workspace::toml::parse_air_inline_toml", "contents"), "C09.error", "parse_air_inline_toml")
    R.guard(lambda: carried(R, "workspace::discovery::discover_settings", ("workspace::toml::parse_air_toml", "workspace::toml_options::TomlOptions::into_settings"), "paths"), "C09.error", "discover_settings")
    for name in ("SortedStrings", "Skip", "Table"):
        p = W.impl_fn(R, name, "Deserialize", "deserialize")
        if p and R.prog.fn(p):
            R.guard(lambda: no_swallow(R, p, "deserializer"), "C09.error", name)
