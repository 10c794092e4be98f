"""Plain queries over the extracted MIR: aggregates, calls, constants."""
import flow


def walk(x):
    if isinstance(x, (list, tuple)):
        yield x
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        yield x
        for y in x.values():
            yield from walk(y)


def builds(f, adt):
    """does function f build a value of adt, directly or by naming its constructor"""
    for x in walk(f["body"]["blocks"]):
        if isinstance(x, list) and len(x) >= 3 and x[0] == "agg" and x[1] == "adt" and x[2] == adt:
            return True
        if isinstance(x, dict) and x.get("k") == "fn" and x.get("path") == adt:
            return True
    return False


def calls(f):
    """(callee path, generic args, operands, span) of every call in f; indirect calls have callee None"""
    for b in f["body"]["blocks"]:
        t = b[2]
        if t[0] == "call":
            c = t[1]
            if c[0] == "k" and c[1].get("k") == "fn":
                yield c[1]["path"], c[1].get("args") or [], t[2], t[-1]
            else:
                yield None, [], t[2], t[-1]


def closures_of(prog, path):
    return [p for p in prog.fns if p.startswith(path + "::{closure")]


def sites(prog, name):
    """(function path, block, operands, span) of every call whose callee's last two segments are `name` (or whose path ends with it)"""
    for p, f in sorted(prog.fns.items()):
        for i, b in enumerate(f["body"]["blocks"]):
            t = b[2]
            if t[0] == "call" and t[1][0] == "k" and t[1][1].get("k") == "fn" and t[1][1]["path"].endswith(name):
                yield p, i, t[2], t[-1]


# calls which return (a view of) their first argument
VIEWS = ("Deref::deref", "AsRef::as_ref", "Borrow::borrow", "String::as_str", "DerefMut::deref_mut", "Clone::clone", "ToString::to_string", "ToOwned::to_owned", "From::from", "Into::into", "Cow::into_owned", "Cow::<'_, B>::into_owned")


def origins(f, operand, seen=None):
    """where a value comes from, following copies, references and views, without regard to control flow:
    ('const', v) ('arg', i) ('field', place) ('call', path, operands) ('agg', ...) ('?', text)"""
    seen = set() if seen is None else seen
    if operand[0] == "k":
        return {("const", str(operand[1].get("v")))}
    pl = operand[1]
    return place_origins(f, pl, seen)


def place_origins(f, pl, seen):
    if isinstance(pl, list):
        ps = [e for e in pl[1:] if e != "*"]
        if ps:
            names = tuple((e[0], e[2] if len(e) > 2 else None) for e in ps)
            return {("field", f["body"]["locals"][pl[0]][0], names)}
        pl = pl[0]
    if pl in seen:
        return set()
    seen.add(pl)
    if 1 <= pl <= f["body"]["argc"]:
        return {("arg", pl)}
    out = set()
    for b in f["body"]["blocks"]:
        for s in b[1]:
            d = s[0]
            if d == pl:
                r = s[1]
                if r[0] == "use":
                    out |= origins(f, r[1], seen)
                elif r[0] == "ref":
                    out |= place_origins(f, r[1], seen)
                elif r[0] == "cast":
                    out |= origins(f, r[2], seen)
                elif r[0] == "agg" and r[1] == "adt":
                    out.add(("agg", r[2], r[3]))
                else:
                    out.add(("?", str(r[0])))
        t = b[2]
        if t[0] == "call" and t[3] == pl:
            c = t[1]
            path = c[1]["path"] if c[0] == "k" and c[1].get("k") == "fn" else None
            if path and any(path.endswith(v) for v in VIEWS) and t[2]:
                out |= origins(f, t[2][0], seen)
            else:
                out.add(("call", path, len(t[2])))
    return out or {("?", "no definition")}


def names(f):
    """every function constant in f, called or passed on"""
    for x in walk(f["body"]["blocks"]):
        if isinstance(x, dict) and x.get("k") == "fn":
            yield x


def targets(P, c):
    """functions of the analysed crates a function constant may stand for"""
    for p in (c.get("res"), c["path"]):
        if p in P.fns and not (p == c["path"] and c.get("trait") and c.get("res")):
            return [p]
    if c.get("trait"):
        hits = P.trait_impl.get((c["trait"], c["name"]), ())
        ty = flow.strip_generics(flow.norm_ty(c["args"][0])) if c.get("args") else ""
        same = [p for st, ref, p in hits if flow.strip_generics(st) == ty]
        return same or [p for st, ref, p in hits] + ([c["path"]] if c["path"] in P.fns else [])
    return []


def reachable(P, roots, stop=()):
    """{function: the function it was reached from} over the conservative call graph: calls, functions used as values, closures,
    and the impls of outside traits (which code outside may call)"""
    seen, work = {}, []

    def add(p, frm):
        if p in P.fns and p not in seen and p not in stop:
            seen[p] = frm
            work.append(p)
    for r in roots:
        add(r, None)
    while work:
        p = work.pop()
        for q in closures_of(P, p):
            add(q, p)
        for c in names(P.fns[p]):
            for q in targets(P, c):
                add(q, p)
    return seen


def chain(seen, p):
    out = [p]
    while seen.get(p):
        p = seen[p]
        out.append(p)
    return list(reversed(out))


def place_types(P, f, pl):
    """[(type of the holder, field)] for each field step of a place; the type is None once it is no longer known"""
    if not isinstance(pl, list):
        return []
    ty, out = f["body"]["locals"][pl[0]][0], []
    for e in pl[1:]:
        if e == "*":
            ty = deref_type(ty) if ty else None
        elif e[0] == "f":
            base = flow.strip_generics(ty) if ty else None
            out.append((base, e[2]))
            a = P.adts.get(base)
            ty = None
            if a and len(a["variants"]) == 1:
                ty = next((x["ty"] for x in a["variants"][0]["fields"] if x["name"] == e[2]), None)
        else:
            ty = None
    return out


def deref_type(ty):
    import re
    m = re.match(r"&('[a-z_0-9]+ )?(mut )?(.*)$", ty)
    if m:
        return m.group(3)
    m = re.match(r"(?:alloc::boxed::Box|alloc::sync::Arc)<(.*)>$", ty)
    return m.group(1) if m else None


def writers(P, adt, fields=None):
    """{function: {(how, field)}} of everything which may write a field of adt: assignments, exclusive borrows of the field ('ref') and values built ('new')"""
    out = {}
    holders = set()

    def note(p, how, field):
        out.setdefault(p, set()).add((how, field))

    def hit(p, f, pl, how):
        steps = place_types(P, f, pl)
        for ty, fld in steps:
            if ty == adt and (fields is None or fld in fields):
                note(p, how, fld)
            elif ty is None and fields is not None and fld in fields and steps[0][0] is None:
                note(p, how + "?", fld)
    for p, f in P.fns.items():
        if not f.get("body"):
            continue
        for b in f["body"]["blocks"]:
            for s in b[1]:
                d, r = s[0], s[1]
                hit(p, f, d, "set")
                if r[0] == "ref" and len(r) > 2 and "mut" in str(r[2]):
                    hit(p, f, r[1], "ref")
                if r[0] == "agg" and r[1] == "adt" and r[2] == adt:
                    note(p, "new", None)
            t = b[2]
            if t[0] == "call" and t[3] is not None:
                hit(p, f, t[3], "set")
    return out
