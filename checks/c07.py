"""C07: the closest configuration directory decides."""
from terms import *
from cases import *
import cli, flow
from report import NoFacts

LEVEL = "proof"
TECHNIQUE = "gated value-numbering dataflow over MIR: each PathResolver operation summarised and matched against the sorted-map contract"
EXPLANATION = ("Every operation of PathResolver is summarised from its type-checked MIR (all paths, arguments symbolic, iterator pipelines and closures included) "
               "and matched against the contract of a path-sorted map: `add`/`remove` touch exactly the position found by binary search under path order, "
               "`resolve` returns the last item in that order whose path is a component-wise prefix of the query, `resolve_or_fallback` its value or the fallback. "
               "The closest-directory property follows: in path order every ancestor sorts before its descendants, so the last prefix is the deepest. "
               "In the command's outcomes each text is formatted with the options of the settings resolved for the path it was read from, by a resolver which every directory with discovered settings was added to.")
RES = "workspace::resolve::PathResolver::<T>::"


def strip_into(t):
    """conversions to an owned path do not change which path it is"""
    while t.tag == "call" and (t.a[0].startswith("From<") or t.a[0].startswith("Into<") or t.a[0] in ("Into::into", "From::from")):
        t = t.a[1][-1]
    return t


def comparator(t):
    """(verdict, text) for the comparison function of a binary search for $path"""
    if t.tag != "lam" or len(t.a[1]) != 1:
        return None, show(t)
    conds, body = t.a[1][0]
    p = mk("param", 0)
    want = (project(p, "path"), mk("arg", "path"))
    if op(body) == "cmp":
        a, b = map(strip_into, args(body))
        if (a, b) == want:
            return True, show(body)
        if unknown_parts(body):
            return None, show(body)
        return False, show(body)
    return (None if unknown_parts(body) else False), show(body)


def search(conds):
    """[(bsearch term, constraint)] among the conditions"""
    return [(t, c) for t, c in conds.items() if t.tag == "call" and t.a[0] == "bsearch"]


def check_search(R, rule, where, t):
    items = project(mk("arg", "self"), "items")
    base, cmpf = t.a[1]
    if base is not items:
        R.check(None if unknown_parts(base) else False, rule, where, f"searches {show(base)} instead of the items")
        return
    ok, txt = comparator(cmpf)
    R.check(ok, rule, where, f"items are searched by {txt}; items are kept in the order of their paths, ascending")


def mutator(R, name, argnames):
    path = RES + name
    where = R.where(path)
    I = R.interp()
    outs = R.summary(path, argnames, I)
    self_, pth, val = mk("arg", "self"), mk("arg", "path"), mk("arg", "value")
    items = project(self_, "items")
    seen = set()
    for s, v in outs:
        after = s.mem.get(("h", "self"), self_)
        found = search(s.conds)
        case = show_conds(s.conds)[:300]
        if len(found) != 1:
            R.undecided("C07.position", where, "no single binary search decides the outcome: " + case)
            continue
        t, c = found[0]
        if t not in seen:
            seen.add(t)
            check_search(R, "C07.order", where, t)
        new = project(after, "items")
        fb = project(after, "fallback")
        R.check(fb is project(self_, "fallback") or (None if unknown_parts(fb) else False), "C07.fallback-untouched", f"{where} [{case}]", show(fb)[:200])
        okpos, errpos = payload(t, "Ok", 0), payload(t, "Err", 0)
        if isvar(s.conds, t, "Ok"):
            old = mk("call", "index", (items, okpos))
            if name == "add":
                good = False
                if op(new) == "updi" and args(new)[:2] == (items, okpos):
                    e = args(new)[2]
                    good = project(e, "value") is val and strip_into(project(e, "path")) in (project(old, "path"), pth)
                want = "the settings of the directory already registered are replaced"
            else:
                good = op(new) == "removed" and args(new) == (items, okpos)
                want = "exactly the item of the directory is removed"
        elif isvar(s.conds, t, "Err"):
            if name == "add":
                good = False
                if op(new) == "insert" and args(new)[:2] == (items, errpos):
                    e = args(new)[2]
                    good = strip_into(project(e, "path")) is pth and project(e, "value") is val
                want = "a new item is inserted at its sorted position"
            else:
                good = new is items
                want = "nothing is removed when the directory is not registered"
        else:
            good, want = None, "the outcome depends on whether the directory is registered"
        if good is False and (unknown_parts(new) or unknown_parts(list(s.conds))):
            good = None
        R.check(good, "C07.update", f"{where}: {want}", f"items become {show(new)[:400]}")
    R.floor("C07.order", f"binary searches in {name}", len(seen), 1) if outs and not seen and not any(o["status"] == "undecided" for o in R.obs) else None


def prefix_conds(items, pth):
    el = mk("elem", items, 0)
    return frozenset((frozenset(((mk("call", "Path::starts_with", (pth, project(el, "path"))), BT),)),))


def norm_prefix(cs):
    """strip conversions inside the membership condition"""
    def f(t):
        return t
    res = []
    for conj in cs:
        xs = []
        for t, c in conj:
            if t.tag == "call" and t.a[0] == "Path::starts_with":
                t = mk("call", "Path::starts_with", tuple(strip_into(x) for x in t.a[1]))
            xs.append((t, c))
        res.append(frozenset(xs))
    return frozenset(res)


def no_match(conds, items, want):
    """do the conditions rule out that any item is a prefix"""
    if any(t.tag == "exists" and t.a[0] is items and norm_prefix(t.a[2]) == want and truth(conds, t) is False for t in conds):
        return True
    return meet(conds, {mk("exists", items, 0, want): BT}) is None


def check_resolve(R):
    path = RES + "resolve"
    where = R.where(path)
    I = R.interp()
    outs = R.summary(path, "self path", I)
    self_, pth = mk("arg", "self"), mk("arg", "path")
    items = project(self_, "items")
    want = prefix_conds(items, pth)
    n = 0
    for s, p in split_opt(I, outs):
        n += 1
        case = show_conds(s.conds)[:300]
        if s.eff:
            R.undecided("C07.resolve", where, "effects: " + show(s.eff)[:200])
        if p is None:
            # only when no item is a prefix
            ok = no_match(s.conds, items, want)
            if not ok:
                ok = None if unknown_parts(list(s.conds)) else False
            R.check(ok, "C07.resolve-none", f"{where}: no settings only when no registered directory contains the path", case)
        elif p.tag == "found":
            base, which, cs = p.a[0], p.a[1], norm_prefix(p.a[2])
            if base is items and which == "last" and cs == want:
                R.proved("C07.resolve-closest", where, f"the last item in path order that is a component-wise prefix: {show(p)}")
            else:
                bad = unknown_parts(p)
                R.check(None if bad else False, "C07.resolve-closest", f"{where}: the last item in path order whose path is a component-wise prefix of the query is returned",
                        f"returned: {show(p)[:500]}")
            extra = [t for t in s.conds if not (t.tag == "exists" and norm_prefix(t.a[2]) == want)]
            if extra and base is items and cs == want:
                pass
        else:
            R.check(None if unknown_parts(p) else False, "C07.resolve-closest", where, f"returned: {show(p)[:500]}")
    R.floor("C07.resolve", "outcomes of resolve", n, 1)
    # resolve_or_fallback
    path = RES + "resolve_or_fallback"
    where = R.where(path)
    outs2 = R.summary(path, "self path", R.interp())
    found = mk("found", items, "last", want, 0)
    for s, v in outs2:
        ex = [t for t in s.conds if t.tag == "exists" and t.a[0] is items and norm_prefix(t.a[2]) == want]
        e = truth(s.conds, ex[0]) if ex else None
        vv = subst(v, {})
        if v.tag == "fld" and v.a[1] == "value" and v.a[0].tag == "found":
            good = e is True and v.a[0].a[0] is items and v.a[0].a[1] == "last" and norm_prefix(v.a[0].a[2]) == want
        elif v is project(self_, "fallback"):
            good = no_match(s.conds, items, want)
        else:
            good = False
        if not good and unknown_parts([v] + list(s.conds)):
            good = None
        R.check(good, "C07.fallback", f"{where}: the closest item's value, the fallback when there is none", f"[{show_conds(s.conds)[:300]}] returns {show(v)[:300]}")


def check_matches(R, name):
    path = RES + name
    where = R.where(path)
    I = R.interp()
    outs = R.summary(path, "self path", I)
    self_, pth = mk("arg", "self"), mk("arg", "path")
    items = project(self_, "items")
    want = prefix_conds(items, pth)
    for s, v in outs:
        v = I.deref(v, s)
        it = I.as_iter(v) if v.tag != "it" else v
        if it is None or it.tag != "it":
            R.undecided("C07.matches", where, show(v)[:300])
            continue
        base = it.a[0]
        if base.tag == "mref":
            base = I.deep(base, s)
        # which elements get through the pipeline
        got = []
        try:
            r = I.walk(s, it, lambda st, e: [("hit", st, e)], 0)
        except flow.Unanalysable as e:
            R.undecided("C07.matches", where, str(e))
            continue
        ex = [t for _, st, _ in r for t in st.conds if t.tag == "exists"]
        good = bool(ex) and all(t.a[0] is items and norm_prefix(t.a[2]) == want for t in ex)
        if not good and unknown_parts([v] + ex):
            good = None
        R.check(good, "C07.matches", f"{where}: exactly the registered directories that contain the path", show(ex)[:300] or show(v)[:300])


def command(R):
    """each file is formatted with the options of the settings resolved for its own path"""
    rule = "C07.use"
    C = cli.Command(R)
    seen = set()
    for s, k, v in C.outs:
        for e in s.eff:
            for u in subterms(e):
                if u.tag == "eff" and u.a[0] == cli.SOURCE and u not in seen:
                    seen.add(u)
                    R.guard(lambda: formatted(R, C, u), rule, C.where)
                if u.tag == "eff" and u.a[0] == cli.DISCOVER and u not in seen:
                    seen.add(u)
                    ok, why = resolver(C, u.a[1][1], C.paths)
                    R.check(ok, rule, f"{C.where}: discovery", why)
    if not any(u.a[0] == cli.SOURCE for u in seen):
        R.undecided(rule, C.where, "no call formats a file")


def formatted(R, C, u):
    rule = "C07.use"
    text, opts = u.a[1]
    src = [x for x in subterms(text) if cli.fname(x) == "fs::read_to_string"]
    stdin = C.stdin_text(text)
    where = f"{C.where}: " + ("standard input" if stdin else "each file")
    if cli.fname(opts) != "FormatSettings::to_format_options":
        return R.check(None if unknown_parts(opts) or cli.fname(opts) else False, rule, where, f"formatted with the options {show(opts)[:120]}")
    fmt, for_text = args(opts)
    R.check(True if cli.strip(for_text) is cli.strip(text) else None, rule, where + ": text", "the options are made for the text which is formatted")
    t = fmt
    if not (t.tag == "fld" and t.a[1] == "format" and cli.fname(t.a[0]) in ("PathResolver::resolve_or_fallback", "PathResolver::resolve")):
        plain = not any(cli.fname(x) for x in subterms(t) if cli.fname(x) not in ("DefaultFilePatterns::try_from_iter", "From<Arc>")) or any(cli.fname(x) == "PathResolver::new" for x in subterms(t))
        return R.check(False if plain else None, rule, where, f"the settings are not resolved for the file: {show(t)[:120]}")
    res, path = args(t.a[0])
    path = cli.strip(path)
    if stdin:
        given = payload(C.stdin, "Some", 0)
        own = path is given or cli.fname(path) in ("fs::normalize_path", "Absolutize::absolutize") and cli.strip(args(path)[0]) is given
        ok, why = resolver(C, res, given)
    else:
        own = any(path is cli.strip(args(x)[0]) for x in src)
        ok, why = resolver(C, res, C.paths)
    above = sum(cli.fname(x) == "Path::parent" for x in subterms(path))     # the parent of the file has the same settings, its parent need not
    about = above < 2 and any(x.tag == "elem" or x is C.stdin for x in subterms(path)) and any(cli.fname(x) for x in subterms(path) if not cli.fname(x).startswith(("discovery::", "PathResolver::", "DefaultFilePatterns", "From<")))
    R.check(True if own else None if about else False, rule, where + ": path", "the settings are those resolved for the path of the file" if own else f"the settings are resolved for {show(path)[-100:]}")
    R.check(ok, rule, where + ": resolver", why)


def whole(t, paths):
    """all the paths given on the command line, or the one path (absolute)"""
    t = cli.strip(t)
    if t is paths:
        return True
    if t.tag == "arr" and len(t.a[0]) == 1:
        return whole(t.a[0][0], paths)
    return cli.fname(t) in ("fs::normalize_path", "Absolutize::absolutize") and cli.strip(args(t)[0]) is paths


def resolver(C, t, paths):
    """is a resolver filled with all the settings discovered for the paths"""
    if t.tag != "fold" or cli.fname(t.a[3]) != "PathResolver::new":
        return (False, "the resolver has no settings") if cli.fname(t) == "PathResolver::new" else (None, f"the resolver is {show(t)[:120]}")
    over = t.a[0]
    el, ph = mk("elem", over, t.a[2]), mk("phi", t.a[2], 0, t.a[3])
    if not (over.tag == "pay" and over.a[1] == "Ok" and cli.fname(over.a[0]) == cli.SETTINGS):
        return None, f"the resolver is filled from {show(over)[:120]}"
    given = args(over.a[0])[0]
    if not whole(given, paths):
        return (False if given.tag == "index" or not unknown_parts(given) else None), f"settings are discovered for {show(given)[:100]}"
    if any(cs for cs, x in t.a[4]):
        return False, "some discovered settings are not registered: " + show(t)[-160:]
    for cs, x in t.a[4]:
        if not (x.tag == "after" and x.a[0] == "PathResolver::add" and x.a[1][0] is ph):
            return None, f"registering: {show(x)[-120:]}"
        d, st = cli.strip(x.a[1][1]), x.a[1][2]
        if d is not mk("fld", el, "directory") or st is not mk("fld", el, "settings"):
            return (None if unknown_parts(d) or unknown_parts(st) else False), f"registers {show(st)[-60:]} for {show(d)[-60:]}"
    return True, "every directory with discovered settings is registered with them"


def check(R):
    R.program("workspace")
    for n, a in (("add", "self path value"), ("remove", "self path")):
        R.guard(lambda: mutator(R, n, a), "C07.update", n)
    R.guard(lambda: check_resolve(R), "C07.resolve", "resolve")
    for n in ("matches", "matches_mut"):
        R.guard(lambda: check_matches(R, n), "C07.matches", n)

    def accessors():
        self_ = mk("arg", "self")
        for fn, want in ((RES + "fallback", project(self_, "fallback")), (RES + "items", project(self_, "items")),
                         ("workspace::resolve::PathItem::<T>::path", project(self_, "path")), ("workspace::resolve::PathItem::<T>::value", project(self_, "value"))):
            for s, v in R.summary(fn, "self"):
                R.check(v is want or (None if unknown_parts(v) else False), "C07.accessor", R.where(fn), show(v))
        for s, v in R.summary(RES + "clear", "self"):
            now = project(s.mem.get(("h", "self"), self_), "items")
            R.check((now.tag == "arr" and not now.a[0]) or (None if unknown_parts(now) else False), "C07.clear", R.where(RES + "clear"), show(now))
        for s, v in R.summary(RES + "new", "fallback"):
            i = project(v, "items")
            R.check((i.tag == "arr" and not i.a[0] and project(v, "fallback") is mk("arg", "fallback")) or (None if unknown_parts(v) else False), "C07.new", R.where(RES + "new"), show(v))
    R.guard(accessors, "C07.accessor", "accessors")

    def others():
        # every other method with mutable access leaves the item list alone
        known = {"add", "remove", "clear", "matches_mut"}
        for p, f in R.prog.fns.items():
            if f.get("body") and f["kind"] == "AssocFn" and (p.startswith(RES) or p.startswith("workspace::resolve::PathItem::<T>::")) and not f.get("intrait"):
                n = p.rsplit("::", 1)[1]
                if n in known or f["body"]["argc"] < 1 or not f["body"]["locals"][1][0].startswith("&mut"):
                    continue
                I = R.interp()
                for s, v in R.summary(p, None, I):
                    for cell, now in s.mem.items():
                        if cell[0] != "h":
                            continue
                        a = mk("arg", cell[1])
                        bad = project(now, "items") is not project(a, "items") if p.startswith(RES) else project(now, "path") is not project(a, "path")
                        if n == "value_mut" and v.tag == "mref" and v.a[1] and v.a[1][0][:2] == ("f", "value"):
                            bad = False
                        R.check(not bad or None, "C07.no-other-writer", R.where(p), f"{show(now)[:200]} returns {show(v)[:100]}")
    R.guard(others, "C07.no-other-writer", "methods")
    try:
        R.program(*cli.CRATES)
    except NoFacts:
        return R.undecided("C07.use", cli.FORMAT, "the command line is not analysable")
    R.guard(lambda: command(R), "C07.use", cli.FORMAT)
