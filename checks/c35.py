"""C35: parallel file discovery loses and duplicates nothing."""
from terms import *
from cases import *
import cli, walk

LEVEL = "proof"
TECHNIQUE = "abstract interpretation of MIR with one place per lock acquisition: the visitor made for each thread, each visit, its drop and the final result are composed and every entry is followed into the result"
EXPLANATION = ("The visitor each thread starts with, in terms of the arguments of the search, collects nothing. A visit of an unreadable entry adds that error once and lets the walk go on; no visit ends the walk "
               "or removes what was collected; a visit adds at most the entry itself, once. When a visitor is dropped, one lock acquisition moves all it collected behind what is already in the shared list. "
               "The shared list is what the search returns, whole. Each lock acquisition sees unknown contents, so the argument holds for every interleaving. All given paths are walked, without limits.")
LIMITS = {"WalkBuilder::max_depth", "WalkBuilder::min_depth", "WalkBuilder::max_filesize", "WalkBuilder::filter_entry", "WalkBuilder::add_ignore", "WalkBuilder::add_custom_ignore_filename", "WalkBuilder::types",
          "WalkBuilder::overrides", "WalkBuilder::same_file_system", "WalkBuilder::skip_stdout"}
WHOLE = ("sorted", "sortedby", "rev")


def visits(R, V):
    rule = "C35.visit"
    seen = False
    for o in V.outs:
        case = f"{V.where}: {o.label}"
        R.check(None if o.state is None else o.state != "Quit", rule + ".continues", case, f"the walk goes on ({o.state})" if o.state != "Quit" else "ends the whole walk")
        if isvar(o.conds, V.result, "Err") is True:
            seen = True
            err = payload(V.result, "Err", 0)
            if o.pushes is None:
                R.check(kept(V, o), rule, case, "what it collects is not known, or what was collected is forgotten: " + o.note)
            else:
                R.check(o.pushes == 1 and o.pushed[0].tag == "adt" and o.pushed[0].a[1] == "Err" and any(u is err for u in subterms(o.pushed[0])), rule, case, f"{o.pushes} entries collected" + ("" if o.pushes != 1 else f": {show(o.pushed[0])[:80]}"))
        elif o.pushes is None:
            R.check(False if kept(V, o) is False else None, rule, case, o.note)
        elif o.pushes:
            e = o.pushed[0]
            own = e.tag == "adt" and e.a[1] == "Ok" and cli.fname(cli.strip(e.a[2][0])) in ("DirEntry::into_path", "DirEntry::path") and cli.strip(args(cli.strip(e.a[2][0]))[0]) is V.entry
            R.check(len(o.pushed) == 1 and own if len(o.pushed) != 1 or own else None, rule, case, "collects the path of the entry once" if len(o.pushed) == 1 and own else f"collects {len(o.pushed)} entries: {show(e)[:80]}")
        elif o.entry is None:
            R.undecided(rule, case, "nothing collected, and it is not known whether the entry could be read")
        else:
            R.proved(rule, case, "collects nothing and keeps what was collected")
    if not seen:
        R.undecided(rule, V.where, "no outcome for an entry which cannot be read")


def kept(V, o):
    """does a visit surely forget what was collected before (an unconditional assignment of something without it)"""
    new = o.mem.get(("h", "visitor"))
    for f in V.visitor.a[3]:
        x = project(new, f)
        if x.tag == "arr" and project(V.visitor, f).tag == "arr":
            return False
    return None


def collected(V):
    """fields of the visitor which visits add to, and shared places they add to"""
    own, shared = set(), set()
    for o in V.outs:
        for kind, x in o.into:
            (own if kind == "own" else shared).add(x)
    return own, shared


def start(R, V):
    rule = "C35.start"
    own, shared = collected(V)
    where = R.where(V.build)
    for f in sorted(own):
        x = project(V.visitor, f)
        R.check(None if x.tag != "arr" else not x.a[0], rule, f"{where}: {f}", "a thread starts with nothing collected" if x.tag == "arr" and not x.a[0] else f"starts as {show(x)[:80]}")
    R.check(len(V.builders) == 1 or None, rule, where + ": builder", "one builder")
    if not own and not shared:
        R.undecided(rule, where, "nothing is ever collected")


def parts(t, old, mine, conds):
    """what a term holds: {'old': n, 'mine': n, 'other': n}, or None"""
    if t is old:
        return {"old": 1}
    if t is mine:
        return {"mine": 1}
    if t.tag == "arr" and not t.a[0]:
        return {}
    if t.tag in ("append", "concat", "extend"):
        out = {}
        for x in t.a:
            p = parts(x, old, mine, conds) if isinstance(x, T) else None
            if p is None:
                return None
            for k, n in p.items():
                out[k] = out.get(k, 0) + n
        return out
    if t.tag in WHOLE:
        return parts(t.a[0], old, mine, conds)
    if t.tag == "comp":
        inner = parts(t.a[0], old, mine, conds)
        if nm(t.a[0]) == "flatten" and over_of(t.a[0]) in (old, mine) or inner in ({"old": 1}, {"mine": 1}) and all(any(u is mk("elem", t.a[0], t.a[2]) for u in subterms(v)) for cs, v in t.a[3]):
            if inner and len(t.a[3]) == 1 and not next(iter(t.a[3]))[0] and next(iter(t.a[3]))[1] is mk("elem", t.a[0], t.a[2]):
                return inner
            return {"some of " + ("old" if t.a[0] is old or nm(t.a[0]) == "flatten" and over_of(t.a[0]) is old else "mine"): 1}
    if t.tag == "fold" and len(t.a[4]) == 1:
        (cs, v), = t.a[4]
        if not cs and v.tag == "push" and v.a[0] is mk("phi", t.a[2], 0, t.a[3]) and v.a[1] is mk("elem", t.a[0], t.a[2]):
            a, b = parts(t.a[3], old, mine, conds), parts(t.a[0], old, mine, conds)
            if a is not None and b is not None:
                return {k: a.get(k, 0) + b.get(k, 0) for k in {*a, *b}}
    return None


def empty(conds, t):
    """do the conditions say that a collection is empty"""
    for u, c in conds.items():
        if cli.fname(u) == "len" and args(u)[0] is t and c[0] == "i":
            return all(lo == hi == 0 for lo, hi in c[1])
        if cli.fname(u) in ("first", "last", "slice::first", "slice::last", "Vec::pop") and args(u)[0] is t and isvar(conds, u, "None"):
            return True
    return False


def drops(R, V):
    """-> the shared places the visitors' collections end in"""
    rule = "C35.drop"
    own, shared = collected(V)
    out = {x for x in shared}
    if not own:
        return out
    if V.drop is None:
        R.violated(rule, R.where(V.build), f"what a thread collected is dropped with its visitor: {V.visitor.a[0]} has no Drop")
        return out
    R.fn(V.drop)
    where = R.where(V.drop)
    I = R.interp()
    me = mk("arg", "visitor")
    m = {mk("fld", me, f): x for f, x in zip(V.visitor.a[3], V.visitor.a[2]) if f not in own}
    for s, v in R.summary(V.drop, "visitor", I):
        case = f"{where}: {show_conds(s.conds)[:160] or 'always'}"
        for f in sorted(own):
            mine = mk("fld", me, f)
            if empty(s.conds, mine):
                touched = [c for c, x in s.mem.items() if c[0] == "lock" and x is not c[1]]
                for c in touched:
                    p = parts(s.mem[c], c[1], mine, s.conds)
                    R.check(None if p is None else p.get("old", 0) == 1 or empty(s.conds, c[1]), rule, f"{case}: {f}", "the shared list is left as it was")
                if not touched:
                    R.proved(rule, f"{case}: {f}", "nothing collected, nothing to move")
                continue
            got = {}
            for cell, x in s.mem.items():
                if cell[0] != "lock":
                    continue
                p = parts(x, cell[1], mine, s.conds)
                place = subst(args(cell[1])[0], m)
                if p is None:
                    got = None
                    R.undecided(rule, f"{case}: {f}", f"the shared list becomes {show(x)[:160]}")
                    break
                if x is not cell[1]:
                    got[place] = p
                    if not p.get("old") and not empty(s.conds, cell[1]):
                        R.violated(rule, f"{case}: {f}", "overwrites what other threads have collected")
                    elif p.get("old", 0) > 1:
                        R.violated(rule, f"{case}: {f}", "the shared list is appended to itself")
            if got is None:
                continue
            n = sum(p.get("mine", 0) for p in got.values())
            some = sum(p.get("some of mine", 0) for p in got.values())
            other = [e for e in s.eff if e.tag != "eff" or e.a[0] != "Mutex::lock"]
            if some:
                R.violated(rule, f"{case}: {f}", "part of what was collected goes into the shared list " + ("a second time" if n else "and the rest does not"))
            elif n == 1:
                R.proved(rule, f"{case}: {f}", "all that was collected goes into the shared list once, behind what is there")
                out |= {k for k, p in got.items() if p.get("mine")}
            elif n > 1:
                R.violated(rule, f"{case}: {f}", "what was collected goes into the shared list more than once")
            else:
                used = any(any(u is mine for u in subterms(e)) for e in other)
                R.check(None if used else False, rule, f"{case}: {f}", "what was collected does not reach the shared list")
    R.check(len(out) == 1 or None, rule, where + ": shared list", f"{len(out)} shared places")
    return out


def result(R, V, places):
    rule = "C35.result"
    where = R.where(walk.DISCOVER)
    nopaths = mk("arg", "paths")
    n = 0
    for s, v in V.found:
        walked = [e for e in s.eff if e.tag == "eff" and e.a[0] == walk.WALK]
        case = f"{where}: {show_conds(s.conds)[:120] or 'always'}"
        if not walked:
            none = any(isvar(s.conds, t, "None") is True and cli.fname(t) in ("first", "last", "slice::first", "slice::split_first") for t in s.conds) or any(cli.fname(t) == "len" and empty(s.conds, args(t)[0]) or t.tag == "exists" and t.a[2] == frozenset((frozenset(),)) and truth(s.conds, t) is False for t in s.conds)
            R.check(True if none else None, rule, case, "without paths there is nothing to walk" if none else "returns without walking")
            continue
        n += 1
        R.check(len(walked) == 1 or None, rule, case + ": walk", "one walk")
        t = v
        while t.tag in WHOLE:
            t = t.a[0]
        inner = None
        if cli.fname(t) == "Mutex::into_inner":
            inner = args(t)[0]
        elif cli.fname(t) == "Mutex::lock":
            inner = args(t)[0]
        if inner is not None:
            R.check(True if inner in places else None if not places else False, rule, case, "returns all of the shared list" if inner in places else "returns another list than the threads fill")
            # taken before the walk, it would still be empty
            continue
        lossy = [u for u in subterms(t) if u.tag in ("comp", "filter", "take", "skip", "slice") or cli.fname(u) in ("Vec::truncate", "Vec::retain", "Vec::dedup", "Vec::drain")]
        base = [u for u in subterms(t) if cli.fname(u) in ("Mutex::into_inner", "Mutex::lock")]
        if t.tag == "comp" and base and t.a[0] is base[0] and all(not cs for cs, x in t.a[3]):
            R.undecided(rule, case, f"returns {show(t)[:160]}")
        else:
            R.check(False if lossy and base else None, rule, case, f"returns only part of the shared list: {show(t)[:160]}")


def nm(t):
    return cli.fname(t) or t.tag


def one(t):
    """the first element of an iterator over a list"""
    return t.tag == "found" and t.a[1] in ("first", "last") and t.a[2] == frozenset((frozenset(),))


def over_of(t):
    return args(t)[0] if cli.fname(t) else t.a[0]


def walked(R, V):
    rule = "C35.walk"
    where = R.where(walk.DISCOVER)
    P = R.prog
    for s, v in V.found:
        if not any(e.tag == "eff" and e.a[0] == walk.WALK for e in s.eff):
            continue
        case = f"{where}: {show_conds(s.conds)[-120:]}"
        lim = [e for e in s.eff if e.tag == "eff" and e.a[0] in LIMITS]
        lim = [e for e in lim if not (len(e.a[1]) > 1 and e.a[1][1].tag == "adt" and e.a[1][1].a[1] == "None")]
        R.check(not lim, rule, case + ": limits", "the walk is not limited" if not lim else "entries are left out of the walk by " + ", ".join(e.a[0] for e in lim))
        first = [e for e in s.eff if e.tag == "eff" and e.a[0] == "WalkBuilder::new"]
        adds = [e for e in s.eff if e.tag == "foreach" and any(x.tag == "eff" and x.a[0] == "WalkBuilder::add" for cs, ef in e.a[2] for x in ef)]
        if len(first) != 1:
            R.undecided(rule, case, "the start of the walk is not known")
            continue
        p0 = first[0].a[1][0]
        p0 = p0.a[0] if p0.tag == "pay" else p0
        given = source(p0) if nm(p0) in ("first", "last", "slice::first", "slice::last") or one(p0) else None
        if given is None:
            R.undecided(rule, case, f"the walk starts from {show(p0)[:100]}")
            continue
        which = "first" if one(p0) else nm(p0).split("::")[-1]
        rest = "tail" if which == "first" else "init"
        if not adds:
            R.violated(rule, case, f"only the {which} path is walked")
            continue
        over = adds[0].a[0]
        full = [ef for cs, ef in adds[0].a[2] if not cs and any(x.tag == "eff" and x.a[0] == "WalkBuilder::add" and any(u.tag == "elem" and u.a[0] is over for u in subterms(x.a[1][1])) for x in ef)]
        part = [cs for cs, ef in adds[0].a[2] if cs and any(x.tag == "eff" and x.a[0] == "WalkBuilder::add" for x in ef)]
        left = over.tag == "itrest" and over.a[0].tag == "it" and not over.a[0].a[2]
        src = over_of(over) if nm(over) in ("tail", "init") else over.a[0].a[0] if left else over
        same = source(src) is given and (nm(over) == rest or left and one(p0) and src is p0.a[0])
        if full and same and len(adds[0].a) == 4:
            R.proved(rule, case, f"the {which} path and each of the others is walked")
        elif full and src is over and source(over) is given:
            R.violated(rule, case, f"the {which} path is walked twice")
        elif part:
            R.violated(rule, case, "some of the given paths are not walked")
        else:
            R.undecided(rule, case, f"paths added: {show(over)[:100]}")


def source(t):
    """the argument a list of paths is made from, one element each"""
    while True:
        if nm(t) in ("first", "last", "slice::first", "slice::last", "tail", "init") or one(t):
            t = over_of(t)
        elif t.tag == "comp" and len(t.a[3]) == 1 and not next(iter(t.a[3]))[0]:
            t = t.a[0]
        elif t.tag in WHOLE:
            t = t.a[0]
        else:
            return t if t.tag == "arg" else None


def check(R):
    R.program("workspace", "fs")
    V = []
    R.guard(lambda: V.append(walk.Visit(R)), "C35.visit", walk.DISCOVER)
    if not V:
        return
    V = V[0]
    R.guard(lambda: start(R, V), "C35.start", V.build)
    R.guard(lambda: visits(R, V), "C35.visit", V.visit)
    places = set()
    R.guard(lambda: places.update(drops(R, V)), "C35.drop", V.build)
    R.guard(lambda: result(R, V, places), "C35.result", walk.DISCOVER)
    R.guard(lambda: walked(R, V), "C35.walk", walk.DISCOVER)
