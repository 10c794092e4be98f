"""C15: exclude patterns follow gitignore rules relative to their configuration."""
from terms import *
from cases import *
import flow, lang, globs, words as W
from report import Missing
from flow import State

LEVEL = "proof"
TECHNIQUE = "value-numbering dataflow over MIR: loop summaries of the pattern builders, case tables of the match results, provenance of root and pattern list"
EXPLANATION = ("The value of each matcher is reconstructed as the chain of builder calls that made it and must add every listed pattern unchanged, in order, for the given root, failing when one is invalid; "
               "each match function must answer exactly when the library's answer is Ignore, asked about the path and directory flag it was given; the parent walk must ask every ancestor as a directory; "
               "the configuration must pass its own directory and its whole exclude list.")
M = "workspace::file_patterns::"
FP, DP = M + "FilePatterns", M + "DefaultFilePatterns"
self_, path_, isdir = mk("arg", "self"), mk("arg", "path"), mk("arg", "is_directory")
root_, patterns = mk("arg", "root"), mk("arg", "patterns")


def same(t):
    return globs.strip(t)


def unwrap_matcher(v):
    """the library matcher inside wrapper structs"""
    while v.tag == "adt" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def each_pattern(R, rule, where, item):
    """one loop over the pattern list: adds every element unchanged"""
    _, base, depth, cases, rev = item
    if rev:
        R.violated(rule, where, "the patterns are added in reverse order, so that the first matching one would decide")
        return
    b = same(base)
    el = {mk("elem", base, depth), mk("elem", b, depth)}
    if b is not patterns:
        bad = b.tag in ("filter", "take", "skip", "rev", "dedup", "sorted", "filtermap") or op(b) in ("Iterator::skip", "Iterator::take", "Iterator::step_by", "Iterator::rev", "slice")
        if b.tag == "comp":
            bad = not unknown_parts(b)
        R.check(False if bad else None, rule, where, f"the patterns added come from {show(base)[:200]}, not from the list as given")
        return
    n = 0
    for conds, v in cases:
        cm = dict(conds)
        v0 = v
        added = []
        while v0.tag == "after" and v0.a[0].startswith(globs.BUILDER):
            added.append(v0)
            v0 = v0.a[1][0]
        if v0.tag != "phi":
            R.undecided(rule, where, "loop body: " + show(v)[:300])
            return
        unk = unknown_parts(list(cm), ok=(globs.BUILDER + "add_line",)) - {"phi", "after GitignoreBuilder::add_line"}
        for a in added:
            if a.a[0] != globs.BUILDER + "add_line":
                R.check(None, rule, where, "the loop also calls " + a.a[0])
                return
            x = same(a.a[1][2])
            if x not in el:
                # another text than the element
                if x in (payload(e, "Some", 0) for e in el):
                    continue
                known = not (unknown_parts(x) - {"phi"})
                R.check(False if known else None, rule, where, f"the text added for a pattern is {show(x)[:200]}, not the pattern itself")
                return
            res = mk("ecall", a.a[0], a.a[1], a.a[2])
            ok = isvar(cm, res, "Ok")
            if ok is not True:
                R.check(False if not unk else None, rule, where, "the loop goes on after a pattern that is not valid" + (f"; unknown: {sorted(unk)}" if unk else ""))
                return
        if len(added) > 1:
            R.check(None, rule, where, "a pattern is added more than once")
            return
        if not added:
            # skipped patterns: only the lines that add nothing anyway
            cs = lang.cond_constants(cm)
            A = lang.Alphabet(cs | set("# \t\r\n\x0b\x0c"))
            e = mk("elem", base, depth)
            try:
                L = A.conds({t: c for t, c in cm.items()}, e)
            except lang.Unknown as ex:
                R.undecided(rule, where, "patterns skipped when " + show_conds(cm)[:300] + f" ({ex})")
                return
            w = A.definite(L - globs.skipped_lines(A)).witness()
            if w is not None:
                R.violated(rule, where, f"the pattern {w!r} is never added")
                return
            if not (L - globs.skipped_lines(A)).empty():
                R.undecided(rule, where, "some patterns may be skipped: " + show_conds(cm)[:300])
                return
        n += len(added)
    if not n:
        R.violated(rule, where, "no pattern is ever added")
        return
    R.proved(rule, where, "every listed pattern is added unchanged and in order, and an invalid one ends in an error")


def constructor(R, fn, names, root):
    rule, where = "C15.all-patterns", R.where(fn)
    I = R.interp()
    outs = split_res(I, R.summary(fn, names, I))
    nok = nerr = 0
    build = None
    for s, n, v in outs:
        if n == "Err":
            nerr += 1
            continue
        nok += 1
        m = unwrap_matcher(v)
        ch = globs.matcher(m)
        failed = [t for t in s.conds if t.tag == "ecall" and t.a[0].startswith(globs.BUILDER) and isvar(s.conds, t, "Err")]
        if failed:
            R.violated("C15.invalid", where, f"succeeds although {failed[0].a[0]} failed, with the matcher {show(m)[:200]}")
            continue
        if ch and any(i[0] == "cut" for i in ch[1]):
            R.violated(rule, where, "the patterns after some listed one are not added")
            continue
        if ch is None:
            R.undecided(rule, where, "matcher built as " + show(m)[:300])
            continue
        r, items = ch
        ok = same(r) is root or (root is Str("") and r.tag == "str" and r.a[0] == "") or (root is Str("") and op(r) in ("PathBuf::new",))
        R.check(True if ok else None if unknown_parts(r) else False, "C15.root", where, f"the patterns are resolved relative to {show(r)}")
        conf = [i for i in items if i[0] == "conf" and globs.NEUTRAL.get(i[1]) is not i[2]]
        if conf:
            R.check(False if conf[0][1] in ("case_insensitive", "allow_unclosed_class", "add", "add_str") else None, rule, where, f"the builder is configured with {conf[0][1]}({show(conf[0][2]) if conf[0][2] is not None else ''}), which departs from gitignore rules")
        loops = [i for i in items if i[0] == "each"]
        extra = [i for i in items if i[0] == "one"]
        if extra:
            R.violated(rule, where, f"the pattern {show(extra[0][1])[:100]} is added besides the listed ones")
        if len(loops) == 1:
            each_pattern(R, rule, where, loops[0])
        elif not loops:
            c = [t for t in s.conds if t.tag == "exists" or "GitignoreBuilder" in show(t)]
            R.check(False if not unknown_parts(m, ok=(globs.BUILDER + "new", globs.BUILDER + "build")) and not s.conds.get(call("len", patterns)) else None, rule, where, "no listed pattern is added")
        else:
            R.undecided(rule, where, f"{len(loops)} loops add patterns")
    if not nok:
        R.undecided(rule, where, "never succeeds")
    # an invalid pattern or set of patterns is an error
    R.check(True if nerr else None, "C15.invalid", where, f"{nerr} failing outcomes")


def lib_match(name, recv, p, d):
    return call("Gitignore::" + name, recv, p, d)


def same_match(m, name, recv, p, d):
    """is the term m that library call, up to conversions of its operands"""
    if op(m) != "Gitignore::" + name or len(args(m)) != 3:
        return False
    a = args(m)
    return same(a[0]) is recv and same(a[1]) is p and a[2] is d


ALL3 = frozenset(("Ignore", "None", "Whitelist"))


def ignore_when(R, fn, name, recv):
    """Some(payload) exactly when the library answers Ignore"""
    rule, where = "C15.match", R.where(fn)
    I = R.interp()
    outs = split_opt(I, R.summary(fn, "self path is_directory", I))
    m = lib_match(name, recv, path_, isdir)
    canon(outs, name, recv)
    spec = [("ignored", {m: ("v", frozenset(("Ignore",)), ALL3)}, lambda v, s, j: v is payload(m, "Ignore", 0)),
            ("not matched", {m: ("v", frozenset(("None",)), ALL3)}, lambda v, s, j: v is None),
            ("negated", {m: ("v", frozenset(("Whitelist",)), ALL3)}, lambda v, s, j: v is None)]
    others = {u for s, v in outs for t in list(s.conds) + ([v] if v is not None else []) for u in subterms(t) if op(u) and op(u).startswith("Gitignore::") and u is not m}
    for u in others:
        R.violated(rule, where, f"asks {show(u)[:200]}, not {show(m)}")
    if not others:
        table(R, rule, where, I, outs, spec)


def canon(outs, *a):
    return outs


def parents_walk(R):
    """the closest ignoring pattern of the path itself or, as a directory, of any ancestor"""
    fn = DP + "::matched_path_or_any_parents"
    rule, where = "C15.parents", R.where(fn)
    I = R.interp()
    outs = split_opt(I, R.summary(fn, "self path is_directory", I))
    own = lib_match("matched", project(self_, "matcher"), path_, isdir)
    ig = ("v", frozenset(("Ignore",)), ALL3)
    exs = {t for s, v in outs for t in s.conds if t.tag == "exists"}
    if len(exs) != 1:
        lib = {u for s, v in outs for t in list(s.conds) + ([v] if v is not None else []) for u in subterms(t) if op(u) and op(u).startswith("Gitignore::")}
        if lib == {lib_match("matched_path_or_any_parents", project(self_, "matcher"), path_, isdir)}:
            R.violated(rule, where, "uses the library's walk over parents, which panics on absolute paths when the root is empty")
        elif lib and not any(unknown_parts(list(s.conds) + ([v] if v is not None else [])) for s, v in outs) and not any(s.eff for s, v in outs):
            R.violated(rule, where, "parent directories are not considered")
        else:
            R.undecided(rule, where, f"{len(exs)} searches over parents: {[show(t)[:200] for t in exs]}")
        return
    ex = exs.pop()
    bs, depth, cases = ex.a
    anc, anc1 = call("Path::ancestors", path_), call("Iterator::skip", call("Path::ancestors", path_), Int(1))
    b = same(bs)
    el = mk("elem", bs, depth)
    if b not in (anc, anc1):
        known = any(u is anc for u in subterms(b)) and not unknown_parts(b)
        R.check(False if known else None, rule, where, f"the directories asked about are {show(b)[:200]}, not all ancestors of the path")
        return
    want = lib_match("matched", project(self_, "matcher"), el, TRUE)
    ok = len(cases) == 1
    for cs in cases:
        got = dict(cs)
        if got != {want: ig}:
            ok = False
            R.check(None if unknown_parts(list(got)) else False, rule, where, f"an ancestor counts when {show_conds(got)[:300]}, not when it is matched as a directory")
            break
    if not ok:
        if not cases or len(cases) > 1:
            R.undecided(rule, where, "search cases " + show(ex)[:300])
        return
    fnd = [u for s, v in outs if v is not None for u in subterms(v) if u.tag == "found"]
    spec = [("path itself ignored", {own: ig}, lambda v, s, j: v is payload(own, "Ignore", 0)),
            ("an ancestor ignored", {own: ("v", ALL3 - {"Ignore"}, ALL3), ex: ("b", frozenset((True,)))}, lambda v, s, j: v is not None and v.tag == "pay" and op(v.a[0]) == "Gitignore::matched" and args(v.a[0])[1].tag == "found"),
            ("nothing ignored", {own: ("v", ALL3 - {"Ignore"}, ALL3), ex: ("b", frozenset((False,)))}, lambda v, s, j: v is None)]
    if b is anc:
        # the walk starts at the path itself, as a directory: only right when the path's own flag says so
        R.violated(rule, where, "the path itself is also asked about as a directory")
        return
    table(R, rule, where, I, outs, spec)


def configuration(R):
    """the configuration's directory and its whole exclude list reach the matcher"""
    fn = "workspace::toml_options::TomlOptions::into_settings"
    rule, where = "C15.configuration", R.where(fn)
    tf = W_ctor(R)
    I = R.interp(gate=True, opaque=(tf, DP + "::try_from_iter"))
    outs = split_res(I, R.summary(fn, "self root", I))
    seen = set()
    for s, n, v in outs:
        for t in list(s.conds) + [v] + list(s.eff):
            for u in subterms(t):
                if u.tag in ("ecall", "call") and u.a[0] == short(tf):
                    seen.add(u)
    if not seen:
        unk = set().union(*(unknown_parts(v) for s, n, v in outs)) if outs else {"nothing"}
        R.check(None if unk else False, rule, where, "the exclude list never reaches " + short(tf))
        return
    for u in seen:
        r, pats = same(u.a[1][0]), u.a[1][1]
        R.check(True if r is root_ else None if unknown_parts(r) else False, rule, where, f"patterns relative to {show(r)[:100]}")
        src = whole_list(pats, I)
        want = None
        for x in subterms(pats):
            if x.tag == "fld" and x.a[1] == "exclude":
                want = x
        R.check(True if src is not None and src is want else False if src is False else None, "C15.whole-list", where, f"patterns taken from {show(pats)[:200]}")
    # parse_settings: the directory the configuration was found in
    for g, n in (("workspace::discovery::parse_settings", "toml root_directory"),):
        if R.prog.fn(g) is None:
            continue
        I = R.interp(gate=True, opaque=(fn,))
        outs = R.summary(g, n, I)
        hits = {u for s, v in outs for t in list(s.conds) + [v] + list(s.eff) for u in subterms(t) if u.tag in ("ecall", "call") and u.a[0] == short(fn)}
        for u in hits:
            r = same(u.a[1][1])
            R.check(True if r is mk("arg", "root_directory") else None if unknown_parts(r) else False, "C15.configuration", R.where(g), f"settings are made for {show(r)[:100]}")
        if not hits:
            R.undecided("C15.configuration", R.where(g), "into_settings is not called")


def W_ctor(R):
    for f in ("workspace::settings::exclude_patterns::ExcludePatterns::try_from_iter", FP + "::try_from_iter"):
        if R.prog.fn(f):
            return f
    raise Missing("ExcludePatterns::try_from_iter")


def short(p):
    return "::".join(p.split("::")[-2:])


def whole_list(t, I=None):
    """the list t enumerates, when it is every element of it unchanged; False when some are left out or changed; None unknown"""
    t = same(t)
    if t.tag == "it":
        if t.a[1]:
            return None
        for kind, f in t.a[2]:
            if kind in ("filter", "take_while"):
                return False
            if kind != "map":
                return None
            if f.tag == "fn" and "as_str" in show(f) or f.tag == "fn" and ("as_ref" in show(f) or "deref" in show(f) or "borrow" in show(f)):
                continue
            if I is None:
                return None
            outs = I.call_value(f, [mk("arg", "x")], State({}, {}, ()), 0)
            if any(same(v) is not mk("arg", "x") for _, v in outs):
                return None if unknown_parts([v for _, v in outs]) else False
        return whole_list(t.a[0], I)
    if t.tag in ("iter", "arr_iter", "cloned"):
        return whole_list(t.a[0], I)
    if t.tag == "comp" and len(t.a) == 4:
        el = mk("elem", t.a[0], t.a[2])
        cs = tuple(t.a[3])
        if len(cs) == 1 and not cs[0][0] and same(cs[0][1]) in (el, same(el)):
            return None if t.a[1] else whole_list(t.a[0], I)
        return None if unknown_parts([c for x, _ in cs for c, _ in x] + [v for _, v in cs]) else False
    if t.tag in ("filter", "take", "skip", "truncated") or op(t) in ("Iterator::skip", "Iterator::take", "Iterator::step_by"):
        return False
    if t.tag == "pay" or t.tag in ("fld", "arg"):
        x = t.a[0] if t.tag == "pay" else t
        return x
    return None


def check(R):
    R.program("workspace")
    c = W_ctor(R)
    R.guard(lambda: constructor(R, FP + "::try_from_iter", "root patterns", root_), "C15.all-patterns", FP)
    if c != FP + "::try_from_iter":
        R.guard(lambda: constructor(R, c, "root patterns", root_), "C15.all-patterns", c)
    R.guard(lambda: constructor(R, DP + "::try_from_iter", "patterns", Str("")), "C15.all-patterns", DP)
    m = project(self_, "matcher")
    R.guard(lambda: ignore_when(R, FP + "::matched", "matched", m), "C15.match", FP)
    R.guard(lambda: ignore_when(R, FP + "::matched_path_or_any_parents", "matched_path_or_any_parents", m), "C15.match", FP)
    R.guard(lambda: ignore_when(R, DP + "::matched", "matched", m), "C15.match", DP)
    R.guard(lambda: parents_walk(R), "C15.parents", DP)
    R.guard(lambda: configuration(R), "C15.configuration", "into_settings")
