"""C12: configuration files are found by one rule everywhere."""
from terms import *
from cases import *
import flow, globs, lang, mir, words as W
from report import Missing, NoFacts

LEVEL = "proof"
TECHNIQUE = "case tables over MIR summaries of the lookup functions, loop-exit analysis of the search upwards, regular-language comparison of the recognised and the watched file names, origin analysis at the call sites"
EXPLANATION = ("The lookup in one directory is compared, for the four combinations of the two files being there, with the rule; the loops that search upwards are recognised as `first ancestor, from the path itself outwards, where the lookup finds a file`; "
               "the names the language server takes for configuration files and the globs it watches are computed as languages; where discovered settings are stored, the directory and settings are traced to the same discovered item.")
DIR = "workspace::toml::find_air_toml_in_directory"
NAMES = ("air.toml", ".air.toml")


def strip(t):
    while op(t) and (op(t).startswith(("From<", "Into<", "Into::", "AsRef", "PathBuf::as_path", "Path::to_path_buf", "ToOwned")) and t.tag in ("call", "ecall")):
        t = args(t)[-1]
    return t


def joined(t):
    """(directory, name) of a joined path"""
    t = strip(t)
    if op(t) == "Path::join" and args(t)[1].tag == "str":
        return strip(args(t)[0]), args(t)[1].a[0]
    return None


def directory(R):
    R.fn(DIR)
    where = R.where(DIR)
    pth = mk("arg", "path")
    I = R.interp()
    rows = {}
    outs = [(s, "None" if v is None else "Some", v) for s, v in split_opt(I, R.summary(DIR, "path", I))]
    tests = {}
    odd = set()
    for s, n, v in outs:
        for t, c in s.conds.items():
            j = joined(args(t)[0]) if op(t) in ("Path::is_file", "Path::exists", "Path::is_dir", "Path::metadata", "fs::metadata", "Path::try_exists") and c[0] in ("b", "v") else None
            if j and j[0] is pth and op(t) == "Path::is_file":
                tests[t] = j[1]
            elif j and j[0] is pth:
                odd.add(f"{show(t)} decides")
            else:
                odd.add("")
    if any(odd):
        R.violated("C12.lookup", where, f"{sorted(odd)[-1]}, which is not whether the file is there: a directory of that name would count, or a link" if "" not in odd else sorted(odd)[-1])
        return
    if odd:
        R.undecided("C12.lookup", where, "conditions other than the two files being there: " + "; ".join(show_conds(s.conds)[:150] for s, n, v in outs)[:400])
        return
    for a in (True, False):
        for b in (True, False):
            want = "air.toml" if a else ".air.toml" if b else None
            facts = {t: ("b", frozenset(({"air.toml": a, ".air.toml": b}.get(n),))) for t, n in tests.items() if n in NAMES}
            k = 0
            case = f"air.toml {'there' if a else 'not there'}, .air.toml {'there' if b else 'not there'}"
            for s, n, v in outs:
                j = meet(s.conds, facts)
                if j is None:
                    continue
                # files of other names may or may not be there
                k += 1
                if n == "None":
                    got = None
                else:
                    jn = joined(v)
                    if not jn or jn[0] is not pth:
                        R.check(None if unknown_parts(v) else False, "C12.lookup", f"{where}: {case}", f"returns {show(v)[:200]}")
                        continue
                    got = jn[1]
                R.check(got == want, "C12.lookup", f"{where}: {case}", f"finds {got}, the rule says {want}" + (f" when [{show_conds(s.conds)[:200]}]" if got != want else ""))
            if not k:
                R.undecided("C12.lookup", f"{where}: {case}", "no outcome")


KNOWN = {"toml::find_air_toml_in_directory", "fs::normalize_path", "toml::parse_air_toml", "TomlOptions::into_settings", "toml_options::TomlOptions::into_settings", "Path::is_file", "Path::is_dir", "Path::exists", "phi", "prefix", "fold"}


def odd(ts):
    """operations in ts this rule does not understand; what was visited before does not matter to it"""
    ts = list(ts) if isinstance(ts, (list, tuple, dict, frozenset)) else [ts]
    m = {args(u)[0]: Str("visited") for t in ts for u in subterms(t) if op(u) == "set_contains"}
    return {u for u in unknown_parts([subst(t, m) for t in ts]) if u not in KNOWN and not u.startswith("after")}


def is_find(t):
    return t.tag == "ecall" and t.a[0].endswith("find_air_toml_in_directory")


def ancestors(t):
    """the path whose ancestors are walked from itself outwards, if t is that walk"""
    if op(t) == "it" or t.tag == "it":
        src, rev, stages = (t.a if t.tag == "it" else args(t))[:3]
        if rev or stages:
            return None
        t = src
    return strip(args(t)[0]) if op(t) == "Path::ancestors" else None


def first_found(R, rule, where, t, seen_ok):
    """t: the ancestor the search stops at. Verdict on where it starts and what stops it."""
    if t.tag == "elem" and ancestors(t.a[0]) is not None:
        return False, "the search goes on after a directory with a file: directories further out are stored too"
    if t.tag not in ("found",):
        return None, f"{show(t)[:200]}"
    over, which, dnf = t.a[0], t.a[1], t.a[2]
    start = ancestors(over)
    if start is None:
        bad = not odd(over) and any(op(u) in ("Path::ancestors", "Path::parent") for u in subterms(over))
        return (False if bad else None), f"walks {show(over)[:200]}"
    if which != "first":
        return False, f"takes the {which} directory with a file"
    el = None
    for d in dnf:
        for t2, c in d:
            for u in subterms(t2):
                if u.tag == "elem" and ancestors(u.a[0]) is start:
                    el = u
    if el is None:
        return None, "the condition to stop does not look at the directory"
    hit = None
    for d in dnf:
        d = dict(d)
        finds = [t2 for t2 in d if is_find(t2) and strip(t2.a[1][0]) is el and isvar(d, t2, "Some")]
        seen = [t2 for t2 in d if op(t2) == "set_contains" and truth(d, t2) is True and strip(args(t2)[1]) is el]
        extra = [t2 for t2 in d if t2 not in finds and not (op(t2) == "set_contains" and strip(args(t2)[1]) is el) and not (is_find(t2) and strip(t2.a[1][0]) is el)]
        if finds:
            if extra:
                return None, f"a file found counts only when [{show_conds(d)[:300]}]"
            hit = True
        elif seen and seen_ok and not extra:
            continue
        else:
            return (None if odd(d) or not seen_ok and seen else False), f"also stops when [{show_conds(d)[:300]}]"
    if not hit:
        return False, "does not stop at a directory which has a file"
    return start, "stops at the first directory, from the path itself outwards, where the lookup finds a file"


def upwards(R):
    opq = (DIR,)
    fn = "workspace::toml::find_air_toml"
    if not R.prog.fn(fn):
        return
    where = R.where(fn)
    I = R.interp(opaque=opq)
    pth = mk("arg", "path")
    for s, v in split_opt(I, R.summary(fn, "path", I)):
        if v is None:
            ex = [t for t, c in s.conds.items() if t.tag == "exists" and truth(s.conds, t) is False]
            okay = False
            for t in ex:
                start = ancestors(t.a[0])
                if start is pth and all(any(is_find(x) and isvar(dict(d), x, "Some") for x in dict(d)) for d in t.a[2]) and all(len(d) == 1 for d in t.a[2]):
                    okay = True
            R.check(okay or None, "C12.search", where, f"finds nothing when [{show_conds(s.conds)[:200]}]")
            continue
        v = strip(v)
        if not (v.tag == "pay" and is_find(v.a[0])):
            # the files are looked for without the lookup: the first directory with either must be found
            j = joined(v)
            dirs = {frozenset(t2 for d in u.a[2] for t2 in dict(d)) for u in subterms(v) if u.tag == "found" and ancestors(u.a[0]) is pth}
            names = {frozenset(joined(args(t2)[0])[1] for t2 in ts if op(t2) == "Path::is_file" and joined(args(t2)[0])) for ts in dirs}
            one = j and names and all(len(n2) < 2 for n2 in names) and not odd(v)
            R.check(False if one else None, "C12.search", where, f"returns {show(v)[:200]}" + ("; the search for one name goes past a directory which has the other" if one else ""))
            continue
        ok, why = first_found(R, "C12.search", where, strip(v.a[0].a[1][0]), False)
        R.check(None if ok is None else False if ok is False else True if ok is pth else None, "C12.search", where, why)


PARSE = ("parse_settings",)


def discovery(R):
    fn = "workspace::discovery::discover_settings"
    R.fn(fn)
    where = R.where(fn)
    opq = (DIR,) + tuple(p for p in R.prog.fns if p.endswith(("::parse_air_toml", "::into_settings", "fs::normalize_path")))
    I = R.interp(opaque=opq)
    outs = split_res(I, R.summary(fn, "paths", I))
    n = 0
    for s, res, v in outs:
        if res != "Ok":
            continue
        items = {u for u in subterms(v) if u.tag == "adt" and u.a[0].endswith("::DiscoveredSettings")}
        for it in items:
            n += 1
            d, st = strip(project(it, "directory")), project(it, "settings")
            # settings: <into_settings(parse(<find(X)>.Some).Ok, X)>.Ok
            w = f"{where}: discovered item"
            x = st
            if x.tag == "pay" and x.a[1] == "Ok":
                x = x.a[0]
            if not (x.tag == "ecall" and x.a[0].endswith("into_settings")):
                R.check(None, "C12.discovery", w, f"settings {show(st)[:200]}")
                continue
            opts, root = x.a[1]
            root = strip(root)
            R.check(True if root is d else None if odd(root) else False, "C12.discovery", w, "the settings are rooted at the directory they are stored for" if root is d else f"stored for {show(d)[:150]}, rooted at {show(root)[:150]}")
            o = opts.a[0] if opts.tag == "pay" else opts
            if not (o.tag == "ecall" and o.a[0].endswith("parse_air_toml")):
                R.check(None, "C12.discovery", w, f"options {show(opts)[:200]}")
                continue
            p = strip(o.a[1][0])
            if not (p.tag == "pay" and is_find(p.a[0])):
                R.check(None if odd(p) else False, "C12.discovery", w, f"reads {show(p)[:200]}, not what the lookup finds")
                continue
            R.check(strip(p.a[0].a[1][0]) is d, "C12.discovery", w, "the file read is the one the lookup finds in the directory the settings are stored for" if strip(p.a[0].a[1][0]) is d else f"the file is looked for in {show(p.a[0].a[1][0])[:150]}, stored for {show(d)[:150]}")
            ok, why = first_found(R, "C12.discovery", where, d, True)
            if ok is None or ok is False:
                R.check(ok, "C12.discovery", w, why)
                continue
            R.proved("C12.discovery", w, why)
            source(R, where, ok)
        if items:
            skipped(R, where, v)
    R.floor("C12.discovery", "places which store discovered settings", n, 1) if n else R.undecided("C12.discovery", where, "no discovered item recognised")


def source(R, where, start):
    """the walk starts at each given path, made absolute"""
    t = start
    if t.tag == "elem" and t.a[0].tag == "comp":
        comp = t.a[0]
        cases = comp.a[3]
        if len(cases) != 1 or any(dict(c) for c, _ in cases):
            R.check(None, "C12.discovery", where, f"some paths are left out: {show(comp)[:200]}")
            return
        over, val = comp.a[0], next(iter(cases))[1]
    elif t.tag in ("ecall", "call"):
        over, val = None, t
    else:
        R.check(None if unknown_parts(t) else False, "C12.discovery", where, f"the walk starts at {show(t)[:200]}, which need not be absolute: the directories above the working directory would not be searched")
        return
    norm = op(val) is not None and op(val).endswith(("normalize_path", "absolutize", "path::absolute", "canonicalize"))
    elem = strip(args(val)[0]) if norm else strip(val)
    ok = norm and elem.tag == "elem" and elem.a[0] is mk("arg", "paths")
    if ok:
        R.proved("C12.discovery", where, "the walk starts at every given path, made absolute")
    else:
        R.check(None if norm or unknown_parts(val) else False, "C12.discovery", where, f"the walk starts at {show(val)[:200]}, which need not be absolute")


def skipped(R, where, v):
    """a path contributes nothing only when no ancestor has a file or the ancestor was already visited"""
    while v.tag == "adt" and len(v.a[2]) == 1:
        v = v.a[2][0]
    if v.tag != "comp":
        R.undecided("C12.discovery", where, f"the list is {show(v)[:150]}")
        return
    for conds, val in v.a[3]:
        d = dict(conds)
        bad = []
        for t, c in d.items():
            if t.tag == "exists" and ancestors(t.a[0]) is not None and truth(d, t) is True:
                continue
            if is_find(t) and isvar(d, t, "Some"):
                continue
            if op(t) == "set_contains" and truth(d, t) is False:
                continue
            if op(t) is not None and isvar(d, t, "Ok"):
                continue
            bad.append(show_cond(t, c)[:200])
        R.check(None if bad else True, "C12.discovery", where, f"a file found is stored only if {bad}" if bad else "every file found is stored, unless its directory was visited before")


def recogniser(R):
    fn = "workspace::toml::is_air_toml"
    R.fn(fn)
    where = R.where(fn)
    I = R.interp()
    outs = split_bool(I, R.summary(fn, "path", I))
    root = mk("arg", "path")
    cs = {"/", ".", "x"} | set(NAMES)
    for s, b in outs:
        cs |= lang.cond_constants(s.conds)
    A = lang.Alphabet(cs)
    U, got = A.paths(), A.none
    try:
        for s, b in outs:
            if b:
                got = got | A.conds(s.conds, root)
    except lang.Unknown as e:
        R.undecided("C12.name", where, str(e))
        return
    w = A.cat(A.eps | A.cat(A.all, A.lit("/")), A.lit(NAMES[0]) | A.lit(NAMES[1])) & U
    g = got & U
    if g == w:
        R.proved("C12.name", where, "takes exactly the paths whose last component is air.toml or .air.toml for configuration files")
        return
    d1, d2 = A.definite(g - w).witness(), A.definite(w - g).witness()
    if d1 is not None:
        R.violated("C12.name", where, f"{d1!r} is taken for a configuration file, which discovery never reads")
    if d2 is not None:
        R.violated("C12.name", where, f"a change of {d2!r} is not noticed, though discovery reads it")
    if d1 is None and d2 is None:
        R.undecided("C12.name", where, "differs only where text lengths are not known")


def watchers(R):
    """the globs registered with the client"""
    pats, where, unknown = [], None, []
    for name, f in sorted(R.prog.fns.items()):
        if not name.startswith(("lsp::", "<lsp::")) or "::test" in name:
            continue
        for b in f["body"]["blocks"]:
            for st in b[1]:
                r = st[1]
                if isinstance(r, list) and r[0] == "agg" and r[1] == "adt" and r[2].endswith("::GlobPattern"):
                    where = f"{st[2][0]}:{st[2][1]} {name}"
                    R.saw(f)
                    if r[3] != "String":
                        unknown.append(f"{r[3]} pattern")
                        continue
                    for o in mir.origins(f, r[4][0]):
                        (pats.append(o[1].strip("'\"")) if o[0] == "const" else unknown.append(str(o)))
                if isinstance(r, list) and r[0] == "agg" and r[1] == "adt" and r[2].endswith("::FileSystemWatcher"):
                    k = r[4][r[5].index("kind")]
                    if not all(o[0] == "agg" and o[2] == "None" for o in mir.origins(f, k)):
                        unknown.append("kind " + str(mir.origins(f, k)))
    if where is None:
        R.undecided("C12.watch", "language server", "no registration of watched files found")
        return
    # constants in the function which are globs for these names, when the flow is not straight
    if unknown:
        R.undecided("C12.watch", where, f"watched patterns not traced: {unknown[:3]}")
        return
    A = lang.Alphabet({"/", ".", "x"} | set(NAMES) | set(pats))
    got = A.none
    for p in pats:
        r = globs.glob(A, p)
        if r is None:
            R.undecided("C12.watch", where, f"glob {p!r}")
            return
        got = got | r
    U = A.paths()
    for n in NAMES:
        w = A.cat(A.eps | A.cat(A.all, A.lit("/")), A.lit(n)) & U
        miss = (w - got).witness()
        R.check(miss is None, "C12.watch", f"{where}: {n}", f"watched at any depth by {pats}" if miss is None else f"{miss!r} is not watched (patterns {pats}), though discovery reads it")


def stored(R):
    """every discovered item is stored under its own directory"""
    n = 0
    for name, bb, aa, sp in mir.sites(R.prog, "PathResolver::<T>::add"):
        f = R.prog.fn(name)
        if not name.startswith(("air::", "<air::", "lsp::", "<lsp::")) or "::test" in name:
            continue
        if f["body"]["blocks"][bb][2][1][1]["args"][0] != "workspace::settings::Settings":
            continue
        n += 1
        R.saw(f)
        where = f"{sp[0]}:{sp[1]} {name}"
        for what, o in (("directory", aa[1]), ("settings", aa[2])):
            org = mir.origins(f, o)
            fields = {x[2][-1][1] for x in org if x[0] == "field"}
            if len(org) == 1 and fields == {what} and "DiscoveredSettings" in str(org):
                R.proved("C12.stored", where, f"stores the discovered item's {what}")
            else:
                R.undecided("C12.stored", where, f"{what} from {sorted(map(str, org))[:2]}")
    R.floor("C12.stored", "places which store discovered settings", n, 1)


def check(R):
    R.program("workspace", "fs")
    R.guard(lambda: directory(R), "C12.lookup", DIR)
    R.guard(lambda: upwards(R), "C12.search", "find_air_toml")
    R.guard(lambda: discovery(R), "C12.discovery", "discover_settings")
    R.guard(lambda: recogniser(R), "C12.name", "is_air_toml")
    try:
        R.program("air", "lsp", "workspace")
        R.guard(lambda: watchers(R), "C12.watch", "watchers")
        R.guard(lambda: stored(R), "C12.stored", "add")
    except NoFacts:
        pass
