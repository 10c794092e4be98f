"""C08: every option takes effect on its own setting and on no other."""
from terms import *
from cases import *
import cli, flow, lang, mir, walk, words as W
from report import Missing, NoFacts

LEVEL = "proof"
TECHNIQUE = "gated value-numbering dataflow from the configuration keys (serde's derived recognisers, as languages) through the settings to the formatter's options and the printer's; case tables per option over MIR summaries"
EXPLANATION = ("For each key the field it fills is computed from the derived recogniser; the value of every setting is computed as a term over the option fields (with its conditions), and compared, for the option given, absent, and the whole section absent, "
               "with the option's own value or its default, whatever the other options are. The chain into the formatter's options, each setter, getter and the printer's accessors are followed field by field.")
TOML = "TomlOptions"
INTO = "workspace::toml_options::TomlOptions::into_settings"
DEFAULT = "<workspace::settings::FormatSettings as core::default::Default>::default"
TOOPT = "workspace::settings::FormatSettings::to_format_options"
RFO = "air_r_formatter::context::RFormatOptions"

# key -> setting; the settings an option may influence
KEYS = {"line-width": "line_width", "indent-width": "indent_width", "indent-style": "indent_style", "line-ending": "line_ending", "persistent-line-breaks": "persistent_line_breaks",
        "assignment-style": "assignment_style", "exclude": "exclude", "default-exclude": "default_exclude", "skip": "skip", "table": "table", "default-table": "table"}
PLAIN = ("line-width", "indent-width", "indent-style", "line-ending", "assignment-style")


def resolve(v, conds, depth=0):
    """[(value, conds)] the gated value v may have under conds"""
    if v.tag != "ite":
        if v.tag == "adt" and any(isinstance(x, T) and x.tag == "ite" for x in v.a[2]) and depth < 6:
            out = [((), conds)]
            for x in v.a[2]:
                out = [(done + (y,), c2) for done, c in out for y, c2 in resolve(x, c, depth + 1)]
                if len(out) > 200:
                    return [(v, conds)]
            return [(mk("adt", v.a[0], v.a[1], d, v.a[3]), c) for d, c in out]
        return [(v, conds)]
    out = []
    for c, x in v.a[0]:
        j = meet(conds, dict(c))
        if j is None:
            continue
        out += resolve(x, j, depth + 1)
        if all(conds.get(t) is not None and c_and(conds[t], k) == conds[t] for t, k in dict(c).items()):
            break
    return out


def key_fields(R):
    """{key: field of FormatTomlOptions} composed from the derived recogniser"""
    adt = W.adt_name(R, "FormatTomlOptions", "workspace")
    vs = W.serde_identifier(R, "C08.key", adt)
    names = list(R.prog.adt(adt)["variants"][0]["fields"]) if "fields" in R.prog.adt(adt)["variants"][0] else None
    names = [f[0] if isinstance(f, (list, tuple)) else f["name"] if isinstance(f, dict) else f for f in names]
    if vs is None:
        R.undecided("C08.key", adt, "Deserialize is not derived")
        return None
    I = R.interp()
    outs = R.summary(vs, "visitor text", I)
    where = R.where(vs).split(" ")[0] + " FormatTomlOptions"
    cs = set(KEYS)
    for s, v in outs:
        cs |= lang.cond_constants(s.conds)
    A = lang.Alphabet(cs)
    table = {}
    try:
        for s, v in outs:
            v = I.deref(v, s)
            if v.tag != "adt" or v.a[1] != "Ok":
                continue
            f = I.deref(v.a[2][0], s)
            if f.tag == "adt" and f.a[1].startswith("__field"):
                L = A.conds(s.conds, mk("arg", "text"))
                for k in KEYS:
                    if not (L & A.lit(k)).empty():
                        table.setdefault(k, set()).add(names[int(f.a[1][7:])])
    except lang.Unknown as e:
        R.undecided("C08.key", where, str(e))
        return None
    out = {}
    for k in KEYS:
        fs = table.get(k, set())
        if len(fs) != 1:
            R.violated("C08.key", f"{where}: {k}", f"the key is read into {sorted(fs) or 'nothing'}")
        else:
            out[k] = next(iter(fs))
            R.proved("C08.key", f"{where}: {k}", f"is read into {out[k]}")
    if len(set(out.values())) != len(out):
        R.violated("C08.key", where, f"two keys share a field: {out}")
    # how the values are read: by their own type, without conversion
    vm = W.derived(R, adt, "::visit_map")
    if len(vm) == 1:
        types = {flow.norm_ty(t) for q, a, o, sp in mir.calls(R.prog.fn(vm[0])) if q and q.endswith("MapAccess::next_value") for t in a[1:]}
        odd = [t for t in types if "__DeserializeWith" in t]
        if odd:
            R.undecided("C08.key", where, f"values read through a custom function: {odd}")
    return out


def inputs(t, cond_terms=()):
    """option fields a term looks at"""
    return {u for x in [t, *cond_terms] for u in subterms(x)}


class Model:
    """into_settings as a table"""

    def __init__(self, R, fields):
        self.R, self.fields = R, fields
        self.where = R.where(INTO)
        opq = tuple(p for p in R.prog.fns if p.endswith("::try_from_iter"))
        self.I = R.interp(gate=True, opaque=opq)
        self.outs = []
        self.errs = []
        for s, n, v in split_res(self.I, R.summary(INTO, "self root", self.I)):
            (self.outs if n == "Ok" else self.errs).append((s, v))
        d = R.interp(gate=True, opaque=opq)
        ds = R.summary(DEFAULT, None, d)
        self.default = ds[0][1] if len(ds) == 1 and ds[0][1].tag == "adt" else None
        self.format = project(mk("arg", "self"), "format")
        self.sect = payload(self.format, "Some", 0)

    def opt(self, key):
        return project(self.sect, self.fields[key])

    def value(self, v, setting):
        x = project(v, "format") if v.tag != "adt" or v.a[0].endswith("::Settings") else v
        return project(x, setting)

    def dflt(self, setting):
        return project(self.default, setting)

    def case(self, name, key, setting, conds, expect):
        """expect(value, conds) -> True / False / None / reason, for each possible value of setting"""
        R, n = self.R, 0
        rule, where = "C08.setting", f"{self.where}: {setting} with {name}"
        worst = True
        for s, v in self.outs:
            j = meet(s.conds, conds)
            if j is None:
                continue
            for x, c in resolve(self.value(v, setting), j):
                n += 1
                r = expect(x, c)
                if r is True:
                    continue
                unk = unknown_parts([x], ok=OKPARTS)
                detail = f"when [{show_conds({t: k for t, k in c.items() if 'try_from_iter' not in show(t)[:80]})[:500]}] the setting is {show(x)[:250]}" + (f"; {r}" if isinstance(r, str) else "")
                if r is None or unk:
                    worst = worst and None
                    R.undecided(rule, where, detail + (f"; unknown: {sorted(unk)}" if unk else ""))
                else:
                    worst = False
                    R.violated(rule, where, detail)
                    return False
        if not n:
            # never succeeds with this option
            if self.outs:
                R.violated(rule, where, "options with this value are never turned into settings")
            else:
                R.undecided(rule, where, "no outcome")
            return None
        if worst is True:
            R.proved(rule, where, f"{n} cases, whatever the other options are")
        return worst


OKPARTS = {"ExcludePatterns::try_from_iter", "DefaultFilePatterns::try_from_iter"}
V2 = frozenset(("None", "Some"))


def is_(t, variant, of=V2):
    return {t: ("v", frozenset((variant,)), of)}


def same(x, y, conds):
    """x and y are the same value under conds (None: not known)"""
    if x is y:
        return True
    if y.tag == "adt" and x.tag != "adt":
        x, y = y, x
    if x.tag == "adt" and y.tag == "adt":
        if (x.a[0], x.a[1]) != (y.a[0], y.a[1]):
            return False
        rs = [same(a, b, conds) for a, b in zip(x.a[2], y.a[2])]
        return False if False in rs else None if None in rs else True
    if x.tag == "adt":
        c = conds.get(y)
        if c and c[0] == "v" and c[1] == frozenset((x.a[1],)):
            rs = [same(a, payload(y, x.a[1], i), conds) for i, a in enumerate(x.a[2])]
            return False if False in rs else None if None in rs else True
        if c and c[0] == "v" and x.a[1] not in c[1]:
            return False
    if x.tag == "int" and y.tag == "int":
        return x.a[0] == y.a[0]
    return None


def expect_same(want):
    def f(x, c):
        r = same(x, want, c)
        return True if r is True else f"expected {show(want)[:200]}"
    return f


def settings(R, fields):
    M = Model(R, fields)
    if M.default is None:
        R.undecided("C08.setting", R.where(DEFAULT), "the default settings are not a constant")
        return None
    none = is_(M.format, "None")
    some = is_(M.format, "Some")
    for k in KEYS:
        if k not in fields:
            return None
    for k in PLAIN:
        o, st = M.opt(k), KEYS[k]
        M.case("no format section", k, st, none, expect_same(M.dflt(st)))
        M.case(f"{k} absent", k, st, {**some, **is_(o, "None")}, expect_same(M.dflt(st)))
        M.case(f"{k} given", k, st, {**some, **is_(o, "Some")}, expect_same(payload(o, "Some", 0)))
    # a boolean for an enum
    o, st = M.opt("persistent-line-breaks"), "persistent_line_breaks"
    b = payload(o, "Some", 0)
    plb = M.dflt(st).a[0] if M.dflt(st).tag == "adt" else None
    M.case("no format section", "", st, none, expect_same(M.dflt(st)))
    M.case("persistent-line-breaks absent", "", st, {**some, **is_(o, "None")}, expect_same(M.dflt(st)))
    for val, var in ((True, "Respect"), (False, "Ignore")):
        M.case(f"persistent-line-breaks = {str(val).lower()}", "", st, {**some, **is_(o, "Some"), b: ("b", frozenset((val,)))},
               lambda x, c, var=var: True if x.tag == "adt" and x.a[1] == var or isvar(c, x, var) else f"expected {var}")
    # excludes
    o, st = M.opt("exclude"), "exclude"
    p = payload(o, "Some", 0)

    def none_(x, c):
        return True if x.tag == "adt" and x.a[1] == "None" or isvar(c, x, "None") else "expected no patterns"

    def compiled(x, c):
        if x.tag == "adt" and x.a[1] == "None":
            return "the patterns are not used"
        ps = [u for u in subterms(x) if u.tag == "ecall" and u.a[0] == "ExcludePatterns::try_from_iter"]
        if not ps:
            return "the patterns are not compiled" if not unknown_parts(x, OKPARTS) else None
        for u in ps:
            ar = u.a[1]
            if mk("arg", "root") not in ar:
                return f"the patterns are taken relative to {show(ar[0])[:100]}"
            it = [a for a in ar if a is not mk("arg", "root")][0]
            if it.tag == "it" or op(it) == "it":
                src, rev, stages = (it.a if it.tag == "it" else args(it))[:3]
                if src is not p:
                    return f"compiles {show(src)[:100]}" if not unknown_parts(src) else None
                if any(sg[0] not in ("map",) for sg in stages):
                    return "some patterns are left out" if any(sg[0] in ("filter", "take", "skip", "filtermap", "takewhile", "skipwhile", "stepby") for sg in stages) else None
            elif it is not p:
                return None if unknown_parts(it) else None
        return True
    M.case("no format section", "", st, none, none_)
    M.case("exclude absent", "", st, {**some, **is_(o, "None")}, none_)
    M.case("exclude given", "", st, {**some, **is_(o, "Some")}, compiled)
    # default excludes
    o, st = M.opt("default-exclude"), "default_exclude"
    b = payload(o, "Some", 0)
    M.case("no format section", "", st, none, expect_same(M.dflt(st)))
    M.case("default-exclude absent", "", st, {**some, **is_(o, "None")}, expect_same(M.dflt(st)))
    M.case("default-exclude = true", "", st, {**some, **is_(o, "Some"), b: ("b", frozenset((True,)))}, expect_same(M.dflt(st)))
    M.case("default-exclude = false", "", st, {**some, **is_(o, "Some"), b: ("b", frozenset((False,)))}, none_)
    # default include: always
    M.case("any options", "", "default_include", {}, expect_same(M.dflt("default_include")))
    # skip
    o, st = M.opt("skip"), "skip"
    M.case("no format section", "", st, none, expect_same(M.dflt(st)))
    M.case("skip absent", "", st, {**some, **is_(o, "None")}, none_)
    M.case("skip given", "", st, {**some, **is_(o, "Some")}, lambda x, c: True if same(x, o, c) else "expected the functions listed")
    # tables
    o, d, st = M.opt("table"), M.opt("default-table"), "table"
    b = payload(d, "Some", 0)
    M.case("no format section", "", st, none, expect_same(M.dflt(st)))
    strs = {u for u in subterms(M.dflt(st)) if u.tag == "str"}
    off = {**some, **is_(d, "Some"), b: ("b", frozenset((False,)))}
    on = [("default-table absent", {**some, **is_(d, "None")}), ("default-table = true", {**some, **is_(d, "Some"), b: ("b", frozenset((True,)))})]

    def both(x, c):
        subs = set(subterms(x))
        if x.tag == "adt" and x.a[1] == "None":
            return "no function is formatted as a table"
        own = payload(o, "Some", 0) in subs or o in subs
        dflt = strs <= subs or any(op(u) == "const" for u in subs)
        if own and dflt:
            return True
        return ("the functions listed" if not own else "the default functions") + " are lost"
    for n, c in on:
        M.case(n + ", table absent", "", st, {**c, **is_(o, "None")}, expect_same(M.dflt(st)))
        M.case(n + ", table given", "", st, {**c, **is_(o, "Some")}, both)
    M.case("default-table = false, table absent", "", st, {**off, **is_(o, "None")}, none_)
    M.case("default-table = false, table given", "", st, {**off, **is_(o, "Some")}, lambda x, c: True if same(x, o, c) else "expected exactly the functions listed")
    return M


def chain(t):
    ms = []
    while op(t) or t.tag == "ecall":
        ar = args(t) if op(t) else t.a[1]
        name = op(t) or t.a[0]
        if len(ar) != 2 or "::with_" not in name:
            break
        ms.append((name.split("::")[-1], ar[1]))
        t = ar[0]
    return t, ms[::-1]


FORMATTER = ("indent_style", "indent_width", "line_ending", "line_width", "persistent_line_breaks", "assignment_style", "skip", "table")


def options(R):
    """settings to the formatter's options"""
    where = R.where(TOOPT)
    fin = tuple(p for p in R.prog.fns if p.endswith("LineEnding::finalize"))
    I = R.interp(gate=True, opaque=fin)
    me = mk("arg", "self")
    for s, v in R.summary(TOOPT, "self source", I):
        base, ms = chain(v)
        got = {}
        if v.tag == "adt":
            got = {n: project(v, n) for n in FORMATTER}
        else:
            if not (base.tag == "ecall" and base.a[0].split("::")[-1] in ("new", "default") or op(base) and ("default" in op(base) or op(base).endswith("::new"))):
                R.undecided("C08.options", where, f"built from {show(base)[:200]}")
                continue
            for n, x in ms:
                got[n[5:]] = x
        for n in FORMATTER:
            if n not in got:
                R.violated("C08.options", f"{where}: {n}", "the setting is not passed on to the formatter")
                continue
            x = got[n]
            while x.tag in ("ecall", "call") and (x.a[0].endswith(("LineEnding::finalize", "::clone", "::cloned")) or x.a[0].startswith(("From<", "Into<"))):
                x = x.a[1][0] if x.a[0].endswith(("finalize", "clone", "cloned")) else x.a[1][-1]
            own = project(me, n)
            if x is own or same(x, own, s.conds):
                R.proved("C08.options", f"{where}: {n}", "the setting of the same name")
            else:
                other = [m for m in FORMATTER if m != n and project(me, m) in set(subterms(x))]
                unk = unknown_parts(x, ok={"LineEnding::finalize"})
                R.check(None if unk and not other else False, "C08.options", f"{where}: {n}", f"the formatter is given {show(got[n])[:250]}" + (f", which is the setting {other[0]}" if other else ""))


def formatter(R):
    """setters and getters of the formatter's options, and the accessors of the printer"""
    me, x = mk("arg", "self"), mk("arg", "x")
    fields = FORMATTER
    n = 0
    for f in fields:
        p = f"{RFO}::with_{f}"
        if R.prog.fn(p):
            n += 1
            where = R.where(p)
            for s, v in R.summary(p, "self x", R.interp()):
                bad = [g for g in fields if g != f and not same(project(v, g), project(me, g), s.conds)]
                ok = same(project(v, f), x, s.conds)
                R.check(True if ok and not bad else None if unknown_parts(v) else False, "C08.setter", where, f"sets {f} to {show(project(v, f))[:100]}" + (f" and changes {bad}" if bad else ""))
        g = f"{RFO}::{f}"
        if R.prog.fn(g):
            n += 1
            getter(R, g, f, me)
        q = W.impl_fn(R, RFO, "FormatOptions", f)
        if q and R.prog.fn(q):
            n += 1
            getter(R, q, f, me)
    R.floor("C08.setter", "setters and getters of the formatter's options", n, 14)


def getter(R, g, f, me):
    where = R.where(g)
    own = project(me, f)
    for s, v in R.summary(g, "self", R.interp()):
        u = v
        while True:
            k = op(u) or (u.a[0] if u.tag == "ecall" else "")
            if k.startswith(("From<", "Into<", "Option::as_ref", "Option::cloned", "Clone::clone", "TryFrom<", "TryInto<")):
                u = (args(u) or u.a[1])[-1]
            elif u.tag == "fld" and u is not own or u.tag == "pay" and u.a[1] == "Ok":
                u = u.a[0]
            elif u.tag == "adt" and len(u.a[2]) == 1 and u is not own and not any(w is own for w in (u,)) and u.a[0].split("::")[-1] in ("LineWidth", "IndentWidth"):
                u = u.a[2][0]
                if u.tag == "fld":
                    u = u.a[0]
            else:
                break
        ok = u is own or same(u, own, s.conds)
        if not ok:
            subs = set(subterms(v)) | {w for t in s.conds for w in subterms(t)}
            others = [o for o in FORMATTER if o != f and project(me, o) in subs]
            if own in subs and not others:
                if u.tag == "adt" and isvar(s.conds, own, u.a[1]):
                    ok = True
                elif v.tag == "adt" and isvar(s.conds, own, v.a[1]) is False:
                    ok = False
                else:
                    ok = None
            elif others or not unknown_parts(v):
                ok = False
            else:
                ok = None
        R.check(ok, "C08.getter", where, f"returns {show(v)[:200]} when [{show_conds(s.conds)[:100]}]")


def used(R):
    """the options that change layout are consulted by the formatting rules"""
    want = {"persistent_line_breaks": 1, "assignment_style": 1, "skip": 1, "table": 1}
    for f in want:
        path = f"{RFO}::{f}"
        us = [p for p in R.prog.fns if p.startswith(("air_r_formatter::", "<air_r_formatter::")) and "context" not in p and any(q == path for q, *_ in mir.calls(R.prog.fn(p)))]
        R.sites += len(us)
        R.check(bool(us), "C08.used", f"{path}", f"consulted by {len(us)} functions: {[u.split('::')[-1] for u in us][:8]}" if us else "no formatting rule looks at this option")


def given(R, rule, where, t, want, what, is_type=""):
    """t is the options handed in, unchanged"""
    t = cli.strip(t)
    if t is want:
        return R.proved(rule, where, what)
    # setters, clones with other fields, defaults
    made = t.tag in ("upd", "adt") or cli.fname(t).endswith(("::default", "::new")) or cli.fname(t).startswith("RFormatOptions::with_") or t.tag == "fld"
    R.check(False if made else None, rule, where, f"the options handed on are {show(t)[:150]}")


def pipeline(R):
    """the options made for a text reach the formatting rules unchanged"""
    rule = "C08.pipeline"
    for fn, names in ((cli.FORMAT_SOURCE, "source options"),):
        S = cli.Source(R, fn, names)
        n = 0
        for s, k, v in S.outs:
            for u in S.nodes(s):
                n += 1
                given(R, rule, f"{S.where}: {show_conds(s.conds)[-80:]}", u.a[1][0], S.options, "formats with the options it was given")
        if not n:
            R.undecided(rule, S.where, "no formatting call")


def context(R):
    rule = "C08.pipeline"
    fn = "air_r_formatter::format_node"
    R.fn(fn)
    I = R.interp()
    opts = mk("arg", "options")
    n = 0
    for s, v in R.summary(fn, "options root", I):
        for e in s.eff:
            if e.tag == "eff" and e.a[0] in ("biome_formatter::format_node", "biome_formatter::format_node_with_offset"):
                n += 1
                lang_ = e.a[1][1]
                if lang_.tag != "adt":
                    R.undecided(rule, R.where(fn), f"formats with {show(lang_)[:100]}")
                    continue
                fields = [f for f, x in zip(lang_.a[3], lang_.a[2]) if any(y is opts for y in subterms(x))] or list(lang_.a[3])
                given(R, rule, R.where(fn), project(lang_, fields[0]), opts, "formats with the options it was given")
                language(R, rule, lang_, fields[0])
    if not n:
        R.undecided(rule, R.where(fn), "no formatting call")


def language(R, rule, lang_, field):
    P = R.prog
    me = mk("fld", mk("arg", "language"), field)
    f = walk.method(P, "biome_formatter::FormatLanguage", "options", lang_.a[0])
    g = walk.method(P, "biome_formatter::FormatLanguage", "create_context", lang_.a[0])
    for fn, names in ((f, "language"), (g, "language root source_map")):
        if fn is None:
            R.undecided(rule, lang_.a[0], "FormatLanguage is not implemented here")
            continue
        R.fn(fn)
        I = R.interp()
        for s, v in R.summary(fn, names, I):
            if fn is f:
                given(R, rule, R.where(fn), v, me, "the options of the language")
                continue
            c = v
            if c.tag != "adt" or "options" not in c.a[3]:
                c = None
            if c is None:
                R.undecided(rule, R.where(fn), f"the context is {show(v)[:120]}")
                continue
            given(R, rule, R.where(fn), project(c, "options"), me, "the context has the options of the language")
            h = walk.method(P, "biome_formatter::FormatContext", "options", c.a[0])
            if h is None:
                R.undecided(rule, c.a[0], "FormatContext is not implemented here")
                continue
            R.fn(h)
            for s2, v2 in R.summary(h, "context", R.interp()):
                given(R, rule, R.where(h), v2, mk("fld", mk("arg", "context"), "options"), "the options of the context")


def check(R):
    R.program("workspace", "settings", "line_ending")
    fields = R.guard(lambda: key_fields(R), "C08.key", "FormatTomlOptions")
    if fields:
        R.guard(lambda: settings(R, fields), "C08.setting", INTO)
    R.guard(lambda: options(R), "C08.options", TOOPT)
    try:
        R.program("air_r_formatter", "settings", "line_ending")
        R.guard(lambda: formatter(R), "C08.setter", RFO)
        R.guard(lambda: used(R), "C08.used", RFO)
        R.guard(lambda: context(R), "C08.pipeline", "air_r_formatter::format_node")
        R.program(*cli.ALL)
        R.guard(lambda: pipeline(R), "C08.pipeline", cli.FORMAT_SOURCE)
    except NoFacts:
        pass
