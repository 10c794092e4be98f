"""Tables between names and values: exact languages of string recognisers, serde's and schemars' derived code."""
import json, os, re
from terms import *
from cases import *
import flow, lang
from report import Missing, REPO


def last(p):
    return flow.strip_generics(p).split("::")[-1] if p else p


def impl_fn(R, selfty, trait, name, targ=None):
    """path of method `name` of `impl trait for selfty` (both given by their last segment or full path); None when there is none"""
    hits = []
    for i in R.prog.impls:
        if not i["trait"] or last(i["trait"]) != trait:
            continue
        st = flow.strip_generics(flow.norm_ty(i["self"]))
        if not (st == selfty or ("::" not in selfty and st.endswith("::" + selfty))):
            continue
        if targ is not None and targ not in (i["traitref"] or ""):
            continue
        for it in i["items"]:
            if it[0] == name:
                hits.append(it[1])
    return hits[0] if len(set(hits)) == 1 else None


def need_impl(R, selfty, trait, name, targ=None):
    p = impl_fn(R, selfty, trait, name, targ)
    if p is None or R.prog.fn(p) is None:
        raise Missing(f"<{selfty} as {trait}{'<' + targ + '>' if targ else ''}>::{name}")
    return p


def adt_name(R, name, crate=None):
    hits = [a for a in R.prog.adts if a.split("::")[-1] == name and (crate is None or a.startswith(crate + "::"))]
    if len(hits) != 1:
        raise Missing((crate + "::" if crate else "") + name)
    return hits[0]


def prefix_only(outs, root):
    """do all conditions of outs look at no more than a fixed number of leading bytes of root (and its length)?"""
    def isroot(t):
        return t is root or op(t) in ("str::as_bytes", "String::as_bytes", "String::as_str") and isroot(args(t)[0])

    def rootlen(t):
        return op(t) == "len" and isroot(args(t)[0])

    def look(t):
        if t is root:
            return False
        if op(t) == "index" and isroot(args(t)[0]) and args(t)[1].tag == "adt" and args(t)[1].a[0].split("::")[-1] in ("RangeTo", "RangeToInclusive"):
            e = args(t)[1].a[2][0]
            return e.tag == "int" or rootlen(e)
        if op(t) in ("len", "str::is_char_boundary", "str::floor_char_boundary"):
            return True
        return all(look(x) for x in kids(t))

    def kids(t):
        def flat(x):
            if isinstance(x, T):
                yield x
            elif isinstance(x, (tuple, list, frozenset)):
                for y in x:
                    yield from flat(y)
        return flat(t.a)
    sliced = any(op(u) == "index" and isroot(args(u)[0]) for s, _ in outs for t in s.conds for u in subterms(t))
    # a whole-text reading counts as bounded only where the text is known to be short
    def ok(s):
        short = any(rootlen(t) and c[0] == "i" and all(hi != float("inf") for _, hi in c[1]) for t, c in s.conds.items())
        return short or all(look(t) for t in s.conds)
    return sliced and all(ok(s) for s, _ in outs)


def languages(R, rule, where, I, outs, root, classify, spec, consts=(), what="texts", ignore=(None,), unbounded=None):
    """outs' texts (conditions on root), grouped by classify(value, state), compared with spec(A) = {key: Lang}.
    True when all agree."""
    cs = set(consts)
    for s, v in outs:
        cs |= lang.cond_constants(s.conds)
    A = lang.Alphabet(cs)
    got = {}
    try:
        for s, v in outs:
            k = classify(v, s)
            if k == "?":
                raise lang.Unknown("result " + (show(v)[:200] if isinstance(v, T) else repr(v)))
            got[k] = got.get(k, A.none) | A.conds(s.conds, root)
    except lang.Unknown as e:
        if unbounded and prefix_only(outs, root):
            R.violated(rule, where, f"the answer only depends on a bounded prefix of the text, but {unbounded}")
            return False
        R.undecided(rule, where, str(e))
        return None
    want = spec(A)
    ok = True
    for k in sorted(set(got) | set(want), key=str):
        if k in ignore:
            continue
        g, w = got.get(k, A.none), want.get(k, A.none)
        name = f"{where}: {what} for {k}"
        if g == w:
            R.proved(rule, name, f"automaton with {len(w.minimal().trans)} states over {len(A.sigma)} character classes")
            continue
        d1, d2 = A.definite(g - w).witness(), A.definite(w - g).witness()
        if d1 is None and d2 is None:
            R.undecided(rule, name, "differs only where text lengths are not known")
            ok = None if ok else ok
            continue
        ok = False
        msg = []
        if d1 is not None:
            msg.append(f"{d1!r} is taken for {k}, which is not its documented spelling")
        if d2 is not None:
            msg.append(f"{d2!r} is not taken for {k}, though it is its documented spelling")
        R.violated(rule, name, "; ".join(msg))
    return ok


def words(table):
    """spec for languages: {key: {word, ...}}"""
    def f(A):
        r = {}
        for k, ws in table.items():
            l = A.none
            for w in ws:
                l = l | A.lit(w)
            r[k] = l
        return r
    return f


def unit_variant(v):
    return v.a[1] if v.tag == "adt" and not v.a[2] else "?"


# ---------------------------------------------------------------- serde and schemars derives
def derived(R, adt, suffix):
    """the functions serde's derive made for adt, by path suffix"""
    return [p for p in R.prog.fns if f"for {adt}>" in flow.norm_ty(p) and p.endswith(suffix)]


def serde_identifier(R, rule, adt, I=None):
    """(visit_str path, outcomes, {__fieldN: ...}) of the identifier visitor derived for adt"""
    vs = [p for p in derived(R, adt, "::visit_str")]
    if len(vs) != 1:
        return None
    return vs[0]


def serde_variants(R, adt):
    """{__Field variant: variant of adt} from the derived visit_enum; None when Deserialize is not derived"""
    ve = derived(R, adt, "::visit_enum")
    if len(ve) != 1:
        return None
    I = R.interp()
    outs = split_res(I, R.summary(ve[0], "visitor data", I))
    table = {}
    for s, n, v in outs:
        if n != "Ok":
            continue
        fields = None
        for t, c in s.conds.items():
            if c[0] == "v" and all(x.startswith("__field") or x.startswith("__other") or x.startswith("__ignore") for x in c[1]):
                fields = c[1]
        if fields is None:
            return None
        for f in fields:
            table.setdefault(f, set()).add(unit_variant(v))
    return table


def serde_writes(R, adt):
    """{variant: names written} from Serialize"""
    p = impl_fn(R, adt, "Serialize", "serialize")
    if p is None or R.prog.fn(p) is None:
        return None
    I = R.interp()
    table = {}
    for s, v in R.summary(p, "self serializer", I):
        names = None
        if op(v) == "Serializer::serialize_unit_variant":
            a = args(v)
            if a[3].tag == "str":
                names = a[3].a[0]
        elif op(v) == "Serializer::serialize_str" and args(v)[1].tag == "str":
            names = args(v)[1].a[0]
        c = s.conds.get(mk("arg", "self"))
        if names is None or (c is not None and c[0] != "v"):
            return None
        vs = c[1] if c else frozenset(x["name"] for x in R.prog.adt(adt)["variants"])
        for x in vs:
            table.setdefault(x, set()).add(names)
    return table


def schema_words(R, adt):
    """names the derived JsonSchema lists for a unit enum, with their order"""
    p = impl_fn(R, adt, "JsonSchema", "json_schema")
    if p is None or R.prog.fn(p) is None:
        return None
    I = R.interp()
    outs = R.summary(p, None, I)
    names = []
    for s, v in outs:
        for e in s.eff:
            if e.a[0] == "_private::new_unit_enum_variant" and e.a[1][-1].tag == "str":
                names.append(e.a[1][-1].a[0])
        for u in subterms(v):
            if op(u) == "_private::new_unit_enum_variant" and args(u)[-1].tag == "str" and args(u)[-1].a[0] not in names:
                names.append(args(u)[-1].a[0])
    return names


def artefact():
    with open(os.path.join(REPO, "artifacts/air.schema.json")) as f:
        return json.load(f)


def doc_sections(path="docs/configuration.qmd"):
    out, cur = {}, None
    for line in open(os.path.join(REPO, path), encoding="utf-8"):
        m = re.match(r"#{2,4}\s+`?([A-Za-z0-9_.\- ]+?)`?(\s*\{.*)?$", line)
        if m and not line.startswith("# "):
            cur = m[1].strip()
            out.setdefault(cur, "")
        elif cur:
            out[cur] += line
    return out


def doc_values(text):
    """the values bulleted as -   `"x"`: in a documentation section"""
    return [m for m in re.findall(r'^-\s+`"([^"`]+)"`', text, re.M)]
