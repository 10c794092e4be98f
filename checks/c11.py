"""C11: option values are spelled the same everywhere."""
from terms import *
from cases import *
import flow, lang, words as W
from report import Missing

LEVEL = "proof"
TECHNIQUE = "table extraction from MIR summaries of FromStr, Display and the serde/schemars derives (exact string languages by automata), equated with each other, the published schema and the documentation"
EXPLANATION = ("For each enumerated option the complete set of accepted texts per value is computed as an automaton from the MIR of the parser (FromStr) and of the code serde's derive generated, "
               "the written names from Serialize and Display, the published names from the JsonSchema derive, the committed schema file and the documentation. All must be the same table, with one name per value and one value per name.")

# documented values of each option; Display prints the same names capitalised
ENUMS = [
    ("settings", "AssignmentStyle", "assignment-style", {"Arrow": "arrow", "Equal": "equal", "Preserve": "preserve"}, True),
    ("settings", "IndentStyle", "indent-style", {"Space": "space", "Tab": "tab"}, True),
    ("workspace", "LineEnding", "line-ending", {"Auto": "auto", "Lf": "lf", "Crlf": "crlf", "Native": "native"}, True),
    ("settings", "PersistentLineBreaks", None, {"Respect": "respect", "Ignore": "ignore"}, False),
    ("settings", "LineEnding", None, {"Lf": "lf", "Crlf": "crlf"}, False),
]


def result_variant(I):
    def f(v, s):
        v = I.deref(v, s)
        if v.tag == "adt" and v.a[1] == "Ok":
            return W.unit_variant(I.deref(v.a[2][0], s))
        if v.tag == "adt" and v.a[1] == "Err":
            return None
        return "?"
    return f


def enum(R, crate, name, option, want, published):
    adt = W.adt_name(R, name, crate)
    tag = f"{crate}::{name}"
    variants = {v["name"] for v in R.prog.adt(adt)["variants"]}
    if variants != set(want):
        # another value was added or one was renamed: the documentation decides whether that is right
        R.undecided("C11.values", tag, f"the values of the type are {sorted(variants)}, the documented ones {sorted(want)}")
    spec = W.words({v: {w} for v, w in want.items()})
    consts = list(want.values())
    # parsed from text
    p = W.impl_fn(R, adt, "FromStr", "from_str")
    if p and R.prog.fn(p):
        I = R.interp()
        outs = R.summary(p, "text", I)
        R.guard(lambda: W.languages(R, "C11.parse", R.where(p), I, outs, mk("arg", "text"), result_variant(I), spec, consts), "C11.parse", tag)
    # printed as text
    p = W.impl_fn(R, adt, "Display", "fmt")
    if p and R.prog.fn(p):
        printed(R, p, want)
    # read from configuration
    p = W.impl_fn(R, adt, "Deserialize", "deserialize")
    if not published:
        pass
    elif p and R.prog.fn(p):
        read(R, adt, tag, spec, consts)
    else:
        raise Missing(f"<{adt} as Deserialize>::deserialize")
    # written to configuration
    t = W.serde_writes(R, adt) if published else {}
    if t is None:
        if W.impl_fn(R, adt, "Serialize", "serialize"):
            R.undecided("C11.write", f"{tag} Serialize", "not a table of names")
    else:
        for v, w in want.items():
            if v in t:
                R.check(t[v] == {w}, "C11.write", f"{tag}::{v} is written as {sorted(t[v])}", f"documented spelling: {w!r}")
    # published
    names = W.schema_words(R, adt) if published else None
    if names is not None:
        if names:
            R.check(sorted(names) == sorted(want.values()), "C11.schema-code", f"{tag} JsonSchema", f"lists {names}, documented are {sorted(want.values())}")
        else:
            R.undecided("C11.schema-code", f"{tag} JsonSchema", "no unit variants found in the schema code")
    elif published:
        R.undecided("C11.schema-code", f"{tag} JsonSchema", "no analysable derive")
    if published:
        d = W.artefact().get("$defs", {}).get(name)
        got = None
        if d:
            got = [o.get("const") for o in d.get("oneOf", [])] or d.get("enum")
        R.check(got is not None and sorted(map(str, got)) == sorted(want.values()), "C11.schema-file", f"artifacts/air.schema.json {name}", f"lists {got}, documented are {sorted(want.values())}")
        sec = W.doc_sections().get(option)
        got = W.doc_values(sec) if sec is not None else None
        R.check(got is not None and sorted(got) == sorted(want.values()), "C11.documentation", f"docs/configuration.qmd {option}", f"lists {got}")


def printed(R, p, want):
    I = R.interp()
    where = R.where(p)
    outs = R.summary(p, "self f", I)
    seen = {}
    for s, v in outs:
        c = s.conds.get(mk("arg", "self"))
        vs = set(c[1]) if c and c[0] == "v" else set(want)
        text = [a for e in s.eff if e.a[0] in ("fmt::write", "Formatter::write_str", "Formatter::pad", "Write::write_str") for a in [e.a[1][-1]]]
        if not text and op(v) in ("Formatter::write_str", "Formatter::pad"):
            text = [args(v)[-1]]
        if len(text) != 1 or text[0].tag != "str" or len(s.eff) != 1:
            R.undecided("C11.print", where, f"for {sorted(vs)}: " + "; ".join(show(e) for e in s.eff)[:200])
            continue
        for x in vs:
            seen.setdefault(x, set()).add(text[0].a[0])
    for x, ts in sorted(seen.items()):
        if x in want:
            R.check({t.lower() for t in ts} == {want[x]}, "C11.print", f"{where}: {x}", f"prints {sorted(ts)}; its name is {want[x]!r}")


def read(R, adt, tag, spec, consts):
    vs = W.serde_identifier(R, "C11.read", adt)
    table = W.serde_variants(R, adt)
    if vs is None or table is None:
        # a hand-written impl: nothing is known about how it reads
        p = W.impl_fn(R, adt, "Deserialize", "deserialize")
        R.undecided("C11.read", R.where(p), "Deserialize is not a derived unit enum")
        return
    I = R.interp()
    outs = R.summary(vs, "visitor text", I)

    def classify(v, s):
        v = I.deref(v, s)
        if v.tag != "adt":
            return "?"
        if v.a[1] == "Err":
            return None
        f = W.unit_variant(I.deref(v.a[2][0], s))
        got = table.get(f, {"?"})
        return next(iter(got)) if len(got) == 1 else "?"
    W.languages(R, "C11.read", f"{R.where(adt)} {tag} Deserialize", I, outs, mk("arg", "text"), classify, spec, consts)


def check(R):
    R.program("settings", "workspace", "line_ending")
    n = 0
    for e in ENUMS:
        R.guard(lambda: enum(R, *e), "C11.values", f"{e[0]}::{e[1]}")
        n += 1
    R.floor("C11.values", "enumerated options", n, 5)
