"""C17: the published JSON schema accepts what the program accepts."""
import re
from terms import *
from cases import *
import flow, lang, mir, words as W
import c09
from report import Missing

LEVEL = "proof"
TECHNIQUE = "the accepted configuration language (keys as automata, value types and intervals) computed from the MIR of the serde derives and hand-written readers, compared level by level with the committed schema and with what the schemars derive would emit"
EXPLANATION = ("Starting from TomlOptions, each level's accepted keys are computed from the derived recogniser and compared with the schema's properties; unknown keys are rejected by the program exactly where the schema has additionalProperties false. "
               "Each key's value type is followed through the readers to what is read from the file (truth value, integer with its interval, list of texts, named values) and compared with the schema's definition of it, following references. "
               "The MIR of the JsonSchema derives is read for the properties, the flag and the bounds it emits, and compared with the committed file.")
WIRE = {"bool": "boolean", "alloc::string::String": "string", "String": "string"}


def resolve(schema, root):
    """schema without references and null alternatives"""
    n = 0
    while n < 10:
        n += 1
        if "$ref" in schema:
            schema = root["$defs"].get(schema["$ref"].split("/")[-1], {})
            continue
        alts = schema.get("anyOf")
        if alts:
            rest = [a for a in alts if a.get("type") != "null"]
            if len(rest) == 1:
                schema = rest[0]
                continue
        break
    return schema


def stype(schema):
    t = schema.get("type")
    ts = [x for x in (t if isinstance(t, list) else [t]) if x != "null"]
    return ts[0] if len(ts) == 1 else None


def inner(ty, wrapper):
    m = re.match(r"^[\w:]*\b" + wrapper + r"<(.*)>$", ty)
    return m[1] if m else None


def level(R, adt, schema, root, path):
    """the keys of one table"""
    name = adt.split("::")[-1]
    props = set(schema.get("properties", {}))
    vs = W.serde_identifier(R, "C17.keys", adt)
    where = f"{path or 'top level'} ({name})"
    if vs is None:
        R.undecided("C17.keys", where, "Deserialize is not derived")
        return
    fields = R.prog.adt(adt)["variants"][0]["fields"]
    flat = [f for f in fields if any("flatten" in a for a in f["attrs"])]
    own = [f for f in fields if f not in flat]
    # flattened tables add their keys to this level
    inherited = set()
    for f in flat:
        sub = R.prog.adt(f["ty"])
        if sub is None or sub["variants"][0]["fields"]:
            R.undecided("C17.keys", where, f"keys of the flattened {f['ty']}")
            return
    I = R.interp()
    outs = R.summary(vs, "visitor text", I)

    def classify(v, s):
        v = I.deref(v, s)
        if v.tag != "adt":
            return "?"
        if v.a[1] == "Err":
            return None
        f = I.deref(v.a[2][0], s)
        return None if f.tag == "adt" and (f.a[1] == "__ignore" or f.a[1].startswith("__other")) else f.a[1] if f.tag == "adt" else "?"

    def spec(A):
        return {"any option": W.words({"x": props})(A)["x"]}
    got = {}

    def one(v, s):
        k = classify(v, s)
        if k not in (None, "?"):
            got.setdefault(k, []).append(s)
            return "any option"
        return k
    if not W.languages(R, "C17.keys", where, I, outs, mk("arg", "text"), one, spec, sorted(props), what="keys"):
        return
    # unknown keys
    vals = [I.deref(v, s) for s, v in outs]
    ign = any(u.tag == "adt" and u.a[1] == "__ignore" for v in vals for u in subterms(v))
    other = any(u.tag == "adt" and str(u.a[1]).startswith("__other") for v in vals for u in subterms(v))
    rejects = None
    if other:
        rejects = rest_checked(R, adt)
    else:
        rejects = not ign
    closed = schema.get("additionalProperties") is False
    R.check(None if rejects is None else rejects == closed, "C17.unknown-keys", where, f"the program {'rejects' if rejects else 'ignores' if rejects is False else '?'} unknown keys, the schema {'forbids' if closed else 'allows'} them")
    # values
    A = lang.Alphabet(props | {"x"})
    for i, f in enumerate(fields):
        if f in flat:
            continue
        states = got.get(f"__field{i}", [])
        keys = set()
        for s in states:
            try:
                L = A.conds(s.conds, mk("arg", "text"))
                keys |= {k for k in props if not (L & A.lit(k)).empty()}
            except lang.Unknown:
                pass
        for k in sorted(keys):
            R.guard(lambda: value(R, f["ty"], schema["properties"][k], root, f"{path}.{k}" if path else k), "C17.value", k)


def rest_checked(R, adt):
    vm = W.derived(R, adt, "::visit_map")
    if len(vm) != 1:
        return None
    I = R.interp()
    oks = [s for s, n, v in split_res(I, R.summary(vm[0], "visitor map", I)) if n == "Ok" and not excluded(s.conds)]
    return all(any(t.tag == "exists" and truth(s.conds, t) is False for t in s.conds) for s in oks) if oks else None


def value(R, ty, schema, root, key):
    ty = flow.norm_ty(ty)
    opt = inner(ty, "Option")
    if opt is None:
        R.undecided("C17.value", key, f"a required option of type {ty}")
        return
    wire(R, opt, resolve(schema, root), root, key, ())


def wire(R, ty, schema, root, key, via):
    """compare what is read for ty with its schema"""
    where = f"option {key}" + (f" (through {' / '.join(via)})" if via else "")
    if ty in WIRE:
        R.check(stype(schema) == WIRE[ty], "C17.value", where, f"a {WIRE[ty]} is read; the schema says {stype(schema)}")
        return
    vec = inner(ty, "Vec")
    if vec:
        okay = stype(schema) == "array"
        R.check(okay, "C17.value", where, f"a list is read; the schema says {stype(schema)}")
        if okay:
            wire(R, vec, resolve(schema.get("items", {}), root), root, key + "[]", via)
            limits = {k for k in ("minItems", "maxItems", "uniqueItems", "pattern", "minLength", "maxLength", "enum", "contains") if k in schema or k in schema.get("items", {})}
            R.check(not limits, "C17.value", where, f"lists of any length and content are read; the schema limits them by {sorted(limits)}" if limits else "no limits on the list in the schema")
        return
    a = R.prog.adt(ty)
    if a is None:
        if re.match(r"^[ui](8|16|32|64|size)$", ty):
            R.check(stype(schema) == "integer", "C17.value", where, f"an integer is read; the schema says {stype(schema)}")
        else:
            R.undecided("C17.value", where, f"type {ty}")
        return
    p = W.impl_fn(R, ty, "Deserialize", "deserialize")
    if p is None or R.prog.fn(p) is None:
        raise Missing(f"<{ty} as Deserialize>::deserialize")
    derived = W.derived(R, ty, "::visit_map") or W.derived(R, ty, "::visit_enum") or W.derived(R, ty, "::visit_seq")
    if a["kind"] == "enum" if "kind" in a else len(a["variants"]) > 1:
        names(R, ty, schema, where)
    elif W.derived(R, ty, "::visit_map"):
        level(R, ty, schema, root, key)
    else:
        # a hand-written reader: what does it read first
        reads = [flow.norm_ty(ar[0]) for q, ar, o, sp in mir.calls(R.prog.fn(p)) if q and q.endswith("Deserialize::deserialize") and ar]
        if len(set(reads)) != 1:
            R.undecided("C17.value", where, f"{ty} reads {sorted(set(reads))}")
            return
        r = reads[0]
        if re.match(r"^u(8|16|32|64|size)$", r):
            acc = c09.accepted(R, p)
            R.check(stype(schema) == "integer", "C17.value", where, f"an integer is read; the schema says {stype(schema)}")
            lo, hi = schema.get("minimum"), schema.get("maximum")
            if acc is None:
                R.undecided("C17.range", where, "accepted values not traced")
            else:
                want = c09._normr([(lo if lo is not None else 0, hi if hi is not None else c09.INF)])
                R.check(True if acc[0] == want else None if acc[1] else False, "C17.range", where, f"the program accepts {acc[0]}, the schema {want}")
        else:
            wire(R, r, schema, root, key, via + (ty.split("::")[-1],))


def names(R, ty, schema, where):
    vs = W.serde_identifier(R, "C17.names", ty)
    got = [o.get("const") for o in schema.get("oneOf", [])] or schema.get("enum") or []
    if vs is None:
        R.undecided("C17.names", where, "Deserialize is not derived")
        return
    I = R.interp()
    outs = R.summary(vs, "visitor text", I)

    def classify(v, s):
        v = I.deref(v, s)
        return "?" if v.tag != "adt" else None if v.a[1] == "Err" else "any value"
    W.languages(R, "C17.names", where, I, outs, mk("arg", "text"), classify, lambda A: {"any value": W.words({"x": set(map(str, got))})(A)["x"]}, [str(g) for g in got], what="names")


# ------------------------------------------------------------------ what the derive emits
def emitted(R, p):
    """what a derived json_schema puts into the schema, from its effects"""
    I = R.interp()
    props, consts, keys, bounds, closed = set(), [], set(), {}, False
    f = R.prog.fn(p)
    for s, v in R.summary(p, None, I):
        for e in s.eff:
            n, ar = e.a[0].split("::")[-1], e.a[1]
            strs = [a.a[0] for a in ar if a.tag == "str"]
            if n == "insert_object_property":
                props |= set(strs[:1])
            elif n == "new_unit_enum_variant":
                consts += [x for x in strs if x not in consts]
            elif n in ("insert_validation_property", "must_contain", "append_required") and strs:
                ints = [a.a[0] for a in ar if a.tag == "int"]
                bounds[strs[-1]] = ints[-1] if ints else None
            elif n == "insert" and strs:
                key = strs[0]
                if key == "additionalProperties":
                    closed = any(a.tag == "adt" and a.a[1] == "Bool" and a.a[2][0] is Int(0) for a in ar)
                if key in ("minimum", "maximum"):
                    ints = [u.a[0] for a in ar[2:] for u in subterms(a) if u.tag == "int"]
                    bounds[key] = ints[0] if len(ints) == 1 else None
        break
    return props, consts, bounds, closed


def generated(R, root):
    n = 0
    for i in R.prog.impls:
        if not i["trait"] or not i["trait"].endswith("JsonSchema"):
            continue
        ty = flow.norm_ty(i["self"])
        name = ty.split("::")[-1]
        sch = root if name == root.get("title") else root["$defs"].get(name)
        if sch is None and name != "GlobalTomlOptions":
            R.violated("C17.generated", name, "has a schema in the code, none in the committed file")
            continue
        p = [it[1] for it in i["items"] if it[0] == "json_schema"]
        if not p or R.prog.fn(p[0]) is None or sch is None:
            continue
        n += 1
        props, consts, bounds, closed = emitted(R, p[0])
        where = f"{R.where(p[0]).split(' ')[0]} JsonSchema for {name}"
        if props:
            R.check(props == set(sch.get("properties", {})), "C17.generated", where, f"emits the properties {sorted(props)}")
            R.check(closed == (sch.get("additionalProperties") is False), "C17.generated", where, f"emits additionalProperties: false: {closed}")
        if consts:
            R.check(sorted(consts) == sorted(str(o.get("const")) for o in sch.get("oneOf", [])), "C17.generated", where, f"emits the names {consts}")
        for k in ("minimum", "maximum"):
            if k in bounds or k in sch:
                R.check(None if bounds.get(k) is None else bounds[k] == sch.get(k), "C17.generated", where, f"emits {k} {bounds.get(k)}; the committed file says {sch.get(k)}")
    R.floor("C17.generated", "schema derives", n, 5)


def check(R):
    R.program("settings", "workspace", "line_ending")
    root = W.artefact()
    R.guard(lambda: level(R, W.adt_name(R, "TomlOptions", "workspace"), root, root, ""), "C17.keys", "TomlOptions")
    R.guard(lambda: generated(R, root), "C17.generated", "JsonSchema")
