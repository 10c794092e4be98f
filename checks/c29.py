"""C29 Client settings are requested and stored under the right keys."""
import json
import os
import re

import flow
import server
import words as W
from cases import *
from report import REPO
from terms import *

LEVEL = "proof"
TECHNIQUE = "request list and consumption order extracted as symbolic sequences from MIR summaries and matched segment by segment; key tables equated with struct fields, serde's derived names and the extension's package.json"
EXPLANATION = ("The list of configuration items update_config sends is summarised as a sequence of segments (fixed items; every open document times every document key) with scope and section of each item, and the answers as the sequence of pieces taken from the returned iterator: "
               "piece k has the size and the keys of segment k, for any number of documents, each piece is taken through the same iterator so nothing is read twice, and the answers are only used when their number is the number requested. "
               "Each key is the name of the field serde reads it into and the section is the editor's name for it (declared in package.json for air's own). Each document stores the settings made from its own answers; the conversion to indent style and width is tabulated; the global answers reach the log state and the stored settings. "
               "Names and values the extension sends at start-up or offers in package.json are among those the server reads; registrations cover every key.")
NOTE = "assumes clients answer workspace/configuration in request order (LSP specification) and itertools' product is in row order"

FN = "lsp::handlers_state::update_config"
VSC = "lsp::settings_vsc::"
EDITOR = {"insert_spaces": "editor.insertSpaces", "indent_size": "editor.indentSize", "tab_size": "editor.tabSize"}


def camel(k):
    a, *r = k.split("_")
    return a + "".join(x.capitalize() for x in r)


def cli_strip(t):
    import cli
    return cli.strip(t)


# ------------------------------------------------------------- request segments
def items(t):
    """a ConfigurationItem term as (scope, section)"""
    if t.tag != "adt" or not t.a[0].endswith("::ConfigurationItem"):
        return None
    sc, se = project(t, "scope_uri"), project(t, "section")
    sc = None if sc.tag == "adt" and sc.a[1] == "None" else cli_strip(payload(sc, "Some", 0)) if sc.tag == "adt" else "?" if any(t.tag == "elem" for t in subterms(sc)) else None   # None: the same for every document
    se = cli_strip(payload(se, "Some", 0)) if se.tag == "adt" and se.a[1] == "Some" else None
    return sc, se


def strs(t):
    t = cli_strip(t)
    while t.tag == "it":
        t = t.a[0]
    if t.tag != "arr":
        return None
    r = [x.a[0] if x.tag == "str" else None for x in t.a[0]]
    return None if None in r else r


def uris_of(t):
    t = cli_strip(t)
    while t.tag == "it":
        t = t.a[0]
    return t if t is mk("arg", "uris") else None


def by_key(cases, key, fixed, nkeys):
    """sections per key of a comprehension's cases: {key: (scope, section)}"""
    out = {}
    for k in nkeys:
        for conds, val in cases:
            ok = True
            for t, c in conds:
                if t is key and c[0] == "s":
                    ok = ok and ((k in c[2]) == c[1])
            if ok:
                x = items(val)
                if x is None:
                    return None
                if k in out and out[k] != x:
                    x = (x[0] if out[k][0] is x[0] else None, x[1] if out[k][1] is x[1] else None)
                out[k] = x
    return out if len(out) == len(nkeys) else None


def segments(t):
    """[(kind, keys or None, [(scope, section)...])]; None when the shape is unknown"""
    if op(t) == "append" or t.tag == "append":
        a = args(t) if op(t) == "append" and t.tag == "call" else t.a
        out = []
        for x in a:
            s = segments(x)
            if s is None:
                return None
            out += s
        return out
    if t.tag == "arr":
        xs = [items(x) for x in t.a[0]]
        return None if any(x is None for x in xs) else [("fixed", None, xs)] if xs else []
    if t.tag == "it":
        return segments(t.a[0])
    if op(t) in ("Iterator::chain", "chain"):
        return segments(mk("append", *args(t)))
    if t.tag == "push":
        s = segments(t.a[0])
        x = items(t.a[1])
        return None if s is None or x is None else s + [("fixed", None, [x])]
    if t.tag == "comp":
        over, rev, depth, cases = t.a[:4]
        e = mk("elem", over, depth)
        if op(over) in ("Itertools::cartesian_product",):
            a, b = args(over)
            if uris_of(a) is not None and strs(b) is not None and not rev:
                m = by_key(cases, project(e, "1"), None, strs(b))
                u = project(e, "0")
                if m is None:
                    return None
                return [("perdoc", strs(b), [("doc" if m[k][0] is u else m[k][0], m[k][1]) for k in strs(b)])]
            if uris_of(b) is not None and strs(a) is not None:
                return [("perkey", strs(a), [])]
        if strs(over) is not None and not rev:
            m = by_key(cases, e, None, strs(over))
            return None if m is None else [("fixed", strs(over), [m[k] for k in strs(over)])]
    if t.tag == "flatten" or op(t) in ("Iterator::flat_map",):
        return None
    return None


# ------------------------------------------------------------- sizes
def size(t):
    """(constant, per document) of an affine size term"""
    t = cli_strip(t)
    if t.tag == "int":
        return (t.a[0], 0)
    if t.tag in ("bin", "Add", "Mul", "AddWithOverflow", "MulWithOverflow") or op(t) in ("Add", "Mul"):
        o = t.a[0] if t.tag == "bin" else t.tag
        x, y = (size(t.a[1]), size(t.a[2])) if t.tag == "bin" else (size(t.a[0]), size(t.a[1]))
        if x is None or y is None:
            return None
        if "Add" in str(o):
            return (x[0] + y[0], x[1] + y[1])
        if "Mul" in str(o):
            if x[1] and y[1]:
                return None
            return (x[0] * y[0], x[0] * y[1] + x[1] * y[0])
        return None
    if (op(t) in ("len", "ExactSizeIterator::len", "Vec::len") or t.tag == "len"):
        a = args(t)[0] if t.tag == "call" else t.a[0]
        if uris_of(a) is not None:
            return (0, 1)
        s = strs(a)
        if s is not None:
            return (len(s), 0)
    return None


def take(t):
    """(source, size, through a reference) of a piece of the answers"""
    t = cli_strip(t)
    while t.tag == "it":
        t = t.a[0]
    if op(t) not in ("Iterator::take",):
        return None
    x, n = args(t)
    while x.tag == "it":
        x = x.a[0]
    ref = op(x) == "Iterator::by_ref"
    if ref:
        x = args(x)[0]
        while x.tag == "it":
            x = x.a[0]
    return x, n, ref


HANDLES = {"update_diagnostics_config": "VscDiagnosticsSettings", "update_documents_config": "VscDocumentSettings", "update_global_config": "VscGlobalSettings"}


def request(R):
    rule = "C29.order"
    I = R.interp()
    I.track_byref = True
    I.opaque_fn = lambda path, res: any(x and x.startswith("lsp::handlers_state::") and x.rsplit("::", 1)[-1].split("{")[0] in HANDLES for x in (path, res))
    outs = R.summary(FN, "uris lsp_state state", I)
    where = R.where(FN)
    best = None
    for s, v in outs:
        req = [e for e in s.eff if e.tag == "eff" and e.a[0] == "Client::configuration"]
        used = [e for e in s.eff if e.tag == "eff" and e.a[0].rsplit("::", 1)[-1] in HANDLES]
        on = truth(s.conds, mk("fld", mk("fld", mk("arg", "lsp_state"), "capabilities"), "request_configuration"))
        ok = v.tag == "adt" and v.a[1] == "Ok"
        if on is False:
            R.check(not req and not used and ok, "C29.capability", f"{where}: client without configuration requests", "nothing is asked" if not req else "asked although the client does not support it")
            continue
        if on is None and req:
            R.check(False, "C29.capability", f"{where}: client without configuration requests", "asked whether or not the client supports it")
        if not req:
            R.check(False if ok else None, rule, f"{where}: {show_conds(s.conds)[:120]}", "succeeds without asking the client")
            continue
        if len(req) > 1:
            R.undecided(rule, where, "several requests")
            continue
        if ok and (best is None or len(used) > len(best[2])):
            best = (s, req[0], used)
        elif ok:
            R.check(len(used) == len(best[2]), rule, f"{where}: {show_conds(s.conds)[-200:]}", "succeeds without using all answers")
    if best is None:
        R.undecided(rule, where, "no successful outcome")
        return
    s, req, used = best
    segs = segments(req.a[1][1])
    if segs is None:
        R.undecided(rule, where, f"request list not understood: {show(req.a[1][1])[:150]}")
        return
    # consecutive fixed items are cut by the pieces that consume them
    flat = []
    for kind, ks, its in segs:
        if kind == "fixed":
            flat += [("one", x) for x in its]
        elif kind == "perdoc":
            flat.append(("perdoc", ks, its))
        else:
            R.check(False, rule, where, "items are requested key by key but consumed document by document")
            return
    pos = 0
    total = [0, 0]
    for i, e in enumerate(used):
        h = e.a[0].rsplit("::", 1)[-1]
        ks, piece = strs(e.a[1][0]), take(e.a[1][1])
        at = f"{where}: {h}"
        if ks is None or piece is None or size(piece[1]) is None:
            R.undecided(rule, at, f"pieces not understood: {show(e.a[1][1])[:80]}")
            return
        x, n, ref = piece
        answers = payload_of(x)
        R.check(True if answers is not None and answers.a[0] == "Client::configuration" else None, rule, at, "reads the answers to this request")
        if i < len(used) - 1:
            R.check(ref, rule, at, "takes its answers through the shared iterator" if ref else "takes its answers from a copy: the next settings get the same answers again")
        c, d = size(n)
        total = [total[0] + c, total[1] + d]
        # what the request has at this position
        if h == "update_documents_config":
            seg = flat[pos] if pos < len(flat) else None
            good = seg is not None and seg[0] == "perdoc" and (c, d) == (0, len(seg[1]))
            R.check(good, rule, at, f"takes {d} answers per document at position {pos}" if good else f"takes {c}+{d} per document, but the request has {describe(flat, pos)} here")
            if not good:
                return
            R.check(seg[1] == ks, rule, f"{at} keys", f"keys {ks}, requested {seg[1]}")
            sections(R, at, HANDLES[h], ks, seg[2], True)
            pos += 1
        else:
            its = flat[pos:pos + c]
            good = d == 0 and len(its) == c and all(y[0] == "one" for y in its)
            R.check(good, rule, at, f"takes {c} answers at position {pos}" if good else f"takes {c}+{d} per document, but the request has {describe(flat, pos)} here")
            if not good:
                return
            R.check(len(ks) == c, rule, f"{at} keys", f"{len(ks)} keys for {c} answers")
            sections(R, at, HANDLES[h], ks, [y[1] for y in its], False)
            pos += c
    R.check(pos == len(flat), rule, where, "every requested answer is consumed" if pos == len(flat) else f"{len(flat) - pos} requested items are never consumed")
    # the number of answers is checked before any is used
    want = tuple(total)
    seen = None
    for t, c in s.conds.items():
        for a, b, eq in equalities(t, c):
            for p, q in ((a, b), (b, a)):
                if "Client::configuration" in show(p)[:4000] and (op(p) == "len" or p.tag == "len" or "::len" in str(op(p))):
                    n = size(q)
                    if n is not None:
                        seen = n
    R.check(True if seen == want else (None if seen is None else False), "C29.count", where, f"answers are used only when there are {want[0]}+{want[1]} per document" if seen == want else f"number of answers compared with {seen}, requested are {want}")


def equalities(t, c):
    yes = c == ("b", frozenset({True})) or (c[0] == "b" and True in c[1] and len(c[1]) == 1)
    no = c[0] == "b" and False in c[1] and len(c[1]) == 1
    tag = t.a[0] if t.tag in ("bin", "call") else t.tag
    xs = args(t) if t.tag == "call" else t.a[1:] if t.tag == "bin" else t.a
    if (str(tag).lower() in ("eq", "partialeq::eq") and yes) or (str(tag).lower() in ("ne", "partialeq::ne") and no):
        if len(xs) == 2:
            yield xs[0], xs[1], True
    if c[0] == "i" and len(c[1]) == 1 and c[1][0][0] == c[1][0][1]:
        yield t, mk("int", c[1][0][0]), True


def payload_of(x):
    """the call whose Ok payload x is"""
    while True:
        if x.tag == "ecall":
            return x
        if x.tag in ("fld", "pay", "payload", "it"):
            x = x.a[0]
            continue
        x2 = cli_strip(x)
        if x2 is x:
            return None
        x = x2


def describe(flat, pos):
    if pos >= len(flat):
        return "nothing"
    return "the items of each document" if flat[pos][0] == "perdoc" else f"single items ({show(flat[pos][1][1])})"


def declared():
    with open(os.path.join(REPO, "editors/code/package.json")) as f:
        return json.load(f)["contributes"]["configuration"]["properties"]


def sections(R, at, adt, ks, its, perdoc):
    pj = declared()
    for k, (sc, se) in zip(ks, its):
        w = f"{at}: {k}"
        if se is None or se.tag != "str":
            R.undecided("C29.section", w, "section not a constant")
            continue
        se = se.a[0]
        if perdoc:
            R.check(True if sc == "doc" else False if sc is None or not isinstance(sc, str) else None, "C29.scope", w, "asked for the document itself" if sc == "doc" else "not asked for the document")
        else:
            R.check(sc is None or None, "C29.scope", w, "asked without a scope")
        if k in EDITOR:
            R.check(se == EDITOR[k], "C29.section", w, f"is requested as `{se}`")
        elif adt == "VscGlobalSettings":
            R.check(se == "air." + camel(k) and se in pj, "C29.section", w, f"is requested as `{se}`" + ("" if se in pj else ", which the extension does not declare"))
        else:
            R.check(se.split(".")[-1] == camel(k), "C29.section", w, f"is requested as `{se}`")


# ------------------------------------------------------------- keys are serde's names of the fields
def keys(R):
    for name in HANDLES.values():
        adt = VSC + name
        a = R.prog.adts.get(adt)
        if a is None:
            R.undecided("C29.keys", name, "type not found")
            continue
        fields = [f[0] if isinstance(f, (list, tuple)) else f["name"] for f in a["variants"][0]["fields"]]
        serde_fields(R, "C29.keys", adt, name, {f: f for f in fields})
    adt = "lsp::settings::InitializationOptions"
    ts = ts_type("editors/code/src/settings.ts", "InitializationOptions")
    if ts is None:
        R.undecided("C29.start", "editors/code/src/settings.ts", "type InitializationOptions not found")
    else:
        have = serde_fields(R, "C29.start", adt, "InitializationOptions", None)
        for k in ts:
            if have is not None:
                R.check(k in have, "C29.start", f"InitializationOptions {k}", f"the server reads {sorted(have)}")


def serde_fields(R, rule, adt, name, want):
    """{key text: field}; the derived visitor's texts, in field order"""
    vs = W.serde_identifier(R, rule, adt)
    a = R.prog.adts.get(adt)
    if vs is None or a is None:
        R.undecided(rule, name, "Deserialize is not derived")
        return None
    fields = [f[0] if isinstance(f, (list, tuple)) else f["name"] for f in a["variants"][0]["fields"]]
    I = R.interp()
    got, odd = {}, False
    t = mk("arg", "text")
    for s, v in R.summary(vs, "visitor text", I):
        v = I.deref(v, s)
        if v.tag != "adt" or v.a[1] != "Ok":
            continue
        f = I.deref(v.a[2][0], s)
        c = s.conds.get(t)
        m = re.match(r"__field(\d+)$", str(f.a[1])) if f.tag == "adt" else None
        if m and c and c[0] == "s" and c[1]:
            for w in c[2]:
                got[w] = fields[int(m[1])] if int(m[1]) < len(fields) else None
        elif m:
            odd = True
    if want is not None:
        for k, f in want.items():
            R.check(got.get(k) == f or (None if odd else False), rule, f"{name}: {k}", f"read into field `{got.get(k)}`" if k in got else "is not a name serde reads for this type")
    return set(got)


def ts_type(path, name):
    s = open(os.path.join(REPO, path), encoding="utf-8").read()
    m = re.search(r"(?:type|interface)\s+" + name + r"\s*(?:=\s*)?\{(.*?)\}", s, re.S)
    return None if not m else re.findall(r"^\s*(\w+)\??\s*:", m[1], re.M)


def levels(R):
    """every log level the editor offers is one the server reads, for the level of the same name"""
    adt = "lsp::logging::LogLevel"
    vs = W.serde_identifier(R, "C29.levels", adt)
    table = W.serde_variants(R, adt)
    if vs is None or table is None:
        R.undecided("C29.levels", adt, "Deserialize is not derived")
        return
    I = R.interp()
    got = {}
    t = mk("arg", "text")
    for s, v in R.summary(vs, "visitor text", I):
        v = I.deref(v, s)
        if v.tag != "adt" or v.a[1] != "Ok":
            continue
        f = I.deref(v.a[2][0], s)
        c = s.conds.get(t)
        if f.tag == "adt" and c and c[0] == "s" and c[1]:
            for w in c[2]:
                got[w] = table.get(f.a[1])
    offered = declared()["air.logLevel"].get("enum", [])
    ts = open(os.path.join(REPO, "editors/code/src/settings.ts"), encoding="utf-8").read()
    m = re.search(r"type LogLevel\s*=([^;]*);", ts)
    for src, ws in (("package.json", offered), ("settings.ts", re.findall(r'"([^"]+)"', m[1]) if m else [])):
        for w in ws:
            g = got.get(w)
            R.check(g is not None and all(x and w.startswith(x.lower()) for x in g), "C29.levels", f"{adt} `{w}` ({src})", f"read as {sorted(g)}" if g else "offered by the editor but not read by the server: the whole answer is rejected")
    I = R.interp()
    for s, v in R.summary("lsp::logging::LogLevel::tracing_level", "self", I):
        c = s.conds.get(mk("arg", "self"))
        if c and c[0] == "v":
            v = cli_strip(v)
            n = show(v).rsplit("::", 1)[-1].strip("')").lower()
            for x in c[1]:
                R.check(True if n == x.lower() else (False if v.tag == "const" else None), "C29.levels", f"{adt}::tracing_level {x}", f"is {n}")


# ------------------------------------------------------------- storing
def answers(t, ks, its, rule, R, at):
    """is t the JSON object made of keys and answers pairwise"""
    t = cli_strip(t)
    if t.tag == "adt" and t.a[1] == "Object":
        t = cli_strip(t.a[2][0])
    if t.tag == "fold":
        over, rev, depth, init, cases = t.a[:5]
        e = mk("elem", over, depth)
        if op(over) != "Iterator::zip" or len(cases) != 1:
            return None
        a, b = args(over)
        (conds, val), = cases
        if conds or val.tag != "after" or not val.a[0].endswith("Map::insert"):
            return None
        good = cli_strip(val.a[1][1]) is project(e, "0") and cli_strip(val.a[1][2]) is project(e, "1")
    elif t.tag == "comp" or op(t).endswith("from_iter") and args(t) and args(t)[0].tag == "comp":
        t = t if t.tag == "comp" else args(t)[0]
        over, rev, depth, cases = t.a[:4]
        e = mk("elem", over, depth)
        if op(over) != "Iterator::zip" or len(cases) != 1:
            return None
        a, b = args(over)
        (conds, val), = cases
        good = not conds and cli_strip(project(val, "0")) is project(e, "0") and cli_strip(project(val, "1")) is project(e, "1")
    elif op(t) == "Iterator::zip":
        a, b = args(t)
        good = True
    else:
        return None
    return good, a, b


def converted(v, frm):
    """the serde_json::from_value call v is converted from by the opaque conversion"""
    if v.tag in ("ecall", "call") and ("From" in str(v.a[0]) or str(v.a[0]).endswith("::from") or str(v.a[0]).endswith("::into")):
        xs = v.a[1] if v.tag == "ecall" else args(v)
        return payload_of(xs[0])
    return None


def documents(R):
    rule = "C29.documents"
    fn = "lsp::handlers_state::update_documents_config"
    I = R.interp()
    I.track_byref = True
    I.opaque_fn = lambda p, res: any(x and "VscDocumentSettings> for" in x for x in (p, res))
    uris, ks, its = mk("arg", "uris"), mk("arg", "keys"), mk("arg", "items")
    where = R.where(fn)
    n = 0
    for s, v in R.summary(fn, "keys items uris state", I):
        ok = v.tag == "adt" and v.a[1] == "Ok"
        for e in s.eff if ok else ():
            if e.tag != "foreach" or uris_of(e.a[0]) is None:
                continue
            R.check(e.a[1] is False or None, rule, where, "documents in the order they were requested")
            depth = e.a[3]
            el = mk("elem", e.a[0], depth)
            for conds, body in e.a[2]:
                effs = body[1] if isinstance(body, tuple) and len(body) == 2 and isinstance(body[1], tuple) and not hasattr(body[0], "tag") else body
                st = [x for x in effs if hasattr(x, "tag") and x.tag == "store"]
                if not st:
                    if ok:
                        R.check(None, rule, where, "an answer is not stored")
                    continue
                for x in st:
                    n += 1
                    place, val = x.a
                    gm = payload_of(place)
                    good = None
                    if place.tag == "fld" and gm is not None and gm.a[0].endswith("get_mut"):
                        good = place.a[1] == "settings" and cli_strip(gm.a[1][1]) is el
                    R.check(good, rule, where, "stored in the document the answers belong to" if good else f"stored at {show(place)[-80:]}")
                    fv = converted(val, None)
                    if fv is None or not fv.a[0].endswith("from_value"):
                        R.undecided(rule, where, f"what is stored is not understood: {show(val)[:80]}")
                        continue
                    m = answers(fv.a[1][0], ks, its, rule, R, where)
                    if m is None:
                        R.undecided(rule, where, f"answers not understood: {show(fv.a[1][0])[:120]}")
                        continue
                    good, a, b = m
                    while b.tag == "it":
                        b = b.a[0]
                    tk = take(b)
                    R.check(good and cli_strip(a) is ks or False, rule, where, "each key gets the answer at its position" if good else "keys and answers are paired in another way")
                    if tk is None:
                        R.undecided(rule, where, f"answers of one document: {show(b)[:80]}")
                        continue
                    src, nn, ref = tk
                    nn = cli_strip(nn)
                    full = (op(nn).endswith("len") or nn.tag == "len") and ks in set(subterms(nn)) or nn.tag == "int" and nn.a[0] == 3
                    R.check(ref and src is its, rule, where, "each document takes its own answers" if ref else "every document gets the first document's answers")
                    R.check(True if full else (False if nn.tag == "int" else None), rule, where, f"as many answers as keys ({show(nn)[:50]})")
    if not n:
        R.undecided(rule, where, "no store into a document found")


def conversion(R):
    rule = "C29.convert"
    p = [x for x in R.prog.fns if "VscDocumentSettings> for" in x and x.endswith("::from")]
    if len(p) != 1:
        R.undecided(rule, "VscDocumentSettings", "no conversion found")
        return
    I = R.interp()
    v0 = mk("arg", "value")
    where = R.where(p[0])
    fld = lambda n: mk("fld", v0, n)
    for s, v in R.summary(p[0], "value", I):
        st, wd, ln = (project(v, x) for x in ("indent_style", "indent_width", "line_width"))
        have = [variant(s, fld(x)) for x in ("insert_spaces", "indent_size", "tab_size")]
        at = f"{where}: {show_conds(s.conds)[:160]}"
        R.check(True if ln.tag == "adt" and ln.a[1] == "None" else None, rule, at, "line width is not the editor's")
        if "None" in have or None in have:
            good = st.tag == "adt" and st.a[1] == "None" and wd.tag == "adt" and wd.a[1] == "None"
            R.check(good if "None" in have else (None if good else None), rule, at, "an incomplete answer sets nothing" if good else "an incomplete answer is used in part")
            continue
        ins, ind, tab = (payload(fld(x), "Some", 0) for x in ("insert_spaces", "indent_size", "tab_size"))
        b = truth(s.conds, ins)
        want = {True: "Space", False: "Tab"}.get(b)
        got = payload(st, "Some", 0) if st.tag == "adt" and st.a[1] == "Some" else None
        R.check(True if got is not None and want and got.tag == "adt" and got.a[1] == want else (False if got is None or got.tag == "adt" and want else None), rule, at, f"insert spaces {b} gives {show(st)[:60]}")
        w = payload(wd, "Some", 0) if wd.tag == "adt" and wd.a[1] == "Some" else None
        if w is None:
            R.check(False if wd.tag == "adt" else None, rule, at, "the indent width is dropped")
            continue
        kind = variant(s, ind)
        src = payload(ind, "Size", 0) if kind == "Size" else None
        if kind == "Alias":
            c = s.conds.get(payload(ind, "Alias", 0))
            takes = c is None or c[0] == "s" and ("tabSize" in c[2]) == bool(c[1])
            if takes and tab not in set(subterms(w)) and not any(tab in set(subterms(t)) for t in s.conds):
                R.check(False, rule, at, f"the alias `tabSize` gives {show(w)[:50]}")
                continue
            if c is not None and not takes and c[0] == "s":
                used = tab in set(subterms(w))
                R.check(not used, rule, at, "an unknown alias gives the default width" if not used else "an unknown alias is taken for the tab size")
                continue
            src = tab if c and c[0] == "s" and c[1] and set(c[2]) == {"tabSize"} else None
        if src is None:
            R.undecided(rule, at, f"indent size {kind}")
            continue
        uses = [x for x in (payload(ind, "Size", 0), tab) if x in set(subterms(w))]
        default = w.tag == "adt" and w.a[2] and w.a[2][0].tag == "int" or "default" in show(w)[:40]
        fail = any(c[0] == "v" and c[1] == frozenset({"Err"}) for t, c in s.conds.items()) or any(src in set(subterms(t)) and c[0] == "i" for t, c in s.conds.items())
        if default:
            R.check(True if fail else False, rule, at, "only a width that is not allowed gives the default" if fail else "the width is ignored")
        else:
            R.check(True if uses == [src] else (False if uses else None), rule, at, f"width from {show(src)[-30:]}" if uses == [src] else f"width from {[show(x)[-30:] for x in uses]}")


def variant(s, t):
    c = s.conds.get(t)
    return next(iter(c[1])) if c and c[0] == "v" and len(c[1]) == 1 else None


def globals_(R):
    rule = "C29.global"
    fn = "lsp::handlers_state::update_global_config"
    I = R.interp()
    I.track_byref = True
    I.opaque_fn = lambda p, res: any(x and ("sync_file_settings" in x or x.startswith("lsp::logging::")) for x in (p, res))
    where = R.where(fn)
    ls = mk("arg", "lsp_state")
    flag = mk("fld", mk("fld", ls, "settings"), "sync_file_settings_with_client")
    n = 0
    for s, v in R.summary(fn, "keys items lsp_state state", I):
        if not (v.tag == "adt" and v.a[1] == "Ok"):
            continue
        n += 1
        at = f"{where}: {show_conds({t: c for t, c in s.conds.items() if len(show(t)) < 200})[:120]}"
        fv = [e for e in s.eff if e.tag == "eff" and e.a[0].endswith("from_value")]
        if len(fv) != 1:
            R.undecided(rule, at, "answers not read once")
            continue
        m = answers(fv[0].a[1][0], None, None, rule, R, at)
        if m is None:
            R.undecided(rule, at, "answers not understood")
            continue
        R.check(bool(m[0]) and cli_strip(m[1]) is mk("arg", "keys") and cli_strip(m[2]) is mk("arg", "items") or False, rule, at, "each key gets the answer at its position")
        got = lambda f: next((t for t in subterms_all(s) if t.tag == "fld" and t.a[1] == f and payload_of(t.a[0]) is not None and payload_of(t.a[0]).a[0].endswith("from_value")), None)
        rl = [e for e in s.eff if e.tag == "eff" and e.a[0].endswith("::reload")]
        lv, dp = got("log_level"), got("dependency_log_levels")
        if len(rl) != 1:
            R.check(False if not rl else None, rule, at, "log levels are applied" if rl else "log levels are dropped")
        else:
            a = [cli_strip(x) for x in rl[0].a[1][1:]]
            R.check(True if len(a) == 2 and a[0] is lv and a[1] is dp and lv is not None else (False if len(a) == 2 and (a[0].tag == "adt" or a[1].tag == "adt" or a[0] is dp) else None), rule, at, "the requested log levels are applied")
        fin = s.mem.get(("h", "lsp_state"), ls)
        new = project(project(fin, "settings"), "sync_file_settings_with_client")
        sf = got("sync_file_settings_with_client")
        sv = variant(s, sf) if sf is not None else None
        val = payload(sf, "Some", 0) if sf is not None else None
        nv = new.a[0] if new.tag == "int" else truth(s.conds, new)
        if sf is None:
            R.check(False if new is flag or fin is ls else None, rule, at, "the answer is not stored")
            continue
        want = False if sv == "None" else truth(s.conds, val)
        good = (new is val and sv == "Some") or (nv is not None and want is not None and bool(nv) == bool(want))
        R.check(True if good else (False if new is flag or nv is not None and want is not None else None), rule, at, "synchronisation is switched as answered" if good else f"stored is {show(new)[-80:]}")
        sync = [e for e in s.eff if e.tag == "eff" and "sync_file_settings" in e.a[0]]
        old = truth(s.conds, flag)
        now = want if want is not None else nv
        if old is not True and now is not False and not sync:
            R.check(False, rule, at, "switching synchronisation on sends nothing")
        if old is False and now:
            R.check(bool(sync), rule, at, "switching synchronisation on sends the settings" if sync else "switching synchronisation on sends nothing")
            for e in sync:
                u = e.a[1][1]
                R.check(True if every_document(u, "state") else None, rule, at, "of every open document")
    if not n:
        R.undecided(rule, where, "no successful outcome")


def every_document(u, state):
    docs = mk("fld", mk("arg", state), "documents")
    if u.tag == "comp" and len(u.a[3]) == 1:
        (conds, val), = u.a[3]
        e = mk("elem", u.a[0], u.a[2])
        return not conds and docs in set(subterms(u.a[0])) and (val is project(e, "0") or val is e and "keys" in op(u.a[0]))
    return docs in set(subterms(u)) and "keys" in op(u)


def subterms_all(s):
    seen = []
    for t in s.conds:
        seen += list(subterms(t))
    for e in s.eff:
        if e.tag == "eff":
            for x in e.a[1]:
                seen += list(subterms(x))
    for m in s.mem.values():
        if hasattr(m, "tag"):
            seen += list(subterms(m))
    return seen


def callers(R):
    """a document that is opened and a changed configuration update exactly the documents concerned"""
    rule = "C29.events"
    for fn, names, what in (("lsp::handlers_state::did_open", "params lsp_state state", "opened"), ("lsp::handlers_state::did_change_configuration", "params lsp_state state", "all")):
        I = R.interp()
        I.opaque_fn = lambda p, res: any(x and (x.startswith("lsp::handlers_state::update_config") or "sync_file_settings" in x or x.startswith("lsp::documents::")) for x in (p, res))
        where = R.where(fn)
        for s, v in R.summary(fn, names, I):
            up = [e for e in s.eff if e.tag == "eff" and e.a[0].endswith("::update_config")]
            if len(up) != 1:
                R.check(False if not up else None, rule, where, "the client's settings are asked for" if up else "the client's settings are not asked for")
                continue
            u = cli_strip(up[0].a[1][0])
            if what == "all":
                R.check(True if every_document(u, "state") else False if u.tag == "arr" else None, rule, where, "for every open document")
            else:
                uri = mk("fld", mk("fld", mk("arg", "params"), "text_document"), "uri")
                R.check(True if u.tag == "arr" and [cli_strip(x) for x in u.a[0]] == [uri] else False if u.tag == "arr" else None, rule, where, "for the opened document")


def registrations(R):
    rule = "C29.register"
    fn = "lsp::handlers::handle_initialized"
    I = R.interp()
    want = {}
    for name in ("VscDocumentSettings", "VscGlobalSettings"):
        a = R.prog.adts.get(VSC + name)
        for f in a["variants"][0]["fields"]:
            k = f[0] if isinstance(f, (list, tuple)) else f["name"]
            want[EDITOR.get(k) or "air." + camel(k)] = k
    caps = mk("fld", mk("arg", "lsp_state"), "capabilities")
    for s, v in R.summary(fn, "lsp_state", I):
        if not truth(s.conds, mk("fld", caps, "dynamic_registration_for_did_change_configuration")):
            continue
        regs = [e for e in s.eff if e.tag == "eff" and e.a[0].endswith("::register_capability")]
        if not regs:
            continue
        got = {u.a[0] for e in regs for u in subterms(e.a[1][1]) if u.tag == "str"}
        odd = any(u.tag in ("comp", "fold", "loop") for e in regs for u in subterms(e.a[1][1]))
        for sec in sorted(want):
            R.check(True if sec in got else None if odd else False, rule, f"{R.where(fn)}: {sec}", "changes of it are asked for" if sec in got else "changes of it are never reported by the client")


def check(R):
    R.program(*server.CRATES)
    for f in (request, keys, levels, documents, conversion, globals_, callers, registrations):
        f(R)
