"""C30: the syntax code agrees with the grammar and with the declared kinds."""
import re, os, itertools
from terms import *
from cases import *
import emit, c32
from emit import op_
from report import REPO

LEVEL = "proof"
TECHNIQUE = "translation check: the grammar file and the table of kinds are read as the specification; every generated function is reduced to its decision table by abstract interpretation of MIR and compared, kind by kind and slot by slot"
EXPLANATION = ("For each grammar rule: the fields struct, its order, optionality and types, the slot each accessor reads, the kinds the type accepts, the casts and conversions, the constructor or builder (which argument "
               "goes to which slot, under which kind) and the factory's shape check (the sequence of accepted kinds) are computed from the compiled code and compared with the grammar. Unions accept exactly their alternatives. "
               "The table of kinds (texts, keywords, lists, literals, punctuation), bogus kinds and the formatter dispatch are compared too.")
NOTE = "AstNode/AstNodeList defaults, slots and casts of biome_rowan are trusted; `nodes_mut.rs` is not compiled (no `mod`), the T! and map_syntax_node! macros have no MIR of their own"

A = "air_r_syntax::generated::nodes::"
KIND = "air_r_syntax::generated::kind::RSyntaxKind"
N = "air_r_factory::generated::node_factory::"
MAKE = "<air_r_factory::generated::syntax_factory::RSyntaxFactory as biome_rowan::SyntaxFactory>::make_syntax"
LIB = "air_r_syntax::<impl biome_rowan::SyntaxKind for " + KIND + ">::"
AST = " as biome_rowan::AstNode>::"
NAMES = {"(": "l_paren", ")": "r_paren", "{": "l_curly", "}": "r_curly", "[": "l_brack", "]": "r_brack", "[[": "l_brack2", "]]": "r_brack2", "=": "eq", ",": "comma", ";": "semicolon"}


# ------------------------------------------------------------------ the specification
class Bad(Exception):
    pass


class Grammar:
    def __init__(self, text, kinds):
        self.kinds = kinds
        text = re.sub(r"//[^\n]*", "", text)
        self.toks = re.findall(r"'(?:\\.|[^'\\])*'|[A-Za-z_][A-Za-z0-9_]*|[=:|?*()]|\S", text)
        self.nodes, self.lists, self.unions, self.bogus = {}, {}, {}, []
        starts = [i for i in range(len(self.toks) - 1) if self.toks[i + 1] == "=" and re.match(r"[A-Za-z_]", self.toks[i])]
        raw = {}
        for n, i in enumerate(starts):
            raw[self.toks[i]] = self.toks[i + 2: starts[n + 1] if n + 1 < len(starts) else len(self.toks)]
        raw.pop("SyntaxElement", None)
        for name, body in raw.items():
            if body == ["SyntaxElement", "*"]:
                self.bogus.append(name)
            elif len(body) == 2 and body[1] == "*" and body[0] in raw:
                self.lists[name] = (body[0], None)
            elif len(body) == 8 and body[0] == "(" and body[2] == "(" and body[5:] == [")", "*", ")"] and body[1] == body[4]:
                self.lists[name] = (body[1], self.token(body[3]))
            elif "|" in body and all(t == "|" for t in body[1::2]) and all(t in raw for t in body[::2]):
                self.unions[name] = body[::2]
        for name, body in raw.items():
            if name in self.lists or name in self.unions or name in self.bogus:
                continue
            self.nodes[name] = self.fields(body, raw)
        self.all = set(raw)

    def token(self, t):
        t = re.sub(r"\\(.)", r"\1", t[1:-1])
        if t in self.kinds.punct:
            return self.kinds.punct[t]
        if t in self.kinds.keywords:
            return t.upper() + "_KW"
        if t.upper() in self.kinds.other:
            return t.upper()
        raise Bad(f"`{t}` is not a declared token")

    def fields(self, b, raw):
        out, i = [], 0
        while i < len(b):
            label = None
            if i + 1 < len(b) and b[i + 1] == ":":
                label, i = b[i], i + 2
            if b[i] == "(":
                j = b.index(")", i)
                alts = b[i + 1:j]
                if not all(t == "|" for t in alts[1::2]) or not all(t.startswith("'") for t in alts[::2]):
                    raise Bad("group " + " ".join(alts))
                what, text, i = ("tokens", frozenset(self.token(t) for t in alts[::2])), None, j + 1
                names = (label,)
            elif b[i].startswith("'"):
                text = re.sub(r"\\(.)", r"\1", b[i][1:-1])
                what = ("token", frozenset({self.token(b[i])}))
                names = (label + "_token",) if label else (NAMES.get(text, text) + "_token",)
                i += 1
            elif b[i] in raw:
                what = ("list", b[i]) if b[i] in self.lists else ("node", b[i])
                names, i = (label or "",), i + 1
            else:
                raise Bad("unexpected " + b[i])
            opt = i < len(b) and b[i] == "?"
            i += opt
            out.append((names[0], what, opt))
        return out

    def accepts(self, name):
        if name in self.unions:
            return frozenset().union(*[self.accepts(a) for a in self.unions[name]])
        return frozenset({kind_name(name)})

    def route(self, name, k):
        """nested variants that lead from a union to the node of kind k"""
        if name not in self.unions:
            return ()
        for a in self.unions[name]:
            if k in self.accepts(a):
                return ((name, a),) + self.route(a, k)
        return None


class Kinds:
    def __init__(self, text):
        text = re.sub(r"//[^\n]*", "", text)
        get = lambda n: re.search(r"\b" + n + r':\s*&\[((?:\s*,|\s*\(|\s*\)|\s*"(?:\\.|[^"\\])*")*)\s*\]', text).group(1)
        s = lambda x: re.sub(r"\\(.)", r"\1", x)
        self.punct = {s(a): b for a, b in re.findall(r'\(\s*"((?:\\.|[^"\\])*)"\s*,\s*"(\w+)"\s*\)', get("punct"))}
        strs = lambda n: re.findall(r'"(\w+)"', get(n))
        self.keywords, self.literals, self.tokens, self.nodes = strs("keywords"), strs("literals"), strs("tokens"), strs("nodes")
        self.other = set(self.literals) | set(self.tokens) | {"EOF", "UNICODE_BOM"}

    def all(self):
        return ["TOMBSTONE", "EOF", "UNICODE_BOM", *self.punct.values(), *(k.upper() + "_KW" for k in self.keywords), *self.literals, *self.tokens, *self.nodes, "__LAST"]


def words(name):
    return re.findall(r"[A-Z][a-z0-9]*", name)


def kind_name(name):
    return "_".join(words(name)).upper()


def fn_name(name):
    return "_".join(words(name)).lower()


def kind(k):
    return mk("adt", KIND, k, (), ())


# ------------------------------------------------------------------ reading the code
def on_kind(outs, isk, allk):
    """[(set of kinds, other conditions, state, value)]; a state whose kinds cannot be told raises"""
    res = []
    for s, v in outs:
        S, rest = frozenset(allk), {}
        for t, c in dict(s.conds).items():
            if isk(t) and c[0] == "v":
                S &= frozenset(c[1])
            elif t.tag == "eq" and c[0] == "b" and any(isk(x) for x in t.a):
                o = next((x for x in t.a if not isk(x)), None)
                if o is None or o.tag != "adt" or o.a[0] != KIND or len(c[1]) != 1:
                    rest[t] = c
                    continue
                S = S & {o.a[1]} if True in c[1] else S - {o.a[1]}
            else:
                rest[t] = c
        if S:
            res.append((S, rest, s, v))
    return res


def is_arg(name):
    return lambda t: t == mk("arg", name)


def kind_of(name):
    def f(t):
        t = peel_(t)
        return t.tag == "ecall" and t.a[0] == "SyntaxNode::kind" and peel_(t.a[1][0]) == mk("arg", name)
    return f


def peel_(t):
    while t.tag in ("ref", "deref", "copy") and t.a and isinstance(t.a[0], T):
        t = t.a[0]
    return t


class Ctx:
    def __init__(self, R):
        self.R = R
        self.P = R.prog
        self.allk = [v["name"] for v in self.P.adts[KIND]["variants"]]

    def interp(self):
        I = self.R.interp()
        I.opaque_fn = lambda p, res: any(x and x.endswith("::into_syntax") for x in (p, res))
        return I

    def bools(self, fn, a):
        """kinds for which a predicate is true, kinds for which it is false"""
        I = self.R.interp()
        yes, no = set(), set()
        for S, rest, s, b in on_kind(split_bool(I, self.R.summary(fn, a, I)), is_arg(a), self.allk):
            if rest or s.eff:
                raise Bad(f"depends on {show_conds(rest)[:200]}")
            (yes if b else no).update(S)
        if yes & no or yes | no != set(self.allk):
            raise Bad("not decided for every kind")
        return yes


def same_set(R, rule, where, got, want, what):
    extra, missing = sorted(set(got) - set(want)), sorted(set(want) - set(got))
    if extra or missing:
        R.violated(rule, where, f"{what}: " + "; ".join(x for x in (f"also {', '.join(extra)}" if extra else "", f"lacks {', '.join(missing)}" if missing else "") if x))
    else:
        R.proved(rule, where, f"{what}: exactly the {len(set(want))} of the specification")


def guard(R, f, rule, where):
    def g():
        try:
            f()
        except (Bad, KeyError, StopIteration, IndexError) as e:
            R.undecided(rule, where, f"{type(e).__name__}: {e}")
    R.guard(g, rule, where)


# ------------------------------------------------------------------ kinds
def kinds(C, G, K):
    R, rule = C.R, "C30.kinds"
    M = KIND + "::"
    same_set(R, rule, KIND, C.allk, K.all(), "syntax kinds")
    if C.allk[-1] != "__LAST":
        R.violated(rule, KIND, "__LAST is not the last kind")
    for f, want in (("is_punct", set(K.punct.values())), ("is_literal", set(K.literals)), ("is_list", {kind_name(n) for n in G.lists})):
        guard(R, lambda: same_set(R, rule, R.where(M + f), C.bools(M + f, "self"), want, f"kinds for which {f} holds"), rule, f)
    bog = {kind_name(n) for n in G.bogus}
    for f, want in (("is_bogus", bog), ("is_list", {kind_name(n) for n in G.lists}), ("is_root", {kind_name(n) for n in G.all if n not in C.used}), ("is_trivia", {"NEWLINE", "WHITESPACE", "COMMENT"})):
        guard(R, lambda: same_set(R, rule, R.where(LIB + f), C.bools(LIB + f, "self"), want, f"kinds for which {f} holds"), rule, "SyntaxKind::" + f)
    guard(R, lambda: texts(C, K, M + "to_string"), rule, "to_string")
    guard(R, lambda: texts(C, K, LIB + "to_string"), rule, "SyntaxKind::to_string")
    guard(R, lambda: keywords(C, K), rule, "from_keyword")
    guard(R, lambda: demote(C, G, bog), rule, "to_bogus")
    guard(R, lambda: trivia(C), rule, "TriviaPieceKind")
    same_set(R, rule, "xtask/codegen/r.ungram", [kind_name(n) for n in G.all if n not in G.unions], K.nodes, "rules of the grammar against declared node kinds")


def texts(C, K, fn):
    R, rule = C.R, "C30.kinds"
    want = {b: a for a, b in K.punct.items()}
    want.update({k.upper() + "_KW": k for k in K.keywords})
    I = R.interp()
    where, got = R.where(fn), {}
    for s, p in split_opt(I, R.summary(fn, "self", I)):
        for S, rest, _, _ in on_kind([(s, p)], is_arg("self"), C.allk):
            if rest:
                raise Bad(show_conds(rest)[:200])
            if p is not None:
                p = I.deref(p, s) if isinstance(p, T) else p
                if p.tag != "str":
                    raise Bad("text " + show(p)[:100])
            for k in S:
                got.setdefault(k, set()).add(None if p is None else p.a[0])
    bad = 0
    for k in C.allk:
        g = got.get(k, set())
        if g == {want.get(k)}:
            continue
        if k not in want and k in ("R_STRING_VALUE", "EOF"):
            continue
        bad += 1
        R.violated(rule, f"{where}: {k}", f"is written {sorted(map(str, g))}, declared as {want.get(k)!r}")
    if not bad:
        R.proved(rule, where, f"{len(want)} fixed texts are the declared ones, no other kind has one")


def keywords(C, K):
    R, rule, fn = C.R, "C30.kinds", KIND + "::from_keyword"
    I = R.interp()
    where, arg = R.where(fn), mk("arg", "ident")
    outs = split_opt(I, R.summary(fn, "ident", I))
    bad = 0
    for w in [*K.keywords, "", "somethingelse", *(k.upper() for k in K.keywords)]:
        res = set()
        for s, p in outs:
            ok = True
            for t, c in dict(s.conds).items():
                t = peel_(t)
                if t == arg and c[0] == "s":
                    ok = ok and ((w in c[2]) == bool(c[1]))
                elif t.tag == "eq" and c[0] == "b" and arg in t.a:
                    o = next(x for x in t.a if x != arg)
                    if o.tag != "str":
                        raise Bad(show(t)[:100])
                    ok = ok and ((o.a[0] == w) in c[1])
                else:
                    raise Bad("depends on " + show(t)[:100])
            if ok:
                res.add(None if p is None else show(p).split("::")[-1])
        want = w.upper() + "_KW" if w in K.keywords else None
        if res != {want}:
            bad += 1
            R.violated(rule, f"{where}: `{w}`", f"becomes {sorted(map(str, res))}, declared {want}")
    for s, p in outs:
        for t, c in dict(s.conds).items():
            if c[0] == "s" and c[1] and p is not None and not set(c[2]) <= set(K.keywords):
                bad += 1
                R.violated(rule, where, f"{sorted(c[2])} is no declared keyword")
    if not bad:
        R.proved(rule, where, f"{len(K.keywords)} keywords, nothing else")


def demote(C, G, bog):
    R, rule, fn = C.R, "C30.kinds", LIB + "to_bogus"
    I = R.interp()
    where, got = R.where(fn), {}
    for S, rest, s, v in on_kind(R.summary(fn, "self", I), is_arg("self"), C.allk):
        v = peel_(v)
        if rest or (v.tag != "adt" and v != mk("arg", "self")):
            raise Bad(show(v)[:100])
        for k in S:
            got.setdefault(k, set()).add(k if v.tag == "arg" else v.a[1])
    bad = 0
    for k in C.allk:
        g = got.get(k, set())
        b = next(iter(g)) if len(g) == 1 else None
        own = [u for u in G.unions if any(kind_name(x) == b for x in G.unions[u])]
        nested = [kind_name(x) for u in G.unions if any(u in G.unions[o] for o in G.unions) and k in G.accepts(u) for x in G.unions[u] if x in G.bogus]
        good = b in bog and (k not in bog or b == k) and all(k in G.accepts(u) for u in own) and (k in bog or not nested or b in nested)
        if not good:
            bad += 1
            R.violated(rule, f"{where}: {k}", f"becomes {sorted(g)}, which is not a bogus kind of a union it belongs to")
    if not bad:
        R.proved(rule, where, "a bogus kind, its own for bogus kinds, allowed wherever the kind was an alternative of that union")


def trivia(C):
    R, rule = C.R, "C30.kinds"
    fn = "air_r_syntax::<impl core::convert::TryFrom<" + KIND + "> for biome_rowan::TriviaPieceKind>::try_from"
    want = {"NEWLINE": "Newline", "WHITESPACE": "Whitespace", "COMMENT": "SingleLineComment"}
    where, bad = R.where(fn), 0
    for k in C.allk:
        I = R.interp()
        for s, n, v in split_res(I, R.summary(fn, [kind(k)], I)):
            r = v.a[1] if n == "Ok" and v.tag == "adt" else None
            if r != want.get(k):
                bad += 1
                R.violated(rule, f"{where}: {k}", f"becomes {n} {show(v)[:80]}, expected {want.get(k)}")
    if not bad:
        R.proved(rule, where, "newline, white space and comment, each itself; nothing else is trivia")


# ------------------------------------------------------------------ nodes
def last(t):
    return t.replace("<'_>", "").split("<")[0].split("::")[-1]


def node_fields(C, G, name):
    R, rule, P = C.R, "C30.fields", C.P
    want = G.nodes[name]
    ty = A + name
    where = ty
    fs = [(f["name"], f["ty"]) for f in P.adts[ty + "Fields"]["variants"][0]["fields"]]
    if sorted(f for f, _ in fs) != sorted(f for f, _, _ in want):
        R.violated(rule, where + "Fields", f"fields {', '.join(f for f, _ in fs)}; the grammar has {', '.join(f for f, _, _ in want)}")
    for i, (f, what, opt) in enumerate(want):
        fn = ty + "::" + f
        if fn not in P.fns:
            R.violated(rule, where, f"no accessor {f}")
            continue
        R.fn(fn)
        op = {"node": "node", "list": "list"}.get(what[0], "token")
        exp = "support::" + (op if opt or op == "list" else "required_" + op)
        I = R.interp()
        base = mk("fld", mk("arg", "self"), "syntax")
        ok, got = True, ""
        for s, v in R.summary(fn, "self", I):
            v = peel_(v)
            if v.tag != "ecall" or len(v.a[1]) != 2 or not v.a[0].startswith("support::"):
                ok, got = None, show(v)[:150]
                break
            slot = v.a[1][1]
            if v.a[0] != exp or slot != Int(i) or show(v.a[1][0]) != "$self.syntax":
                ok, got = False, f"{v.a[0]}({show(v.a[1][0])}, {show(slot)})"
        R.check(ok, rule, R.where(fn), f"reads slot {i} by {exp}" + ("" if ok else f", the code has {got}"))
        t = dict(fs).get(f)
        tys = [t] if t else []
        out = P.fns[fn].get("body", {}).get("locals")
        for t in tys:
            form = "optional" if t.startswith("core::option::Option<") else "required" if t.startswith("core::result::Result<") else "list"
            inner = t.split("<", 1)[1].split(",")[0].rstrip(">") if form != "list" else t
            target = "SyntaxToken" if op == "token" else what[1]
            got = "SyntaxToken" if "SyntaxToken" in inner else last(inner)
            R.check(got == target and form == ("list" if op == "list" else "optional" if opt else "required"), rule, f"{ty}Fields.{f}", f"{'optional ' if opt else ''}{target}" + ("" if got == target else f", the code has {t[:120]}"))
    fn = ty + "::as_fields"
    I = R.interp()
    for s, v in R.summary(fn, "self", I):
        if v.tag != "adt":
            raise Bad("as_fields gives " + show(v)[:100])
        for i, (f, what, opt) in enumerate(want):
            p = peel_(project(v, f))
            ok = p.tag == "ecall" and p.a[0].startswith("support::") and p.a[1][1] == Int(i)
            R.check(ok, rule, R.where(fn) + f": {f}", f"slot {i}" + ("" if ok else f", the code has {show(p)[:100]}"))
    # no accessor reads a slot the grammar does not give it
    for p in P.fns:
        if p.startswith(ty + "::") and p.count("::") == ty.count("::") + 1 and p.endswith("_token") and p.split("::")[-1] not in [f for f, _, _ in want]:
            R.violated(rule, R.where(p), "accessor of a token the grammar does not have")


def node_type(C, G, name):
    R, rule, P = C.R, "C30.cast", C.P
    ty = A + name
    k = kind_name(name)
    pre = "<" + ty + AST
    guard(R, lambda: same_set(R, rule, R.where(pre + "can_cast"), C.bools(pre + "can_cast", "kind"), G.accepts(name), "accepted kinds"), rule, name + "::can_cast")
    guard(R, lambda: cast(C, G, name, pre + "cast"), rule, name + "::cast")
    for f, a in (("into_syntax", "self"), ("syntax", "self")):
        guard(R, lambda: syntax(C, G, name, pre + f, a), rule, name + "::" + f)
    for p in P.fns:
        if p.startswith(A + "<impl core::convert::From<" + ty + "> for biome_rowan::SyntaxNode<") and p.endswith("::from"):
            guard(R, lambda: syntax(C, G, name, p, "n"), rule, name + " into a node")
    if name not in G.unions:
        guard(R, lambda: kind_set(C, name, pre + "KIND_SET"), rule, name + "::KIND_SET")
        return
    guard(R, lambda: kind_union(C, G, name, pre + "KIND_SET"), rule, name + "::KIND_SET")
    for alt in G.unions[name]:
        p = "<" + ty + " as core::convert::From<" + A + alt + ">>::from"
        if p in P.fns:
            def conv():
                for s, v in R.summary(p, "n", R.interp()):
                    ok = v.tag == "adt" and v.a[0] == ty and v.a[1] == alt and peel_(v.a[2][0]) == mk("arg", "n")
                    R.check(ok if v.tag == "adt" else None, rule, R.where(p), f"{alt} becomes that alternative" + ("" if ok else f", not {show(v)[:80]}"))
            guard(R, conv, rule, p)
        elif alt not in G.unions:
            R.undecided(rule, ty, f"{alt} has no conversion to {name}")
        p = ty + "::as_" + fn_name(alt)
        if p in P.fns:
            def view():
                I = R.interp()
                for s, x in split_opt(I, R.summary(p, "self", I)):
                    vs = [set(c[1]) for t, c in dict(s.conds).items() if t == mk("arg", "self") and c[0] == "v"]
                    if not vs:
                        raise Bad("not decided by the alternative")
                    want = vs[0] == {alt}
                    good = (x is not None) == want and (want or alt not in vs[0])
                    if good and x is not None:
                        good = show(x).replace("&", "") == f"$self.{alt}.0"
                    R.check(good, rule, R.where(p), f"only {alt}, and that")
            guard(R, view, rule, p)
    same_set(R, rule, ty, [v["name"] for v in P.adts[ty]["variants"]], G.unions[name], "alternatives")
    for v in P.adts[ty]["variants"]:
        f = v.get("fields") or []
        if len(f) == 1 and last(f[0]["ty"]) != v["name"]:
            R.violated(rule, ty + "::" + v["name"], f"holds a {last(f[0]['ty'])}")


def holder(C, name):
    return [f["name"] for f in C.P.adts[A + name]["variants"][0]["fields"]]


def is_node(C, v, name, source):
    """v is the node `name` made of `source`"""
    v = peel_(v)
    if v.tag != "adt" or v.a[0] != A + name:
        return None if v.tag not in ("adt",) else False
    x = peel_(project(v, holder(C, name)[0]))
    if x.tag == "ecall" and x.a[0] == "SyntaxNode::into_list":
        x = peel_(x.a[1][0])
    return x == source


def cast(C, G, name, fn):
    R, rule = C.R, "C30.cast"
    I = R.interp()
    where, acc = R.where(fn), G.accepts(name)
    seen, bad, unk = set(), set(), set()
    src = mk("arg", "syntax")
    for s, p in split_opt(I, R.summary(fn, "syntax", I)):
        for S, rest, _, _ in on_kind([(s, p)], kind_of("syntax"), C.allk):
            if rest:
                unk.add("depends on " + show_conds(rest)[:150])
            seen |= S
            if p is None:
                if S & acc:
                    bad.add(f"{', '.join(sorted(S & acc))} is refused")
                continue
            if not S <= acc:
                bad.add(f"{', '.join(sorted(S - acc))[:200]} is accepted")
                continue
            for k in S:
                v = peel_(p)
                for u, alt in G.route(name, k):
                    if v.tag != "adt" or v.a[0] != A + u:
                        unk.add(f"{k} becomes {show(v)[:80]}")
                        v = None
                        break
                    if v.a[1] != alt:
                        bad.add(f"{k} becomes {v.a[1]}")
                        v = None
                        break
                    v = peel_(v.a[2][0])
                if v is None:
                    continue
                n = node_of(G, k)
                r = is_node(C, v, n, src)
                if r is None:
                    unk.add(f"{k} becomes {show(v)[:80]}")
                elif not r:
                    bad.add(f"{k} becomes {show(v)[:80]}")
    for b in sorted(bad):
        R.violated(rule, where, b)
    if not bad:
        if unk or seen != set(C.allk):
            R.undecided(rule, where, "; ".join(sorted(unk))[:300] or "kinds not covered")
        else:
            R.proved(rule, where, f"{len(acc)} kinds become their own alternative around the same node, all others are refused")


def node_of(G, k):
    return next(n for n in G.all if n not in G.unions and kind_name(n) == k)


def syntax(C, G, name, fn, a):
    R, rule = C.R, "C30.cast"
    I = R.interp()
    where = R.where(fn)
    seen, bad, unk = set(), set(), set()
    leaves = {}

    def walk(n, path):
        if n in G.unions:
            for x in G.unions[n]:
                walk(x, path + f".{x}.0")
        else:
            leaves[path] = n
    walk(name, "$" + a)
    for s, v in R.summary(fn, a, I):
        v = I.deref(v, s)
        cs = {}
        for t, c in dict(s.conds).items():
            if c[0] != "v":
                unk.add("depends on " + show(t)[:80])
            else:
                cs[show(t)] = set(c[1])
        got = show(peel_(v)).replace("&", "")
        got = re.sub(r"^SyntaxList::(node|into_node)(#\d+)?\((.*)\)$", r"\3", got)
        for path, n in leaves.items():
            alts = re.findall(r"\.(\w+)\.0", path)
            ok = all(cs.get("$" + a + "".join(f".{x}.0" for x in alts[:i]), {alt}) & {alt} for i, alt in enumerate(alts))
            if not ok:
                continue
            seen.add(path)
            if got != path + "." + holder(C, n)[0]:
                (bad if re.match(r"^\$\w+(\.\w+)*$", got) else unk).add(f"{path[1:]} gives {got[:80]}")
    for b in sorted(bad):
        R.violated(rule, where, b)
    if not bad:
        if unk or seen != set(leaves):
            R.undecided(rule, where, "; ".join(sorted(unk))[:300] or f"not covered: {sorted(set(leaves) - seen)[:4]}")
        else:
            R.proved(rule, where, f"the node inside, for {len(leaves)} alternatives")


def kind_set(C, name, fn):
    R, rule = C.R, "C30.cast"
    n = C.allk.index(kind_name(name))
    for s, v in R.summary(fn, "", R.interp()):
        m = re.findall(r"RawSyntaxKind\{0: (\d+)\}", show(v))
        m = m or re.findall(r"RawSyntaxKind\((\d+)\)", show(v))
        if len(m) != 1:
            raise Bad(show(v)[:150])
        R.check(int(m[0]) == n, rule, R.where(fn), f"the kind numbered {n}" + ("" if int(m[0]) == n else f", not {m[0]}"))


def kind_union(C, G, name, fn):
    """the constant is a union, by `union` only, of the sets of other types"""
    R, rule = C.R, "C30.cast"
    of, calls = set(), set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "const":
                of.add((x["path"].split("::")[-1], (x.get("of") or "?").split("::")[-1]))
            elif x.get("k") == "fn":
                calls.add(x["path"].split("::")[-1])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(C.P.fns[fn]["body"]["blocks"])
    R.fn(fn)
    if not calls <= {"union"} or not of or any(a != "KIND_SET" or b not in G.all for a, b in of):
        raise Bad(f"made of {sorted(of)[:4]} by {sorted(calls)}")
    got = frozenset().union(*[G.accepts(b) for _, b in of])
    same_set(R, rule, R.where(fn), got, G.accepts(name), "kinds in the set")


# ------------------------------------------------------------------ constructors
def slots(v):
    """(kind, slots) of a newly made node; slots as (kind of thing or None, term)"""
    v = peel_(v)
    while v.tag in ("ecall", "call") and (op_(v).endswith("unwrap_cast") or op_(v).endswith("Option::unwrap")):
        v = peel_(args(v)[0])
    if v.tag not in ("ecall", "call") or not op_(v).endswith("SyntaxNode::new_detached"):
        return None
    k, ss = args(v)[0], peel_(args(v)[1])
    if k.tag != "adt" or ss.tag not in ("arr", "tup", "list", "array"):
        return None
    items = ss.a[0] if len(ss.a) == 1 and isinstance(ss.a[0], tuple) else ss.a
    return k.a[1], [slot(x) for x in items]


def slot(t):
    t = peel_(t)
    if t.tag == "adt" and t.a[1] == "None":
        return None
    if t.tag == "adt" and t.a[1] == "Some":
        x = peel_(t.a[2][0])
        if x.tag == "adt" and x.a[1] in ("Token", "Node"):
            y = peel_(x.a[2][0])
            if x.a[1] == "Node":
                while y.tag in ("ecall", "call") and op_(y).endswith("into_syntax"):
                    y = peel_(args(y)[0])
            return x.a[1], y
    return "?", t


def constructor(C, G, name):
    R, rule, P = C.R, "C30.make", C.P
    want = G.nodes[name]
    fn = N + fn_name(name)
    where = R.where(fn)
    req = [f for f, _, o in want if not o]
    I = C.interp()
    names = [f"a{i}" for i in range(P.fns[fn]["body"]["argc"])]
    if len(names) != len(req):
        R.violated(rule, where, f"takes {len(names)} parts, the grammar requires {len(req)}")
        return
    outs = R.summary(fn, " ".join(names), I)
    val = {f: mk("arg", n) for f, n in zip(req, names)}
    if len(req) == len(want):
        for s, v in outs:
            made(C, G, name, where, v, val, {})
        return
    B = N + name + "Builder"
    if {f["name"] for f in P.adts[B]["variants"][0]["fields"]} != {f for f, _, _ in want}:
        raise Bad("the builder names its parts otherwise")
    for s, v in outs:
        if v.tag != "adt" or v.a[0] != B:
            raise Bad(show(v)[:150])
        for f, what, opt in want:
            p = peel_(project(v, f))
            ok = (p.tag == "adt" and p.a[1] == "None") if opt else p == val[f]
            R.check(ok, rule, where + f": {f}", ("absent" if opt else "its own argument") + ("" if ok else f", the code has {show(p)[:80]}"))
    me = mk("arg", "self")
    for f, what, opt in want:
        if not opt:
            continue
        fw = B + "::with_" + f
        for s, v in R.summary(fw, "self x", C.interp()):
            p = peel_(project(v, f))
            ok = p.tag == "adt" and p.a[1] == "Some" and peel_(p.a[2][0]) == mk("arg", "x")
            others = all(peel_(project(v, g)) == mk("fld", me, g) for g, _, _ in want if g != f)
            R.check(ok and others, rule, R.where(fw), f"sets {f} and nothing else" + ("" if ok and others else f", the code gives {show(v)[:100]}"))
    fb = B + "::build"
    val = {f: mk("fld", me, f) for f, _, _ in want}
    n = 0
    opts = [f for f, _, o in want if o]
    for s, v in R.summary(fb, "self", C.interp()):
        present = {}
        for t, c in dict(s.conds).items():
            f = next((f for f in opts if t == val[f]), None)
            if f is None or c[0] != "v" or len(c[1]) != 1:
                raise Bad("depends on " + show(t)[:100])
            present[f] = "Some" in c[1]
        n += 2 ** (len(opts) - len(present))
        made(C, G, name, R.where(fb), v, {f: (payload(val[f], "Some", 0) if f in opts else val[f]) for f in val}, present)
    R.check(n == 2 ** len(opts) or None, rule, R.where(fb), f"{n} combinations of optional parts")


def made(C, G, name, where, v, val, present):
    R, rule = C.R, "C30.make"
    r = slots(v)
    if r is None:
        raise Bad("makes " + show(v)[:200])
    k, ss = r
    R.check(k == kind_name(name), rule, where, f"makes a {kind_name(name)}" + ("" if k == kind_name(name) else f", not a {k}"))
    want = G.nodes[name]
    if len(ss) != len(want):
        R.violated(rule, where, f"fills {len(ss)} slots of {len(want)}")
        return
    for i, ((f, what, opt), x) in enumerate(zip(want, ss)):
        exp = "Token" if what[0] in ("token", "tokens") else "Node"
        if opt and not present.get(f, True):
            R.check(x is None, rule, where + f": {f}", f"slot {i} empty when absent")
        elif x is None:
            R.violated(rule, where + f": {f}", f"slot {i} is empty although {f} is given")
        elif x[0] == "?":
            R.undecided(rule, where + f": {f}", show(x[1])[:150])
        else:
            ok = x == (exp, val[f])
            R.check(ok, rule, where + f": {f}", f"slot {i} holds it as a {exp.lower()}" + ("" if ok else f"; the code has {x[0]} {show(x[1])[:80]}"))


def plain_make(C, G, name):
    """lists and bogus nodes"""
    R, rule, P = C.R, "C30.make", C.P
    fn = N + fn_name(name)
    where = R.where(fn)
    I = C.interp()
    for s, v in R.summary(fn, " ".join(f"a{i}" for i in range(P.fns[fn]["body"]["argc"])), I):
        while v.tag in ("ecall", "call") and op_(v).endswith("unwrap_cast"):
            v = peel_(args(v)[0])
        if v.tag not in ("ecall", "call") or not op_(v).endswith("new_detached"):
            raise Bad(show(v)[:150])
        k = args(v)[0]
        ok = k.tag == "adt" and k.a[1] == kind_name(name)
        t = show(args(v)[1])
        R.check(ok if k.tag == "adt" else None, rule, where, f"makes a {kind_name(name)}" + ("" if ok else f", not {show(k)}"))
        R.check("$a0" in t and (G.lists.get(name, (0, None))[1] is None or "$a1" in t) or None, rule, where + ": parts", f"from what it is given")


# ------------------------------------------------------------------ shape check of the factory
def shape(C, G, K, k):
    R, rule = C.R, "C30.shape"
    where = R.where(MAKE) + f": {k}"
    ch = mk("arg", "children")
    if MAKE not in C.P.fns:
        raise Bad("no make_syntax")
    outs = R.summary(MAKE, [kind(k), "children"], C.interp())
    name = next((n for n in G.all if n not in G.unions and kind_name(n) == k), None)
    if name is None:
        return
    if name in G.bogus:
        for s, v in outs:
            ok = op_(v).endswith("RawSyntaxNode::new") and args(v)[0] == kind(k)
            R.check(ok if v.tag in ("ecall", "call") else None, rule, where, "kept as it is" + ("" if ok else f", the code gives {show(v)[:100]}"))
        return
    if name in G.lists:
        item, sep = G.lists[name]
        for s, v in outs:
            f = "make_separated_list_syntax" if sep else "make_node_list_syntax"
            a = args(v) if v.tag in ("ecall", "call") else ()
            if not op_(v).endswith("_list_syntax"):
                raise Bad(show(v)[:150])
            ok = op_(v).endswith("::" + f) and a[0] == kind(k)
            why = show(v)[:150]
            R.check(ok, rule, where, f"a {'separated ' if sep else ''}list of its own kind" + ("" if ok else ", the code has " + why))
            it = [x for x in subterms(v) if x.tag in ("fn", "clo")]
            text = " ".join(repr(x.a) for x in it)
            m = re.findall(r"generated::nodes::(\w+)", text)
            R.check(set(m) == {item} if m else None, rule, where + ": elements", f"{item}" + ("" if set(m) == {item} else f", the code has {sorted(set(m))}"))
            if sep:
                R.check(kind(sep) in a if any(x.tag == "adt" and x.a[0] == KIND for x in a[1:]) else None, rule, where + ": separator", sep)
                tr = [x for x in a if x.tag == "int"]
                R.check(tr[-1] == Int(0) if tr else None, rule, where + ": trailing separator", "is not allowed")
        return
    fields = G.nodes[name]
    sets = []
    for f, what, opt in fields:
        sets.append(what[1] if what[0] in ("token", "tokens") else G.accepts(what[1]))
    # each path: the kinds of successive children, and what is written for each slot
    seen = []
    for s, v in outs:
        facts, rest = {}, []
        for t, c in dict(s.conds).items():
            d = depth(t, ch)
            if d is None:
                rest.append((t, c))
                continue
            what, n = d
            if what == "kind":
                S = facts.setdefault(n, [None, frozenset(C.allk)])
                S[1] = S[1] & (frozenset(c[1]) if c[0] == "v" else frozenset(C.allk))
            elif what == "some":
                facts.setdefault(n, [None, frozenset(C.allk)])[0] = ("Some" in c[1])
            elif what == "is":
                S = facts.setdefault(n, [None, frozenset(C.allk)])
                ks, b = n_kind(t), True in c[1]
                S[1] = S[1] & ks if b else S[1] - ks
        if rest:
            raise Bad("depends on " + show(rest[0][0])[:150])
        if any(not S[1] for S in facts.values() if S[0] is not False):
            continue
        writes = [e.a[0].split("::")[-1] for e in s.eff if e.tag == "eff" and e.a[0].split("::")[-1] in ("mark_present", "mark_absent", "next_slot")]
        good = op_(v).endswith("RawNodeSlots::into_node")
        if not good and not op_(v).endswith("RawSyntaxNode::new"):
            raise Bad("gives " + show(v)[:100])
        if good:
            kk = next((x for x in args(v) if x.tag == "adt" and x.a[0] == KIND), None)
            R.check(kk == kind(k) if kk is not None else None, rule, where, "keeps its kind")
        else:
            kk = args(v)[0]
            if not (op_(kk).endswith("to_bogus") or kk.tag == "adt" and kk.a[1].startswith("R_BOGUS")):
                R.violated(rule, where, f"what does not fit becomes {show(kk)[:80]}")
        seen.append((facts, writes, good))
    bad, n = set(), 0
    # walk the grammar over abstract children: each child is one kind; enumerate classes of kinds that matter
    classes = classes_of([S for f, _, _ in seen for _, S in f.values()] + sets, C.allk)

    def expected(seq):
        i, out = 0, []
        for S, (f, what, opt) in zip(sets, fields):
            if i < len(seq) and seq[i] in S:
                out.append("mark_present")
                i += 1
            else:
                out.append("mark_absent")
        return out if i == len(seq) else None

    reps = [c[0] for c in classes]
    # sequences of the grammar (every subset of its fields) and all their one-child deviations
    base = [tuple(sorted(set(r for r in reps if r in S))[:1]) for S in sets]
    pres = list(itertools.product([0, 1], repeat=len(fields)))
    seqs = set()
    for p in pres:
        seq = tuple(b[0] for b, on in zip(base, p) if on and b)
        seqs.add(seq)
    dev = set()
    full = tuple(b[0] for b in base if b)
    for seq in sorted(seqs, key=len, reverse=True)[:64]:
        for i in range(len(seq) + 1):
            for r in reps:
                dev.add(seq[:i] + (r,) + seq[i:])
                if i < len(seq):
                    dev.add(seq[:i] + (r,) + seq[i + 1:])
    for i in range(len(full) - 1):
        x = list(full)
        x[i], x[i + 1] = x[i + 1], x[i]
        dev.add(tuple(x))
    for seq in sorted(seqs | dev):
        n += 1
        exp = expected(seq)
        hits = []
        for facts, writes, good in seen:
            ok = True
            for i, (some, S) in facts.items():
                here = i < len(seq)
                if some is not None and some != here:
                    ok = False
                if here and some is not False and seq[i] not in S:
                    ok = False
                if not here and some is not False and some is None:
                    ok = False
            if ok:
                hits.append((writes, good))
        if not hits:
            bad.add(("?", f"no path for {' '.join(seq)}"))
            continue
        for writes, good in hits:
            if good != (exp is not None):
                bad.add(("!", f"the children [{' '.join(seq)}] are {'accepted' if good else 'refused'}, the grammar {'has' if exp is not None else 'does not have'} that form"))
            elif good:
                w = marks(writes)
                if w is None:
                    bad.add(("?", "slots written in an unknown way: " + " ".join(writes)))
                elif w != exp:
                    bad.add(("!", f"for the children [{' '.join(seq)}] the slots are {show_marks(w)}, expected {show_marks(exp)}"))
    for kind_, why in sorted(bad)[:3]:
        (R.violated if kind_ == "!" else R.undecided)(rule, where, why)
    if not bad:
        R.proved(rule, where, f"{len(seen)} paths agree with the grammar on {n} sequences of children over {len(reps)} classes of kinds")


def show_marks(w):
    return "[" + " ".join("x" if m == "mark_present" else "-" for m in w) + "]"


def marks(writes):
    """each slot: (mark_present)? next_slot"""
    out, cur = [], None
    for w in writes:
        if w == "next_slot":
            out.append(cur or "mark_absent")
            cur = None
        elif cur is not None:
            return None
        else:
            cur = w
    return None if cur else out


def classes_of(sets, allk):
    sig = {}
    for k in allk:
        sig.setdefault(tuple(k in S for S in sets), []).append(k)
    return list(sig.values())


def n_kind(t):
    return frozenset(x.a[1] for x in t.a if isinstance(x, T) and x.tag == "adt" and x.a[0] == KIND)


def depth(t, ch):
    """('kind' | 'some' | 'is', index of the child)"""
    if t.tag == "eq":
        o = [x for x in t.a if not (x.tag == "adt" and x.a[0] == KIND)]
        if len(o) == 1 and len(t.a) == 2:
            d = depth(o[0], ch)
            return ("is", d[1]) if d and d[0] == "kind" else None
        return None
    if t.tag in ("ecall", "call") and op_(t).endswith("RawSyntaxElement::kind"):
        x = peel_(args(t)[0])
        if x.tag == "pay":
            x = peel_(x.a[0])
        d = depth(x, ch)
        return ("kind", d[1]) if d and d[0] == "some" else None
    n = child(t, ch)
    return None if n is None else ("some", n)


def child(t, ch):
    """the n-th element taken from the children"""
    t = peel_(t)
    if t.tag not in ("next", "ecall", "call") and t.tag != "itnext":
        return None
    x = t.a[0] if isinstance(t.a[0], T) else args(t)[0]
    if t.tag in ("ecall", "call") and not op_(t).endswith("next"):
        return None
    n = 0
    x = peel_(x)
    while x.tag == "itadv":
        n += x.a[1] if len(x.a) > 1 and isinstance(x.a[1], int) else 1
        x = peel_(x.a[0])
    return n if ch in subterms(x) else None


# ------------------------------------------------------------------ formatter
class Renamed:
    def __init__(self, R):
        self.R = R

    def __getattr__(self, n):
        f = getattr(self.R, n)
        if n in ("proved", "violated", "undecided", "floor", "check"):
            if n == "check":
                return lambda ok, rule, *a: f(ok, "C30.format", *a)
            return lambda rule, *a, **k: f("C30.format", *a, **k)
        return f


def check(R):
    P = R.program(*emit.CRATES, "air_r_factory")
    src = lambda p: open(os.path.join(REPO, p)).read()
    try:
        K = Kinds(src("xtask/codegen/src/r_kinds_src.rs"))
        G = Grammar(src("xtask/codegen/r.ungram"), K)
    except (Bad, OSError, StopIteration, AttributeError, ValueError, IndexError) as e:
        R.undecided("C30.grammar", "xtask/codegen/r.ungram", f"not read: {type(e).__name__} {e}")
        return
    C = Ctx(R)
    C.used = {what[1] for fs in G.nodes.values() for _, what, _ in fs if what[0] in ("node", "list")} | {i for i, _ in G.lists.values()} | {a for u in G.unions.values() for a in u} | set(G.bogus) | set(G.unions)
    R.floor("C30.grammar", "rules of the grammar", len(G.all), 45)
    R.guard(lambda: kinds(C, G, K), "C30.kinds", "kinds")
    for n in sorted(G.nodes):
        guard(R, lambda: node_fields(C, G, n), "C30.fields", A + n)
        guard(R, lambda: constructor(C, G, n), "C30.make", N + fn_name(n))
    for n in sorted(G.lists) + sorted(G.bogus):
        guard(R, lambda: plain_make(C, G, n), "C30.make", N + fn_name(n))
    for n in sorted(G.all):
        if A + n not in P.adts:
            R.violated("C30.cast", A + n, "no type for this rule")
            continue
        guard(R, lambda: node_type(C, G, n), "C30.cast", A + n)
    for n in sorted(x for x in G.all if x not in G.unions):
        guard(R, lambda: shape(C, G, K, kind_name(n)), "C30.shape", kind_name(n))
    guard(R, lambda: c32.reached(Renamed(R), c32.rules(P)), "C30.format", "formatting rules")
