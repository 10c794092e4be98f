"""C32: every part of a construct is written, once and in order."""
from terms import *
from cases import *
import emit
from emit import Emit, norm, op_, peel, show_atom, CRATES, SYNTAX

LEVEL = "proof"
TECHNIQUE = "emission summaries over MIR: each successful path of every formatting rule is reduced to the sequence of syntax parts it writes, and compared with the fields of the node; argument lists by tiling of positions, operator chains by the state of the loop collecting them"
EXPLANATION = ("Each formatting rule's successful paths are enumerated and reduced to what they write: parts of the node, literal text, comments, verbatim text. On every path the parts are exactly the fields of the node, each once, in source order; an optional field is left out only where it is absent, a list only where it is empty; "
               "literal text is balanced braces. Lists write every element with its separator; argument lists are covered from leading holes over cached arguments to the alternatives that are measured against each other; chains of binary operators write each operand and operator collected. Rules are reached: every node type has one, and unions dispatch each variant to its own.")
NOTE = "how a token or group is printed, and the separators written by FormatSeparatedIter, are biome_formatter's; the content of tables (C13 decides which calls) is covered only for their fallback"
A = "air_r_formatter::r::auxiliary::"
CALL = A + "call_arguments::"
STOPS = ("::fmt_table", "::write_grouped_arguments", "::arguments_grouped_layout", "FormatAllArgsBrokenOut<'_> as biome_formatter::Format<air_r_formatter::context::RFormatContext>>::fmt", "::is_test_call",
         "::has_persistent_line_break", "FormatCallArgument::new", "FormatCallArgumentHole::new", "::can_normalize_to_equal", "::as_chainable_binary_expression", "::fmt_left_assignment_operator", "FormatCallArgument::will_break")


def rules(P):
    """{node type: (rule type, path of fmt_fields)}"""
    out = {}
    for st, ref, path in P.trait_impl.get((emit.RULE, "fmt_fields"), ()):
        node = ref.split("FormatNodeRule<")[1].rsplit(">>", 1)[0]
        out[node] = (st, path)
    return out


def fields(P, node):
    a = P.adts.get(node + "Fields")
    return [(f["name"], kind(f["ty"])) for f in a["variants"][0]["fields"]] if a else None


def kind(ty):
    if ty.startswith("core::option::Option<"):
        return "optional"
    if ty.startswith("core::result::Result<"):
        return "required"
    return "list"


def accessor(t):
    """(type, field, base) of a part"""
    t = norm(t)
    if t.tag == "call" and len(args(t)) == 1 and t.a[0].count("::") == 1:
        ty, f = t.a[0].split("::")
        return ty, f, norm(args(t)[0])
    return None


def absent(conds, ty, field, base, k):
    for t, c in conds.items():
        if k == "optional" and c[0] == "v" and set(c[1]) == {"None"} and accessor(t) == (ty, field, base) and not inner(t):
            return True
        if k == "list":
            n = op_(t)
            if n.endswith("::is_empty") and c[0] == "b" and set(c[1]) == {True} and accessor(args(t)[0]) == (ty, field, base):
                return True
            if n.endswith("::len") and c[0] == "i" and tuple(c[1]) == ((0, 0),) and accessor(args(t)[0]) == (ty, field, base):
                return True
    return False


def inner(t):
    """a condition on something reached through the field, not the field itself"""
    return t.tag in ("payload", "pay")


def single(conds, lst):
    return any(op_(t).endswith("::len") and c[0] == "i" and tuple(c[1]) == ((1, 1),) and norm(args(t)[0]) == lst for t, c in conds.items())


def collapse(P, conds, atoms, base):
    """replaces the parts of the only element of a list by the list"""
    out, i = [], 0
    while i < len(atoms):
        a = atoms[i]
        acc = accessor(a[1]) if a[0] == "part" else None
        if acc and acc[2] != base and op_(acc[2]).endswith("::first"):
            el, j = acc[2], i
            while j < len(atoms) and (atoms[j][0] == "part" and accessor(atoms[j][1]) and accessor(atoms[j][1])[2] == el or atoms[j][0] == "lit"):
                j += 1
            fs = fields(P, SYNTAX + acc[0])
            bad = compare(P, conds, atoms[i:j], el, acc[0], fs) if fs else "parts of an unknown node"
            lst = norm(args(el)[0])
            if bad:
                return bad
            if not single(conds, lst):
                return f"only the first element of {show(lst)} is written"
            out.append(("part", lst, "formatted"))
            i = j
            continue
        out.append(a)
        i += 1
    return out


def compare(P, conds, atoms, base, ty, fs):
    """why the atoms are not the fields of the node, or None"""
    want = list(fs)
    pos, braces = 0, []
    seen = []
    for a in atoms:
        k = a[0]
        if k == "comments" or k == "as":
            continue
        if k == "lit":
            when = a[2] if len(a) > 2 else "always"
            for ch in a[1].strip():
                if ch == "{":
                    braces.append(when)
                elif ch != "}":
                    return f"writes the text {a[1]!r}"
                elif not braces or braces.pop() != when:
                    return "writes a closing brace in layouts without the opening one"
            continue
        if k == "sometimes":
            return f"writes {show_atom(a)[:120]} in only one layout"
        if k != "part":
            return ("?", f"writes {show_atom(a)[:160]}")
        acc = accessor(a[1])
        if acc is None or acc[0] != ty or acc[2] != base:
            return ("?", f"writes {show_atom(a)[:160]}") if acc is None else f"writes {show_atom(a)[:120]}, not its own part"
        names = [f for f, _ in want]
        if acc[1] not in names:
            return ("?", f"writes {acc[1]}")
        if acc[1] in seen:
            return f"writes {acc[1]} twice"
        at = names.index(acc[1])
        if at < pos:
            return f"writes {acc[1]} after {names[pos - 1]}"
        for f, kd in want[pos:at]:
            if not absent(conds, ty, f, base, kd):
                return f"writes {acc[1]} without {f} before it"
        if a[2] == "removed" and (ty, acc[1]) != ("RRoot", "eof_token"):
            return f"removes {acc[1]}"
        if a[2] == "replaced" and not kept(a, atoms):
            return f"replaces {acc[1]}"
        seen.append(acc[1])
        pos = at + 1
    for f, kd in want[pos:]:
        if not absent(conds, ty, f, base, kd):
            return f"leaves out {f}"
    if braces:
        return "writes unbalanced braces"
    return None


def kept(a, atoms):
    """the replacement is made from the token's own text"""
    i = next(i for i, x in enumerate(atoms) if x is a)
    if i + 1 >= len(atoms) or atoms[i + 1][0] != "as":
        return False
    own = norm(a[1])
    text = atoms[i + 1][2]
    toks = {norm(args(t)[0]) for t in subterms(text) if op_(t) in ("SyntaxToken::text_trimmed", "SyntaxToken::token_text_trimmed", "SyntaxToken::text")}
    return toks == {own}


# ------------------------------------------------------------------ plain rules
def plain(R, E, node, st, path, fs):
    rule = "C32.parts"
    P = R.prog
    ty = node.split("::")[-1]
    R.fn(path)
    where = R.where(path) + f": {ty}"
    base = mk("arg", "node")
    bad, n = {}, 0
    seen = set()
    for conds, atoms in E.run(path, "self node f"):
        n += 1
        key = (tuple(show_atom(a) for a in atoms), tuple(sorted((f, absent(conds, ty, f, base, k)) for f, k in fs if k != "required")))
        if key in seen:
            continue
        seen.add(key)
        why = special(R, E, node, conds, atoms, base, ty, fs)
        if why is None:
            got = collapse(P, conds, atoms, base)
            why = compare(P, conds, got, base, ty, fs) if isinstance(got, list) else got
        if why and why is not True:
            bad.setdefault(why, conds)
    if not n:
        return R.undecided(rule, where, "no successful path")
    for why, conds in bad.items():
        if isinstance(why, tuple):
            R.undecided(rule, where, why[1])
        else:
            R.violated(rule, where, f"{why}, when {show_conds(conds)[-200:]}")
    if not bad:
        R.proved(rule, where, f"writes {', '.join(f for f, _ in fs)}: each once, in order, on {n} paths")


def special(R, E, node, conds, atoms, base, ty, fs):
    """None when the plain comparison applies, True when the path is right, otherwise what is wrong"""
    body = [a for a in atoms if a[0] not in ("comments",)]
    whole = [a for a in body if a[0] == "verbatim"]
    if whole and len(body) == len(whole) + sum(is_eff(a, "fmt_table") for a in body):
        return True if len(whole) == 1 and whole[0][1] == base and "suppressed" not in whole[0][2] else "writes something else verbatim"
    if len(body) == 1 and is_eff(body[0], "fmt_table"):
        return True  # the table's own
    if ty in ("RCallArguments", "RSubsetArguments", "RSubset2Arguments"):
        return arguments(R, conds, body, base, ty, fs)
    if ty == "RBinaryExpression":
        return binary(R, conds, atoms, base)
    return None


def is_eff(a, name):
    return a[0] == "unknown" and a[1].tag == "eff" and a[1].a[0].endswith(name)


# ------------------------------------------------------------------ arguments
def root(t):
    """what a value was before it was changed"""
    while True:
        t = peel(t)
        if t.tag == "after":
            t = t.a[1][t.a[2]]
        elif t.tag == "it" and not t.a[1] and not t.a[2]:
            t = t.a[0]
        elif op_(t) in ("MemoizeFormat::memoized", "AsFormat::format", "IntoFormat::into_format") and t.tag in ("call", "ecall"):
            t = args(t)[0]
        else:
            return t


def arguments(R, conds, body, base, ty, fs):
    l, items, r = (norm(mk("call", f"{ty}::{f}", (base,))) for f, _ in fs)
    if len(body) == 3 and body[1][0] == "list" and body[0][0] == body[2][0] == "part" and norm(body[0][1]) == l and norm(body[2][1]) == r:
        return True if separated(body[1][1], items) else ("?", f"writes the list {show(body[1][1])[:120]}")
    if len(body) != 1:
        return None
    a = body[0]
    if a[0] == "local" and a[1].a[0].split("<")[0].endswith("FormatAllArgsBrokenOut"):
        parts = [project(a[1], x) for x in ("l_token", "leading_holes", "args", "r_token")]
    elif is_eff(a, "::write_grouped_arguments"):
        parts = [a[1].a[1][i] for i in (1, 2, 3, 4)]
    else:
        return None
    if norm(root(parts[0])) != l:
        return f"opens with {show(parts[0])[:100]}"
    if norm(root(parts[3])) != r:
        return f"closes with {show(parts[3])[:100]}"
    return split(parts[1], parts[2], items) or True


def each(t, make):
    """the list each of whose elements is wrapped by `make`"""
    t = peel(t)
    if t.tag != "comp":
        return None
    el = mk("elem", t.a[0], t.a[2])
    for _, v in t.a[3]:
        got = make(v)
        if got is None or norm(got) != norm(el):
            return None
    if t.a[1]:
        return "last first"
    if not covers([c for c, _ in t.a[3]]):
        return "only some of them"
    return t.a[0]


PARTIAL = {"Iterator::skip", "Iterator::take", "Iterator::filter", "Iterator::step_by", "Iterator::skip_while", "Iterator::take_while", "Itertools::dropping", "Itertools::dropping_back"}


def whole(t):
    """what a list is a part of, or None"""
    t = peel(t)
    if t.tag == "it" and not t.a[1] and not t.a[2]:
        t = peel(t.a[0])
    return args(t)[0] if op_(t) in PARTIAL else None


def wrapped(name):
    return lambda v: args(peel(v))[0] if op_(peel(v)).endswith(name) and args(peel(v)) else None


def split(holes, arg, items):
    h, a = each(holes, wrapped("FormatCallArgumentHole::new")), each(arg, wrapped("FormatCallArgument::new"))
    if h is None:
        return ("?", f"leading holes are {show(holes)[:150]}")
    if a is None:
        return ("?", f"arguments are {show(arg)[:150]}")
    for x, what in ((h, "leading holes"), (a, "arguments")):
        if isinstance(x, str):
            return f"the {what} are written {x}"
        if whole(x) is not None:
            return f"only some of the {what} are written: {show(peel(x))[:80]}"
    h, a = peel(h), peel(a)
    if not (op_(h) == "Itertools::take_while_ref" and a.tag == "after" and a.a[0] == op_(h) and a.a[2] == 0 and a.a[1] == args(h)):
        if norm(h) == norm(a):
            return "arguments are written as holes and again as arguments"
        return ("?", f"arguments are split into {show(h)[:100]} and {show(a)[:100]}")
    src = peel(args(h)[0])
    if not (op_(src) == "AstSeparatedList::elements" and norm(args(src)[0]) == items):
        return f"the arguments written are those of {show(src)[:100]}"
    return None


def separated(t, items):
    """a separated list formatted with its separators"""
    t = peel(t)
    if t.tag == "it" and not t.a[1] and not t.a[2]:
        t = peel(t.a[0])
    if op_(t) == "FormatSeparatedIter::with_trailing_separator":
        if not (args(t)[1].tag == "adt" and args(t)[1].a[1] in ("Disallowed",)):
            return False
        t = peel(args(t)[0])
    return op_(t) == "FormatSeparatedIter::new" and op_(peel(args(t)[0])) == "AstSeparatedList::elements" and norm(args(peel(args(t)[0]))[0]) == norm(items) and args(t)[1].tag == "str" and args(t)[1].a[0] == ","


def covers(cases):
    """do the conditions take in everything"""
    cases = [dict(c) for c in cases]
    if any(not c for c in cases):
        return True
    if not cases:
        return False
    t = next(iter(cases[0]))
    cs = [c[t] for c in cases if t in c]
    if any(c[0] == "v" for c in cs):
        vals = set().union(*[c[2] for c in cs])
        has = lambda c, v: v in c[1]
    elif all(c[0] == "b" for c in cs):
        vals, has = {True, False}, lambda c, v: v in c[1]
    elif all(c[0] == "i" for c in cs):
        vals = {x for c in cs for lo, hi in c[1] for x in (lo - 1, lo, hi, hi + 1)} | {float("-inf"), float("inf")}
        has = lambda c, v: any(lo <= v <= hi for lo, hi in c[1])
    else:
        return False
    return all(covers([{k: c for k, c in case.items() if k != t} for case in cases if t not in case or has(case[t], v)]) for v in vals)


# ------------------------------------------------------------------ lists of entries, by position
def span(t):
    """(list, from, to) with positions (n, counted from the end)"""
    t = peel(t)
    if t.tag == "it" and not t.a[1] and not t.a[2]:
        t = peel(t.a[0])
    if t.tag in ("call",) and op_(t) == "index" or t.tag == "index":
        b, i = (args(t) if t.tag == "call" else t.a)[:2]
        b = peel(b)
        if i.tag == "adt":
            k = i.a[0].split("<")[0].split("::")[-1]
            if k not in ("RangeFrom", "Range", "RangeTo", "RangeFull"):
                return None
            lo = at(b, project(i, "start")) if k in ("RangeFrom", "Range") else (0, False)
            hi = at(b, project(i, "end")) if k in ("RangeTo", "Range") else (0, True)
            return (b, lo, hi) if lo and hi else None
        p = at(b, i)
        return (b, p, (p[0] + 1, p[1])) if p else None
    if op_(t) in ("slice::first", "slice::last"):
        return None
    return (t, (0, False), (0, True))


def at(b, i):
    i = peel(i)
    if i.tag == "int":
        return (i.a[0], False)
    if op_(i) == "len" and peel(args(i)[0]) == b or i.tag == "len" and peel(i.a[0]) == b:
        return (0, True)
    if i.tag in ("bin", "call") and "Add" in (i.a[0], op_(i)):
        x, y = i.a[1:3] if i.tag == "bin" else args(i)
        p = at(b, x)
        if p and y.tag == "int":
            return (p[0] + y.a[0], p[1])
    return None


def tiles(spans):
    """the list all of whose elements the spans take in, once and in order"""
    if not spans or any(s is None for s in spans):
        return None
    b = spans[0][0]
    p = (0, False)
    for x, lo, hi in spans:
        if x != b or lo != p:
            return None
        p = hi
    return b if p == (0, True) else None


def grouped(R):
    """the alternatives for a grouped argument hold the same arguments"""
    rule = "C32.arguments"
    fn = CALL + "RCallLikeArguments::write_grouped_arguments"
    where = R.where(fn)
    R.fn(fn)
    E = Emit(R, STOPS)
    names = ["self", "l", "h", "a", "r", "g", "f"]
    V = {n: mk("arg", n) for n in names}
    bad, n = {}, 0

    def all_args(a):
        p = [root(project(a, x)) for x in ("l_token", "leading_holes", "args", "r_token")]
        return None if [norm(x) for x in p] == [V[k] for k in "lhar"] else f"the expanded form is given {', '.join(show(x)[:40] for x in p)}"

    def variant(atoms):
        if len(atoms) == 1 and atoms[0][0] == "local":
            return all_args(atoms[0][1])
        atoms = [a for a in atoms if a[0] != "lit"]
        if len(atoms) < 3 or atoms[0][:2] != ("part", V["l"]) or atoms[-1][:2] != ("part", V["r"]):
            return f"an alternative writes {'; '.join(show_atom(a)[:60] for a in atoms)}"
        mid = list(atoms[1:-1])
        if not (mid[0][0] == "list" and norm(root(mid[0][1])) == V["h"]):
            return "an alternative does not write the leading holes"
        sp = []
        for a in mid[1:]:
            if a[0] not in ("list", "fmt", "unknown") or not isinstance(a[1], T):
                return ("?", f"an alternative writes {show_atom(a)[:100]}")
            sp.append(span(a[1]))
        b = tiles(sp)
        if b is None:
            if all(sp):
                return f"an alternative writes {', '.join(f'[{lo}..{hi}]' for _, lo, hi in sp)} of the arguments"
            return ("?", "an alternative writes arguments this analysis cannot place")
        src = each(b, lambda v: project(memo(v), "argument") if memo(v) is not None else None)
        if isinstance(src, str):
            return f"the arguments grouped are written {src}"
        if src is not None and whole(src) is not None:
            return f"only some of the arguments are grouped: {show(peel(src))[:80]}"
        if src is None or root(src) != V["a"]:
            return ("?", f"the arguments grouped are {show(b)[:100]}")
        return None

    for conds, atoms in E.run(fn, names):
        n += 1
        if len(atoms) != 1:
            why = f"writes {'; '.join(show_atom(a)[:60] for a in atoms) or 'nothing'}"
        elif atoms[0][0] == "local":
            why = all_args(atoms[0][1])
        elif atoms[0][0] == "fits":
            why = next((w for w in map(variant, atoms[0][1]) if w), None) if atoms[0][1] else "no alternative to write"
        else:
            why = ("?", f"writes {show_atom(atoms[0])[:100]}")
        if why:
            bad.setdefault(why, conds)
    settle(R, rule, where, bad, n, "every alternative writes the opening token, the leading holes, each argument and the closing token")


def memo(v):
    v = peel(v)
    if op_(v) == "MemoizeFormat::memoized":
        v = peel(args(v)[0])
    return v if v.tag == "adt" and v.a[0].split("<")[0].endswith("FormatGroupedArgument") else None


def settle(R, rule, where, bad, n, good):
    if not n:
        return R.undecided(rule, where, "no successful path")
    for why, conds in bad.items():
        if isinstance(why, tuple):
            R.undecided(rule, where, why[1])
        else:
            R.violated(rule, where, f"{why}, when {show_conds(conds)[-200:]}")
    if not bad:
        R.proved(rule, where, f"{good}, on {n} paths")


def impl(P, ty, trait="biome_formatter::Format"):
    for (tr, name), impls in P.trait_impl.items():
        if name == "fmt" and tr.split("<")[0] == trait:
            for st, ref, path in impls:
                if st.split("<")[0] == ty:
                    return path
    return None


def broken_out(R):
    rule = "C32.arguments"
    fn = impl(R.prog, CALL + "FormatAllArgsBrokenOut")
    where = R.where(fn)
    R.fn(fn)
    E = Emit(R, ())
    self = mk("arg", "self")
    bad, n = {}, 0
    for conds, atoms in E.run(fn, "self f"):
        n += 1
        atoms = [a for a in atoms if a[0] != "lit"]
        why = None
        if len(atoms) != 4:
            why = f"writes {'; '.join(show_atom(a)[:50] for a in atoms)}"
        else:
            for a, want in zip(atoms, ("l_token", "leading_holes", "args", "r_token")):
                w = norm(mk("fld", self, want))
                if a[0] == "each":
                    ok = not a[2] and norm(root(a[1])) == w and all([x for x in at if x[0] != "lit"] and len([x for x in at if x[0] != "lit"]) == 1 and norm([x for x in at if x[0] != "lit"][0][1]) == norm(mk("elem", a[1], a[3])) for _, at in a[4]) and want in ("leading_holes", "args")
                elif a[0] == "list":
                    ok = want in ("leading_holes", "args") and norm(root(a[1])) == w
                else:
                    ok = a[0] == "fmt" and a[1] == w
                if not ok:
                    why = f"writes {show_atom(a)[:100]} for {want}"
                    break
        if why:
            bad.setdefault(why, conds)
    settle(R, rule, where, bad, n, "writes the opening token, the leading holes, each argument and the closing token")


def element(R):
    """a single argument, cached or not, and a hole"""
    rule = "C32.arguments"
    P = R.prog
    E = Emit(R, ())
    self = mk("arg", "self")
    for name, arg in (("FormatCallArgument", self), ("FormatGroupedArgument", mk("fld", self, "argument")), ("FormatCallArgumentHole", self)):
        fn = impl(P, CALL + name)
        if not fn:
            R.undecided(rule, CALL + name, "no such format")
            continue
        R.fn(fn)
        bad, n = {}, 0
        for conds, atoms in E.run(fn, "self f"):
            n += 1
            why = one(R, conds, [a for a in atoms if a[0] != "lit"], arg)
            if why:
                bad.setdefault(why, conds)
        settle(R, rule, R.where(fn), bad, n, "writes the argument and the separator after it, or what was kept of writing them")
    # what is kept is what writing the argument gives
    fn = CALL + "FormatCallArgument::will_break"
    if fn in P.fns:
        R.fn(fn)
        I = E.interp()
        bad, n = {}, 0
        for s, v in R.summary(fn, "self f", I):
            n += 1
            now = s.mem.get(("h", "self"), self)
            was = next((next(iter(c[1])) for t, c in s.conds.items() if t == self and c[0] == "v" and len(c[1]) == 1), None)
            if now == self:
                continue
            if now.tag != "adt" or now.a[1] != "Inspected":
                if now.tag == "adt" and norm(project(now, "element")) == self:
                    continue
                bad.setdefault(f"the argument becomes {show(now)[:100]}", s.conds)
                continue
            content = peel(payload(now, "Inspected", "content") if False else project(now, "content"))
            el = norm(project(now, "element"))
            if el != self:
                bad.setdefault(f"the argument becomes that of {show(el)[:80]}", s.conds)
            elif content == self or norm(content) == self and was == "Inspected":
                pass
            elif not (op_(content) == "Formatter::intern" and norm(args(content)[1]) == self):
                bad.setdefault(f"what is kept is {show(content)[:100]}", s.conds)
        settle(R, rule, R.where(fn), bad, n, "keeps what writing this argument gave")
    for name in ("FormatCallArgument::new", "FormatCallArgumentHole::new"):
        fn = CALL + name
        if fn not in P.fns:
            continue
        R.fn(fn)
        names = ["element", "is_last"][:P.fns[fn]["body"]["argc"]]
        bad, n = {}, 0
        for s, v in R.summary(fn, names, E.interp()):
            n += 1
            v = peel(v)
            el = norm(project(v, "element")) if v.tag == "adt" else None
            if v.tag == "adt" and v.a[1] == "Inspected":
                bad.setdefault(("?", "starts with something kept"), s.conds)
            elif el != mk("arg", "element") and el is not None and root(el) != mk("arg", "element"):
                bad.setdefault(f"keeps {show(el)[:80]} for the argument", s.conds)
            elif el is None:
                bad.setdefault(("?", f"is {show(v)[:80]}"), s.conds)
        settle(R, rule, R.where(fn), bad, n, "keeps the argument it is made for")


def kept_content(a, conds, arg):
    """an element that was kept from writing this argument"""
    return a[0] == "element" and norm(strip_all(a[1])) == arg


def strip_all(t):
    while True:
        t = peel(t)
        if op_(t) in ("Cell::take", "RefCell::borrow", "Cell::get"):
            t = args(t)[0]
            continue
        if t.tag == "fld" and t.a[1] == "content":
            t = t.a[0]
            continue
        return t


def one(R, conds, atoms, arg):
    P = R.prog
    arg = norm(arg)
    is_el = lambda t: norm(t) in (arg, norm(mk("fld", arg, "element")))
    if len(atoms) == 1 and kept_content(atoms[0], conds, arg):
        return None
    if not atoms:
        for t, c in conds.items():
            if c[0] == "v" and set(c[1]) == {"None"} and ("content" in show(t)) and not op_(t).startswith("Cell::") or c[0] == "v" and set(c[1]) == {"None"} and any(op_(x) == "Formatter::intern" for x in subterms(t)):
                return None
        return "writes nothing"
    # the separator comes last, unless there is none
    body = list(atoms)
    sep = body[-1]
    acc = accessor(sep[1]) if sep[0] == "part" else None
    if acc and acc[1] == "trailing_separator" and is_el(acc[2]):
        body.pop()
    elif not any(c[0] == "v" and set(c[1]) == {"None"} and accessor(t) and accessor(t)[1] == "trailing_separator" and is_el(accessor(t)[2]) and t.tag in ("payload", "pay") for t, c in conds.items()):
        return f"writes {'; '.join(show_atom(a)[:60] for a in atoms)} without the separator"
    if not body:
        return "writes only the separator"
    acc = accessor(body[0][1]) if body[0][0] == "part" else None
    if acc is None:
        return ("?", f"writes {show_atom(body[0])[:100]}")
    if acc[1] == "node" and is_el(acc[2]):
        return None if len(body) == 1 else f"writes {show_atom(body[1])[:80]} after the argument"
    inner_ = acc[2]
    a2 = accessor(inner_)
    if a2 and a2[1] == "node" and is_el(a2[2]):
        return compare(P, conds, body, inner_, acc[0], fields(P, SYNTAX + acc[0]) or [])
    return f"writes {show_atom(body[0])[:100]}"


# ------------------------------------------------------------------ binary expressions
def binary(R, conds, atoms, base):
    """a chain of operators"""
    body = []
    for a in atoms:
        if is_eff(a, "::fmt_left_assignment_operator"):
            xs = a[1].a[1]
            ops = [accessor(x) for x in xs if accessor(x)]
            if ("RBinaryExpression", "operator", base) not in ops:
                return "the assignment operator written is not this one's"
            body.append(("part", norm(mk("call", "RBinaryExpression::operator", (base,))), "formatted"))
        else:
            body.append(a)
    loops = [a for a in body if a[0] == "each"]
    if not loops:
        return compare(R.prog, conds, body, base, "RBinaryExpression", fields(R.prog, SYNTAX + "RBinaryExpression")) or True
    return chain(R, body, base) or True


def chain(R, body, base):
    body = [a for a in body if a[0] not in ("lit", "comments")]
    if len(body) != 2 or body[1][0] != "each":
        return ("?", f"a chain writes {'; '.join(show_atom(a)[:60] for a in body)}")
    first, rest = body
    lv = peel(first[1]) if first[0] in ("fmt", "part") else None
    over, rev = root(rest[1]), rest[2]
    while op_(over) == "reversed" or over.tag == "reversed" or over.tag == "it" and over.a[1]:
        rev = not rev
        over = root(over.a[0] if over.tag == "it" else args(over)[0] if over.tag == "call" else over.a[0])
    if lv is None or lv.tag != "loopval" or over.tag != "loopval" or over.a[0] != lv.a[0]:
        return ("?", f"a chain writes {show(lv)[:80] if lv is not None else ''} and {show(over)[:80]}")
    loop = lv.a[0]
    inits, cases = loop.a[0], loop.a[1]
    depth = loop.a[2]
    L, K = lv.a[1], over.a[1]
    B = lambda f, b: norm(mk("call", f"RBinaryExpression::{f}", (b,)))
    # start
    if norm(inits[L]) != B("left", base):
        return f"the chain starts at {show(inits[L])[:80]}"
    t0 = peel(inits[K])
    if t0.tag != "arr" or len(t0.a[0]) != 1:
        return ("?", f"the pieces collected start as {show(t0)[:80]}")
    bad = piece(t0.a[0][0], base, B)
    if bad:
        return bad
    n = 0
    for cs, (vals, _) in cases:
        vals = dict(vals)
        nl = vals.get(L)
        nk = vals.get(K)
        if nl is None and nk is None:
            continue
        cur = [t for t in subterms(mk("tup", tuple(x for x in (nl, nk) if x is not None))) if t.tag == "phi" and t.a[1] == L]
        if nl is None or nk is None or peel(nk).tag == "phi" and peel(nl).tag != "phi":
            return "the chain goes on to the left operand without keeping the operator and right operand, or the other way round"
        got = accessor(nl)
        nk = peel(nk)
        item = nk.a[-1] if nk.tag == "push" else None
        if item is None and op_(nk) == "push":
            item = args(nk)[-1]
        if got and got[0] == "RBinaryExpression" and got[1] != "left":
            return f"the chain goes on with the {got[1]} operand, whose left one is then lost"
        if got is None or got[:2] != ("RBinaryExpression", "left") or item is None:
            return ("?", f"the chain goes on with {show(nl)[:80]} and {show(nk)[:80]}")
        bad = piece(item, got[2], B)
        if bad:
            return bad
        src = got[2]
        base_ = src
        while op_(base_).endswith("::as_chainable_binary_expression"):
            base_ = norm(args(base_)[0])
        if not (base_.tag == "phi" and base_.a[1] == L):
            return ("?", f"the chain goes on from {show(base_)[:80]}")
        n += 1
    if not n:
        return ("?", "no chain is collected")
    if not rev:
        return "the pieces of a chain are written in the order collected, last first"
    el = mk("elem", rest[1], rest[3])
    for _, at in rest[4]:
        at = [a for a in at if a[0] not in ("lit", "comments")]
        if not at:
            continue
        names = []
        for a in at:
            t = norm(a[1]) if a[0] in ("fmt", "part") else None
            if t is None or t.tag != "fld":
                return ("?", f"a piece of a chain writes {show_atom(a)[:80]}")
            names.append(t.a[1])
        if names != ["operator", "right"]:
            return f"a piece of a chain writes {', '.join(names)}"
    return None


def chained(R):
    """the expression a chain goes on with is the operand itself"""
    rule = "C32.parts"
    fn = next((p for p in R.prog.fns if p.endswith("::as_chainable_binary_expression")), None)
    if not fn:
        return
    R.fn(fn)
    bad, n = {}, 0
    for s, v in R.summary(fn, "x", Emit(R, ()).interp()):
        if v.tag == "adt" and v.a[1] == "Ok":
            v = payload(v, "Ok", 0)
            n += 1
            if v.tag == "adt" and v.a[1] == "Some":
                x = norm(payload(v, "Some", 0))
                if x != mk("arg", "x"):
                    bad.setdefault(f"the chain goes on with {show(x)[:80]}", s.conds)
            elif not (v.tag == "adt" and v.a[1] == "None"):
                bad.setdefault(("?", f"returns {show(v)[:80]}"), s.conds)
    settle(R, rule, R.where(fn), bad, n, "the chain goes on with the operand it is given")


def piece(t, of, B):
    t = peel(t)
    if t.tag != "adt":
        return ("?", f"a piece of the chain is {show(t)[:80]}")
    for f in ("operator", "right"):
        x = project(t, f)
        if norm(x) != B(f, norm(of)):
            return f"the {f} kept for a piece of the chain is {show(x)[:80]}"
    return None


# ------------------------------------------------------------------ lists
def lists(R):
    rule = "C32.lists"
    P = R.prog
    node = mk("arg", "node")
    for ty in ("RParameterList", "RExpressionList"):
        fn = next((p for (tr, n), impls in P.trait_impl.items() if n == "fmt" and tr.split("<")[0].endswith("FormatRule") for st, ref, p in impls if ref.split("FormatRule<")[-1].startswith(SYNTAX + ty + ">")), None)
        if not fn:
            R.undecided(rule, ty, "no rule for the list")
            continue
        R.fn(fn)
        E = Emit(R, ())
        I = E.interp()
        of = I.opaque_fn
        I.opaque_fn = lambda p, res: of(p, res) or any(x and "JoinNodesBuilderExt" in x and x.split("::")[-1].split("<")[0] in ("entry", "finish", "new", "entry_no_separator") for x in (p, res))
        bad, n = {}, 0
        for s, v in R.summary(fn, "self node f", I):
            if v.tag == "adt" and v.a[1] == "Err":
                continue
            n += 1
            why = entries(s, v, node)
            if why:
                bad.setdefault(why, s.conds)
        settle(R, rule, R.where(fn), bad, n, "writes an entry for each element, in order, and returns whether that succeeded")
    joiner(R)


ENTRY = ("JoinNodesBuilder::entry", "JoinNodesBuilderExt::entry")


def entries(s, v, node):
    loops = [e for e in s.eff if e.tag == "foreach" and any(t.tag == "eff" and t.a[0].split("<")[0].endswith("::entry") for t in subterms(e))]
    others = [e for e in s.eff if e.tag in ("loopeff", "loop") or e.tag == "eff" and e.a[0].split("<")[0].endswith("::entry")]
    if len(loops) != 1 or others:
        return ("?", f"{len(loops)} loops over the elements")
    e = loops[0]
    over, rev, cases, depth = e.a[:4]
    if rev:
        return "the elements are written last first"
    if not covers([dict(c) for c, _ in cases]) and not all(any(cc[0] == "v" and set(cc[2]) == {"Ok", "Err"} for cc in dict(c).values()) for c, _ in cases):
        return "some elements are left out"
    o = peel(over)
    el = mk("elem", over, depth)
    for c, body in cases:
        effs = body[1] if body and isinstance(body[0], tuple) else body
        ent = [x for x in effs if x.tag == "eff" and x.a[0].split("<")[0].endswith("::entry")]
        if len(ent) != 1:
            return "an element is left out" if not ent else "an element is written more than once"
        content = ent[0].a[1][2]
        got = norm(content)
        while op_(got) in ("verbatim::format_or_verbatim", "AsFormat::format", "IntoFormat::into_format"):
            got = norm(args(got)[0])
        if got == norm(el):
            continue
        if got.tag == "fld" and norm(got.a[0]) == norm(el) and str(got.a[1]) == "0" and op_(o) == "Iterator::zip":
            continue
        return f"an entry writes {show(got)[:100]}"
    src = args(o)[0] if op_(o) == "Iterator::zip" else o
    if op_(o) == "Iterator::zip" and not (op_(norm(args(o)[1])) == "AstSeparatedList::iter" and norm(args(norm(args(o)[1]))[0]) == node):
        return f"elements are paired with {show(args(o)[1])[:80]}"
    src = peel(src)
    if src.tag == "it" and not src.a[1] and not src.a[2]:
        src = peel(src.a[0])
    while op_(src) in ("AstNodeList::iter", "AstNodeList::into_iter", "IntoIterator::into_iter"):
        src = peel(args(src)[0])
    if norm(src) != node and not separated(src, node):
        return f"the elements written are {show(src)[:100]}"
    r = peel(v)
    if not (op_(r).split("<")[0].endswith("::finish")):
        return ("?", f"returns {show(v)[:80]}") if not (v.tag == "adt" and v.a[1] == "Ok") else "returns success whatever came of the entries"
    return None


def joiner(R):
    """the joiner of expressions writes each entry"""
    rule = "C32.lists"
    P = R.prog
    fn = next((p for p in P.fns if "JoinNodesBuilderExt" in p and p.endswith("::entry")), None)
    if not fn:
        return R.undecided(rule, "air_r_formatter::joiner_ext", "no joiner of expressions")
    R.fn(fn)
    E = Emit(R, ())
    bad, n = {}, 0
    I = E.interp()
    content = mk("arg", "content")
    for s, v in R.summary(fn, "self node content", I):
        n += 1
        me = s.mem.get(("h", "self"), mk("arg", "self"))
        res = peel(project(me, "result"))
        wrote = []
        for e in s.eff:
            if e.tag == "eff" and e.a[0] in emit.PRINTS:
                for c, atoms in E.flat(e.a[1][1], dict(s.conds)):
                    wrote += [a for a in atoms if a[0] not in ("lit",)]
        failed = res.tag == "adt" and res.a[1] == "Err"
        if not failed and not any(c[0] == "v" and set(c[1]) == {"Err"} for c in s.conds.values()):
            if [a[1] for a in wrote if a[0] in ("fmt", "part")] != [content]:
                bad.setdefault(f"writes {'; '.join(show_atom(a)[:60] for a in wrote) or 'nothing'} for an entry", s.conds)
        elif not failed and not same_result(res, s.conds):
            bad.setdefault("an entry that failed leaves the result a success", s.conds)
    settle(R, rule, R.where(fn), bad, n, "writes the entry unless an earlier one failed, and remembers failures")
    fin = next((p for p in P.fns if "JoinNodesBuilderExt" in p and p.endswith("::finish")), None)
    if fin:
        R.fn(fin)
        for s, v in R.summary(fin, "self", E.interp()):
            R.check(norm(v) == norm(mk("fld", mk("arg", "self"), "result")), rule, R.where(fin), "returns whether the entries succeeded")


def same_result(res, conds):
    return any(c[0] == "v" and set(c[1]) == {"Err"} and peel(t) == res for t, c in conds.items())


# ------------------------------------------------------------------ rules are reached
def reached(R, rs):
    rule = "C32.rules"
    P = R.prog
    nodes = [a[:-len("Fields")] for a in P.adts if a.startswith(SYNTAX) and a.endswith("Fields")]
    for node in nodes:
        if node not in rs:
            R.violated(rule, node, "no rule formats this kind of node")
    R.floor(rule, "kinds of nodes", len(nodes), 30)
    E = Emit(R, ("::fmt_fields",))
    n = 0
    for (tr, name), impls in sorted(P.trait_impl.items()):
        if name != "fmt" or not tr.split("<")[0].endswith("FormatRule"):
            continue
        for st, ref, path in impls:
            target = ref.split("FormatRule<")[-1].rsplit(">>", 1)[0]
            if not target.startswith(SYNTAX) or "List" in target.split("::")[-1]:
                continue
            R.fn(path)
            n += 1
            if target in P.adts and len(P.adts[target]["variants"]) > 1:
                union(R, E, target, path)
            elif target in rs:
                own(R, target, rs[target], st, path)
    R.floor(rule, "rules", n, 35)


def own(R, target, r, st, path):
    rule = "C32.rules"
    P = R.prog
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and (x.endswith("FormatNodeRule::fmt") or x.endswith("FormatBogusNodeRule::fmt")) for x in (p, res))
    where = R.where(path) + f": {target.split('::')[-1]}"
    for s, v in R.summary(path, "self node f", I):
        effs = [e for e in s.eff if e.tag == "eff" and e.a[0].endswith("FormatNodeRule::fmt")]
        ok = len(effs) == 1 and effs[0].a[1][:2] == (mk("arg", "self"), mk("arg", "node")) and op_(peel(v)).endswith("FormatNodeRule::fmt")
        R.check(ok if effs or s.eff == () else None, rule, where, "formats the node by its own rule")
        if st != r[0]:
            R.violated(rule, where, f"the rule is {st}, the fields are written by {r[0]}")


def union(R, E, target, path):
    rule = "C32.rules"
    P = R.prog
    where = R.where(path) + f": {target.split('::')[-1]}"
    node = mk("arg", "node")
    done, bad = set(), {}
    variants = {v["name"] for v in P.adts[target]["variants"]}
    for conds, atoms in E.run(path, "self node f"):
        vs = next((set(c[1]) for t, c in conds.items() if t == node and c[0] == "v"), variants)
        done |= vs
        parts = [a for a in atoms if a[0] in ("part", "fmt")]
        if len(atoms) != 1 or len(parts) != 1 or norm(parts[0][1]) != node:
            bad.setdefault(f"{'|'.join(sorted(vs))} writes {'; '.join(show_atom(a)[:60] for a in atoms) or 'nothing'}", conds)
    for why in bad:
        R.violated(rule, where, why)
    if done != variants:
        R.violated(rule, where, f"never writes {', '.join(sorted(variants - done))}")
    elif not bad:
        R.proved(rule, where, f"formats each of {len(variants)} variants as itself")


def check(R):
    P = R.program(*CRATES)
    rs = rules(P)
    R.guard(lambda: reached(R, rs), "C32.rules", "formatting rules")
    E = Emit(R, STOPS)
    for node, (st, path) in sorted(rs.items()):
        fs = fields(P, node)
        if fs is None:
            R.undecided("C32.parts", node, "no fields known")
            continue
        R.guard(lambda: plain(R, E, node, st, path, fs), "C32.parts", node)
    R.floor("C32.parts", "formatting rules", len(rs), 30)
    R.guard(lambda: chained(R), "C32.parts", "chains")
    R.guard(lambda: lists(R), "C32.lists", "lists")
    R.guard(lambda: broken_out(R), "C32.arguments", "expanded arguments")
    R.guard(lambda: grouped(R), "C32.arguments", "grouped arguments")
    R.guard(lambda: element(R), "C32.arguments", "arguments")

