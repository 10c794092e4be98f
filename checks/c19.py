"""C19: suppressed code is copied verbatim."""
import itertools
from terms import *
from cases import *
import mir
from emit import norm, op_, peel, CRATES, SYNTAX
from c32 import rules

LEVEL = "proof"
TECHNIQUE = "gate and decision-table analysis over MIR: what the node rule does before it formats anything, which question it asks of which comments, and what the suppressed branch writes, tabulated for every path; a call graph query that nothing goes round the gate"
EXPLANATION = ("The node rule asks whether the node is suppressed before any other effect and then only writes the suppressed text; the question is a skip directive among the node's own "
               "leading comments, in a place where directives count; for calls also the called name on the skip list; for files a skip-file directive among the first expression's leading "
               "comments. The suppressed branch writes the node's own source text. Every node kind's formatting rule goes through the gate, and no rule calls another's field formatter.")
NOTE = "format_suppressed_node is biome_formatter's; a directive on a node inside a binary chain, or between curly-curly braces, is documented as not supported and is not covered"
DESIGN = None

F = "air_r_formatter::"
TRAIT = F + "FormatNodeRule"
STEPS = ("is_suppressed", "fmt_suppressed", "fmt_leading_comments", "fmt_fields", "fmt_dangling_comments", "fmt_trailing_comments")
PLACES = {"R_EXPRESSION_LIST", "R_ARGUMENT_LIST", "R_BINARY_EXPRESSION"}
READERS = ("biome_rowan", "air_r_syntax", "biome_formatter", "comments", "settings")


def check(R):
    R.program(*CRATES)
    R.guard(lambda: gate(R), "C19.gate", TRAIT + "::fmt")
    R.guard(lambda: question(R), "C19.question", TRAIT + "::is_suppressed")
    R.guard(lambda: directive(R), "C19.directive", "has_skip_directive")
    R.guard(lambda: setting(R), "C19.list", "in_skip_setting")
    R.guard(lambda: root(R), "C19.file", "RRoot")
    R.guard(lambda: verbatim(R), "C19.verbatim", TRAIT + "::fmt_suppressed")
    R.guard(lambda: every(R), "C19.every", "formatting rules")


def impl(R, name, node):
    hits = [p for s, ref, p in R.prog.trait_impl.get((TRAIT, name), ()) if f"FormatNodeRule<{SYNTAX}{node}>" in ref]
    return hits[0] if len(hits) == 1 else None


def interp(R, stop=()):
    I = R.interp()
    I.kinds = True

    def opaque(p, res):
        for x in (p, res):
            if x and (x.startswith("air_r_syntax::") or x.startswith("<air_r_syntax::")):
                n = x.split("::")[-1]
                if n in ("can_cast", "cast") or n.startswith("as_") or n in ("syntax", "into_syntax") and "AnyR" not in x:
                    continue
                return True
            if x and any(x.endswith(y) for y in stop):
                return True
        return False

    I.opaque_fn = opaque
    I.reads = lambda sh, info: (bool(info) and info["krate"] in READERS and not sh.startswith("Buffer") and not sh.startswith("Comments::mark") or
                                any(sh.endswith(y.split("::")[-1]) for y in stop))
    return I


def syntax_of(t, name="node"):
    """is this the syntax of the argument (or the argument itself)"""
    t = peel(t)
    if t.tag == "fld" and t.a[1] == "syntax":
        t = peel(t.a[0])
    elif t.tag in ("call", "ecall") and op_(t).endswith("::syntax"):
        t = peel(args(t)[0])
    return t.tag == "arg" and t.a[0] == name


# ------------------------------------------------------------------ gate
def gate(R):
    rule, P = "C19.gate", R.prog
    gates = [TRAIT + "::fmt"] + [p for _, _, p in P.trait_impl.get((TRAIT, "fmt"), ())]
    for path in gates:
        R.fn(path)
        I = R.interp()
        I.opaque_fn = lambda p, res: any(x and "FormatNodeRule" in x and x.split("::")[-1] in STEPS for x in (p, res))
        outs = R.summary(path, ["self", "node", "f"], I)
        where = R.where(path)
        bad = None
        n = 0
        for s, v in outs:
            effs = [(e.a[0].split("::")[-1], e.a[1]) for e in s.eff if e.tag == "eff"]
            names = [x for x, _ in effs if x in STEPS]
            n += 1
            if any(e.tag != "eff" for e in s.eff) or any(x not in STEPS for x, _ in effs):
                if not names or names[0] != "is_suppressed" or effs[0][0] != "is_suppressed":
                    bad = "does something before asking whether the node is suppressed"
            if not names or names[0] != "is_suppressed":
                bad = f"starts with {names[0] if names else 'nothing'}, without asking whether the node is suppressed"
                continue
            yes = None
            for t, c in dict(s.conds).items():
                if op_(t).endswith("::is_suppressed") and c[0] == "b":
                    yes = set(c[1])
                    if args(t)[1] != mk("arg", "node"):
                        bad = "asks about another node"
            if yes == {True}:
                if names != ["is_suppressed", "fmt_suppressed"]:
                    bad = f"a suppressed node is also put through {', '.join(names[1:])}"
            elif yes == {False}:
                if "fmt_suppressed" in names:
                    bad = "a node which is not suppressed is written as suppressed"
            elif len(names) > 1:
                bad = "formats without regard to the answer"
            for x, a in effs:
                if x in STEPS and (len(a) < 2 or a[1] != mk("arg", "node")):
                    bad = f"{x} is given another node"
        R.check(not bad if n else None, rule, where, bad or f"on {n} paths, asks first and writes a suppressed node only as suppressed")
    direct(R)


def direct(R):
    """nothing goes round the gate"""
    rule, P = "C19.gate", R.prog
    inside = {p for _, _, p in P.trait_impl.get((TRAIT, "fmt"), ())} | {TRAIT + "::fmt"}
    bad, n = [], 0
    for p, f in sorted(P.fns.items()):
        if not (p.startswith(F) or p.startswith("<" + F)):
            continue
        for callee, targs, ops, span in mir.calls(f):
            if callee and callee.startswith(TRAIT + "::") and callee.split("::")[-1] in STEPS[1:]:
                n += 1
                # an override may fall back on another step of its own
                if p not in inside and callee.split("::")[-1] == "fmt_fields":
                    bad.append(f"{p.split('::')[-2]}::{p.split('::')[-1]} line {span[1]}")
    R.check(not bad if n else None, rule, "calls of field formatters", "field formatters called outside the gate: " + "; ".join(bad) if bad else f"only the gate calls field formatters ({n} calls of its steps seen)")


# ------------------------------------------------------------------ the question
def question(R):
    rule, P = "C19.question", R.prog
    seen = [("every node", TRAIT + "::is_suppressed")]
    for s, ref, p in P.trait_impl.get((TRAIT, "is_suppressed"), ()):
        node = ref.split("FormatNodeRule<")[1].split(">")[0].split("::")[-1]
        if node != "RRoot":
            seen.append((node, p))
    for node, path in seen:
        R.fn(path)
        where = R.where(path) + f": {node}"
        I = interp(R, ("::has_skip_directive", "::in_skip_setting"))
        outs = R.summary(path, ["self", "node", "f"], I)
        bad, n = None, 0
        for s, v in outs:
            conds = dict(s.conds)
            has = lst = None
            for t, c in conds.items():
                o = op_(t)
                if o.endswith("::has_skip_directive") and c[0] == "b":
                    has = set(c[1])
                    if not syntax_of(args(t)[1]):
                        bad = "looks for the directive of another node"
                elif o.endswith("::in_skip_setting") and c[0] == "v":
                    lst = set(c[1])
                    if not syntax_of(args(t)[0]):
                        bad = "looks up the name of another call"
                elif o.endswith("::in_skip_setting") or "in_skip_setting" in show(t) and c[0] == "b":
                    lst = ("b", set(c[1]))
                else:
                    bad = bad or ("?", f"depends on {show(t)[:120]}")
            for h in ({True, False} if has is None else has):
                n += 1
                val = v.a[0] if v.tag == "int" else None
                hv = h
                if val is None and op_(v).endswith("::has_skip_directive"):
                    if not syntax_of(args(v)[1]):
                        bad = "looks for the directive of another node"
                    val = int(hv)
                named = "in_skip_setting" in show(v)
                if node == "RCall":
                    if h and val != 1:
                        bad = "a call under a skip directive is not suppressed"
                    if not h:
                        if lst == {"Err"} and val not in (0,):
                            bad = bad or "suppressed without a reason"
                        elif lst == {"Err"}:
                            pass
                        elif isinstance(lst, tuple):
                            if val != int(lst[1] == {True}):
                                bad = "the answer disagrees with the skip list"
                        elif lst in ({"Ok"}, {"Ok", "Err"}, None):
                            if not named:
                                bad = "the skip list is not consulted" if val == 0 else "suppressed without a reason"
                elif val is None:
                    bad = bad or ("?", f"answers {show(v)[:120]}")
                elif bool(val) != h:
                    bad = "the answer disagrees with the directive"
        if I.panics:
            bad = bad or "may panic"
        settle(R, rule, where, bad, n, "suppressed exactly when its own leading comments ask for it" + (" or its name is on the skip list" if node == "RCall" else ""))


def settle(R, rule, where, bad, n, good):
    if isinstance(bad, tuple):
        R.undecided(rule, where, bad[1])
    elif bad:
        R.violated(rule, where, bad)
    elif not n:
        R.undecided(rule, where, "no path")
    else:
        R.proved(rule, where, f"{good} ({n} cases)")


# ------------------------------------------------------------------ directives
def leading(t, comments_ok, node_ok):
    """is t the leading comments of the right node"""
    t = peel(t)
    while t.tag in ("it", "itrest", "itadv"):
        t = peel(t.a[0])
    return op_(t) == "Comments::leading_comments" and comments_ok(args(t)[0]) and node_ok(args(t)[1])


def picks(cs, want):
    """do exactly the comments whose directive is `want` count (None: cannot tell)"""
    got = set()
    for conds in cs:
        conds = dict(conds)
        here = {"Skip", "Table", "SkipFile"} if any("parse_comment_directive" in show(t) for t in conds) else None
        for t, c in conds.items():
            if "parse_special_skip_file" in show(t):
                return False  # `Generated by` counts on the first line only
            named = "parse_comment_directive" in show(t)
            if not named:
                return None
            if op_(t).endswith("parse_comment_directive") and c[0] == "v" and set(c[1]) == {"None"}:
                here = {"None"}
            elif c[0] == "v" and set(c[1]) <= {"Some", "Format"}:
                pass
            elif c[0] == "v" and set(c[1]) <= {"Skip", "Table", "SkipFile"}:
                here = here & set(c[1])
            elif c[0] == "b" and op_(t) in ("eq", "PartialEq::eq") and len(args(t)) == 2:
                lit = {u.a[1] for x in args(t) for u in subterms(x) if u.tag == "adt" and u.a[1] in ("Skip", "Table", "SkipFile")}
                if len(lit) != 1:
                    return None
                here = here & lit if set(c[1]) == {True} else here - lit
            else:
                return None
        if here is None:
            return None
        got |= here
    return got == {want}


def directive(R):
    rule, P = "C19.directive", R.prog
    hits = [p for p in P.fns if p.endswith("::has_skip_directive") and "CommentsExt" in p and "impl" not in p.split("::")[-1] and P.fns[p].get("body")]
    if len(hits) != 1:
        return R.undecided(rule, "has_skip_directive", "not found")
    path = hits[0]
    R.fn(path)
    where = R.where(path)
    I = interp(R, ("::parse_comment_directive",))
    outs = R.summary(path, ["self", "node"], I)
    every_kind = {v["name"] for v in P.adts["air_r_syntax::generated::kind::RSyntaxKind"]["variants"]}
    cells, bad = {}, None
    for s, v in outs:
        ks = set(every_kind) | {None}
        ex = {True, False}
        for t, c in dict(s.conds).items():
            o = op_(t)
            if o == "SyntaxNode::parent" and syntax_of(args(t)[0]) and c[0] == "v":
                ks &= {None} if set(c[1]) == {"None"} else every_kind
            elif o == "SyntaxNode::kind" and op_(peel(args(t)[0])) == "SyntaxNode::parent" and syntax_of(args(peel(args(t)[0]))[0]) and c[0] == "v":
                ks &= set(c[1])
            elif t.tag == "exists" and c[0] == "b":
                why = about(t, "Skip", lambda x: peel(x) == mk("arg", "self"), syntax_of)
                if why:
                    bad = bad or why
                ex &= set(c[1])
            else:
                bad = bad or ("?", f"depends on {show(t)[:120]}")
        for k in ks:
            for e in ex:
                if v.tag == "int":
                    val = bool(v.a[0])
                elif v.tag == "exists":
                    why = about(v, "Skip", lambda x: peel(x) == mk("arg", "self"), syntax_of)
                    bad = bad or why
                    val = e
                else:
                    val = None
                    bad = bad or ("?", f"answers {show(v)[:120]}")
                cells.setdefault((k, e), set()).add(val)
    n = len(cells)
    if not bad:
        for (k, e), got in cells.items():
            want = k in PLACES and e
            if got != {want}:
                bad = f"answers {'yes' if True in got else 'no'} below {k} {'with' if e else 'without'} a skip directive among the leading comments"
        if len(cells) != 2 * (len(every_kind) + 1):
            bad = bad or ("?", "some cases have no path")
    settle(R, rule, where, bad, n, "a skip directive among the node's leading comments, below expression lists, argument lists and binary expressions")


def about(t, want, comments_ok, node_ok):
    """why the `exists` term does not ask for the directive among the node's leading comments"""
    over, cs = t.a[0], [a for a in t.a if isinstance(a, (frozenset, set))]
    over = peel(over)
    while over.tag in ("it", "itrest"):
        over = peel(over.a[0])
    if op_(over) in ("Comments::trailing_comments", "Comments::dangling_comments", "Comments::leading_dangling_trailing_comments", "Comments::leading_trailing_comments"):
        return f"looks among {op_(over).split('::')[-1].replace('_', ' ')}"
    if op_(over) != "Comments::leading_comments":
        return ("?", f"looks among {show(over)[:120]}")
    if not node_ok(args(over)[1]):
        return f"looks at the comments of {show(args(over)[1])[:100]}"
    if not comments_ok(args(over)[0]):
        return ("?", f"looks at the comments in {show(args(over)[0])[:100]}")
    if len(cs) != 1:
        return ("?", "an unknown predicate")
    p = picks(list(cs[0]), want)
    if p is None:
        return ("?", "the predicate " + "; ".join(show_conds(dict(c))[-160:] for c in list(cs[0])[:2]))
    if not p:
        return "a comment counts " + "; ".join(show_conds(dict(c) if not isinstance(c, dict) else c)[-160:] for c in list(cs[0])[:2])
    return None


# ------------------------------------------------------------------ the skip list
def setting(R):
    rule, P = "C19.list", R.prog
    path = F + "comments_ext::in_skip_setting"
    R.fn(path)
    where = R.where(path)
    I = interp(R, ("Skip::contains",))
    outs = R.summary(path, ["node", "f"], I)
    bad, n, seen = None, 0, set()
    node = mk("arg", "node")
    for s, v in outs:
        n += 1
        conds = dict(s.conds)
        skip = fn = sel = None
        for t, c in conds.items():
            u = norm(t)
            o = op_(u)
            if c[0] != "v":
                bad = bad or ("?", f"depends on {show(t)[:120]}")
            elif t.tag == "fld" and t.a[1] == "skip" and op_(t.a[0]) == "Formatter::options":
                skip = set(c[1])
            elif t.tag == "fld" and op_(t.a[0]) == "Formatter::options":
                bad = f"asks the {t.a[1]} setting"
            elif set(c[1]) <= {"Ok", "Err"}:
                pass
            elif "RIdentifier" in set(c[2]) and "RCall" in set(c[2]) and u == norm(mk("call", "RCall::function", (node,))):
                fn = set(c[1])
            elif "RIdentifier" in set(c[2]) and o == "RNamespaceExpression::right":
                sel = set(c[1])
            else:
                bad = bad or ("?", f"depends on {show(t)[:120]}")
        if v.tag == "adt" and v.a[1] == "Err":
            continue
        val = project(v, "0")
        named = [t for t in subterms(val) if op_(t).endswith("Skip::contains")]
        if val.tag == "int" and val.a[0] == 0:
            if skip == {"None"}:
                seen.add("none")
            elif fn and "RIdentifier" in fn:
                bad = "a call by plain name is not looked up"
            elif fn and "RNamespaceExpression" in fn and not (sel and "RIdentifier" not in sel):
                bad = "a namespaced call is not looked up"
        elif named and val == named[0]:
            a = args(named[0])
            if not (peel(a[0]).tag in ("fld", "payload", "pay") and "skip" in show(a[0])):
                bad = bad or f"looks the name up in {show(a[0])[:100]}"
            txt = peel(a[1])
            if op_(txt) != "SyntaxToken::text_trimmed" and op_(txt) != "SyntaxToken::token_text_trimmed":
                bad = bad or ("?", f"looks up {show(txt)[:100]}")
            else:
                tok = norm(args(txt)[0])
                ident = norm(args(tok)[0]) if op_(tok) == "RIdentifier::name_token" else None
                s_id = show(ident) if ident is not None else ""
                if fn == {"RIdentifier"} and "RCall::function($node)" in s_id and "Namespace" not in s_id:
                    seen.add("plain")
                elif fn == {"RNamespaceExpression"} and "RNamespaceExpression::right" in s_id:
                    seen.add("namespaced")
                else:
                    bad = bad or f"looks up {show(txt)[:150]}"
        else:
            bad = bad or ("?" if val.tag not in ("int",) else None, f"answers {show(val)[:120]}")
            if isinstance(bad, tuple) and bad[0] is None:
                bad = "a call is suppressed whatever its name"
    if not bad and seen != {"none", "plain", "namespaced"}:
        bad = f"never looks up {', '.join({'plain', 'namespaced'} - seen) or 'anything'}" if {"plain", "namespaced"} - seen else ("?", "the case without a skip list is missing")
    settle(R, rule, where, bad, n, "the called name, alone or after `::`, is looked up in the skip setting, and nothing else suppresses a call")


# ------------------------------------------------------------------ whole files
def root(R):
    rule, P = "C19.file", R.prog
    path = impl(R, "is_suppressed", "RRoot")
    if not path:
        return R.undecided(rule, "RRoot", "no question of its own")
    R.fn(path)
    where = R.where(path)
    I = interp(R, ("::parse_comment_directive", "::parse_special_skip_file"))
    outs = R.summary(path, ["self", "node", "f"], I)
    bad = None
    rows = []
    first = norm(mk("call", "AstNodeList::first", (mk("call", "RRoot::expressions", (mk("arg", "node"),)),)))

    def first_node(t):
        t = peel(t)
        return op_(t).endswith("::syntax") and norm(peel(args(t)[0])) == first

    def any_comments(t):
        return "$f" in show(t)

    def of_first(t):
        """the text of the first leading comment"""
        f = [u for u in subterms(t) if u.tag == "found"]
        return len(f) >= 1 and f[0].a[1] == "first" and leading(f[0].a[0], any_comments, first_node) and f[0].a[2] in ((), frozenset({frozenset()}), frozenset({()}))

    for s, v in outs:
        outcomes = [(dict(s.conds), v)]
        if v.tag == "exists":
            outcomes = [({**dict(s.conds), v: ("b", frozenset({x}), frozenset({True, False}))}, mk("int", int(x))) for x in (True, False)]
        for conds, v in outcomes:
            if v.tag != "int":
                bad = bad or ("?", f"answers {show(v)[:120]}")
                continue
            row, why = file_row(conds, first, first_node, any_comments, of_first)
            bad = bad or why
            rows.append((row, bool(v.a[0])))
    n = 0
    if not bad:
        for e, b, sp, d, rest in itertools.product((True, False), (True, False), ("None", "SkipFile"), ("None", "Skip", "Table", "SkipFile"), (True, False)):
            if (b is False and (sp != "None" or d != "None" or rest)) or (not e and b):
                continue
            n += 1
            want = e and b and (sp == "SkipFile" or d == "SkipFile" or rest)
            env = {"expr": e, "comment": b, "special": sp, "first": d, "rest": rest, "any": d == "SkipFile" or rest}
            got = {val for row, val in rows if all(env[k] in dom for k, dom in row.items())}
            if got != {want}:
                desc = "no expression" if not e else "no comment" if not b else f"first comment {'`Generated by`' if sp != 'None' else d}, {'a later skip-file' if rest else 'no later skip-file'}"
                bad = bad or (f"the file is {'not ' if want else ''}suppressed with {desc}" if got else ("?", f"no path with {desc}"))
    settle(R, rule, where, bad, n, "suppressed exactly with a skip-file directive among the leading comments of the first expression, or `Generated by` on the first")


def file_row(conds, first, first_node, any_comments, of_first):
    """a path's conditions as a row of the table, and what is wrong with them"""
    row, bad = {}, None
    for t, c in conds.items():
        o = op_(t)
        inner = [u for u in subterms(t) if op_(u).endswith("parse_comment_directive") or op_(u).endswith("parse_special_skip_file")]
        if c[0] == "v" and norm(t) == first:
            row["expr"] = {x == "Some" for x in c[1]}
        elif t.tag == "exists" and c[0] == "b":
            over = peel(t.a[0])
            cs = [a for a in t.a if isinstance(a, (frozenset, set))][0]
            if not leading(over, any_comments, first_node):
                bad = bad or about(t, "SkipFile", any_comments, first_node) or ("?", f"depends on {show(t)[:120]}")
            elif all(len(x) == 0 for x in cs):
                row["comment"] = set(c[1])
            elif not picks(list(cs), "SkipFile"):
                bad = bad or about(t, "SkipFile", any_comments, first_node) or ("?", f"depends on {show(t)[:120]}")
            elif "itrest" in {u.tag for u in subterms(t.a[0])}:
                row["rest"] = set(c[1])
            else:
                row["any"] = set(c[1])
        elif inner and c[0] == "v" and of_first(t):
            which = "special" if op_(inner[0]).endswith("parse_special_skip_file") else "first"
            if t is inner[0] or set(c[2]) == {"None", "Some"}:
                row.setdefault(which, {"None", "Skip", "Table", "SkipFile"})
                row[which] = row[which] & ({"None"} if set(c[1]) == {"None"} else {"Skip", "Table", "SkipFile"})
            elif "SkipFile" in c[2]:
                row.setdefault(which, {"None", "Skip", "Table", "SkipFile"})
                row[which] = row[which] & set(c[1])
            elif set(c[1]) == {"Format"}:
                pass
            else:
                bad = bad or ("?", f"depends on {show(t)[:120]}")
        else:
            bad = bad or (f"asks the {o.split('::')[-1]} expression" if o in ("AstNodeList::last", "AstNodeList::nth") else ("?", f"depends on {show(t)[-160:]}"))
    return row, bad


# ------------------------------------------------------------------ what is written
def verbatim(R):
    rule, P = "C19.verbatim", R.prog
    paths = [("every node", TRAIT + "::fmt_suppressed")]
    for s, ref, p in P.trait_impl.get((TRAIT, "fmt_suppressed"), ()):
        paths.append((ref.split("FormatNodeRule<")[1].split(">")[0].split("::")[-1], p))
    for node, path in paths:
        R.fn(path)
        where = R.where(path) + f": {node}"
        I = interp(R, ("line_ending::infer", "line_ending::normalize", "::mark_visited"))
        below = I.opaque_fn
        I.opaque_fn = lambda p, res, below=below: below(p, res) or any(x and "FormatNodeRule" in x and x.split("::")[-1] in STEPS for x in (p, res))
        outs = R.summary(path, ["self", "node", "f"], I)
        bad, n = None, 0
        for s, v in outs:
            if v.tag == "adt" and v.a[1] == "Err":
                continue
            n += 1
            w = [e for e in s.eff if e.tag == "eff" and (e.a[0].startswith("Buffer::") or e.a[0] in ("Format::fmt", "Formatter::write_fmt"))]
            if any(e.tag == "eff" and e.a[0].split("::")[-1] in STEPS for e in s.eff):
                bad = "formats the node as well"
            if len(w) != 1:
                bad = bad or ("writes nothing" if not w else "writes more than the source text")
                continue
            t = w[0]
            sup = [u for a in t.a[1] for u in subterms(a) if op_(u).split("::")[-1] in ("format_suppressed_node", "format_verbatim_node", "format_bogus_node")]
            dyn = [u for a in t.a[1] for u in subterms(a) if op_(u).split("::")[-1] == "dynamic_text"]
            other = [u for a in t.a[1] for u in subterms(a) if u.tag in ("call", "ecall") and op_(u).startswith("builders::") and op_(u) != "builders::dynamic_text"]
            if node == "RRoot":
                if len(dyn) == 1 and not sup:
                    src = [u for u in subterms(args(dyn[0])[0]) if op_(u).startswith("SyntaxNode::text")]
                    if len(src) != 1 or not syntax_of(args(src[0])[0]):
                        bad = bad or ("?", f"writes {show(args(dyn[0])[0])[:120]}")
                    elif op_(src[0]) != "SyntaxNode::text_with_trivia":
                        bad = "writes the file without the text around its first and last tokens"
                    else:
                        steps = {op_(u) for u in subterms(args(dyn[0])[0]) if u.tag in ("call", "ecall")} - {"SyntaxNode::text_with_trivia", "From<String>", "line_ending::normalize", "SyntaxNodeText::to_string"}
                        if steps:
                            bad = bad or ("?", f"changes the text by {', '.join(sorted(steps))[:100]}")
                        norm_ = any(op_(u) == "line_ending::normalize" for u in subterms(args(dyn[0])[0]))
                        crlf = [c for tt, c in dict(s.conds).items() if op_(tt) == "line_ending::infer"]
                        if not norm_ and not (crlf and set(crlf[0][1]) == {"Lf"}):
                            bad = bad or "line endings are not normalised"
                    if other:
                        bad = bad or "writes more than the source text"
                else:
                    bad = bad or "the file is not written from its whole text"
            elif len(sup) == 1 and op_(sup[0]).endswith("format_suppressed_node") and not dyn:
                if not syntax_of(args(sup[0])[0]):
                    bad = "writes another node"
                if other:
                    bad = bad or "writes more than the source text"
            elif sup and not op_(sup[0]).endswith("format_suppressed_node"):
                bad = f"written with {op_(sup[0]).split('::')[-1]}"
            else:
                bad = bad or ("?", f"writes {show(t)[:120]}")
        settle(R, rule, where, bad, n, "writes the node's own source text and nothing else")


# ------------------------------------------------------------------ every kind of node
def every(R):
    rule, P = "C19.every", R.prog
    nodes = {n.split("::")[-1] for n in rules(P)}
    impls = {}
    for s, ref, p in P.trait_impl.get(("biome_formatter::FormatRule", "fmt"), ()):
        m = ref.split("FormatRule<", 1)[-1].rsplit(">>", 1)[0]
        impls.setdefault(m.split("::")[-1], []).append((s, p))
    structs = [a.split("::")[-1] for a, d in P.adts.items() if a.startswith(SYNTAX + "R") and d["kind"] == "struct" and a + "Fields" in P.adts]
    for node in sorted(set(structs) | nodes):
        got = impls.get(node, [])
        if len(got) != 1:
            R.undecided(rule, node, f"{len(got)} formatting rules") if got else R.violated(rule, node, "has no formatting rule")
            continue
        path = got[0][1]
        R.fn(path)
        I = R.interp()
        I.opaque_fn = lambda p, res: any(x and "FormatNodeRule" in x for x in (p, res))
        bad, n = None, 0
        for s, v in R.summary(path, ["self", "node", "f"], I):
            n += 1
            effs = [e for e in s.eff]
            if len(effs) != 1 or effs[0].tag != "eff" or not effs[0].a[0].endswith("FormatNodeRule::fmt") or effs[0].a[1][1] != mk("arg", "node"):
                bad = f"does {', '.join(show(e)[:60] for e in effs) or 'nothing'} rather than going through the node rule"
            elif not (v.tag == "ecall" and op_(v).endswith("FormatNodeRule::fmt")):
                bad = "does not return the node rule's result"
        settle(R, rule, R.where(path) + f": {node}", bad, n, "goes through the node rule")
