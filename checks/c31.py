"""C31: parsing builds a balanced tree that keeps every token and comment."""
from terms import *
from cases import *
from emit import op_
import re

LEVEL = "proof"
TECHNIQUE = "effect summaries over MIR of the enter and leave handlers per syntax kind, product of each handler's loop automaton with the child language of its construct, kind table by value, typestate of the token, comment and trivia steps"
EXPLANATION = ("The table from tree-sitter names to syntax kinds is enumerated by value. For every kind in it the enter and leave handlers are summarised with that kind: neither may give up, and together they must open and close exactly that node, or write exactly that token, with literals and lists in between as the grammar has them. "
               "Handlers with a loop over the children are reduced to their automaton (conditions on the coming child, loop variables, what is opened, closed and walked) and run in product with the language of children of the construct, comments anywhere, over all reachable states: each child is walked exactly once, none is refused, and what is opened and closed around it is the grammar's. "
               "Tokens and comments advance the end of the text consumed on every path after the gap before them has been handed on; the pieces of a gap are pushed from where the last one ended to where this one ends. The walk and the preorder iterator are decided as transition tables.")
NOTE = "the children tree-sitter-r gives each construct, and biome_parser's and biome_rowan's building of the tree from events, are taken as given"
W = "air_r_parser::parse::RWalk::<'src>::"
PARSE = "air_r_parser::parse::RParse::"
TS = "air_r_parser::treesitter::"
KIND = "air_r_syntax::generated::kind::RSyntaxKind"
STOP = ("RWalk::<'src>::walk_next", "RWalk::<'src>::handle_arguments", "RParse::start", "RParse::token", "RParse::finish", "RParse::derive_trivia", "treesitter::node_syntax_kind")

NAMED = {
    "program": "R_ROOT", "unary_operator": "R_UNARY_EXPRESSION", "binary_operator": "R_BINARY_EXPRESSION", "extract_operator": "R_EXTRACT_EXPRESSION",
    "namespace_operator": "R_NAMESPACE_EXPRESSION", "function_definition": "R_FUNCTION_DEFINITION", "parameters": "R_PARAMETERS", "parameter": "R_PARAMETER",
    "if_statement": "R_IF_STATEMENT", "for_statement": "R_FOR_STATEMENT", "while_statement": "R_WHILE_STATEMENT", "repeat_statement": "R_REPEAT_STATEMENT",
    "braced_expression": "R_BRACED_EXPRESSIONS", "parenthesized_expression": "R_PARENTHESIZED_EXPRESSION", "call": "R_CALL", "subset": "R_SUBSET", "subset2": "R_SUBSET2",
    "argument": "R_ARGUMENT", "identifier": "R_IDENTIFIER", "integer": "R_INTEGER_VALUE", "float": "R_DOUBLE_VALUE", "complex": "R_COMPLEX_VALUE", "string": "R_STRING_VALUE",
    "next": "R_NEXT_EXPRESSION", "break": "R_BREAK_EXPRESSION", "true": "R_TRUE_EXPRESSION", "false": "R_FALSE_EXPRESSION", "null": "R_NULL_EXPRESSION",
    "inf": "R_INF_EXPRESSION", "nan": "R_NAN_EXPRESSION", "na": "R_NA_EXPRESSION", "dots": "R_DOTS", "dot_dot_i": "R_DOT_DOT_I",
}
TOKENS = {
    "string_open": "STRING_OPEN", "string_content": "STRING_CONTENT", "string_close": "STRING_CLOSE", "NA": "NA_LOGICAL_KW", "NA_integer_": "NA_INTEGER_KW", "NA_real_": "NA_DOUBLE_KW",
    "NA_complex_": "NA_COMPLEX_KW", "NA_character_": "NA_CHARACTER_KW", "{": "L_CURLY", "}": "R_CURLY", "[": "L_BRACK", "]": "R_BRACK", "[[": "L_BRACK2", "]]": "R_BRACK2",
    "(": "L_PAREN", ")": "R_PAREN", "?": "WAT", "~": "TILDE", "<-": "ASSIGN", "<<-": "SUPER_ASSIGN", ":=": "WALRUS", "->": "ASSIGN_RIGHT", "->>": "SUPER_ASSIGN_RIGHT", "=": "EQUAL",
    "|": "OR", "&": "AND", "||": "OR2", "&&": "AND2", "<": "LESS_THAN", "<=": "LESS_THAN_OR_EQUAL_TO", ">": "GREATER_THAN", ">=": "GREATER_THAN_OR_EQUAL_TO", "==": "EQUAL2", "!=": "NOT_EQUAL",
    "+": "PLUS", "-": "MINUS", "*": "MULTIPLY", "/": "DIVIDE", "^": "EXPONENTIATE", "**": "EXPONENTIATE2", "|>": "PIPE", "special": "SPECIAL", ":": "COLON", "::": "COLON2", ":::": "COLON3",
    "$": "DOLLAR", "@": "AT", "!": "BANG", "function": "FUNCTION_KW", "\\": "BACKSLASH", "if": "IF_KW", "else": "ELSE_KW", "for": "FOR_KW", "in": "IN_KW", "while": "WHILE_KW", "repeat": "REPEAT_KW", "comma": "COMMA",
}
LITERAL = {
    "R_IDENTIFIER": "IDENT", "R_INTEGER_VALUE": "R_INTEGER_LITERAL", "R_DOUBLE_VALUE": "R_DOUBLE_LITERAL", "R_COMPLEX_VALUE": "R_COMPLEX_LITERAL", "R_DOTS": "DOTS", "R_DOT_DOT_I": "DOTDOTI",
    "R_NEXT_EXPRESSION": "NEXT_KW", "R_BREAK_EXPRESSION": "BREAK_KW", "R_TRUE_EXPRESSION": "TRUE_KW", "R_FALSE_EXPRESSION": "FALSE_KW", "R_NULL_EXPRESSION": "NULL_KW", "R_INF_EXPRESSION": "INF_KW", "R_NAN_EXPRESSION": "NAN_KW",
}
SPLIT = {"R_INTEGER_VALUE", "R_COMPLEX_VALUE", "STRING_CONTENT"}  # tree-sitter gives these children which are part of the token
EXPR = sorted(set(NAMED.values()) - {"R_ROOT", "R_PARAMETERS", "R_PARAMETER", "R_ARGUMENT"})
NAME = ("R_IDENTIFIER", "R_STRING_VALUE", "R_DOTS", "R_DOT_DOT_I", "R_NULL_EXPRESSION")
ARGUMENTS = {"R_CALL": "R_CALL_ARGUMENTS", "R_SUBSET": "R_SUBSET_ARGUMENTS", "R_SUBSET2": "R_SUBSET2_ARGUMENTS"}
HOLE = ["+R_ARGUMENT", "-"]


def walk(kinds, field=None, pre=(), post=(), to=None):
    return [(k, field, list(pre), list(post), to) for k in ((kinds,) if isinstance(kinds, str) else kinds)]


# {kind: (pre-loop events of Enter, {state: transitions}, {state: events at the end})}; comments may stand anywhere
LANG = {
    "R_PARAMETERS": ({0: walk("L_PAREN", post=["+R_PARAMETER_LIST"], to=1), 1: walk("R_PARAMETER", to=2) + walk("R_PAREN", pre=["-"], to=9),
                      2: walk("COMMA", to=3) + walk("R_PAREN", pre=["-"], to=9), 3: walk("R_PARAMETER", to=2)}, {9: []}),
    "R_PARAMETER": ({0: walk(("R_IDENTIFIER", "R_DOTS", "R_DOT_DOT_I"), "name", to=1), 1: walk("EQUAL", pre=["+R_PARAMETER_DEFAULT"], to=2), 2: walk(EXPR, "default", to=3)}, {1: [], 3: ["-"]}),
    "R_IF_STATEMENT": ({0: walk("IF_KW", to=1), 1: walk("L_PAREN", "open", to=2), 2: walk(EXPR, "condition", to=3), 3: walk("R_PAREN", "close", to=4), 4: walk(EXPR, "consequence", to=5),
                        5: walk("ELSE_KW", pre=["+R_ELSE_CLAUSE"], to=6), 6: walk(EXPR, "alternative", to=7)}, {5: [], 7: ["-"]}),
    "R_BRACED_EXPRESSIONS": ({0: walk("L_CURLY", "open", post=["+R_EXPRESSION_LIST"], to=1), 1: walk(EXPR, "body", to=1) + walk("R_CURLY", "close", pre=["-"], to=9)}, {9: []}),
    "R_ARGUMENT": ({0: walk(NAME, "name", pre=["+R_ARGUMENT_NAME_CLAUSE"], to=1) + walk(EXPR, "value", to=3), 1: walk("EQUAL", post=["-"], to=2), 2: walk(EXPR, "value", to=3)}, {2: [], 3: []}),
}


def call_like(kind):
    return ({0: walk(EXPR, "function", to=1), 1: walk("@" + ARGUMENTS[kind], "arguments", to=9)}, {9: []})


def arguments(open_, close):
    end = walk(close, "close", pre=["-"], to=9)
    return ({0: walk(open_, "open", post=["+R_ARGUMENT_LIST"], to=1),
             1: walk("R_ARGUMENT", "argument", to=2) + walk("COMMA", pre=HOLE, to=3) + end,
             2: walk("COMMA", to=3) + end,
             3: walk("R_ARGUMENT", "argument", to=2) + walk("COMMA", pre=HOLE, to=3) + walk(close, "close", pre=HOLE + ["-"], to=9)}, {9: []})


def check(R):
    R.program("air_r_parser", "air_r_syntax")
    R.guard(lambda: table(R), "C31.kinds", TS + "node_syntax_kind")
    R.guard(lambda: events(R), "C31.events", "RParse")
    for k in sorted(set(NAMED.values()) | set(TOKENS.values()) | {"COMMENT"}):
        R.guard(lambda: pair(R, k), "C31.nodes", k)
    R.guard(lambda: args_of(R), "C31.nodes", "handle_arguments")
    R.guard(lambda: token(R), "C31.text", W + "handle_token")
    R.guard(lambda: comment(R), "C31.text", W + "handle_comment_leave")
    R.guard(lambda: root_end(R), "C31.text", W + "handle_root_leave")
    R.guard(lambda: gaps(R), "C31.gap", PARSE + "derive_trivia")
    R.guard(lambda: entry(R), "C31.entry", "air_r_parser::parse::parse")
    R.guard(lambda: walks(R), "C31.walk", W + "walk")
    R.guard(lambda: preorder(R), "C31.walk", TS + "Preorder")


def kind(n):
    return mk("adt", KIND, n, (), ())


def interp(R, stop=STOP):
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and (any(x.endswith(s) for s in stop) or "Preorder" in x) for x in (p, res))
    return I


# ------------------------------------------------------------------ the table
def table(R):
    rule = "C31.kinds"
    fn = TS + "node_syntax_kind"
    R.fn(fn)
    want = dict(NAMED, **TOKENS, comment="COMMENT")
    got = {}
    I = interp(R, ())
    for s, v in R.summary(fn, "x", I):
        names = None
        for t, c in s.conds.items():
            if c[0] == "s":
                if not op_(t).endswith("::kind"):
                    return R.undecided(rule, R.where(fn), f"asks about {show(t)[:60]}")
                names = c if names is None else None
        if v.tag != "adt":
            return R.undecided(rule, R.where(fn), f"returns {show(v)[:60]}")
        for w in want:
            if names is not None and (w in names[2]) == names[1]:
                got.setdefault(w, set()).add(v.a[1])
            elif names is None:
                got.setdefault(w, set()).add(v.a[1])
    R.floor(rule, "names of constructs", len(got), 50)
    for w, k in sorted(want.items()):
        g = got.get(w, set())
        if not g:
            R.violated(rule, R.where(fn), f"`{w}` is not recognised, and parsing gives up on it")
        elif g != {k}:
            R.violated(rule, R.where(fn), f"`{w}` is taken for {', '.join(sorted(g))}, not {k}")
        else:
            R.proved(rule, R.where(fn) + f": {w}", f"is {k}")


# ------------------------------------------------------------------ events
def events(R):
    rule = "C31.events"
    for name, args_, want in (("start", ["self", "kind"], "Start"), ("token", ["self", "kind", "end"], "Token"), ("finish", ["self"], "Finish")):
        fn = PARSE + name
        R.fn(fn)
        I = R.interp()
        outs = R.summary(fn, args_, I)
        bad = None
        for s, v in outs:
            vs = [x for x in s.mem.values() if x is not None and x.tag == "upd" and x.a[0] == mk("arg", "self")]
            if len(vs) != 1 or vs[0].a[1] != "events" or vs[0].a[2].tag != "push":
                bad = ("?", f"changes {'; '.join(show(x)[:60] for x in vs) or 'nothing'}")
                continue
            ev = vs[0].a[2].a[-1]
            if ev.tag != "adt" or ev.a[1] != want:
                bad = f"adds {show(ev)[:60]}"
            for f in args_[1:]:
                if ev.tag == "adt" and f in ev.a[3] and project(ev, f) != mk("arg", f):
                    bad = f"adds {show(ev)[:60]}"
        R.check(None if not outs or isinstance(bad, tuple) else not bad, rule, R.where(fn), (bad[1] if isinstance(bad, tuple) else bad) or f"adds one {want} event")
    fn = PARSE + "drain"
    R.fn(fn)
    outs = R.summary(fn, ["self"], R.interp())
    me = mk("arg", "self")
    ok = all(v.tag == "tup" and [x for x in v.a[0]] == [project(me, "events"), project(me, "trivia")] for s, v in outs)
    R.check(ok if outs and all(v.tag == "tup" for s, v in outs) else None, rule, R.where(fn), "hands out the events and the trivia")


# ------------------------------------------------------------------ one kind
def stream(effs):
    """events of a list of effects: +KIND, -, =TOKEN, walk, skip, @KIND"""
    out = []
    for e in effs:
        if e.tag == "loopeff":
            out.append(("loop", e))
            continue
        if e.tag != "eff":
            return None
        n, a = e.a[0], e.a[1]
        last = n.split("::")[-1]
        if n == "RParse::start":
            out.append("+" + name_of(a[1]))
        elif n == "RParse::finish":
            out.append("-")
        elif n == "RParse::token":
            out.append("=" + name_of(a[1]))
        elif n.endswith("RWalk::walk_next"):
            out.append("walk")
        elif n.endswith("RWalk::handle_arguments"):
            out.append("@" + name_of(a[1]))
        elif n == "Preorder::skip_subtree":
            out.append("skip")
        elif n in ("Iterator::next", "Preorder::next"):
            out.append("next")
        elif last in ("peek", "peek_field_name", "node_syntax_kind", "start_byte", "end_byte", "derive_trivia", "new", "unwrap"):
            continue
        elif "RParse" in n or "RWalk" in n or "Preorder" in n:
            return None
    return out


def name_of(t):
    return t.a[1] if t.tag == "adt" else "?" + show(t)[:40]


def pair(R, k):
    rule = "C31.nodes"
    fe, fl = W + "handle_enter", W + "handle_leave"
    R.fn(fe)
    R.fn(fl)
    enter = R.summary(fe, ["self", "node", kind(k), "iter"], interp(R))
    leave = R.summary(fl, ["self", "node", kind(k)], interp(R))
    where = R.where(fe) + f": {k}"
    if not enter or not leave:
        return R.violated(rule, where, f"gives up on {'entering' if not enter else 'leaving'} a {k}")
    ends = {tuple(x) if x is not None else None for x in (stream(s.eff) for s, v in leave)}
    if None in ends:
        return R.undecided(rule, where, "leaving does something which is not understood")
    if k in TOKENS.values() or k == "COMMENT":
        e, l = [], [] if k == "COMMENT" else ["=" + k]
    elif k == "R_ROOT":
        e, l = ["+R_ROOT", "+R_EXPRESSION_LIST"], ["-", "-"]
    elif k in LITERAL:
        e, l = ["+" + k], ["=" + LITERAL[k], "-"]
    else:
        e, l = ["+" + k], ["-"]
    lang = call_like(k) if k in ARGUMENTS else LANG.get(k)
    skip = k in SPLIT
    paths = [stream(s.eff) for s, v in enter]
    if any(x is None for x in paths):
        return R.undecided(rule, where, "entering does something which is not understood")
    looped = any(isinstance(y, tuple) for x in paths for y in x)
    if looped and lang is None:
        return R.undecided(rule, where, "walks the children by itself")
    if looped:
        if ends != {tuple(l)}:
            return R.violated(rule, where, f"is left with {' '.join(sorted(ends)[0]) or 'nothing'}, not {' '.join(l)}")
        return product(R, rule, where, enter, lang, e, k)
    for x in paths:
        if ("skip" in x) != skip:
            return R.violated(rule, where, "its inner parts are walked as tokens of their own" if skip else f"the children of a {k} are skipped")
        got = [y for y in x if y != "skip"]
        for z in ends:
            if got + list(z) != e + l:
                if "+" + k in got and got[:1] == e[:1] and balanced(got + list(z)) and lang is None and k != "R_ROOT" and k not in LITERAL:
                    return R.violated(rule, where, f"writes {' '.join(got)} … {' '.join(z)} for {' '.join(e)} … {' '.join(l)}")
                return R.violated(rule, where, f"is entered with {' '.join(got) or 'nothing'} and left with {' '.join(z) or 'nothing'}; the grammar has {' '.join(e) or 'nothing'} and {' '.join(l) or 'nothing'}")
        if "walk" in got or "next" in got:
            return R.undecided(rule, where, "walks on by itself")
    if lang is not None:
        return R.violated(rule, where, f"opens nothing around the parts of a {k}")
    R.proved(rule, where, f"is entered with {' '.join(e) or 'nothing'} and left with {' '.join(l) or 'nothing'}")


def balanced(xs):
    d = 0
    for x in xs:
        d += x.startswith("+")
        d -= x == "-"
        if d < 0:
            return False
    return d == 0


def args_of(R):
    """the arguments of a call, between their own Enter and Leave"""
    rule = "C31.nodes"
    fn = W + "handle_arguments"
    R.fn(fn)
    for k, o, c in (("R_CALL_ARGUMENTS", "L_PAREN", "R_PAREN"), ("R_SUBSET_ARGUMENTS", "L_BRACK", "R_BRACK"), ("R_SUBSET2_ARGUMENTS", "L_BRACK2", "R_BRACK2")):
        stop = tuple(x for x in STOP if not x.endswith("handle_arguments"))
        outs = R.summary(fn, ["self", kind(k), "iter"], interp(R, stop))
        where = R.where(fn) + f": {k}"
        if not outs:
            R.violated(rule, where, f"gives up on {k}")
            continue
        product(R, rule, where, outs, arguments(o, c), ["next", "+" + k], k, after=["next", "-"])


# ------------------------------------------------------------------ product
class Unclear(Exception):
    pass


def inner_loop(e):
    """the loop itself, its state written as phi"""
    top = e.a[0]
    best = top
    for t in subterms(e):
        if t.tag == "loop" and t.a[2] == top.a[2] and len(t.a[0]) == len(top.a[0]) and not any(x.tag == "loopval" and x.a[0].a[2] == top.a[2] for x in subterms(t.a[1])):
            best = t
    return best


def scalar(t, env, child):
    """value of a loop variable or constant"""
    if t.tag == "phi":
        return env.get(t.a[1])
    if t.tag == "loopval":
        return env.get(t.a[1])
    if t.tag == "adt" and not t.a[2]:
        return t.a[1]
    if t.tag == "int":
        return t.a[0]
    if op_(t).endswith("node_syntax_kind"):
        return child
    return None


def holds(t, c, env, child, field):
    """does the condition hold for the coming child (None: there is none left)"""
    op = op_(t)
    base = op_(t.a[0]) if t.tag in ("pay", "fld") else ""
    if op.endswith("Preorder::peek"):
        v = "Some"
    elif base.endswith("Preorder::peek"):
        v = "Leave" if child is None else "Enter"
    elif op.endswith("node_syntax_kind"):
        if child is None:
            raise Unclear("asks for the kind of what is left")
        v = child
    elif op.endswith("peek_field_name"):
        v = "Some" if field else "None"
    elif base.endswith("peek_field_name"):
        if c[0] != "s":
            raise Unclear(show(t)[:60])
        return (field in c[2]) == c[1]
    elif op == "eq":
        a, b = args(t)
        if any("Leave" in show(x)[-12:] for x in (a, b)):
            v = True
        else:
            x, y = scalar(a, env, child), scalar(b, env, child)
            if op_(a).split("::")[-1] == "peek_field_name" or op_(b).split("::")[-1] == "peek_field_name":
                raise Unclear(show(t)[:60])
            if x is None or y is None:
                raise Unclear(show(t)[-80:])
            v = x == y
    else:
        v = scalar(t, env, child)
        if v is None and op.endswith("Iterator::next"):
            v = "Some"
        if v is None and base.endswith("Iterator::next"):
            v = "Enter" if "Enter" in c[1] else "Leave"
        if v is None:
            raise Unclear(show(t)[-80:])
    if c[0] == "b":
        return bool(v) in c[1]
    if c[0] == "v":
        return v in c[1]
    if c[0] == "i":
        return any(lo <= int(v) <= hi for lo, hi in c[1])
    raise Unclear(show(t)[-80:])


def product(R, rule, where, outs, lang, enter, k, after=()):
    trans, final = lang
    loops = []
    for s, v in outs:
        xs = stream(s.eff)
        if xs is None:
            return R.undecided(rule, where, "does something which is not understood")
        i = next((i for i, x in enumerate(xs) if isinstance(x, tuple)), None)
        if i is None:
            # no round at all: nothing is walked
            continue
        if xs[:i] != list(enter):
            return R.violated(rule, where, f"starts with {' '.join(map(str, xs[:i])) or 'nothing'}, not {' '.join(enter)}")
        if any(isinstance(x, tuple) for x in xs[i + 1:]):
            return R.undecided(rule, where, "walks the children in more than one loop")
        loops.append((xs[i][1], xs[i + 1:], dict(s.conds)))
    if not loops:
        return R.undecided(rule, where, "does not walk its children in a loop")
    rec = inner_loop(loops[0][0])
    if any(inner_loop(e) != rec for e, _, _ in loops):
        return R.undecided(rule, where, "walks the children in more than one loop")
    inits = {i: scalar(t, {}, None) for i, t in enumerate(rec.a[0])}
    cases = [(dict(cs), dict(vals), stream(effs)) for cs, (vals, effs) in rec.a[1]]
    seen, todo, n = set(), [(0, tuple(sorted(inits.items(), key=str)), ())], 0
    path = {}
    try:
        while todo:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > 20000:
                raise Unclear("too many states")
            q, env_, owed = st
            env = dict(env_)
            for child, field, pre, post, to in trans.get(q, []) + [("COMMENT", None, [], [], q)]:
                real = child
                if child.startswith("@"):
                    real = "?"
                n += 1
                hit = [(vals, ev) for cs, vals, ev in cases if all(holds(t, c, env, real, field) for t, c in order(cs))]
                if not hit:
                    return R.violated(rule, where, f"gives up on {'a comment' if child == 'COMMENT' else child} {place(q, trans)}")
                for vals, ev in hit:
                    if ev is None:
                        raise Unclear("a round does something which is not understood")
                    step = [x for x in ev]
                    eaten = [x for x in step if x == "walk" or x.startswith("@")]
                    if len(eaten) != 1 or "next" in step or "skip" in step:
                        return R.violated(rule, where, f"{'skips' if not eaten or 'skip' in step or 'next' in step else 'goes past'} {child.lstrip('@')} {place(q, trans)}")
                    if child.startswith("@") and eaten[0] != child or not child.startswith("@") and eaten[0] != "walk":
                        return R.violated(rule, where, f"takes {child.lstrip('@')} for {eaten[0].lstrip('@')}")
                    i = step.index(eaten[0])
                    left = agree(list(owed), step[:i], eaten[0] if child != "COMMENT" else None, step[i + 1:], pre, post)
                    if isinstance(left, str):
                        return R.violated(rule, where, f"around {child.lstrip('@')} {place(q, trans)}: {left}")
                    ne = {}
                    for i2 in env:
                        t = vals.get(i2)
                        ne[i2] = env[i2] if t is None else scalar(t, env, real)
                    todo.append((to, tuple(sorted(ne.items(), key=str)), tuple(left)))
            if q in final:
                ok = [tail for _, tail, cs in loops if all(holds(t, c, env, None, None) for t, c in order(cs))]
                if not ok:
                    return R.violated(rule, where, f"does not end {place(q, trans)}")
                for tail in ok:
                    want = list(final[q]) + list(after)
                    got = list(tail)
                    if after and got.count("next") == 1:
                        pass
                    left = agree(list(owed), got, None, [], want, [])
                    if left:
                        return R.violated(rule, where, f"at its end: {left if isinstance(left, str) else 'leaves ' + ' '.join(map(str, left))}")
    except Unclear as e:
        return R.undecided(rule, where, f"depends on {e}")
    R.proved(rule, where, f"each child is walked once within what the grammar opens for it: {len(seen)} states, {n} steps of its automaton")


def order(cs):
    """conditions on what is coming first: the rest is only asked then"""
    items = list(cs.items())
    rank = lambda t: 0 if op_(t).endswith("Preorder::peek") else 1 if t.tag in ("pay", "fld") else 2
    return sorted(items, key=lambda x: (rank(x[0]), show(x[0])[-40:]))


def place(q, trans):
    before = [c for a in trans for c, f, p, o, to in trans[a] if to == q and c not in EXPR]
    return f"after {before[0].lstrip('@')}" if before else "after the first parts" if q else "at the start"


def agree(owed, pre, child, post, wpre, wpost):
    """compares what is opened and closed with what the grammar wants; a list may be opened later as long as nothing comes between.
    owed: [('+' or '-', side)] events one side is ahead by; returns the new difference or what is wrong"""
    got = [x for s, x in owed if s == "got"]
    want = [x for s, x in owed if s == "want"]
    got += pre
    want += wpre
    if child is not None:
        if got != want:
            return f"has {' '.join(got) or 'nothing'} where the grammar has {' '.join(want) or 'nothing'}"
        got, want = [], []
    got += post
    want += wpost
    n = 0
    while n < len(got) and n < len(want) and got[n] == want[n]:
        n += 1
    got, want = got[n:], want[n:]
    if got and want:
        return f"has {' '.join(got)} where the grammar has {' '.join(want)}"
    return [("got", x) for x in got] + [("want", x) for x in want]


# ------------------------------------------------------------------ text
def self_after(s):
    """final values of self's fields"""
    me = mk("arg", "self")
    best = None
    for v in s.mem.values():
        t = v
        f = {}
        while t is not None and t.tag == "upd":
            f.setdefault(t.a[1], t.a[2])
            t = t.a[0]
        if t == me and (best is None or len(f) > len(best)):
            best = f
    return best or {}


def is_byte(t, which):
    """node.start_byte() or end_byte()"""
    xs = [x for x in subterms(t) if op_(x).split("::")[-1] in ("start_byte", "end_byte")]
    return len(xs) == 1 and op_(xs[0]).endswith(which) and mk("arg", "node") in args(xs[0])


def gap(t, end):
    """self.text[self.last_end..end]"""
    if op_(t) == "index" or t.tag == "index":
        a = args(t) if t.tag == "call" else t.a
        r = a[1]
        if a[0] != mk("fld", mk("arg", "self"), "text") or r.tag != "adt" or not r.a[0].endswith("Range"):
            return False
        lo, hi = project(r, "start"), project(r, "end")
        return mk("fld", mk("arg", "self"), "last_end") in subterms(lo) and is_byte(hi, end) and not any(op_(x) in ("add", "sub") for x in subterms(r))
    return False


ME = lambda f: mk("fld", mk("arg", "self"), f)


def token(R):
    rule, fn = "C31.text", W + "handle_token"
    R.fn(fn)
    bad, n = None, 0
    for s, v in R.summary(fn, ["self", "node", "kind"], interp(R)):
        n += 1
        effs = [e for e in s.eff if e.tag == "eff" and e.a[0].startswith("RParse::")]
        names = [e.a[0] for e in effs]
        if names != ["RParse::derive_trivia", "RParse::token"]:
            bad = f"writes {', '.join(names) or 'nothing'}"
            continue
        a, b = effs[0].a[1], effs[1].a[1]
        if not gap(a[1], "start_byte"):
            bad = f"hands on {show(a[1])[:80]} as the text before the token"
        elif a[2] != ME("last_end"):
            bad = f"the text before the token starts at {show(a[2])[:60]}"
        elif a[3] != ME("between_two_tokens"):
            bad = "the text before the token is not placed by the token before it"
        elif b[1] != mk("arg", "kind") or not is_byte(b[2], "end_byte"):
            bad = f"the token is {show(b[1])[:40]} to {show(b[2])[:60]}"
        f = self_after(s)
        if not bad and not ("last_end" in f and is_byte(f["last_end"], "end_byte")):
            bad = "does not go on from the end of the token"
        if not bad and not ("between_two_tokens" in f and truth_of(f["between_two_tokens"]) is True):
            bad = "forgets that a token came before"
    R.check(not bad if n else None, rule, R.where(fn), bad or "the text before the token, the token, and its end as where to go on")


def truth_of(t):
    return bool(t.a[0]) if t.tag == "int" else None


def comment(R):
    rule, fn = "C31.text", W + "handle_comment_leave"
    R.fn(fn)
    bad, n = None, 0
    for s, v in R.summary(fn, ["self", "node"], interp(R)):
        n += 1
        f = self_after(s)
        if not ("last_end" in f and is_byte(f["last_end"], "end_byte")):
            bad = "does not go on from the end of the comment"
        pieces = [e for e in s.eff if e.tag == "eff" and e.a[0] == "Trivia::new"]
        derived = [e for e in s.eff if e.tag == "eff" and e.a[0] == "RParse::derive_trivia"]
        ranges = {}
        for e in s.eff:
            if e.tag == "eff" and e.a[0] == "TextRange::new":
                ranges[e.a[2]] = e.a[1]
        kinds = [name_of(e.a[1][0]) for e in pieces]
        if kinds[-1:] != ["SingleLineComment"] or kinds.count("SingleLineComment") != 1:
            bad = bad or f"adds {', '.join(kinds) or 'nothing'} for the comment"
            continue
        rs = [rng(e.a[1][1]) for e in pieces]
        if None in rs:
            return R.undecided(rule, R.where(fn), "ranges are not understood")
        lo, hi = rs[-1]
        if not is_byte(lo, "start_byte") or not is_byte(hi, "end_byte"):
            bad = bad or "the comment is not the text of its node"
        empty = any(op_(t) == "eq" and c == BT and ME("last_end") in args(t) and any(is_byte(x, "start_byte") for x in args(t)) for t, c in s.conds.items())
        if derived:
            a = derived[0].a[1]
            if len(derived) > 1 or kinds != ["SingleLineComment"] or not gap(a[1], "start_byte") or a[2] != ME("last_end"):
                bad = bad or "the text before the comment is handed on wrongly"
        elif kinds == ["Whitespace", "SingleLineComment"]:
            if rs[0][0] != ME("last_end") or not is_byte(rs[0][1], "start_byte"):
                bad = bad or "the blanks before the comment are not what stands there"
        elif not empty:
            bad = bad or "the text before the comment is lost"
        newline = [c == BT for t, c in s.conds.items() if op_(t).endswith("contains") and gap(args(t)[0], "start_byte") and c[0] == "b"]
        for e in pieces:
            tr = trails(e.a[1][2], newline[0] if newline else None, s.conds)
            if tr is None or not newline and tr is not False:
                return R.undecided(rule, R.where(fn), "what places the comment is not understood")
            want = tr is False if not newline or newline[0] else tr == "between" or s.conds.get(ME("between_two_tokens")) == (BT if tr else BF)
            if not want:
                bad = bad or ("a comment on a line of its own trails the token before it" if newline[0] else "a comment on the line of a token does not trail it")
        pushed = [x for x in (f.get("parse"),) if x is not None]
        m = sum(1 for x in pushed for y in subterms(x) if y.tag == "push" or op_(y) == "push")
        if pushed and m != len(pieces):
            bad = bad or f"keeps {m} of {len(pieces)} pieces"
        if not pushed:
            bad = bad or "keeps none of the pieces"
    R.check(not bad if n else None, rule, R.where(fn), bad or "the text before the comment, the comment, and its end as where to go on")


def trails(t, newline, conds):
    """what a flag says, given whether there is a newline: a truth value, or that of between_two_tokens"""
    if t.tag == "int":
        return bool(t.a[0])
    if t == ME("between_two_tokens"):
        k = conds.get(t)
        return "between" if k is None or k[0] != "b" or len(k[1]) != 1 else next(iter(k[1]))
    o, a = op_(t), args(t)
    if o.endswith("contains"):
        return newline
    if o == "not":
        x = trails(a[0], newline, conds)
        return None if x is None or x == "between" else not x
    if o in ("and", "or") and len(a) == 2:
        x, y = trails(a[0], newline, conds), trails(a[1], newline, conds)
        stop = o == "or"
        return stop if stop in (x, y) else y if x is (not stop) else x if y is (not stop) else None
    return None


def rng(t):
    for x in [t] + list(subterms(t)):
        if op_(x) == "TextRange::new":
            a = args(x)
            return (a[0], a[1]) if len(a) == 2 else None
    return None


def root_end(R):
    rule, fn = "C31.text", W + "handle_root_leave"
    R.fn(fn)
    bad, n = None, 0
    for s, v in R.summary(fn, ["self", "node"], interp(R)):
        n += 1
        xs = [e for e in s.eff if e.tag == "eff" and e.a[0].startswith("RParse::")]
        ds = [e for e in xs if e.a[0] == "RParse::derive_trivia"]
        if len(ds) != 1:
            bad = "the text after the last token is lost" if not ds else "the text after the last token is handed on twice"
            continue
        a = ds[0].a[1]
        if not gap(a[1], "end_byte") or a[2] != ME("last_end"):
            bad = "the text after the last token is handed on wrongly"
        elif truth_of(a[3]) is not False:
            bad = "the text after the last token is taken to stand between two tokens"
        elif [e.a[0] for e in xs][-1] != "RParse::finish":
            bad = "the text after the last token comes after the root is closed"
    R.check(not bad if n else None, rule, R.where(fn), bad or "the rest of the text belongs to the root")


# ------------------------------------------------------------------ walking
def walks(R):
    rule = "C31.walk"
    P = R.prog
    stop = ("RWalk::<'src>::handle_enter", "RWalk::<'src>::handle_leave", "treesitter::node_syntax_kind")
    for name, one in (("walk", False), ("walk_next", True)):
        fn = W + name
        R.fn(fn)
        outs = R.summary(fn, ["self", "iter"], interp(R, stop))
        bad, loops = None, 0
        for s, v in outs:
            le = [e for e in s.eff if e.tag == "loopeff"]
            conds = dict(s.conds)
            if not le:
                first = [c for t, c in conds.items() if op_(t).endswith("peek") or op_(t.a[0] if t.tag in ("pay", "fld") else t).endswith("peek")]
                if not one or not any(c[0] == "v" and set(c[1]) <= {"None", "Leave"} for c in first):
                    bad = "walks nothing"
                continue
            loops += 1
            rec = inner_loop(le[0])
            for cs, (vals, effs) in rec.a[1]:
                why = visit(dict(cs), effs, one and "back")
                bad = bad or why
            tail = s.eff[s.eff.index(le[0]) + 1:]
            why = visit({t: c for t, c in conds.items() if not op_(t).endswith("Preorder::peek") and not (t.tag in ("pay", "fld") and op_(t.a[0]).endswith("Preorder::peek"))}, tail, one and "end", last=True)
            bad = bad or why
        R.check(None if isinstance(bad, tuple) or not loops else not bad, rule, R.where(fn), (bad[1] if isinstance(bad, tuple) else bad) or
                ("enters and leaves every node up to the end of the coming one" if one else "enters and leaves every node"))


def visit(conds, effs, one, last=False):
    """one event: handed to the right handler with its own node and kind"""
    kinds = None
    same = None
    none = False
    for t, c in conds.items():
        if c[0] == "v" and t.tag in ("pay", "fld") and op_(t.a[0]).endswith("Iterator::next") or c[0] == "v" and t.tag in ("pay", "fld") and op_(t.a[0]).endswith("Preorder::next"):
            kinds = set(c[1])
        elif op_(t).endswith("::next") and c[0] == "v":
            none = set(c[1]) == {"None"}
        elif op_(t) == "eq" and c[0] == "b":
            same = set(c[1]) == {True}
            a = args(t)
            if not any("Leave" in show(x)[-9:] for x in a) or not any(any(op_(y).endswith("Preorder::peek") for y in subterms(x)) and "Enter" in show(x)[-9:] for x in a):
                return ("?", f"ends by {show(t)[:80]}")
    hs = [e for e in effs if e.tag == "eff" and e.a[0].split("::")[-1] in ("handle_enter", "handle_leave")]
    if none:
        return "does something after the end" if hs else None
    if kinds not in ({"Enter"}, {"Leave"}):
        return None if last and kinds is None else ("?", "does not tell entering from leaving")
    k = next(iter(kinds))
    if [e.a[0].split("::")[-1] for e in hs] != ["handle_" + k.lower()]:
        return f"{'entering' if k == 'Enter' else 'leaving'} a node is handled by {', '.join(e.a[0].split('::')[-1] for e in hs) or 'nothing'}"
    a = hs[0].a[1]
    if k not in show(a[1])[-9:] or not op_(a[2]).endswith("node_syntax_kind") or args(a[2])[0] != a[1]:
        return ("?", f"is handled as {show(a[2])[-80:]}")
    if one == "back" and k == "Leave" and same is not False:
        return "goes on after the end of the coming node"
    if one == "end" and (k == "Enter" or same is not True):
        return "stops before the end of the coming node"
    if not one and last:
        return "stops before the end of the tree"
    return None


def preorder(R):
    """the iterator moves to the first child, else leaves; after leaving to the next sibling, else the parent is left"""
    rule = "C31.walk"
    P = R.prog
    base = TS + "Preorder::<'tree>::"
    nx = next((p for p in P.fns if p.startswith("<" + TS + "Preorder") and p.endswith("Iterator>::next")), None)
    for fn, skip in ((nx, False), (base + "skip_subtree", True)):
        if fn is None:
            R.undecided(rule, "Preorder::next", "not found")
            continue
        R.fn(fn)
        outs = R.summary(fn, ["self"], R.interp())
        bad, n = None, 0
        done = set()
        cur = ME("next")
        for s, v in outs:
            n += 1
            conds = dict(s.conds)
            f = self_after(s)
            now = f.get("next")
            was = state(conds, cur)
            moves = [(e.a[0].split("::")[-1], answer(conds, e)) for e in s.eff if e.tag == "eff" and e.a[0].split("::")[-1].startswith("goto_")]
            got = shape(now)
            if not skip and v != cur and not (v.tag == "adt" and v.a[1] == was[0] == "None"):
                if not same_event(v, cur, was):
                    bad = bad or f"returns {show(v)[:60]}, not the event it announced"
            if was[0] is None:
                bad = bad or ("?", "does not ask what comes next")
                continue
            if was[0] == "None":
                if now is not None and got != ("None",):
                    bad = bad or "goes on after the end"
                done.add("None")
                continue
            k = was[1]
            if k is None:
                bad = bad or ("?", "does not tell entering from leaving")
                continue
            want = expected(k, moves, skip)
            if want is None:
                bad = bad or f"after {'entering' if k == 'Enter' else 'leaving'} a node, moves by {', '.join(m for m, _ in moves) or 'nothing'}"
            elif got is None or got[0] != want:
                bad = bad or f"after {'entering' if k == 'Enter' else 'leaving'} and {', '.join(m + ('' if a else ' (none)') for m, a in moves) or 'no move'}, goes on with {got[0] if got else show(now)[:60] if now is not None else 'nothing'}"
            elif want != "None" and not at_cursor(now, moves, k):
                bad = bad or "announces a node the cursor is not at"
            done.add((k, tuple(moves)))
        R.check(None if isinstance(bad, tuple) or not n else not bad, rule, R.where(fn), (bad[1] if isinstance(bad, tuple) else bad) or f"{len(done)} transitions of the walk")


def same_event(v, cur, was):
    return cur in subterms(v) and not any(op_(x).endswith("node") for x in subterms(v))


def state(conds, cur):
    """(Some|None, Enter|Leave)"""
    a = b = None
    for t, c in conds.items():
        if c[0] != "v" or len(c[1]) != 1:
            continue
        if t == cur:
            a = next(iter(c[1]))
        elif t.tag in ("pay", "fld") and t.a[0] == cur:
            b = next(iter(c[1]))
            a = a or "Some"
    return a, b


def answer(conds, e):
    want = e.a[0].split("::")[-1]
    for t, c in conds.items():
        if op_(t).split("::")[-1] == want and c[0] == "b" and len(c[1]) == 1 and t.tag == "ecall" and t.a[2] == e.a[2]:
            return next(iter(c[1]))
    return None


def shape(t):
    if t is None:
        return None
    if t.tag == "adt" and t.a[1] == "None":
        return ("None",)
    if t.tag == "adt" and t.a[1] == "Some":
        x = payload(t, "Some", 0)
        if x.tag == "adt":
            return (x.a[1],)
    return None


def expected(k, moves, skip):
    ms = tuple(moves)
    if skip:
        if k == "Enter":
            return {(("goto_parent", True),): "Leave", (("goto_parent", False),): "None"}.get(ms)
        return {(): "Leave"}.get(ms)
    if k == "Enter":
        return {(("goto_first_child", True),): "Enter", (("goto_first_child", False),): "Leave"}.get(ms)
    return {(("goto_next_sibling", True),): "Enter", (("goto_next_sibling", False), ("goto_parent", True)): "Leave", (("goto_next_sibling", False), ("goto_parent", False)): "None"}.get(ms)


def at_cursor(now, moves, k):
    """the node announced: where the cursor has moved to, or the node it stands at"""
    moved = any(a for _, a in moves)
    x = payload(now, "Some", 0)
    nd = x.a[2][0]
    if op_(nd).endswith("::node"):
        return True
    return not moved and ME("next") in subterms(nd)


# ------------------------------------------------------------------ gaps
DT = PARSE + "derive_trivia"


class Odd(Exception):
    pass


class Unsure(Odd):
    pass


def consumed(t, conds):
    """a byte iterator: (where it started, bytes taken since)"""
    n = 0
    while True:
        if t.tag == "itadv":
            t, n = t.a[0], n + 1
        elif t.tag == "after" and t.a[0].endswith("::peek"):
            t = t.a[1][0]
        elif t.tag == "after" and t.a[0].endswith("::next_if"):
            took = next((c for x, c in conds.items() if x.tag == "ecall" and x.a[0] == t.a[0] and tuple(x.a[1]) == tuple(t.a[1]) and c[0] == "v"), None)
            if took is None or len(took[1]) != 1:
                raise Unsure("whether a byte was taken is not known")
            t, n = t.a[1][0], n + (1 if "Some" in took[1] else 0)
        elif t.tag in ("phi", "loopval"):
            return t, n
        elif any(op_(x) == "str::as_bytes" and mk("arg", "text") in args(x) for x in [t] + list(subterms(t))) and not any(x.tag in ("itadv", "after", "loopval", "phi") for x in subterms(t)):
            return "bytes", n
        else:
            raise Odd(f"the bytes are read through {show(t)[:60]}")


def reached(t):
    """an offset: (where it started, bytes added since)"""
    n = 0
    while True:
        parts = list(t.a[0]) if t.tag == "cat" else list(args(t)) if op_(t) == "add" else None
        if parts is None:
            return ("start" if t == mk("arg", "start") else t), n
        ones = [x for x in parts if x == Int(1) or op_(x).startswith("From") and args(x) == (Int(1),)]
        rest = [x for x in parts if x not in ones]
        if len(rest) != 1:
            raise Odd(f"the offset is {show(t)[:60]}")
        t, n = rest[0], n + len(ones)


def is_iter(t):
    return t.tag == "itadv" or t.tag == "after" and t.a[0].split("::")[-1] in ("peek", "next_if")


def is_other(t):
    """no offset: the parse, or a flag"""
    return t == mk("arg", "self") or t.tag == "after" or truth_of(t) is not None


def cases_of(l):
    return [(dict(c), dict(v), list(e)) for c, (v, e) in l.a[1]]


class Tiling:
    def __init__(self, s):
        self.conds = dict(s.conds)
        self.loops = {}
        for l in loops(s):
            inside = [x for c, v, es in cases_of(l) for y in list(c) + list(v.values()) + es for x in subterms(y)]
            if not any(x.tag == "loopval" and outline(x.a[0].a[0]) == outline(l.a[0]) for x in inside):
                self.loops.setdefault((outline(l.a[0]), l.a[2]), l)
        self.seen = {}
        self.start_of = {}

    def pair(self, l):
        """the loop variables that go forward together: (iterator, offset)"""
        l = self.form(l)
        if l in self.seen:
            return self.seen[l]
        self.seen[l] = (None, None)
        its = [k for k in range(len(l.a[0])) if any(is_iter(v[k]) for _, v, _ in cases_of(l) if k in v)]
        if len(its) != 1:
            raise Odd(f"{len(its)} readers of the text in one loop")
        i, odd = its[0], None
        for e in range(len(l.a[0])):
            if e == i or is_other(l.a[0][e]):
                continue
            self.seen[l] = (i, e)
            try:
                if cases_of(l) and all(self.step(l, i, e, c, v) for c, v, _ in cases_of(l)):
                    return self.seen[l]
            except Odd as x:
                odd = x
        self.seen[l] = (i, None)
        if odd:
            raise odd
        return self.seen[l]

    def form(self, l):
        """the loop as it is turned, not as it was left"""
        return self.loops.get((outline(l.a[0]), l.a[2]), l)

    def step(self, l, i, e, conds, vals):
        b, m = reached(vals.get(e, mk("phi", l.a[2], e, l.a[0][e])))
        try:
            a, n = consumed(vals.get(i, mk("phi", l.a[2], i, l.a[0][i])), conds)
        except Unsure:  # the offset is the same whether one was taken or not
            return False
        return n == m and self.same(a, b, l, i, e)

    def same(self, a, b, l=None, i=None, e=None):
        if a == "bytes":
            return b == "start"
        if b == "start" or a.tag != b.tag:
            return False
        if a.tag == "phi":
            return l is not None and a.a[1] == i and b.a[1] == e
        return a.a[0] == b.a[0] and self.pair(a.a[0]) == (a.a[1], b.a[1]) and self.begin(a.a[0], l, i, e)

    def begin(self, l, outer=None, i=None, e=None):
        """the loop starts with the reader at the offset"""
        k, m = self.pair(l)
        a, n = consumed(l.a[0][k], self.conds)
        b, p = reached(l.a[0][m])
        return n == p and self.same(a, b, outer, i, e)


def gap_pieces(effs, vals):
    out = []
    held = list(vals) + [x for e in effs if e.tag == "eff" and e.a[0].endswith("push_trivia") for x in e.a[1]]
    for e in effs:
        if e.tag == "eff" and e.a[0] == "Trivia::new":
            lo_hi = rng(e.a[1][1])
            if lo_hi is None:
                raise Odd("a range is not understood")
            kept = any(x.tag == "ecall" and x.a[0] == "Trivia::new" and x.a[2] == e.a[2] for h in held for x in [h] + list(subterms(h)))
            out.append((name_of(e.a[1][0]), lo_hi[0], lo_hi[1], e.a[1][2], kept))
    return out


def equal(a, b, conds):
    """a == b, where one is never before the other"""
    a, b = outline(a), outline(b)
    if a == b:
        return True
    known = False
    for t, c in conds.items():
        xs = [outline(x) for x in args(t)]
        if c[0] == "b" and len(xs) == 2 and set(xs) == {a, b}:
            o, yes = op_(t), c == BT
            if (o, yes) in (("eq", True), ("ne", False)):
                return True
            first = xs[0] == a
            if first and (o, yes) in (("lt", False), ("ge", True)) or not first and (o, yes) in (("gt", False), ("le", True)):
                return True
        elif any(x.tag in ("call", "ecall") and {a, b} <= {outline(y) for y in x.a[1]} for x in (t,) + tuple(y for y in args(t) if isinstance(y, T))):
            known = True
    if known:
        raise Odd("how two offsets compare")
    return False


def closure_of(R, t):
    """what a byte must be to be taken: 'blank', or the byte"""
    if t.tag != "clo":
        return None
    I = R.interp()
    I.opaque_fn = lambda p, r: any(x and x.endswith("is_whitespace") for x in (p, r))
    outs = R.summary(t.a[0], "clo byte", I)
    if len(outs) != 1:
        return None
    v = outs[0][1]
    if op_(v) == "eq" and args(v)[0] == mk("arg", "byte") and args(v)[1].tag == "int":
        return args(v)[1].a[0]
    if v.tag == "ecall" and v.a[0].endswith("is_whitespace") and v.a[1] == (mk("arg", "byte"),):
        return "blank"


def gaps(R):
    rule = "C31.gap"
    R.fn(DT)
    I = R.interp()
    I.opaque_fn = lambda p, r: any(x and x.endswith(("RParse::push_trivia", "RParse::is_whitespace")) for x in (p, r))
    outs = R.summary(DT, "self text start between", I)
    where = R.where(DT)
    bad = []
    for s, v in outs:
        T = Tiling(s)
        try:
            cur = mk("arg", "start")
            vals = [x for x in s.mem.values() if x is not None]
            todo = list(s.eff)
            mine = gap_pieces(todo, vals)
            j = 0
            for e in todo:
                if e.tag == "eff" and e.a[0] == "Trivia::new":
                    kind_, lo, hi, tr, kept = mine[j]
                    j += 1
                    if not equal(lo, cur, s.conds):
                        bad.append(f"a piece starts at {show(lo)[:40]} although the text before it ended elsewhere")
                    if not kept:
                        bad.append("a piece is made and not kept")
                    if kind_ != "Whitespace" or hi.tag != "loopval" or not T.begin(hi.a[0]):
                        raise Odd("what the first piece covers")
                    want = newline_next(s.conds, hi.a[0])
                    if want is None or truth_of(tr) is None:
                        raise Odd("where the first piece belongs")
                    if truth_of(tr) is not want:
                        bad.append(f"blanks {'before a newline lead the next' if want else 'before a token trail the last'} token")
                    cur = hi
                if e.tag == "loopeff":
                    l = T.form(e.a[0])
                    if l not in T.loops.values():
                        raise Odd("a loop is not understood")
                    if any(y.tag == "eff" and y.a[0] == "Trivia::new" for c, vs, es in cases_of(l) for y in es):
                        cur = inner_gap(R, T, l, cur, s.conds, bad)
                    else:
                        pre_loop(T, l, bad)
            last = [t for t, c in s.conds.items() if t.tag == "call" and t.a[0] == "next" and c[0] == "v" and c[1] == frozenset({"None"})]
            if not last:
                bad.append("may stop before the end of the text")
                continue
            it, n = consumed(args(last[-1])[0], s.conds)
            if it == "bytes" or it.tag != "loopval" or n:
                raise Odd("the last byte read")
            i, e = T.pair(it.a[0])
            if e is None:
                bad.append("the offset does not follow the bytes read")
            elif not T.begin(it.a[0]):
                bad.append("the offset does not start where the bytes do")
            elif cur.tag == "loopval" and cur.a[0] == T.form(it.a[0]) and cur.a[1] == T.start_of.get(cur.a[0]):
                pass
            else:
                bad.append("the last piece may end before the text does")
        except Odd as x:
            return R.undecided(rule, where, str(x)) if not bad else R.violated(rule, where, bad[0])
    R.check(not bad if outs else None, rule, where, bad[0] if bad else "the pieces lie end to end from the start of the gap to its end, blanks and newlines each under their kind")
    blanks(R)


def newline_next(conds, l):
    """does the run of blanks stop at a newline?"""
    for t, c in conds.items():
        if t.tag == "ecall" and t.a[0].endswith("::peek") and t.a[1][0].tag == "loopval" and t.a[1][0].a[0] == l and c[0] == "v":
            if c[1] == frozenset({"None"}):
                return False
            if c[1] == frozenset({"Some"}):
                r = conds.get(payload(t, "Some", 0))
                if r and r[0] == "i" and all(lo in (10, 13) and hi in (10, 13) and lo == hi for lo, hi in r[1]):
                    return True
    return None


def pre_loop(T, l, bad):
    i, e = T.pair(l)
    if e is None:
        bad.append("the offset does not follow the bytes read")
    for conds, vals, effs in cases_of(l):
        r = [c for t, c in conds.items() if t.tag == "pay" and c[0] == "i" and any(x.tag == "phi" for x in subterms(t))]
        if not r or any(lo <= b <= hi for lo, hi in r[0][1] for b in (10, 13)):
            bad.append("a newline may be taken for a blank")


def loops(s):
    out = []
    for t in [x for x in s.conds] + [y for e in s.eff for y in ([e] if e.tag != "loopeff" else [])] + [x for x in s.mem.values() if x is not None]:
        for x in [t] + list(subterms(t)):
            if x.tag == "loop" and x not in out:
                out.append(x)
    return out


def outline(t):
    """a term with loops by where they start only"""
    if isinstance(t, T):
        return ("loop", outline(t.a[0]), t.a[2]) if t.tag == "loop" else (t.tag,) + tuple(outline(x) for x in t.a)
    return tuple(outline(x) for x in t) if isinstance(t, (tuple, list)) else t


def inner_gap(R, T, l, cur, conds, bad):
    """every turn adds one piece from where the last ended to what has been read"""
    i, e = T.pair(l)
    if e is None:
        bad.append("the offset does not follow the bytes read")
        raise Odd("")
    st = None
    for c, vals, effs in cases_of(l):
        pcs = gap_pieces(effs, vals.values())
        if len(pcs) != 1:
            bad.append(f"a turn of the loop adds {len(pcs)} pieces")
            continue
        kind_, lo, hi, tr, kept = pcs[0]
        if not kept:
            bad.append("a piece is made and not kept")
        if lo.tag != "phi":
            raise Odd("where a piece starts")
        st = lo.a[1] if st is None else st
        if lo.a[1] != st:
            bad.append("a piece does not start where the last one ended")
        end = vals.get(e)
        if hi != end:
            bad.append("a piece does not end at what has been read")
        if vals.get(st) != end:
            bad.append("the next piece does not start where this one ends")
        if truth_of(tr) is not False:
            bad.append("a piece after the newline trails the token before it")
        byte = [(t, x) for t, x in c.items() if t.tag == "pay" and t.a[0].tag == "call" and t.a[0].a[0] == "next" and x[0] == "i"]
        blank = any(t.tag == "ecall" and t.a[0].endswith("is_whitespace") and x == BT for t, x in c.items())
        took = {closure_of(R, x.a[1][1]) for t in [vals.get(i), end] + [y for y in effs if y.tag == "loopeff"] if t is not None for x in [t] + list(subterms(t)) if x.tag in ("after", "ecall", "eff") and x.a[0].endswith("::next_if")}
        one = {lo_ for _, r in byte for lo_, hi_ in r[1] for _ in [0] if lo_ == hi_} if byte and all(a == b for _, r in byte for a, b in r[1]) else None
        if blank:
            if kind_ != "Whitespace":
                bad.append(f"a blank is kept as {kind_}")
            if took - {"blank"}:
                bad.append("a run of blanks takes other bytes in")
        elif one and one <= {10, 13}:
            if kind_ != "Newline":
                bad.append(f"a newline is kept as {kind_}")
            if took - {10} or took and 10 in one:
                bad.append("a newline takes other bytes in")
            if one == {13} and not took:
                bad.append("\\r\\n is kept as two newlines")
        else:
            raise Odd("which bytes a piece is of")
    if st is None:
        raise Odd("where a piece starts")
    if not equal(l.a[0][st], cur, conds):
        bad.append("the first piece of the loop does not start where the text before it ended")
    if not equal(l.a[0][st], l.a[0][e], conds):
        bad.append("the loop starts with text read and not kept")
    T.start_of[l] = st
    return mk("loopval", l, st)


def blanks(R):
    rule, fn = "C31.gap", PARSE + "is_whitespace"
    R.fn(fn)
    bad, n = None, 0
    for s, v in R.summary(fn, "byte", R.interp()):
        n += 1
        cls = [c for t, c in s.conds.items() if t.tag == "ecall" and t.a[0].endswith("lookup_byte") and c[0] == "v"]
        names = cls[0][1] if cls else None
        r = s.conds.get(mk("arg", "byte"))
        ok = truth_of(v)
        if names is None:
            bad = bad or "?"
        elif names & {"WHS"}:
            inside = {b for b in (9, 10, 12, 13, 32) if r is None or any(lo <= b <= hi for lo, hi in r[1])}
            other = next((b for b in (10, 13) if show(v) in (f"not(eq($byte, {b}))", f"ne($byte, {b})")), None)
            for b in inside:
                val = ok if ok is not None or other is None else b != other
                if val is None:
                    return R.undecided(rule, R.where(fn), show(v)[:80])
                if val is not (b not in (10, 13)):
                    bad = bad or f"byte {b} is {'a' if val else 'no'} blank"
        elif names & {"SEM"}:
            if ok is not True or len(names) > 1:
                bad = bad or "a semicolon is no blank"
        elif ok is not False:
            bad = bad or f"{sorted(names)[0]} is a blank"
    if bad == "?":
        return R.undecided(rule, R.where(fn), "not by the table of bytes")
    R.check(not bad if n else None, rule, R.where(fn), bad or "blanks are white space and semicolons, newlines are not")


# ------------------------------------------------------------------ entry
def entry(R):
    rule = "C31.entry"
    ROOT = "air_r_parser::parse::"

    def run(fn, a, stops):
        R.fn(ROOT + fn)
        I = R.interp()
        I.opaque_fn = lambda p, r: any(x and x.endswith(stops) for x in (p, r))
        return R.summary(ROOT + fn, a, I)

    fn = "parse_from_treesitter"
    bad, n = None, 0
    for s, v in run(fn, "ast text", ("RWalk::<'src>::walk", "RWalk::<'src>::walk_next", "parse_failure", "Preorder::<'tree>::new")):
        err = [c for t, c in s.conds.items() if t.tag == "ecall" and t.a[0].endswith("has_error")]
        walks_ = [e for e in s.eff if e.tag == "eff" and e.a[0].startswith("RWalk::")]
        if err and err[0] == BT:
            if walks_:
                bad = "walks a tree with errors"
            continue
        n += 1
        if [e.a[0].split("::")[-1] for e in walks_] != ["walk"]:
            bad = "the tree is not walked once from its root"
            continue
        w, it = walks_[0].a[1][:2]
        if w.tag != "adt" or project(w, "text") != mk("arg", "text"):
            bad = "the walk is not over the text that was parsed"
        elif not (it.tag == "ecall" and it.a[0] == "Preorder::new" and any(x.tag == "ecall" and x.a[0] == "Tree::root_node" and x.a[1] == (mk("arg", "ast"),) for x in it.a[1])):
            bad = "the walk does not start at the root"
        elif not zero(project(w, "last_end")) or truth_of(project(w, "between_two_tokens")) is not False:
            bad = "the walk does not start at the beginning of the text"
        elif v.tag != "tup" or not (dug(v.a[0][0], ("parse", "events")) and dug(v.a[0][1], ("parse", "trivia")) and v.a[0][2] == NONE):
            bad = f"returns {show(v)[:80]}"
    R.check(not bad if n else None, rule, R.where(ROOT + fn), bad or "the tree of the text is walked once from its root, and all events and trivia are returned")
    for fn, a, stops, want in (
        ("parse_text", "text options", ("parse_from_treesitter",), lambda s, v: v.tag == "ecall" and v.a[0].endswith("parse_from_treesitter") and v.a[1][1] == mk("arg", "text") and any(x.tag == "ecall" and x.a[0] == "Parser::parse" and x.a[1][1] == mk("arg", "text") for x in subterms(v.a[1][0]))),
        ("parse", "text options", ("parse_text", "build_tree"), lambda s, v: v.tag == "ecall" and v.a[0].endswith("build_tree") and v.a[1][0] == mk("arg", "text") and all(x.tag == "fld" and x.a[1] == str(k) and x.a[0].tag == "ecall" and x.a[0].a[0].endswith("parse_text") and x.a[0].a[1][0] == mk("arg", "text") for k, x in enumerate(v.a[1][1:4]))),
        ("build_tree", "text events tokens errors cache", (), lambda s, v: v.tag == "adt" and project(v, "error") == mk("arg", "errors") and any(x.tag == "after" and x.a[0].endswith("event::process") and x.a[1][1] == mk("arg", "events") and any(y.tag == "ecall" and y.a[0].endswith("with_cache") and tuple(y.a[1][:2]) == (mk("arg", "text"), mk("arg", "tokens")) for y in subterms(x)) for x in subterms(project(v, "root")))),
    ):
        outs = run(fn, a, stops)
        ok = [bool(want(s, v)) for s, v in outs]
        R.check(all(ok) if ok else None, rule, R.where(ROOT + fn), "the text parsed, its events and its trivia go on together" if ok and all(ok) else f"returns {show(outs[0][1])[:80] if outs else 'nothing'}")


def zero(t):
    return t == Int(0) or (op_(t).startswith("From") and args(t) == (Int(0),))


def dug(t, fields):
    """base.f.g, of what the walk leaves"""
    for f in reversed(fields):
        if t.tag != "fld" or t.a[1] != f:
            return False
        t = t.a[0]
    return t.tag == "after" and t.a[0] == "RWalk::walk"
