"""C34: assignment operators are rewritten only where the meaning is kept."""
from terms import *
from cases import *
import emit, flow
from emit import Emit, norm, op_, peel, show_atom, CRATES, SYNTAX
from c32 import STOPS, rules, accessor, kept

LEVEL = "proof"
TECHNIQUE = "decision tables over MIR: what is written for an operator by every path of the binary expression rule, tabulated by assignment style, operator and position; the position test tabulated by the kind of the parent node"
EXPLANATION = ("Every successful path of the binary expression rule is reduced to what it writes for the operator and checked against the table (style, operator, position): "
               "`<-` for `=` with style arrow, `=` for `<-` with style equal where the position allows it, the operator as written otherwise. The position test is summarised "
               "over every kind of parent node: true exactly below an expression list, parentheses, `?`, an assignment or `?` which itself may be rewritten, and as the body of a "
               "function, branch or loop. No other rule replaces a token by text that is not its own.")
NOTE = "that R gives `=` and `<-` the same meaning in those positions is R's grammar, taken as the oracle; the text of the replacement is printed by biome_formatter"
DESIGN = None

STYLE = "air_r_formatter::options::AssignmentStyle"
B = "air_r_formatter::r::auxiliary::binary_expression::"
SAFE = B + "can_normalize_to_equal"
BODIES = {"R_FUNCTION_DEFINITION": ("RFunctionDefinition", "body"), "R_IF_STATEMENT": ("RIfStatement", "consequence"), "R_ELSE_CLAUSE": ("RElseClause", "alternative"),
          "R_FOR_STATEMENT": ("RForStatement", "body"), "R_WHILE_STATEMENT": ("RWhileStatement", "body"), "R_REPEAT_STATEMENT": ("RRepeatStatement", "body")}
ALWAYS = {"R_EXPRESSION_LIST", "R_PARENTHESIZED_EXPRESSION"}


def check(R):
    R.program(*CRATES)
    R.guard(lambda: rewrite(R), "C34.rewrite", "binary expressions")
    R.guard(lambda: position(R), "C34.position", SAFE)
    R.guard(lambda: elsewhere(R), "C34.elsewhere", "formatting rules")


# ------------------------------------------------------------------ what is written
def styles(conds):
    """the assignment styles a path is for, {None} when it does not ask"""
    out = None
    for t, c in conds.items():
        if c[0] == "v" and set(c[2] if len(c) > 2 else c[1]) >= {"Arrow", "Equal", "Preserve"}:
            out = set(c[1]) if out is None else out & set(c[1])
    return {"Arrow", "Equal", "Preserve"} if out is None else out


def kinds(conds, opr, every):
    for t, c in conds.items():
        if c[0] == "v" and op_(t) == "SyntaxToken::kind" and norm(args(t)[0]) == opr:
            every = every & set(c[1])
    return every


def safe(conds, node):
    for t, c in conds.items():
        if c[0] == "b" and op_(t).endswith("::can_normalize_to_equal"):
            if norm(args(t)[0]) != node:
                return None
            return set(c[1])
    return {True, False}


def text_of(a):
    ss = {t.a[0] for t in subterms(a[2]) if t.tag == "str"}
    return ss.pop() if len(ss) == 1 else None


def rewrite(R):
    rule, P = "C34.rewrite", R.prog
    ty, path = next(((s, p) for n, (s, p) in rules(P).items() if n.endswith("::RBinaryExpression")), (None, None))
    if path is None:
        return R.undecided(rule, "RBinaryExpression", "no formatting rule found")
    R.fn(path)
    where = R.where(path)
    every = {v["name"] for v in P.adts[SYNTAX[:-len("nodes::")] + "kind::RSyntaxKind"]["variants"]} if SYNTAX.endswith("nodes::") else None
    E = Emit(R, tuple(x for x in STOPS if "left_assignment" not in x))
    node = mk("arg", "node")
    opr = norm(mk("call", "RBinaryExpression::operator", (node,)))
    cells, bad = {}, {}
    n = 0
    for conds, atoms in E.run(path, "self node f"):
        if any(a[0] == "verbatim" for a in atoms):
            continue
        n += 1
        own = [i for i, a in enumerate(atoms) if a[0] == "part" and norm(a[1]) == opr]
        for i, a in enumerate(atoms):
            if "replaced" in a[2:3] and i not in own and not kept(a, atoms):
                bad.setdefault(f"replaces {show(a[1])[:100]}", conds)
        if len(own) != 1:
            if not own and not any(a[0] == "each" for a in atoms):
                bad.setdefault(("?", "a path which writes no operator"), conds)
            if not own:
                how = "as written" if not any(replaced(a) for a in atoms) else None
                if how is None:
                    bad.setdefault("replaces operators of a chain", conds)
                    continue
            else:
                bad.setdefault(("?", "writes the operator more than once"), conds)
                continue
        else:
            a = atoms[own[0]]
            if a[2] == "formatted":
                how = "as written"
            elif a[2] == "replaced" and own[0] + 1 < len(atoms) and atoms[own[0] + 1][0] == "as":
                how = "as written" if kept(a, atoms) else text_of(atoms[own[0] + 1])
            else:
                how = None
        s = safe(conds, node)
        if s is None:
            bad.setdefault("asks whether another node may be rewritten", conds)
            continue
        if how is None:
            bad.setdefault(("?", "the text of the operator"), conds)
            continue
        for st in styles(conds):
            for k in kinds(conds, opr, every):
                for sf in s:
                    cells.setdefault((st, k, sf), set()).add(how)
    if not n:
        return R.undecided(rule, where, "no successful path")
    for why, conds in bad.items():
        if isinstance(why, tuple):
            R.undecided(rule, where, why[1])
        else:
            R.violated(rule, where, f"{why}, when {show_conds(conds)[-200:]}")
    for st in ("Arrow", "Equal", "Preserve"):
        for group in ("EQUAL", "ASSIGN", None):
            wrong, seen = {}, 0
            for (s2, k, sf), how in sorted(cells.items()):
                if s2 != st or (k if k in ("EQUAL", "ASSIGN") else None) != group:
                    continue
                seen += 1
                want = "<-" if (st, k) == ("Arrow", "EQUAL") else "=" if (st, k) == ("Equal", "ASSIGN") and sf else "as written"
                if how != {want}:
                    wrong.setdefault((k, sf), (how, want))
            nm = {"EQUAL": "`=`", "ASSIGN": "`<-`"}.get(group, "other operators")
            w = f"{where}: style {st.lower()}, {nm}"
            if wrong:
                (k, sf), (how, want) = next(iter(wrong.items()))
                R.violated(rule, w, f"{k} {'where' if sf else 'not where'} `=` may stand is written {' or '.join(sorted(how))}, expected {want}")
            elif not seen:
                R.undecided(rule, w, "no path found")
            else:
                R.proved(rule, w, f"{seen} cases agree with the table")


def replaced(a):
    """does a (nested) atom replace anything"""
    if isinstance(a, (list, tuple)):
        if len(a) >= 3 and a[0] == "part" and a[2] == "replaced":
            return True
        return any(replaced(x) for x in a if isinstance(x, (list, tuple)))
    return False


# ------------------------------------------------------------------ where `=` may stand
def position(R):
    rule, P = "C34.position", R.prog
    R.fn(SAFE)
    where = R.where(SAFE)
    I = R.interp()
    I.kinds = True

    def opaque(p, res):
        if p == SAFE:
            return True
        for x in (p, res):
            if x and (x.startswith("air_r_syntax::") or x.startswith("<air_r_syntax::")):
                n = x.split("::")[-1]
                if n in ("can_cast", "cast") or n in ("syntax", "into_syntax") and "AnyR" not in x:
                    continue
                return True
        return False

    I.opaque_fn = opaque
    I.reads = lambda sh, info: bool(info) and info["krate"] in ("biome_rowan", "air_r_syntax") or sh.endswith("::can_normalize_to_equal")
    outs = R.summary(SAFE, ["node"], I)
    if I.panics:
        R.violated(rule, where, "may panic")
    adt_kind = P.adts["air_r_syntax::generated::kind::RSyntaxKind"]
    every = [v["name"] for v in adt_kind["variants"]]
    cells = {}
    for s, v in outs:
        conds = dict(s.conds)
        pk = set(every) | {None}
        rest = {}
        parent = None
        for t, c in conds.items():
            o = op_(t)
            if o == "SyntaxNode::parent" and c[0] == "v" and own(args(t)[0]):
                if set(c[1]) == {"None"}:
                    pk &= {None}
                elif set(c[1]) == {"Some"}:
                    pk -= {None}
            elif o == "SyntaxNode::kind" and c[0] == "v" and up(args(t)[0]):
                pk &= set(c[1])
            else:
                rest[t] = c
        for k in pk:
            cells.setdefault(k, []).append((rest, v))
    missing = set(every) - set(cells)
    if missing or None not in cells:
        return R.undecided(rule, where, f"no path for parents of kind {', '.join(sorted(map(str, missing)))[:100]}")
    groups = {}
    for k in [None] + every:
        want, why = expected(k)
        got = set()
        for rest, v in cells[k]:
            got.add(classify(rest, v, k))
        groups.setdefault((want, frozenset(got), BODIES.get(k)), []).append(k)
    for (want, got, _), ks in groups.items():
        nm = "no parent" if ks == [None] else ", ".join(str(k) for k in ks[:4]) + (f" and {len(ks) - 4} more" if len(ks) > 4 else "")
        w = f"{where}: below {nm}"
        unk = [g for g in got if g[0] == "?"]
        if unk:
            R.undecided(rule, w, unk[0][1][:200])
        elif ok(want, got, ks[0]):
            R.proved(rule, w, want)
        else:
            R.violated(rule, w, f"answers {'; '.join(sorted(g[0] + (' when ' + g[1] if g[1] else '') for g in got))[:300]}; expected: {want}")


def own(t):
    t = peel(t)
    return t.tag == "fld" and t.a[0].tag == "arg" or t.tag in ("call", "ecall") and op_(t).endswith("::syntax") and args(t)[0].tag == "arg" or t.tag == "arg"


def up(t):
    t = peel(t)
    return op_(t) == "SyntaxNode::parent" and own(args(t)[0])


def lifted(t, ty):
    """the parent seen as a node of a type"""
    t = peel(t)
    return t.tag == "adt" and t.a[0].split("::")[-1] == ty and up(args_of(t)[0])


def args_of(t):
    return t.a[2]


def expected(k):
    if k in ALWAYS:
        return "yes", None
    if k == "R_UNARY_EXPRESSION":
        return "yes below `?`", None
    if k == "R_BINARY_EXPRESSION":
        return "as the parent, below `<-`, `=` and `?`", None
    if k in BODIES:
        return f"yes as the {BODIES[k][1]}", None
    return "no", None


def classify(rest, v, k):
    """(answer, condition) of one path below a parent of kind k"""
    answer = {mk("int", 1): "yes", mk("int", 0): "no"}.get(v)
    if v.tag == "int":
        answer = "yes" if v.a[0] else "no"
    elif op_(v).endswith("::can_normalize_to_equal"):
        answer = "as the parent" if lifted(args(v)[0], "RBinaryExpression") else None
    conds = []
    same = None
    for t, c in rest.items():
        o = op_(t)
        if c[0] == "v" and o.endswith("::operator") and lifted(args(t)[0], o.split("::")[0]):
            if set(c[1]) == {"Err"}:
                return "missing", ""
        elif c[0] == "v" and o == "SyntaxToken::kind" and op_(peel(args(t)[0])).endswith("::operator") and lifted(args(peel(args(t)[0]))[0], op_(peel(args(t)[0])).split("::")[0]):
            conds.append(("operator", frozenset(c[1])))
        elif c[0] == "v" and o.count("::") == 1 and set(c[1]) < {"Ok", "Err"} and len(args(t)) == 1 and lifted(args(t)[0], o.split("::")[0]):
            if set(c[1]) == {"Err"}:
                return "missing", ""
        elif c[0] == "b" and (same := is_field(t)) and set(c[1]) != {True, False}:
            conds.append((same, frozenset(c[1])))
        else:
            return "?", f"depends on {show(t)[:150]}"
    if answer is None:
        bt = is_field(v)
        if bt:
            return ("field " + bt, "")
        return "?", f"answers {show(v)[:150]}"
    return answer, "; ".join(f"{n} is {'|'.join(sorted(map(str, c))) if len(c) < 6 else f'one of {len(c)}'}" for n, c in conds)


def is_field(t):
    """`eq(this node, field of the parent)`: the field's name"""
    if op_(t) not in ("eq", "PartialEq::eq") or len(args(t)) != 2:
        return None
    a, b = args(t)
    if not own(a):
        a, b = b, a
    if not own(a):
        return None
    b = peel(b)
    while op_(b).endswith("::syntax") or b.tag in ("payload", "pay"):
        b = peel(args(b)[0] if op_(b).endswith("::syntax") else b.a[0])
    o = op_(b)
    if o.count("::") != 1 or not lifted(args(b)[0], o.split("::")[0]):
        return None
    return o


def ok(want, got, k):
    got = {g for g in got if g[0] != "missing"}
    if want in ("yes", "no"):
        return got == {(want, "")}
    if want == "yes below `?`":
        yes = {c for a, c in got if a == "yes"}
        return yes == {"operator is WAT"} and all(a == "no" and "WAT" not in c.split("is ")[-1].split("|") for a, c in got if a != "yes")
    if want.startswith("as the parent"):
        yes = {c for a, c in got if a == "as the parent"}
        ops = {x for c in yes for x in c.split("is ")[-1].split("|")}
        return ops == {"ASSIGN", "EQUAL", "WAT"} and all(c.startswith("operator is ") for c in yes) and all(a == "no" for a, c in got if a != "as the parent") and \
            all(not ({"ASSIGN", "EQUAL", "WAT"} & set(c.split("is ")[-1].split("|"))) for a, c in got if a == "no")
    f = "::".join(BODIES[k])
    return got in ({("yes", f"{f} is True"), ("no", f"{f} is False")}, {("field " + f, "")})


# ------------------------------------------------------------------ the other rules
def elsewhere(R):
    rule, P = "C34.elsewhere", R.prog
    E = Emit(R, STOPS)
    for node, (ty, path) in sorted(rules(P).items()):
        if node.endswith("::RBinaryExpression"):
            continue

        def one(path=path, node=node):
            R.fn(path)
            bad, n = {}, 0
            for conds, atoms in E.run(path, "self node f"):
                n += 1
                for a in atoms:
                    if a[0] == "part" and a[2] == "replaced" and not kept(a, atoms):
                        bad.setdefault(f"replaces {show(a[1])[:100]} by other text", conds)
                    elif a[0] != "part" and replaced(a):
                        bad.setdefault(f"replaces a token in {show_atom(a)[:100]}", conds)
            w = R.where(path) + f": {node.split('::')[-1]}"
            for why, conds in bad.items():
                R.violated(rule, w, why)
            if not bad:
                R.proved(rule, w, f"every token is written as it is, on {n} paths")
        R.guard(one, rule, node.split("::")[-1])
