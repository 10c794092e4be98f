"""C33: no comment is dropped."""
from terms import *
from cases import *
import emit
import c19
import c32
from emit import Emit, norm, op_, peel, show_atom, CRATES, SYNTAX
from c32 import rules, accessor, settle

LEVEL = "proof"
TECHNIQUE = "emission summaries over MIR of every formatting rule and of the steps around it, obligations per node on the comments written; result summaries of every comment placement handler"
EXPLANATION = ("The gate every node goes through is summarised: a node which is not suppressed has its leading comments, fields, dangling comments and trailing comments written, each once and in this order, and the default steps write exactly the comments of that node. Where a rule replaces a step by nothing, "
               "every successful path of its fields must write those comments itself, or have established that there are none; where a rule writes parts of another node by hand (curly-curly, operator chains) it must write that node's comments too. "
               "Every result of every placement handler is enumerated: the comment handed in, left to the default or attached to a node, and dangling only where that node's rule writes dangling comments.")
NOTE = "biome_formatter's default placement and its comment printing are taken as given, as is the assertion it makes in debug builds that every comment was written; comments in tables are covered only for the calls that fall back"
GATE = ("fmt_leading_comments", "fmt_fields", "fmt_dangling_comments", "fmt_trailing_comments")
KINDS = ("leading", "dangling", "trailing")
COMMENTS = "air_r_formatter::comments::"


def check(R):
    P = R.program(*CRATES)
    rs = rules(P)
    E = Emit(R, c32.STOPS)
    R.guard(lambda: gate(R), "C33.gate", c19.TRAIT + "::fmt")
    R.guard(lambda: defaults(R, E), "C33.steps", "default steps")
    over = overridden(R, E)
    for node, (st, path) in sorted(rs.items()):
        R.guard(lambda: fields(R, E, node, st, path, over), "C33.fields", node)
    R.floor("C33.fields", "formatting rules", len(rs), 30)
    R.guard(lambda: text(R, E), "C33.text", "FormatRLeadingComment::fmt")
    R.guard(lambda: places(R, over), "C33.place", "placement handlers")


# ------------------------------------------------------------------ gate
def gate(R):
    rule, P = "C33.gate", R.prog
    for path in [c19.TRAIT + "::fmt"] + [p for _, _, p in P.trait_impl.get((c19.TRAIT, "fmt"), ())]:
        R.fn(path)
        I = R.interp()
        I.opaque_fn = lambda p, res: any(x and "FormatNodeRule" in x and x.split("::")[-1] in c19.STEPS for x in (p, res))
        bad, n = {}, 0
        for s, v in R.summary(path, ["self", "node", "f"], I):
            if v.tag == "adt" and v.a[1] == "Err":
                continue
            conds = dict(s.conds)
            if any(op_(t).endswith("::is_suppressed") and c == ("b", frozenset({True})) or op_(t).endswith("::is_suppressed") and c[0] == "b" and set(c[1]) == {True} for t, c in conds.items()):
                continue  # C19
            n += 1
            names = []
            for e in s.eff:
                if e.tag != "eff":
                    bad.setdefault(("?", "writes comments in a way which is not understood"), conds)
                    continue
                x = e.a[0].split("::")[-1]
                if x in GATE:
                    names.append(x)
                    if len(e.a[1]) < 2 or e.a[1][1] != mk("arg", "node"):
                        bad.setdefault(f"{x} is given another node", conds)
            res = failed(names, s, v)
            if tuple(names) != GATE and not res:
                missing = [x for x in GATE if x not in names]
                bad.setdefault(f"leaves out {', '.join(missing)}" if missing else f"writes {', '.join(names)}", conds)
        settle(R, rule, R.where(path), bad, n, "leading comments, fields, dangling and trailing comments of the node, in this order")


def failed(names, s, v):
    """the step this path ends with has failed"""
    return v.tag == "adt" and v.a[1] == "Err"


# ------------------------------------------------------------------ steps
def only_comments(atoms):
    return [a for a in atoms if a[0] == "comments"], [a for a in atoms if a[0] not in ("comments", "lit")]


def owner(a):
    """node whose comments these are"""
    return norm(a[2])


def defaults(R, E):
    rule = "C33.steps"
    for kind in KINDS:
        path = f"{c19.TRAIT}::fmt_{kind}_comments"
        R.fn(path)
        bad, n = {}, 0
        for conds, atoms in E.run(path, "self node f"):
            n += 1
            mine, other = only_comments(atoms)
            if other:
                bad.setdefault(("?", f"writes {show_atom(other[0])[:80]}"), conds)
            elif len(mine) != 1:
                bad.setdefault(f"writes the {kind} comments {len(mine)} times", conds)
            elif mine[0][1] != kind:
                bad.setdefault(f"writes the {mine[0][1]} comments", conds)
            elif owner(mine[0]) != mk("arg", "node"):
                bad.setdefault(f"writes the comments of {show(owner(mine[0]))[:60]}", conds)
        settle(R, rule, R.where(path), bad, n, f"writes the {kind} comments of the node")


def overridden(R, E):
    """{(rule type, kind): "never" | "always" | None} for steps a rule replaces"""
    out = {}
    for kind in KINDS:
        for st, ref, path in R.prog.trait_impl.get((c19.TRAIT, f"fmt_{kind}_comments"), ()):
            R.fn(path)
            how = set()
            for conds, atoms in E.run(path, "self node f"):
                mine, other = only_comments(atoms)
                if other:
                    how.add(None)
                elif not mine:
                    how.add("never")
                elif len(mine) == 1 and mine[0][1] == kind and owner(mine[0]) == mk("arg", "node"):
                    how.add("always")
                else:
                    how.add("wrong")
            what = how.pop() if len(how) == 1 else None
            where = R.where(path)
            if what == "wrong":
                R.violated("C33.steps", where, f"fmt_{kind}_comments writes other comments")
            elif what is None:
                R.undecided("C33.steps", where, f"fmt_{kind}_comments writes the comments on some paths only")
            else:
                R.proved("C33.steps", where, f"{what} writes the {kind} comments" + (", which its fields have to" if what == "never" else ""))
            out[st, kind] = what
    return out


# ------------------------------------------------------------------ fields
def deep(atoms):
    """all atoms, those written in loops included, with how often: [(atom, in loop)]"""
    for a in atoms:
        yield a, False
        if a[0] == "each":
            for _, xs in a[4]:
                for b, _ in deep(xs):
                    yield b, True


def of(t):
    """the node whose syntax this is"""
    t = peel(t)
    while op_(t).split("::")[-1] in ("syntax", "into_syntax"):
        t = peel(args(t)[0])
    if t.tag == "fld" and t.a[1] == "syntax":
        t = t.a[0]
    return norm(t)


def none_left(conds, node, kind):
    """does the path know that node has no comments of this kind"""
    for t, c in conds.items():
        if c[0] != "b":
            continue
        op, a = op_(t), args(t) if t.tag in ("call", "ecall") else ()
        v = set(c[1])
        if op.endswith(f"::has_{kind}_comments") and v == {False} and of(a[-1]) == node:
            return True
        if op.endswith("::has_comments") and v == {False} and of(a[-1]) == node:
            return True
        if op.endswith("::is_empty") and op_(peel(a[0])).endswith(f"::{kind}_comments") and v == {True} and of(args(peel(a[0]))[-1]) == node:
            return True
        if kind == "dangling" and op.endswith("::is_empty") and v == {False}:
            got = accessor(a[0])
            if got and norm(got[2]) == node:
                return True  # a comment next to an element is not dangling
    return False


def lone(conds, B):
    """B is the only element of its list"""
    return op_(B).endswith("AstNodeList::first")


def fields(R, E, node, st, path, over):
    rule = "C33.fields"
    P = R.prog
    ty = node.split("::")[-1]
    R.fn(path)
    base = mk("arg", "node")
    bad, n = {}, 0
    owed = {k for k in KINDS if over.get((st, k)) == "never"}
    unknown = {k for k in KINDS if (st, k) in over and over[st, k] is None}
    for conds, atoms in E.run(path, "self node f"):
        n += 1
        body = [a for a in atoms if a[0] != "comments"]
        if body and all(a[0] == "verbatim" and a[1] == base or c32.is_eff(a, "fmt_table") for a in body):
            continue
        mine, whole, parts = {}, set(), set()
        for a, looped in deep(atoms):
            if a[0] == "comments":
                x = owner(a)
                mine.setdefault((x, a[1]), []).append(looped)
            elif a[0] in ("part", "fmt", "as", "verbatim"):
                t = norm(a[1])
                got = accessor(t)
                if got and norm(got[2]) != base:
                    parts.add(norm(got[2]))
                whole.add(t)
        for k in KINDS:
            times = len(mine.pop((base, k), ()))
            if k in unknown:
                continue
            if k in owed:
                if times > 1:
                    bad.setdefault(f"writes its {k} comments twice", conds)
                if not times and not none_left(conds, base, k):
                    bad.setdefault(f"leaves out its {k} comments", conds)
            elif times:
                bad.setdefault(f"writes its {k} comments, which are written again after it", conds)
        # parts of a node which is not put through its own rule
        for B in sorted(parts, key=show):
            if not within(B, base):
                continue
            if B in whole:
                bad.setdefault(("?", f"writes {show(B)[:60]} and parts of it"), conds)
                continue
            for k in KINDS:
                times = len(mine.pop((B, k), ()))
                if times > 1:
                    bad.setdefault(f"writes the {k} comments of {name(B)} twice", conds)
                if not times and not none_left(conds, B, k) and not (k == "dangling" and known_filled(conds, B)):
                    bad.setdefault(f"writes the parts of {name(B)} without its {k} comments", conds)
        if ty == "RBinaryExpression":
            for a in atoms:
                if a[0] == "each":
                    why = chain(a, mine, atoms)
                    if why:
                        bad.setdefault(why, conds)
        for (x, k), ls in mine.items():
            if x in whole:
                bad.setdefault(f"writes the {k} comments of {name(x)}, which writes them itself", conds)
            elif ty != "RBinaryExpression":
                bad.setdefault(("?", f"writes the {k} comments of {show(x)[:80]}"), conds)
    settle(R, rule, R.where(path) + f": {ty}", bad, n, "every comment of its own and of the nodes it writes by hand")


def name(B):
    return show(B).replace(SYNTAX, "")[:90]


def within(B, base):
    """reached from this node through its own parts: element of a list, operand"""
    return any(x == base for x in subterms(B))


def known_filled(conds, B):
    for t, c in conds.items():
        if op_(t).endswith("::len") and c[0] == "i" and not any(lo <= 0 <= hi for lo, hi in c[1]):
            got = accessor(args(t)[0])
            if got and norm(got[2]) == B:
                return True
    return False


# ------------------------------------------------------------------ chains
def chain(a, mine, atoms):
    """the nodes taken apart by a chain have their comments written where their right operand ends"""
    el = mk("elem", a[1], a[3])
    over = c32.root(a[1])
    while op_(over) == "reversed" or over.tag == "reversed" or over.tag == "it" and over.a[1]:
        over = c32.root(over.a[0] if over.tag == "it" else args(over)[0] if over.tag == "call" else over.a[0])
    if over.tag != "loopval":
        return ("?", f"a chain writes {show(over)[:80]}")
    loop = over.a[0]
    inits, cases = loop.a[0], loop.a[1]
    K = over.a[1]
    # who encloses a piece
    first = peel(inits[K])
    if first.tag != "arr" or len(first.a[0]) != 1:
        return ("?", f"the pieces collected start as {show(first)[:80]}")
    field = None
    want = {}
    pieces = [(peel(first.a[0][0]), None)]
    for cs, (vals, _) in cases:
        nk = dict(vals).get(K)
        if nk is None:
            continue
        nk = peel(nk)
        if nk.tag == "phi":
            continue
        item = nk.a[-1] if nk.tag == "push" else args(nk)[-1] if op_(nk) == "push" else None
        if item is None:
            return ("?", f"the pieces collected go on as {show(nk)[:80]}")
        pieces.append((peel(item), True))
    if len(pieces) < 2:
        return None
    for p, later in pieces:
        if p.tag != "adt":
            return ("?", f"a piece of the chain is {show(p)[:80]}")
        op = accessor(norm(project(p, "operator")))
        if not op:
            return ("?", f"the operator of a piece is {show(p)[:80]}")
        holder = norm(op[2])
        for f in p.a[3]:
            x = project(p, f)
            if x.tag == "adt" and x.a[1] in ("Some", "None"):
                if field is None:
                    field = f
                if f != field:
                    return ("?", "pieces of the chain keep more than one enclosing node")
                if later and x.a[1] == "None":
                    return "a node taken apart by the chain is not remembered, and its comments are lost"
                if later and norm(payload(x, "Some", 0)) != holder:
                    return f"the node remembered for its comments is {name(norm(payload(x, 'Some', 0)))}"
                if not later and x.a[1] == "Some":
                    return "the comments of the whole chain are written within it, and again after it"
    if field is None:
        return ("?", "no piece of the chain remembers the node it comes from")
    enc = norm(mk("fld", el, field))
    n = 0
    for cs, at in a[4]:
        cs = dict(cs)
        some = None
        for t, c in cs.items():
            if c[0] == "v" and norm(t) == enc:
                some = set(c[1])
        got = [x for x in at if x[0] == "comments"]
        if not any(x[0] in ("part", "fmt") for x in at):
            continue
        inner = [payload(mk("fld", el, field), "Some", 0)]
        ok = [x for x in got if x[1] == "trailing" and norm(owner(x)) in [norm(i) for i in inner]]
        if some == {"None"}:
            if got:
                return ("?", f"writes {show_atom(got[0])[:80]}")
            n += 1
            continue
        if some is None and not got:
            return "the trailing comments of the nodes a chain takes apart are not written"
        if len(ok) != 1:
            return "the trailing comments of the nodes a chain takes apart are written %s" % ("twice" if len(ok) > 1 else "nowhere")
        i = next(i for i, x in enumerate(at) if x is ok[0])
        if any(x[0] in ("part", "fmt") for x in at[i + 1:]):
            return "the trailing comments of a node taken apart are written before its end"
        n += 1
        mine.pop((owner(ok[0]), "trailing"), None)
    return None if n else ("?", "no piece of the chain is written")


# ------------------------------------------------------------------ text
def text(R, E):
    rule, P = "C33.text", R.prog
    path = next((p for (tr, nm), impls in P.trait_impl.items() if nm == "fmt" and tr.split("<")[0].endswith("FormatRule") for st, ref, p in impls if st.endswith("FormatRLeadingComment")), None)
    if path is None:
        return R.undecided(rule, "FormatRLeadingComment", "no rule found")
    R.fn(path)
    bad, n = {}, 0
    for conds, atoms in E.run(path, "self comment f"):
        n += 1
        got = [a for a in atoms if a[0] != "lit"]
        if len(got) != 1 or len(atoms) != 1:
            bad.setdefault(f"writes {'; '.join(show_atom(a)[:60] for a in atoms) or 'nothing'}", conds)
            continue
        ts = [x for x in got[0][1:] if isinstance(x, T)]
        if not any(t == mk("arg", "comment") for x in ts for t in subterms(x)):
            bad.setdefault(f"writes {show_atom(got[0])[:80]}", conds)
        elif not all(op_(t).split("::")[-1] in ("piece", "as_piece", "text", "clone", "from") for x in ts for t in subterms(x) if t.tag in ("call", "ecall")):
            bad.setdefault(("?", f"writes {show_atom(got[0])[:80]}"), conds)
    settle(R, rule, R.where(path), bad, n, "a comment is written as it stands in the source")


# ------------------------------------------------------------------ placement
def unwrap(t):
    """the node a syntax belongs to"""
    t = peel(t)
    while True:
        if t.tag == "fld" and t.a[1] == "syntax":
            t = peel(t.a[0])
        elif op_(t).split("::")[-1] in ("into_syntax", "syntax", "clone"):
            t = peel(args(t)[0])
        elif t.tag == "adt" and len(t.a[2]) == 1 and t.a[3] == ("syntax",):
            t = peel(t.a[2][0])
        elif t.tag == "fld" and t.a[1] == "0" or t.tag == "pay":
            t = peel(t.a[0])
        else:
            return t


def target(t):
    """None if a comment may be attached here, otherwise what it is"""
    t = unwrap(t)
    if t.tag == "arg":
        return None
    op = op_(t)
    last = op.split("::")[-1]
    if last in ("enclosing_node", "preceding_node", "following_node", "prev_sibling", "next_sibling", "first", "last", "first_child", "last_child"):
        return None
    if op in ("SyntaxList::node", "SyntaxList::into_node") or last == "parent" and op_(unwrap(args(t)[0])) in ("AstNodeList::first", "AstNodeList::last"):
        return "a comment is attached to a list, whose comments are never written"
    if op.startswith("R") and "::" in op:
        ty = op.split("::")[0]
        k = next((k for f, k in c32.fields(PROG, SYNTAX + ty) or () if f == last), None)
        if k is None:
            return ("?", f"a comment is attached to {show(t)[:80]}")
        if k == "list":
            return f"a comment is attached to the list {op}, whose comments are never written"
        return None
    return ("?", f"a comment is attached to {show(t)[:80]}")


def bare(t):
    """(node, its kind where it is known) of a syntax"""
    t = c19_strip(t)
    while t.tag == "fld" and t.a[1] == "syntax" or op_(t).split("::")[-1] in ("into_syntax", "syntax", "clone"):
        t = c19_strip(t.a[0] if t.tag == "fld" else args(t)[0])
    if t.tag == "pay":
        return t, t.a[1]
    if t.tag == "adt":
        return t, t.a[0].split("::")[-1]
    return t, None


def c19_strip(t):
    while t.tag in ("ref", "deref", "mref"):
        t = t.a[0]
    return t


def dangling(t, conds, over):
    y, kind = bare(t)
    if kind is None:
        return ("?", f"a comment dangles from {show(t)[:80]}")
    how = next((h for (st, k), h in over.items() if k == "dangling" and st.endswith("::Format" + kind)), "always")
    if how == "always":
        return None
    # its rule writes dangling comments only where it holds nothing
    for c, v in conds.items():
        if v[0] == "v" and set(v[1]) == {"None"} and op_(c).split("::")[-1] in ("first", "last"):
            got = accessor(args(c)[0])
            if got and norm(got[2]) == norm(y):
                return None
        if v[0] == "b" and set(v[1]) == {True} and op_(c).endswith("::is_empty"):
            got = accessor(args(c)[0])
            if got and norm(got[2]) == norm(y):
                return None
    return f"a comment dangles from a {kind} which may hold something, where it is not written"


def places(R, over):
    global PROG
    rule = "C33.place"
    P = PROG = R.prog
    fns = [p for p in P.fns if p.startswith(COMMENTS) and "closure" not in p and "CommentPlacement" in str(P.fns[p]["body"]["locals"][0])]
    style = [p for st, ref, p in [i for (tr, nm), impls in P.trait_impl.items() if nm == "place_comment" for i in impls]]
    R.floor(rule, "placement handlers", len(fns), 5)
    R.floor(rule, "comment styles", len(style), 1)
    for fn in sorted(set(fns) | set(style)):
        R.guard(lambda: place(R, rule, fn, over, fn in style), rule, fn)


def place(R, rule, fn, over, top):
    P = R.prog
    R.fn(fn)
    n = P.fns[fn]["body"]["argc"]
    tys = [str(x) for x in P.fns[fn]["body"]["locals"][1:n + 1]]
    names = ["comment" if "DecoratedComment" in t else f"x{i}" for i, t in enumerate(tys)]
    I = c19.interp(R)
    handlers = [p for p in P.fns if p.startswith(COMMENTS) and "closure" not in p and "CommentPlacement" in str(P.fns[p]["body"]["locals"][0])]
    comment = mk("arg", "comment")
    bad, cnt = {}, 0
    for s, v in R.summary(fn, names, I):
        cnt += 1
        conds = dict(s.conds)
        if s.eff:
            bad.setdefault(("?", f"also does {show(s.eff[0])[:80]}"), conds)
        v = peel(v)
        while op_(v).endswith("::or_else"):
            f = args(v)[1]
            if f.tag == "fn" and not any(str(f.a[0]).endswith(p) for p in handlers):
                bad.setdefault(("?", f"goes on with {show(f)[:80]}"), conds)
            elif f.tag != "fn":
                bad.setdefault(("?", f"goes on with {show(f)[:80]}"), conds)
            v = peel(args(v)[0])
        if v.tag == "adt" and v.a[1] == "Default":
            if norm(v.a[2][0]) != comment:
                bad.setdefault("another comment is left to the default placement", conds)
            continue
        if v.tag == "adt" and v.a[1] in ("Leading", "Trailing", "Dangling"):
            kind, a = v.a[1].lower(), [project(v, f) for f in v.a[3]]
        else:
            kind, a = op_(v).split("::")[-1], list(args(v)) if v.tag in ("call", "ecall") else []
        if kind not in KINDS or len(a) != 2:
            bad.setdefault(("?", f"returns {show(v)[:100]}"), conds)
            continue
        if not any(t == comment for t in subterms(a[1])) or unwrap(a[1]) != comment and op_(unwrap(a[1])).split("::")[-1] not in ("into", "from"):
            bad.setdefault(f"places {show(a[1])[:60]} for the comment", conds)
        why = target(a[0])
        if not why and kind == "dangling":
            why = dangling(a[0], conds, over)
        if why:
            bad.setdefault(why, conds)
    for pn in I.panics:
        conds = dict(pn[0].conds)
        if not same_line(conds):
            bad.setdefault("gives up (panics) on a comment which may occur", conds)
    settle(R, rule, R.where(fn), bad, cnt, "each result places the comment handed in at a node which writes it")


def same_line(conds):
    return any(c[0] == "v" and set(c[1]) == {"SameLine"} for t, c in conds.items())
