"""C20: carriage returns of the source never reach the printer."""
from terms import *
from cases import *
import flow, lang, mir, words as W
from report import Missing, NoFacts
import c62

LEVEL = "proof"
TECHNIQUE = "taint-style dataflow over MIR (definition chains and path summaries) from source text to the printer's text sinks and to the editor's documents, with the line ending normaliser as the only sanitiser; the normaliser itself decided by C62's loop and language analyses"
EXPLANATION = ("Every call that hands a text which is not a fixed word to the printer, and every write to the text of an open document, is enumerated; the text's origins are followed through copies, views, matches and helper functions. "
               "A text is clean when it is the result of the normaliser, is known to hold no \\r\\n (the test for it is decided as a regular language), or holds no line feed at all. "
               "The normaliser's own code is decided too: its detection as an automaton, its loop by affine forms.")
NORM, INFER, REF = c62.NORM, c62.INFER, c62.REF
CLEAN = (NORM, REF)
SINKS = ("builders::dynamic_text", "builders::syntax_token_cow_slice", "builders::located_token_text")
RAW = ("SyntaxToken::text", "SyntaxToken::text_trimmed", "SyntaxNode::text_with_trivia", "SyntaxNode::text", "SyntaxNode::text_trimmed", "SyntaxTriviaPiece::text", "SyntaxTriviaPieceComments::text")


def view(t):
    """the text t is a view or copy of"""
    while True:
        o = t.a[0] if t.tag in ("ecall", "call") and isinstance(t.a[0], str) else ""
        a = t.a[1] if t.tag in ("ecall", "call") and len(t.a) > 1 else ()
        if t.tag == "adt" and t.a[1] in ("Borrowed", "Owned"):
            t = t.a[2][0]
        elif t.tag == "pay" and t.a[1] in ("Borrowed", "Owned"):
            t = t.a[0]
        elif a and (o.startswith(("From<", "Into<")) or o.split("::")[-1] in ("into_owned", "as_str", "to_string", "to_owned", "as_ref", "clone", "deref", "borrow", "into_boxed_str", "into_string")):
            t = a[-1]
        elif t.tag == "cat" and len(t.a[0]) == 1 and isinstance(t.a[0][0], T):
            t = t.a[0][0]
        elif op(t) == "display" or t.tag == "display":
            t = args(t)[0] if op(t) else t.a[0]
        else:
            return t


def part(t):
    """the text t is a piece of"""
    t = view(t)
    if op(t) in ("str::trim", "str::trim_start", "str::trim_end", "str::trim_end_matches", "str::trim_start_matches", "index"):
        return args(t)[0]
    return None


def clean(t, conds, R):
    """True / False / None: t holds no \\r\\n"""
    t = view(t)
    if t.tag == "str":
        return "\r" not in t.a[0]
    if t.tag in ("ecall", "call") and t.a[0] in CLEAN:
        return True
    if op(t) == "str::repeat":
        return clean(args(t)[0], conds, R)
    if op(t) == "str::replace" and args(t)[1].tag == "str" and args(t)[2].tag == "str":
        return args(t)[1].a[0] == "\r\n" and "\r" not in args(t)[2].a[0] or None
    if t.tag == "ite":
        rs = [clean(v, dict(c), R) if not isinstance(c, dict) else clean(v, c, R) for c, v in t.a[0]]
        return False if False in rs else None if None in rs else True
    for u, c in conds.items():
        if u.tag == "eq" and c[0] == "b" and len(c[1]) == 1:
            for a, b in (u.a, u.a[::-1]):
                if a.tag in ("ecall", "call") and a.a[0] == INFER and view(a.a[1][0]) is t and b.tag == "adt" and (b.a[1] == "Lf") == truth(conds, u):
                    return True
        a = args(u) if op(u) else u.a[1] if u.tag == "ecall" else ()
        if a and any(isinstance(b, T) and view(b) is t for b in a):
            n = u.a[0]
            if n == INFER and isvar(conds, u, "Lf"):
                return True
            if n == "str::contains" and truth(conds, u) is False and args(u)[1].tag in ("str", "int") and args(u)[1].a[0] in ("\r\n", "\r", "\n", 13, 10):
                return True
            if n == "Finder::find" and isvar(conds, u, "None") and c62.is_needle(args(u)[0]):
                return True
    p = part(t)
    if p is not None:
        return clean(p, conds, R) or None
    if t.tag in ("ecall", "call") and t.a[0] in RAW:
        # of the tokens, only string contents hold line ends
        if t.a[0].startswith("SyntaxToken") and not any(u.tag in ("ecall", "call") and u.a[0] == "SyntaxToken::kind" and c[0] == "v" and c[1] == frozenset(("STRING_CONTENT",)) for u, c in conds.items()):
            return None
        return False
    return None


OPAQUE = (NORM, INFER, REF)


def sinks(R):
    n = 0
    done = set()
    todo = []
    for name in SINKS:
        for p, b, ops, span in mir.sites(R.prog, name):
            n += 1
            todo.append((p, name, ops, span))
    for p, name, ops, span in todo:
        f = R.prog.fn(p)
        R.saw(f)
        where = f"{R.where(p)}: {name.split('::')[-1]}"
        origins(R, where, p, ops[0], name)
    R.floor("C20.sink", "texts given to the printer", n, 4)


def by_summary(R, where, p, name):
    """decide the sink calls named name in p by its path summaries"""
    try:
        I = R.interp(opaque=OPAQUE)
        outs = R.summary(p, None, I)
    except flow.Unanalysable as e:
        R.undecided("C20.sink", where, str(e))
        return
    verdicts = []
    for s, v in outs:
        for e in s.eff:
            for u in subterms(e):
                if u.tag == "eff" and u.a[0] == name:
                    verdicts.append((clean(u.a[1][0], s.conds, R), u.a[1][0], s.conds))
    if not verdicts:
        R.undecided("C20.sink", where, "the call is not in the function's summary")
        return
    bad = [x for x in verdicts if x[0] is False]
    unk = [x for x in verdicts if x[0] is None]
    if bad:
        R.violated("C20.sink", where, f"in the case [{show_conds(bad[0][2])[:300]}] the source text {show(bad[0][1])[:200]} is printed without normalising its line endings")
    elif unk:
        R.undecided("C20.sink", where, f"{show(unk[0][1])[:300]} in the case [{show_conds(unk[0][2])[:300]}]")
    else:
        R.proved("C20.sink", where, f"{len(verdicts)} paths")


def origins(R, where, p, operand, name, depth=0):
    f = R.prog.fn(p)
    os = mir.origins(f, operand)
    res = []
    for o in os:
        if o[0] == "const":
            res.append("\r" not in o[1])
        elif o[0] == "call" and o[1] in CLEAN:
            res.append(True)
        elif o[0] == "field":
            res.append(field(R, where, o))
        elif o[0] == "call" and o[1] and o[1].endswith("<impl str>::repeat"):
            fam = [t for b in f["body"]["blocks"] for t in [b[2]] if t[0] == "call" and t[1][0] == "k" and t[1][1].get("path") == o[1]]
            ok = all(mir.origins(f, t[2][0]) and all(x[0] == "const" and "\r" not in x[1] for x in mir.origins(f, t[2][0])) for t in fam)
            res.append(True if ok else None)
        else:
            res.append("?")
    if res and all(r is True for r in res):
        R.proved("C20.sink", where, "origins: " + ", ".join(str(o[1]) for o in sorted(os, key=str)))
    elif any(r == "?" for r in res):
        by_summary(R, where, p, name)
    elif None in res:
        R.undecided("C20.sink", where, "origins: " + str(sorted(os, key=str))[:400])
    # False: reported by field()


def field(R, where, o):
    """a text stored in a field: every place which makes the value must store a clean text"""
    ty = o[1].replace("&", "").replace("mut ", "").strip()
    ty = flow.strip_generics(ty)
    path = o[2]
    variant = path[0][1] if path and path[0][0] == "v" else None
    fld = path[-1][1]
    if R.prog.adt(ty) is None:
        return None
    makers = [p for p, f in R.prog.fns.items() if mir.builds(f, ty) and " as core::clone::Clone>" not in p]
    worst = True
    for m in sorted(makers):
        I = R.interp(opaque=OPAQUE)
        try:
            outs = R.summary(m, None, I)
        except flow.Unanalysable:
            return None
        for s, v in outs:
            for u in [w for t in [v] for w in subterms(t)]:
                if u.tag == "adt" and u.a[0] == ty and (variant is None or u.a[1] == variant):
                    x = payload(u, variant, int(fld)) if str(fld).isdigit() else project(u, fld) if variant is None else payload(u, variant, fld)
                    c = clean(x, s.conds, R)
                    if c is False:
                        R.violated("C20.sink", f"{where}: {m}", f"stores the source text {show(x)[:200]} in `{fld}` without normalising its line endings, and it is printed")
                        return False
                    if c is None:
                        worst = None
    return worst if makers else None


def document(R):
    """an opened document: its text, line index and parse are all of the normalised text"""
    fn = "lsp::documents::Document::new"
    where = R.where(fn)
    I = R.interp(opaque=OPAQUE)
    outs = R.summary(fn, None, I)
    n = 0
    for s, v in outs:
        if v.tag != "adt":
            R.undecided("C20.document", where, show(v)[:200])
            continue
        t = project(v, "contents")
        c = clean(t, s.conds, R)
        raw = view(t).tag == "arg" and view(t) is view(t)
        if c is None and raw and not any(u.tag in ("ecall", "call") and u.a[0] == INFER for w in s.conds for u in subterms(w)) and not any(view(t) in subterms(w) for w in s.conds):
            c = False
        if c is None and any(isvar(s.conds, u, "Crlf") and u.tag == "ecall" and u.a[0] == INFER for u in s.conds) and raw:
            c = False
        n += 1
        R.check(c, "C20.document", f"{where}: contents", f"in the case [{show_conds(s.conds)[:200]}] the document's text is {show(t)[:200]}")
        # index and parse use that text
        for e in s.eff:
            if e.tag == "eff" and e.a[0] in ("LineIndex::new", "parse::parse"):
                a = view(e.a[1][0])
                R.check(True if a is view(t) else False if view(a).tag == "arg" and view(t).tag == "ecall" else None, "C20.document", f"{where}: {e.a[0]}", f"is given {show(a)[:200]}, the document's text is {show(t)[:200]}")
    R.floor("C20.document", "ways to open a document", n, 1)
    makers = [p for p, f in R.prog.fns.items() if mir.builds(f, "lsp::documents::Document") and p != fn and "Clone" not in p]
    for m in makers:
        R.undecided("C20.document", R.where(m), "also makes documents")


WRITES = ("String::replace_range", "String::push_str", "String::insert_str")


def edits(R):
    """text received from the editor is normalised before it is written to the document"""
    fns = [p for p in R.prog.fns if p.startswith("aether_lsp_utils::proto::from_proto::") and "test" not in p]
    n = 0
    for p in sorted(fns):
        f = R.prog.fn(p)
        guarded = any(True for q, *_ in mir.calls(f) if q == INFER)
        for b in f["body"]["blocks"]:
            t = b[2]
            if t[0] == "call" and t[1][0] == "k" and t[1][1].get("k") == "fn":
                q = t[1][1]["path"]
                if any(q.endswith(w) for w in WRITES):
                    tgt = mir.origins(f, t[2][0])
                    if not all(o[0] == "arg" for o in tgt):
                        continue
                    n += 1
                    verdict(R, f"{R.where(p)}: {q.split('::')[-1]}", mir.origins(f, t[2][-1]), guarded)
            for s in b[1]:
                d = s[0]
                if isinstance(d, list) and len(d) == 2 and d[1] == "*" and 1 <= d[0] <= f["body"]["argc"] and "String" in f["body"]["locals"][d[0]][0]:
                    r = s[1]
                    if r[0] == "use":
                        n += 1
                        verdict(R, f"{R.where(p)}: the whole text", mir.origins(f, r[1]), guarded)
            if t[0] == "call":
                d = t[3]
                if isinstance(d, list) and len(d) == 2 and d[1] == "*" and 1 <= d[0] <= f["body"]["argc"] and "String" in f["body"]["locals"][d[0]][0]:
                    n += 1
                    q = t[1][1].get("path") if t[1][0] == "k" else None
                    os = {("call", q, len(t[2]))} if not (q and any(q.endswith(v) for v in mir.VIEWS)) else mir.origins(f, t[2][0])
                    verdict(R, f"{R.where(p)}: the whole text", os, guarded)
    R.floor("C20.edit", "writes of received text", n, 2)


def verdict(R, where, os, guarded):
    ok = bool(os) and all(o[0] == "call" and o[1] in CLEAN for o in os)
    if ok:
        R.proved("C20.edit", where, "the result of the normaliser")
        return
    raw = any(o[0] == "field" and o[2][-1][1] == "text" or o[0] == "arg" for o in os)
    R.check(False if raw and not guarded else None, "C20.edit", where, f"text comes from {sorted(os, key=str)}")


def check(R):
    c62.check(R, "C20")
    try:
        R.program("air_r_formatter", "line_ending", "settings")
        R.guard(lambda: sinks(R), "C20.sink", "air_r_formatter")
    except NoFacts:
        pass
    try:
        R.program("lsp", "line_ending")
        R.guard(lambda: document(R), "C20.document", "Document::new")
        R.program("aether_lsp_utils", "line_ending")
        R.guard(lambda: edits(R), "C20.edit", "apply_text_changes")
    except NoFacts:
        pass
