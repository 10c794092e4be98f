"""C63 The edits of a formatting request give exactly the formatted text."""
import cli
import server
from cases import *
from terms import *

LEVEL = "proof"
TECHNIQUE = "outcome summaries over MIR of the edit path, from the formatting handlers to the protocol's edits; a transition table over the chunks of the difference for the loop that builds the edits"
EXPLANATION = ("A whole-document request answers with the difference between the document's stored text and the complete formatted text (without its last line ending in a notebook cell), a range request with one replacement "
               "of the span covered by the formatted lines by their formatted text without the line ending the formatter adds. The difference is turned into edits chunk by chunk: kept text only advances the position, "
               "deleted text is deleted where it stands, inserted text is inserted there, and nothing is skipped; building, sorting and joining the edits lose nothing. Each edit carries the range and the text of its "
               "difference, in order, and its line endings are converted to the document's exactly once: text that still holds `\\r\\n` never reaches the conversion.")
NOTE = "trusts `dissimilar::diff` (chunks concatenate to both texts) and TextSize arithmetic; positions are C28, the text and options that are formatted C25/C26, the stored text's normalisation C20/C24"

HF = "lsp::handlers_format::"
TP = "aether_lsp_utils::proto::to_proto::"
TE = "aether_lsp_utils::text_edit::"
FORMAT, ALL, RANGE = "format::format_source_with_parse", "to_proto::replace_all_edit", "to_proto::replace_range_edit"
OPAQUE = ("::format_source_with_parse", "::replace_all_edit", "::replace_range_edit", "::is_document_excluded_from_formatting", "::workspace_document_settings", "::to_format_options",
          "::find_deepest_enclosing_logical_lines", "::text_non_whitespace_range", "from_proto::text_range", "::format_sub_tree", "::has_error", "::get_document_or_error")


def op_(t):
    return t.a[0] if t.tag in ("call", "ecall") else t.tag


def tail(t):
    return "::".join(op_(t).rsplit("::", 2)[-2:])


def fld(t, *ns):
    for n in ns:
        t = mk("fld", t, n)
    return t


def variant(s, t):
    c = s.conds.get(t)
    return next(iter(c[1])) if c and c[0] == "v" and len(c[1]) == 1 else None


def opaque(*names):
    return lambda p, res: any(x and x.endswith(names) for x in (p, res))


# ------------------------------------------------------------------ handlers
def handlers(R):
    for name, edit in (("document_formatting", ALL), ("document_range_formatting", RANGE)):
        fn = HF + name
        I = R.interp()
        I.opaque_fn = opaque(*OPAQUE)
        where = R.where(fn)
        n = 0
        for s, v in R.summary(fn, "params lsp_state state", I):
            if not (v.tag == "adt" and v.a[1] == "Ok"):
                continue
            o = cli.strip(payload(v, "Ok", 0))
            if o.tag == "adt" and o.a[1] == "None":
                none_ok(R, s, where)
                continue
            es = [t for t in subterms(v) if tail(t) in (ALL, RANGE) and t.tag == "ecall"]
            n += 1
            if len(es) != 1:
                R.undecided("C63.answer", where, f"answers with {show(o)[:100]}")
                continue
            e = es[0]
            good = o.tag == "adt" and o.a[1] == "Some" and cli.strip(payload(o, "Some", 0)) is payload(e, "Ok", 0)
            R.check(True if good else None, "C63.answer", where, "answers with all edits of the difference" if good else f"answers with {show(o)[:100]}")
            if edit == ALL:
                whole(R, s, where, e)
            else:
                part(R, s, where, e)
        if not n:
            R.undecided("C63.answer", where, "no outcome with edits")


def none_ok(R, s, where):
    """no edits: only when nothing was formatted or nothing changed"""
    f = [t for t in s.conds if tail(t) == FORMAT]
    for t in f:
        if variant(s, t) == "Ok" and variant(s, payload(t, "Ok", 0)) == "Changed":
            R.check(False, "C63.answer", where, "a changed document is answered with edits")


def document(R, rule, where, a, label, name):
    """is a the given field of the request's document"""
    uri = fld(mk("arg", "params"), "text_document", "uri")
    a = cli.strip(a)
    good = a.tag == "fld" and a.a[1] == name and tail(a.a[0].a[0] if a.a[0].tag in ("payload", "pay") else a.a[0]) in ("WorldState::get_document_or_error", "HashMap::get") and uri in set(subterms(a))
    same = any(u.tag == "fld" and u.a[1] == name and uri in set(subterms(u)) for u in subterms(a))
    R.check(True if good else (None if same or unknown_parts(a) else False), rule, f"{where}: {label}", f"the document's {name}" if good else f"is {show(a)[:100]}")
    return a.a[0] if good else None


def whole(R, s, where, e):
    rule = "C63.whole"
    text, new, index, enc, ends = args(e)
    doc = document(R, rule, where, text, "old text", "contents")
    document(R, rule, where, index, "line index", "line_index")
    document(R, rule, where, ends, "line endings", "endings")
    f0, pops, odd = chain(new)
    if tail(f0) == FORMAT or f0.tag in ("payload", "pay", "fld"):
        src = [t for t in subterms(f0) if tail(t) == FORMAT]
        full = bool(src) and f0 is payload(payload(src[0], "Ok", 0), "Changed", 0)
        R.check(True if full else None, rule, f"{where}: new text", "the complete formatted text")
        if full and doc is not None:
            R.check(True if cli.strip(args(src[0])[0]) is cli.strip(text) else None, rule, f"{where}: compared", "with the text that was formatted")
            opts = args(src[0])[2]
        else:
            opts = args(src[0])[2] if src else None
    else:
        R.undecided(rule, f"{where}: new text", f"is {show(new)[:100]}")
        return
    if odd:
        return R.undecided(rule, f"{where}: new text", f"passes through {odd}")
    cr = may_hold_cr(R, s, where, opts, ends)
    c = s.conds.get(mk("call", "Url::scheme", (fld(mk("arg", "params"), "text_document", "uri"),)))
    cell = None if c is None else (c[0] == "s" and (("vscode-notebook-cell" in c[2]) == bool(c[1])) and (not c[1] or len(c[2]) == 1))
    trimmed(R, s, rule, where, f0, pops, cr, cell)


def chain(t):
    """(text, [text before each character removed at the end], another operation on it)"""
    pops = []
    while True:
        t = cli.strip(t)
        if t.tag == "after" and tail(mk("ecall", *[t.a[0], t.a[1], t.a[3]])) == "String::pop":
            t = t.a[1][0]
            pops.append(t)
        else:
            break
    odd = tail(t) if t.tag in ("call", "ecall", "after") and tail(t) not in ("Printed::into_code", FORMAT) else None
    return t, list(reversed(pops)), odd


def ends(s, t, ch):
    """does the text end in this character: True, False or None"""
    for c in (mk("int", ord(ch)), mk("str", ch)):
        b = truth(s.conds, mk("call", "str::ends_with", (t, c)))
        if b is not None:
            return b
    return None


def trimmed(R, s, rule, where, f0, pops, cr, cell):
    """at the end, exactly one line ending is removed if one is to be removed"""
    at = f"{where}: {show_conds({t: c for t, c in s.conds.items() if op_(t) in ('str::ends_with', 'Url::scheme')})[-160:]}"
    if cell is False:
        R.check(not pops, rule, f"{where}: end", "the last line ending stays" if not pops else "the end of the text is cut off")
        return
    nl = ends(s, f0, "\n")
    if not pops:
        if cell is None or nl is False:
            R.check(True, rule, f"{where}: end", "nothing to remove")
        elif any(op_(t) == "str::ends_with" for t in s.conds):
            R.undecided(rule, at, "the last line ending")
        else:
            R.check(False, rule, f"{where}: end", "the last line ending stays")
        return
    if cell is None:
        return R.check(False, rule, f"{where}: end", "the last line ending of every document is removed")
    if len(pops) == 1:
        after = mk_pop(f0, pops)
        ret = ends(s, after, "\r") if after is not None else None
        good = nl is not False and (ret is False or ret is None and not cr)
        R.check(good, rule, at, "one whole line ending is removed" if good else "half of a `\\r\\n` line ending is left behind" if cr else "text is cut off")
    elif len(pops) == 2:
        good = ends(s, pops[1], "\r") is True and nl is not False
        R.check(good, rule, at, "one whole line ending is removed" if good else "text before the line ending is cut off")
    else:
        R.check(False, rule, at, f"{len(pops)} characters are cut off")


def mk_pop(f0, pops):
    return mk("after", "String::pop", (pops[-1],), 0, 0)


def may_hold_cr(R, s, where, opts, endings):
    """may the formatted text hold `\\r`; for a document with `\\r\\n`, whose line endings are restored later, it must not"""
    rule = "C63.endings"
    if opts is None:
        R.undecided(rule, where, "options not found")
        return True
    le = cli.strip(project(opts, "line_ending"))
    lf = le.tag == "adt" and le.a[1] == "Lf"
    k = variant(s, cli.strip(endings))
    at = f"{where}: document with {k or 'any'} line endings"
    if k == "Lf":
        R.check(True, rule, at, "line endings are not converted")
        return not lf
    if lf:
        R.check(True, rule, at, "the text has `\\n` only until its line endings are restored")
        return False
    own = le.tag == "adt" or le.tag == "fld" and tail(le.a[0]).endswith("::to_format_options")
    R.check(False if own else None, rule, at, "text formatted with `\\r\\n` is converted to `\\r\\n` again" if own else f"line ending {show(le)[:80]}")
    return True


def part(R, s, where, e):
    rule = "C63.range"
    rng, new, index, enc, ends_ = args(e)
    document(R, rule, where, index, "line index", "line_index")
    document(R, rule, where, ends_, "line endings", "endings")
    f0, pops, odd = chain(new)
    if tail(f0) != "Printed::into_code":
        return R.undecided(rule, f"{where}: new text", f"is {show(new)[:100]}")
    sub = [t for t in subterms(f0) if tail(t) == "biome_formatter::format_sub_tree"]
    if len(sub) != 1:
        return R.undecided(rule, f"{where}: new text", "formatting call not found")
    full = cli.strip(args(f0)[0]) is payload(sub[0], "Ok", 0)
    R.check(True if full else None, rule, f"{where}: new text", "the complete formatted text")
    lang = args(sub[0])[1]
    cr = may_hold_cr(R, s, where, project(lang, "options"), ends_)
    trimmed(R, s, rule, where, f0, pops, cr, True)
    # the span replaced is that of the lines which are formatted
    a, b = lines(rng), lines(args(sub[0])[0])
    good = len(a) == 1 and a == b
    asked = [t for t in subterms(rng) if tail(t) == "from_proto::text_range"]
    if len(asked) == 1 and cli.strip(rng) is payload(asked[0], "Ok", 0) and not any(t.tag in ("fold", "loopval", "phi") for t in subterms(rng)):
        return R.violated(rule, f"{where}: span", "the span of the request is replaced, not that of the lines that are formatted")
    R.check(True if good else (None if not a or not b or len(a) + len(b) > 2 else False), rule, f"{where}: span", "the lines that are formatted are the ones replaced" if good else "other lines are replaced than are formatted")
    cover(R, rule, where, s, rng, next(iter(a), None))
    inside = [t for t in subterms(args(sub[0])[0]) if t.tag == "comp" and a and t.a[0] in a]
    if inside:
        c = inside[0]
        allof = not c.a[1] and len(c.a[3]) == 1
        R.check(True if allof else None, rule, f"{where}: lines", "all of them, in order")
    else:
        R.undecided(rule, f"{where}: lines", "the tree that is formatted is not understood")
    part_ = [op_(t) for t in subterms(args(sub[0])[0]) if op_(t) in ("Iterator::take", "Iterator::skip", "Iterator::step_by", "slice::first", "slice::last")]
    if part_ and not good:
        R.violated(rule, f"{where}: lines", f"only some are formatted: {part_[0]}")


def lines(t):
    return {u for u in subterms(t) if tail(u).endswith("find_deepest_enclosing_logical_lines") and u.tag == "ecall"}


def cover(R, rule, where, s, rng, src):
    """the span covers the text of all lines"""
    r = cli.strip(rng)
    red = [t for t in subterms(r) if op_(t) == "Iterator::reduce"]
    if len(red) == 1 and r is payload(red[0], "Some", 0):
        clo = cli.strip(args(red[0])[1])
        it = args(red[0])[0]
        maps = [st for st in (it.a[2] if it.tag == "it" else ())]
        ok = it.tag == "it" and it.a[0] is src and len(maps) == 1 and maps[0][0] == "map" and "text_non_whitespace_range" in show(maps[0][1])
        how = closure(R, clo)
        R.check(True if ok and how is True else (False if ok and how is False else None), rule, f"{where}: span", "covers the text of every line" if how else "does not cover every line")
        return
    rest = [t for t in subterms(r) if t.tag == "fold"]
    part_ = not red and not rest
    R.check(None if not part_ else (False if any("text_non_whitespace_range" in op_(t) for t in subterms(r)) and op_(r).endswith("text_non_whitespace_range") else None), rule, f"{where}: span", "covers the text of every line" if not part_ else f"is {show(r)[:80]}")


def closure(R, clo):
    """is a two-argument closure the cover of both spans"""
    if clo.tag == "fn":
        return True if clo.a[0].endswith("TextRange::cover") else None
    if clo.tag != "clo":
        return None
    res = []
    for s, v in R.summary(clo.a[0], "self a b", R.interp()):
        v = cli.strip(v)
        a, b = mk("arg", "a"), mk("arg", "b")
        if op_(v).endswith("TextRange::cover") and {cli.strip(x) for x in args(v)} == {a, b}:
            res.append(True)
        elif v in (a, b):
            res.append(False)
        else:
            res.append(None)
    return False if False in res else True if res and all(res) else None


# ------------------------------------------------------------------ conversion
def convert(R):
    rule = "C63.convert"
    A, B, C, D, E = (mk("arg", x) for x in "abcde")
    # one edit
    fn = TP + "text_edit"
    where = R.where(fn)
    I = R.interp()
    I.opaque_fn = opaque("to_proto::range")
    n = 0
    for s, v in R.summary(fn, "a b c d", I):
        if not (v.tag == "adt" and v.a[1] == "Ok"):
            continue
        n += 1
        t = payload(v, "Ok", 0)
        rg, tx = cli.strip(project(t, "range")), cli.strip(project(t, "new_text"))
        r = [u for u in subterms(rg) if tail(u) == "to_proto::range"]
        good = len(r) == 1 and rg is payload(r[0], "Ok", 0) and cli.strip(args(r[0])[0]) is fld(A, "delete") and [cli.strip(x) for x in args(r[0])[1:]] == [B, C]
        R.check(True if good else (False if r and fld(A, "delete") not in set(subterms(rg)) else None), rule, f"{where}: range", "the range that is replaced" if good else f"range {show(rg)[:80]}")
        k = variant(s, D)
        ins = fld(A, "insert")
        if k == "Lf":
            R.check(True if tx is ins else (False if tx.tag == "str" or op_(tx) == "str::replace" else None), rule, f"{where}: Lf", "the text as it is" if tx is ins else f"text {show(tx)[:80]}")
        elif k == "Crlf":
            ok = op_(tx) == "str::replace" and [cli.strip(x) for x in args(tx)[1:]] in ([mk("int", 10), mk("str", "\r\n")], [mk("str", "\n"), mk("str", "\r\n")])
            base = cli.strip(args(tx)[0]) if ok else None
            norm = base is not None and (op_(base).endswith("normalize") or op_(base) == "str::replace") and ins in set(subterms(base))
            R.check(True if ok and (base is ins or norm) else (False if tx is ins or tx.tag == "str" or op_(tx) in ("str::replace", "str::replacen") else None), rule, f"{where}: Crlf", "every `\\n` becomes `\\r\\n`" if ok else f"text {show(tx)[:80]}")
        else:
            used = any(D in set(subterms(c)) for c in s.conds) or D in set(subterms(tx))
            R.check(None if used else False, rule, where, "line endings follow the document" if used else "line endings do not follow the document")
    if not n:
        R.undecided(rule, where, "no outcome")
    # all edits, in order
    fn = TP + "text_edit_vec"
    where = R.where(fn)
    I = R.interp()
    I.opaque_fn = opaque("to_proto::text_edit")
    n = 0
    for s, v in R.summary(fn, "a b c d", I):
        if not (v.tag == "adt" and v.a[1] == "Ok"):
            continue
        n += 1
        c = cli.strip(payload(v, "Ok", 0))
        if c.tag != "comp" or c.a[0] is not fld(A, "indels"):
            part_ = [op_(t) for t in subterms(c) if op_(t) in ("Iterator::take", "Iterator::skip", "Iterator::step_by")]
            R.check(False if part_ or c.tag == "arr" else None, rule, where, f"only some edits are sent: {part_ or show(c)[:60]}" if part_ or c.tag == "arr" else f"{show(c)[:80]}")
            continue
        over, rev, depth, cases = c.a[:4]
        el = mk("elem", over, depth)
        ok = not rev and len(cases) == 1
        why = "every edit, in order"
        for conds, val in cases:
            t = [u for u in subterms(val) if tail(u) == "to_proto::text_edit"]
            only = all(tail(x) == "to_proto::text_edit" for x, _ in conds)
            if len(t) != 1 or cli.strip(val) is not payload(t[0], "Ok", 0):
                ok, why = None, f"{show(val)[:80]}"
            elif [cli.strip(x) for x in args(t[0])] != [el, B, C, D]:
                ok, why = False, f"converts {show(t[0])[:100]}"
            elif not only:
                ok, why = False, "some edits are left out"
        R.check(ok if ok is not False else False, rule, where, why)
    if not n:
        R.undecided(rule, where, "no outcome")
    # whole and range
    for name, argn, want in (("replace_all_edit", "a b c d e", "diff::diff"), ("replace_range_edit", "a b c d e", "TextEdit::replace")):
        fn = TP + name
        where = R.where(fn)
        I = R.interp()
        I.opaque_fn = opaque("to_proto::text_edit_vec", "diff::diff", "TextEdit::replace")
        for s, v in R.summary(fn, argn, I):
            v = cli.strip(v)
            if v.tag == "adt" and v.a[1] == "Ok":
                v = cli.strip(payload(v, "Ok", 0))
                v = v.a[0] if v.tag in ("payload", "pay") else v
            if v.tag == "adt" and v.a[1] == "Err":
                continue
            if tail(v) != "to_proto::text_edit_vec":
                R.undecided(rule, where, f"{show(v)[:80]}")
                continue
            w = [cli.strip(x) for x in args(v)]
            d = w[0]
            ok = tail(d) == want and [cli.strip(x) for x in args(d)] == [A, B]
            R.check(True if ok else (False if tail(d) == want else None), rule, where, "the difference of the two texts" if want == "diff::diff" and ok else "the replacement of the span" if ok else f"{show(d)[:80]}")
            R.check(True if w[1:] == [C, D, E] else False, rule, f"{where}: conversion", "with the document's index, encoding and line endings")


# ------------------------------------------------------------------ difference
def difference(R):
    rule = "C63.diff"
    fn = "aether_lsp_utils::diff::diff"
    where = R.where(fn)
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and ("dissimilar::diff" in x or x.startswith(TE + "TextEditBuilder::")) for x in (p, res))
    L, Rt = mk("arg", "left"), mk("arg", "right")
    out = R.summary(fn, "left right", I)
    for s, v in out:
        v = cli.strip(v)
        if tail(v) != "TextEditBuilder::finish":
            R.undecided(rule, where, f"{show(v)[:80]}")
            continue
        d = {t for t in subterms(v) if op_(t) == "dissimilar::diff" and t.tag == "ecall"}
        if len(d) != 1:
            R.undecided(rule, where, "difference not found")
            continue
        d = next(iter(d))
        w = [cli.strip(x) for x in args(d)]
        R.check(True if w == [L, Rt] else (False if set(w) <= {L, Rt} else None), rule, where, "of the old and the new text" if w == [L, Rt] else "of other texts")
        b = cli.strip(args(v)[0])
        if b.tag != "loopval" or b.a[0].tag != "loop":
            R.undecided(rule, where, f"edits are built by {show(b)[:80]}")
            continue
        loop, bi = b.a[0], b.a[1]
        inits, cases, depth = loop.a[:3]
        its = [k for k, x in enumerate(inits) if d in set(subterms(x))]
        pos = [k for k, x in enumerate(inits) if k not in its and k != bi]
        if len(its) != 1 or len(pos) != 1:
            R.undecided(rule, where, "state of the loop not understood")
            continue
        src = [t for t in subterms(inits[its[0]]) if t.tag == "it" and t.a[0] is d]
        whole_ = bool(src) and not src[0].a[1] and not src[0].a[2]
        R.check(True if whole_ else None, rule, where, "all chunks in order")
        zero = cli.strip(inits[pos[0]])
        R.check(True if "default" in show(zero) or zero.tag == "int" and zero.a[0] == 0 or "TextSize" in show(zero) and "0" in show(zero) else None, rule, f"{where}: start", "positions start at 0")
        chunks(R, rule, where, cases, depth, bi, its[0], pos[0], inits)
    if not out:
        R.undecided(rule, where, "no outcome")


def chunks(R, rule, where, cases, depth, bi, ii, pi, inits):
    phis = {t.a[1]: t for case in cases for x in [y for t, _ in case[0] for y in (t,)] + [v for _, v in case[1][0]] for t in subterms(x) if t.tag == "phi" and t.a[0] == depth}
    B, ITER, P = (phis.get(k) or mk("phi", depth, k, inits[k]) for k in (bi, ii, pi))
    seen = set()
    for case in cases:
        conds, body = dict(case[0]), case[1]
        vals, effs = body if isinstance(body, tuple) and len(body) == 2 and isinstance(body[0], tuple) else (None, None)
        if vals is None:
            R.undecided(rule, where, "step not understood")
            continue
        vals = dict(vals)
        if not any(conds_next(t, ITER) for t in conds):
            R.undecided(rule, where, f"step not understood: {show_conds(conds)[:80]}")
            continue
        nx = mk("call", "next", (ITER,))
        c = conds.get(nx)
        if c and c[1] == frozenset({"None"}):
            continue   # end of the chunks
        first = payload(nx, "Some", 0)
        kinds = conds.get(first)
        k1 = set(kinds[1]) if kinds and kinds[0] == "v" else {"Equal", "Delete", "Insert"}
        # how many chunks are consumed
        it = vals.get(ii, ITER)
        n, base, peeked = 0, it, None
        while True:
            if base.tag == "itadv":
                n, base = n + 1, base.a[0]
            elif base.tag == "after" and "peek" in base.a[0]:
                base = base.a[1][0]
            else:
                break
        if base is not ITER:
            R.undecided(rule, where, "chunks taken not understood")
            continue
        pk = [t for t in conds if "Peekable::peek" in op_(t)]
        second, k2 = None, None
        for t in pk:
            p = payload(t, "Some", 0)
            if variant_of(conds, t) == "Some":
                second = p
                k2 = set(conds[p][1]) if p in conds and conds[p][0] == "v" else {"Equal", "Delete", "Insert"}
        at = f"{where}: {'/'.join(sorted(k1))}" + (f" then {'/'.join(sorted(k2))}" if k2 and n == 2 else "")
        if n == 2:
            if k2 is None:
                R.undecided(rule, at, "the second chunk is not looked at")
                continue
        elif n != 1:
            R.check(False if n == 0 else None, rule, at, f"{n} chunks are taken")
            continue
        got = edits(vals.get(bi, B), B)
        if got is None:
            R.undecided(rule, at, f"edits {show(vals.get(bi, B))[:100]}")
            continue
        adv = vals.get(pi, P)
        for a in sorted(k1):
            for b in sorted(k2) if n == 2 else (None,):
                seen.add(a)
                seq = [(a, payload(first, a, 0))] + ([(b, text_of(second, b))] if b else [])
                want, wadv = [], []
                for k, txt in seq:
                    if k == "Equal":
                        wadv.append(txt)
                    elif k == "Delete":
                        want.append((list(wadv), txt, None))
                        wadv.append(txt)
                    else:
                        want.append((list(wadv), None, txt))
                w = f"{where}: {a}" + (f" then {b}" if b else "")
                ok, why = same(got, want, P)
                R.check(ok, rule, w, {"Equal": "kept text gives no edit", "Delete": "deleted text is deleted where it stands", "Insert": "inserted text is inserted where it stands"}[a] if ok else why)
                m = moved(adv, P)
                ok = None if m is None else m == wadv
                R.check(ok, rule, f"{w}: position", "moves past the old text only" if ok else f"moves by {[show(x)[-40:] for x in m or ()]}")
    for k in ("Equal", "Delete", "Insert"):
        if k not in seen:
            R.undecided(rule, where, f"no step for {k}")


def variant_of(conds, t):
    c = conds.get(t)
    return next(iter(c[1])) if c and c[0] == "v" and len(c[1]) == 1 else None


def text_of(chunk, k):
    return payload(chunk, k, 0)


def conds_next(t, it):
    return op_(t) == "next" and t.tag == "call" and args(t)[0] is it


def length(t):
    """the text whose size t is"""
    t = cli.strip(t)
    if tail(t) in ("TextSize::of", "TextLen::text_len"):
        return cli.strip(args(t)[0])
    return None


def moved(t, P):
    """texts by which the position was advanced"""
    t = cli.strip(t)
    if t is P:
        return []
    if t.tag == "call" and t.a[0] == "cat" or t.tag == "cat":
        xs = list(t.a[1]) if t.tag == "call" else [y for x in t.a for y in (x if isinstance(x, tuple) else (x,))]
    elif t.tag == "bin" and t.a[0] == "Add" or op_(t) in ("Add", "Add::add", "bin") or tail(t) in ("Add::add",):
        xs = [x for x in (t.a[1:] if t.tag == "bin" else args(t)) if hasattr(x, "tag")]
    else:
        return None
    out = []
    for i, x in enumerate(xs):
        x = cli.strip(x)
        if x is P:
            continue
        n = length(x)
        if n is None:
            m = moved(x, P)
            if m is None:
                return None
            out += m
        else:
            out.append(n)
    return out


def edits(t, B):
    """operations on the builder, in order: [(name, arguments)]"""
    out = []
    while t is not B:
        if t.tag != "after" or "TextEditBuilder::" not in t.a[0] or t.a[2] != 0:
            return None
        out.append((t.a[0].rsplit("::", 1)[-1], [cli.strip(x) for x in t.a[1][1:]]))
        t = t.a[1][0]
    return list(reversed(out))


def same(got, want, P):
    """do the operations stand for the wanted (position, deleted, inserted)"""
    ops = []
    for name, a in got:
        if name == "insert":
            m = moved(a[0], P)
            if m is None:
                return None, f"inserts at {show(a[0])[:60]}"
            ops.append((m, None, a[1]))
        elif name in ("delete", "replace"):
            r = a[0]
            if tail(r) == "TextRange::at":
                m, n = moved(args(r)[0], P), length(args(r)[1])
            elif tail(r) == "TextRange::empty":
                m, n = moved(args(r)[0], P), "none"
            elif tail(r) == "TextRange::new":
                m, e = moved(args(r)[0], P), moved(args(r)[1], P)
                n = e[-1] if m is not None and e is not None and e[:-1] == m and e else None
            else:
                return None, f"range {show(r)[:60]}"
            if m is None or n is None:
                return None, f"range {show(r)[:60]}"
            ops.append((m, None if n == "none" else n, a[1] if name == "replace" else None))
        else:
            return None, name
    flat = []
    for m, d, i in ops:
        if d is not None and i is not None:
            flat += [(m, d, None), (m + [d], None, i)]
        elif d is not None or i is not None:
            flat.append((m, d, i))
    flat = [(m, d, i) for m, d, i in flat if not (d is None and i is not None and i.tag == "str" and not i.a[0])]
    if flat == want:
        return True, ""
    return False, f"gives {[(['+' + show(x)[-25:] for x in m], d and show(d)[-25:], i and show(i)[-25:]) for m, d, i in flat]}"


# ------------------------------------------------------------------ building
def builder(R):
    rule = "C63.build"
    S, A, B = (mk("arg", x) for x in ("self", "a", "b"))
    for name, delete, insert in (("insert", "empty", B), ("delete", A, ""), ("replace", A, B)):
        fn = f"{TE}TextEditBuilder::{name}"
        where = R.where(fn)
        I = R.interp()
        I.opaque_fn = opaque("::assert_disjoint_or_equal")
        n = 0
        for s, v in R.summary(fn, "self a b", I):
            n += 1
            fin = cli.strip(project(s.mem.get(("h", "self"), S), "indels"))
            while fin.tag == "after" and "disjoint" in fin.a[0]:
                fin = cli.strip(fin.a[1][0])
            if fin is fld(S, "indels"):
                R.violated(rule, where, "the edit is dropped")
                continue
            if fin.tag != "push" or fin.a[0] is not fld(S, "indels"):
                R.undecided(rule, where, f"edits become {show(fin)[:80]}")
                continue
            x = fin.a[1]
            d, i = cli.strip(project(x, "delete")), cli.strip(project(x, "insert"))
            if delete == "empty":
                gd = tail(d) == "TextRange::empty" and cli.strip(args(d)[0]) is A
                bad = tail(d) != "TextRange::empty" and False or tail(d) == "TextRange::empty"
            else:
                gd, bad = d is delete, tail(d) in ("TextRange::empty",)
            gi = i.tag == "str" and not i.a[0] if insert == "" else i is insert
            R.check(True if gd else (False if bad else None), rule, f"{where}: range", "replaces the range given" if gd else f"replaces {show(d)[:60]}")
            R.check(True if gi else (False if i.tag == "str" or i in (A, B) else None), rule, f"{where}: text", "with the text given" if gi else f"with {show(i)[:60]}")
        if not n:
            R.undecided(rule, where, "no outcome")
    # one replacement
    fn = f"{TE}TextEdit::replace"
    where = R.where(fn)
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and x.startswith(TE + "TextEditBuilder::") and not x.endswith(("::default",)) for x in (p, res))
    for s, v in R.summary(fn, "a b", I):
        v = cli.strip(v)
        ok = None
        if tail(v) == "TextEditBuilder::finish":
            b = args(v)[0]
            ops = []
            while b.tag == "after" and "TextEditBuilder::" in b.a[0]:
                ops.append((b.a[0].rsplit("::", 1)[-1], [cli.strip(x) for x in b.a[1][1:]]))
                b = b.a[1][0]
            ok = ops == [("replace", [A, B])]
        R.check(ok, rule, where, "one replacement of the range by the text" if ok else f"{show(v)[:100]}")
    # nothing is lost at the end
    fn = f"{TE}TextEditBuilder::finish"
    where = R.where(fn)
    I = R.interp()
    I.opaque_fn = opaque("::check_disjoint")
    for s, v in R.summary(fn, "self", I):
        t = cli.strip(project(v, "indels"))
        keys, joins, ok = [], [], True
        while True:
            t = cli.strip(t)
            if t.tag == "it" and not t.a[1] and not t.a[2]:
                t = t.a[0]
            elif t.tag in ("sortedby", "sorted"):
                keys.append(t)
                t = t.a[0]
            elif t.tag == "after" and "check_disjoint" in t.a[0]:
                t = t.a[1][0]
            elif tail(t) == "Itertools::coalesce":
                joins.append(args(t)[1])
                t = args(t)[0]
            else:
                break
        left = [op_(u) for u in subterms(t) if op_(u) in ("Iterator::take", "Iterator::skip", "Itertools::dedup", "Itertools::dedup_by")]
        R.check(True if t is fld(S, "indels") else (False if left or t.tag == "arr" else None), rule, where, "all edits" if t is fld(S, "indels") else f"edits {show(t)[:80]}")
        for k in keys:
            R.check(sortkey(R, k), rule, f"{where}: order", "edits are sorted by where they start")
        for j in joins:
            join(R, rule, where, j)


def sortkey(R, t):
    if t.tag != "sortedby" or t.a[1] != "key" or t.a[2].tag != "clo":
        return None
    for s, v in R.summary(t.a[2].a[0], "self a", R.interp()):
        v = cli.strip(v)
        first = v.a[0] if v.tag == "tup" and not isinstance(v.a[0], tuple) else v.a[0][0] if v.tag == "tup" else v
        if tail(cli.strip(first)) != "TextRange::start" or cli.strip(args(cli.strip(first))[0]) is not fld(mk("arg", "a"), "delete"):
            return None
    return True


def join(R, rule, where, j):
    """adjacent edits are joined in order"""
    if j.tag != "clo":
        return R.undecided(rule, where, "joining not understood")
    A, B = mk("arg", "a"), mk("arg", "b")
    at = f"{R.where(j.a[0])}"
    for s, v in R.summary(j.a[0], "self a b", R.interp()):
        k = v.a[1] if v.tag == "adt" else None
        adj = None
        for t, c in s.conds.items():
            if op_(t) == "eq":
                x, y = (cli.strip(u) for u in args(t))
                pair = {(tail(u), cli.strip(args(u)[0])) for u in (x, y) if u.tag in ("call", "ecall") and args(u)}
                if pair == {("TextRange::end", fld(A, "delete")), ("TextRange::start", fld(B, "delete"))}:
                    adj = truth(s.conds, t)
        if k == "Err":
            x = cli.strip(payload(v, "Err", 0))
            both = [cli.strip(y) for y in (x.a[0] if x.tag == "tup" and isinstance(x.a[0], tuple) else x.a)] if x.tag == "tup" else None
            R.check(True if both == [A, B] else (False if both and set(both) <= {A, B} else None), rule, f"{at}: apart", "edits apart are kept as they are")
        elif k == "Ok":
            x = payload(v, "Ok", 0)
            d, i = cli.strip(project(x, "delete")), cli.strip(project(x, "insert"))
            parts = flat(i)
            ok = parts == [fld(A, "insert"), fld(B, "insert")]
            R.check(True if ok else (False if parts and set(parts) <= {fld(A, "insert"), fld(B, "insert")} else None), rule, f"{at}: joined text", "both texts, in order" if ok else f"text {show(i)[:60]}")
            dn = [(tail(cli.strip(u)), cli.strip(args(cli.strip(u))[0])) for u in args(d)] if tail(d) == "TextRange::new" else None
            okd = dn == [("TextRange::start", fld(A, "delete")), ("TextRange::end", fld(B, "delete"))] or tail(d) == "TextRange::cover" and {cli.strip(u) for u in args(d)} == {fld(A, "delete"), fld(B, "delete")}
            R.check(True if okd else (False if d in (fld(A, "delete"), fld(B, "delete")) or dn else None), rule, f"{at}: joined range", "both ranges" if okd else f"range {show(d)[:60]}")
            R.check(True if adj else (False if adj is False or not any(op_(t) == "eq" for t in s.conds) else None), rule, f"{at}: joined", "only edits that touch are joined" if adj else "edits that do not touch are joined")
        else:
            R.undecided(rule, at, f"{show(v)[:60]}")


def flat(t):
    t = cli.strip(t)
    if t.tag == "after" and t.a[0] == "String::insert_str" and t.a[2] == 0:
        base, at, text = (cli.strip(x) for x in t.a[1])
        if at.tag == "int" and at.a[0] == 0:
            return flat(text) + flat(base)
    if t.tag == "cat" or op_(t) == "cat":
        xs = t.a[1] if t.tag == "call" else [y for x in t.a for y in (x if isinstance(x, tuple) else (x,))]
        return [z for x in xs for z in flat(x)]
    return [t]


def check(R):
    R.program(*server.CRATES, "air_r_formatter")
    for part_ in (handlers, convert, difference, builder):
        R.guard(lambda p=part_: p(R), "C63", part_.__name__)
