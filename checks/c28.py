"""C28: positions are always converted with the negotiated encoding."""
from terms import *
from cases import *
import cli, lsp, mir, walk
import c25

LEVEL = "proof"
TECHNIQUE = "gated value-numbering dataflow over MIR: the conversions as tables over the encoding, the negotiation as a table over the client's offer, and field-write enumeration for the stored encoding"
EXPLANATION = ("The conversions between editor positions and text offsets are summarised from type-checked MIR for every encoding and matched against their definition; `initialize` is a table from what the client offers to what is stored and what is announced; "
               "every document gets the stored encoding and nothing else writes it; every conversion in the formatting handlers uses the line index and the encoding of the document the request names.")
NOTE = "the line index itself (a third-party crate) is assumed to count columns correctly"
CRATES = ("lsp", "workspace", "settings", "line_ending", "aether_lsp_utils", "air_r_parser", "air_r_formatter")
DOC = "lsp::documents::Document"
STATE = "lsp::main_loop::LspState"
FROM = "aether_lsp_utils::proto::from_proto::"
TO = "aether_lsp_utils::proto::to_proto::"
KNOWN = {"LineIndex::offset", "LineIndex::to_utf8", "LineIndex::to_wide", "LineIndex::line_col", "TextRange::new", "TextRange::start", "TextRange::end", "TextRange::at", "TextRange::empty", "TextRange::up_to", "Position::new", "Range::new", "str::replace", "From<TextRange>", "diff::diff", "TextEdit::replace"}


def settled(t):
    """a term built from the conversion vocabulary only"""
    return not unknown_parts(t, ok=KNOWN) and all(cli.fname(u) in KNOWN for u in subterms(t) if cli.fname(u))


def encoding(conds, enc):
    for n in ("Utf8", "Wide"):
        if isvar(conds, enc, n):
            return n
    return None


def named(t, *names):
    """arguments of a call or of a constructor"""
    if cli.fname(t) in names:
        return args(t)
    return None


def fields(t, *fs):
    return [project(t, f) for f in fs] if t.tag == "adt" and set(fs) <= set(t.a[3] or ()) else None


def is_offset(t, pos, idx, enc, kind):
    """t: offset of the editor position pos"""
    if t.tag == "pay" and t.a[1] == "Some":
        t = t.a[0]
    a = named(t, "LineIndex::offset")
    if not a or a[0] is not idx:
        return False
    if kind == "Utf8":
        return fields(a[1], "line", "col") == [mk("fld", pos, "line"), mk("fld", pos, "character")]
    b = named(a[1], "LineIndex::to_utf8")
    return bool(b) and b[0] is idx and b[1] is payload(enc, "Wide", 0) and fields(b[2], "line", "col") == [mk("fld", pos, "line"), mk("fld", pos, "character")]


def is_position(t, off, idx, enc, kind):
    """t: the editor position of the offset"""
    a = named(t, "Position::new") or fields(t, "line", "character")
    if not a:
        return False
    lc = None
    for x, f in zip(a, ("line", "col")):
        if not (x.tag == "fld" and x.a[1] == f):
            return False
        if lc is not None and lc is not x.a[0]:
            return False
        lc = x.a[0]
    if kind == "Wide":
        b = named(lc.a[0], "LineIndex::to_wide") if lc.tag == "pay" and lc.a[1] == "Some" else None
        if not b or b[0] is not idx or b[1] is not payload(enc, "Wide", 0):
            return False
        lc = b[2]
    b = named(lc.a[0], "LineIndex::line_col") if lc.tag == "pay" and lc.a[1] == "Some" else None
    return bool(b) and b[0] is idx and off(b[1])


def pair(t, *names):
    a = named(t, *names) or fields(t, "start", "end")
    return a if a and len(a) == 2 else None


def edge(rng, which):
    return lambda t: named(t, "TextRange::" + which) == (rng,) or list(named(t, "TextRange::" + which) or ()) == [rng]


def conversions(R):
    rule = "C28.conversion"
    idx, enc, rng = mk("arg", "line_index"), mk("arg", "position_encoding"), mk("arg", "range")
    # editor range -> text range
    for fn, names in ((FROM + "text_range", "range line_index position_encoding"), (TO + "range", "range line_index position_encoding")):
        if R.prog.fn(fn) is None:
            R.undecided(rule, fn, "no such function")
            continue
        I = R.interp()
        seen = set()
        for s, k, v in split_res(I, R.summary(fn, names, I)):
            if k != "Ok":
                continue
            kind = encoding(s.conds, enc)
            where = f"{R.where(fn)}: {kind}"
            if kind is None:
                R.check(False if not any(u is enc for u in subterms(v)) and settled(v) else None, rule, where, f"does not look at the encoding: {show(v)[:150]}")
                continue
            seen.add(kind)
            a = pair(v, "TextRange::new", "Range::new")
            if fn.startswith(FROM):
                good = a and all(is_offset(x, mk("fld", rng, e), idx, enc, kind) for x, e in zip(a, ("start", "end")))
            else:
                good = a and all(is_position(x, edge(rng, e), idx, enc, kind) for x, e in zip(a, ("start", "end")))
            R.check(True if good else False if settled(v) else None, rule, where, "start and end are converted with the encoding and the line index given" if good else show(v)[:300])
        if seen != {"Utf8", "Wide"}:
            R.undecided(rule, R.where(fn), f"encodings seen: {sorted(seen)}")


def edits(R):
    """the edits made of a replacement"""
    rule = "C28.edits"
    idx, enc = mk("arg", "line_index"), mk("arg", "position_encoding")
    for fn, names in ((TO + "text_edit", "indel line_index position_encoding endings"),):
        if R.prog.fn(fn) is None:
            R.undecided(rule, fn, "no such function")
            continue
        I = R.interp()
        n = 0
        for s, k, v in split_res(I, R.summary(fn, names, I)):
            if k != "Ok":
                continue
            kind = encoding(s.conds, enc)
            r = fields(v, "range", "new_text")
            if kind is None or r is None:
                R.undecided(rule, R.where(fn), show(v)[:200])
                continue
            n += 1
            where = f"{R.where(fn)}: {kind}"
            dele = mk("fld", mk("arg", "indel"), "delete")
            a = pair(r[0], "Range::new")
            good = a and all(is_position(x, edge(dele, e), idx, enc, kind) for x, e in zip(a, ("start", "end")))
            R.check(True if good else False if settled(r[0]) else None, rule, where, "the edit covers the range replaced" if good else show(r[0])[:300])
            ins = mk("fld", mk("arg", "indel"), "insert")
            same = r[1] is ins or cli.fname(r[1]) == "str::replace" and cli.strip(args(r[1])[0]) is ins and args(r[1])[1] in (Int(10), Str("\n")) and args(r[1])[2] is Str("\r\n")
            R.check(True if same else False if settled(r[1]) else None, rule, where + ": text", "the edit inserts the new text" if same else show(r[1])[:200])
        if not n:
            R.undecided(rule, R.where(fn), "no successful outcome")
    for fn, names in ((TO + "replace_range_edit", "range replace_with line_index position_encoding endings"), (TO + "replace_all_edit", "text replace_with line_index position_encoding endings")):
        if R.prog.fn(fn) is None:
            R.undecided(rule, fn, "no such function")
            continue
        I = R.interp(opaque=(TO + "text_edit", "aether_lsp_utils::diff::diff", "aether_lsp_utils::text_edit::TextEdit::replace"))
        n = 0
        for s, k, v in split_res(I, R.summary(fn, names, I)):
            if k != "Ok":
                continue
            n += 1
            if v.tag != "comp" or len(v.a[3]) != 1:
                R.undecided(rule, R.where(fn), show(v)[:200])
                continue
            (cs, item), = v.a[3]
            el = mk("elem", v.a[0], v.a[2])
            if item.tag == "pay" and item.a[1] == "Ok":
                item = item.a[0]
            a = named(item, "to_proto::text_edit")
            good = bool(a) and a[0] is el and a[1] is idx and a[2] is enc and a[3] is mk("arg", "endings")
            R.check(True if good else False if settled_edit(item) else None, rule, R.where(fn), "each part of the replacement becomes an edit with the encoding and line index given" if good else show(item)[:200])
            over = v.a[0]
            src = over.a[0] if over.tag == "fld" else over
            b = named(src, "TextEdit::replace", "diff::diff")
            want = [mk("arg", "range"), mk("arg", "replace_with")] if fn.endswith("range_edit") else [mk("arg", "text"), mk("arg", "replace_with")]
            R.check(True if b and [cli.strip(x) for x in b] == want else False if b else None, rule, R.where(fn) + ": parts", "replaces the text given by the new text" if b else show(src)[:200])
        if not n:
            R.undecided(rule, R.where(fn), "no successful outcome")


def settled_edit(t):
    return not unknown_parts(t, ok=KNOWN | {"to_proto::text_edit"}) and all(cli.fname(u) in KNOWN | {"to_proto::text_edit"} for u in subterms(t) if cli.fname(u))


KIND = {"Utf8": "UTF8", "Wide": "UTF16"}


def announced(t):
    """name of the PositionEncodingKind announced; None unknown; absence means UTF-16"""
    t = cli.strip(t)
    if t.tag == "adt" and t.a[1] == "None":
        return "UTF16"
    if t.tag == "adt" and t.a[1] == "Some":
        t = cli.strip(t.a[2][0])
    if t.tag == "const" and str(t.a[0]).split("::")[-2:-1] == ["PositionEncodingKind"]:
        return str(t.a[0]).split("::")[-1]
    return None


def stored(t):
    if t.tag == "adt" and t.a[1] == "Utf8":
        return "UTF8"
    if t.tag == "adt" and t.a[1] == "Wide":
        w = t.a[2][0]
        return w.a[1].upper() if w.tag == "adt" else None
    return None


def offered(conds):
    """does the client offer UTF-8, as the conditions say"""
    for t, c in conds.items():
        if c[0] != "b" or len(c[1]) != 1 or not any(u.tag == "const" and str(u.a[0]).endswith("PositionEncodingKind::UTF8") for u in subterms(t)):
            continue
        over = t.a[0] if t.tag == "exists" else args(t)[0] if cli.fname(t) in ("slice::contains", "Vec::contains") else None
        if over is not None and over.tag == "fld" and over.a[1] == "position_encodings":
            return True in c[1]
    return None


def one_only(conds):
    """only one of the encodings offered was looked at, and it was not UTF-8"""
    return any(truth(conds, t) is False and any(u.tag == "const" and str(u.a[0]).endswith("PositionEncodingKind::UTF8") for u in subterms(t)) and any(one_of(u) is not None and one_of(u).tag == "fld" and one_of(u).a[1] == "position_encodings" for u in subterms(t)) for t in conds)


def one_of(u):
    """the list of which u is one element"""
    if u.tag in ("first", "last", "index"):
        return u.a[0]
    return args(u)[0] if cli.fname(u) in ("first", "last", "slice::first", "slice::last", "slice::get") else None


def part_of(x, whole):
    """x is some of the elements of whole"""
    if cli.fname(x) in ("Iterator::take", "Iterator::skip", "Iterator::step_by"):
        return args(x)[0] is whole or part_of(args(x)[0], whole)
    return x.tag == "index" and x.a[0] is whole


def negotiation(R):
    rule = "C28.negotiate"
    fn = "lsp::handlers_state::initialize"
    R.fn(fn)
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and x.startswith(("lsp::logging::", "lsp::workspaces::", "<lsp::workspaces", "lsp::capabilities::", "lsp::settings::", "lsp::settings_vsc")) or x and "InitializationOptions" in x for x in (p, res))
    n = 0
    for s, k, v in split_res(I, R.summary(fn, "params lsp_state log_tx", I)):
        if k != "Ok":
            continue
        n += 1
        st = project(s.mem[("h", "lsp_state")], "position_encoding")
        got = stored(st)
        tell = announced(project(project(v, "capabilities"), "position_encoding"))
        off = offered(s.conds)
        where = f"{R.where(fn)}: client {'offers UTF-8' if off else 'does not offer UTF-8' if off is False else '?'}"
        if st is mk("fld", mk("arg", "lsp_state"), "position_encoding"):
            R.check(False, rule, where, "the encoding is not stored")
        elif got is None or tell is None:
            R.undecided(rule, where, f"stores {show(st)[:80]}, announces {tell}")
        else:
            R.check(got == tell, rule, where, f"announces {tell} and stores {got}")
            want = {True: "UTF8", False: "UTF16", None: None}[off]
            R.check(got == want if want else False if got == "UTF16" and one_only(s.conds) else False if got == "UTF8" and not any(any(u.tag == "const" and "PositionEncodingKind" in str(u.a[0]) for u in subterms(t)) for t in s.conds) else None, rule, where + ": choice", f"{got} is chosen")
    if not n:
        R.undecided(rule, R.where(fn), "no successful outcome")
    # what the client offers is what it sent
    fn = "lsp::capabilities::AirClientCapabilities::new"
    R.fn(fn)
    I = R.interp()
    cap = mk("arg", "capabilities")
    sent = payload(mk("fld", payload(mk("fld", cap, "general"), "Some", 0), "position_encodings"), "Some", 0)
    for s, v in R.summary(fn, "capabilities", I):
        x = cli.strip(project(v, "position_encodings"))
        g = mk("fld", cap, "general")
        some = isvar(s.conds, g, "Some") and isvar(s.conds, mk("fld", payload(g, "Some", 0), "position_encodings"), "Some")
        kinds = [announced(y) for y in x.a[0]] if x.tag == "arr" else None
        R.check(True if some and x is sent else False if some and kinds is not None else False if some and part_of(x, sent) else True if not some and kinds is not None and set(kinds) <= {"UTF16"} else False if not some and kinds and "UTF8" in kinds else None, rule, f"{R.where(fn)}: {'encodings offered' if some else 'none offered'}", f"records {show(x)[:100]}")


def documents(R):
    rule = "C28.stored"
    P = R.prog
    ok = {STATE: {"lsp::handlers_state::initialize", STATE + "::new"}, DOC: {DOC + "::new"}}
    for adt in (STATE, DOC):
        for p, w in sorted(mir.writers(P, adt, {"position_encoding"}).items()):
            w = {x for x in w if x[1] == "position_encoding"}
            if not w or "::test" in p:
                continue
            fine = p in mir.reachable(P, ["lsp::handlers_state::initialize"]) if adt == STATE else False
            R.check(True if fine else None, rule, R.where(p), "written while the session is initialized" if fine else f"writes the encoding of {adt}")
    # Document::new keeps the encoding it is given, did_open gives it the one of the session
    R.fn(DOC + "::new")
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and x.startswith(("air_r_parser", "line_ending")) for x in (p, res))
    for s, v in R.summary(DOC + "::new", "contents version position_encoding", I):
        e = project(v, "position_encoding")
        R.check(e is mk("arg", "position_encoding") or (None if unknown_parts(e) else False), rule, R.where(DOC + "::new"), "the document keeps the encoding it is given" if e is mk("arg", "position_encoding") else show(e)[:100])
    new = {p for p, w in mir.writers(P, DOC).items() if ("new", None) in w and not p.endswith("Clone>::clone")}
    for p in sorted(new - {DOC + "::new"}):
        if "::test" not in p:
            R.undecided(rule, R.where(p), "builds a document of its own")
    callers = sorted({p for p in P.fns for c in mir.names(P.fns[p]) if c["path"] == DOC + "::new" and "::test" not in p and not p.startswith(DOC + "::doodle")})
    for p in callers:
        top = p.split("::{closure")[0]
        I = R.interp()
        I.opaque_fn = lambda q, res: any(x and (x.startswith(("air_r_parser", "line_ending", "lsp::workspaces", "lsp::handlers_state::update_config", "lsp::main_loop::")) or x == DOC + "::new") for x in (q, res))
        n = 0
        for s, v in R.summary(top, None, I):
            for e in s.eff:
                if e.tag == "eff" and e.a[0] == "Document::new":
                    n += 1
                    x = e.a[1][2]
                    good = x.tag == "fld" and x.a[1] == "position_encoding" and x.a[0].tag == "arg" and x.a[0].a[0] == "lsp_state"
                    R.check(True if good else False if stored(x) else None, rule, R.where(top), "documents are opened with the encoding of the session" if good else f"a document is opened with {show(x)[:100]}")
        if not n:
            R.undecided(rule, R.where(top), "opens a document")


def handlers(R):
    """conversions in the requests use the index and the encoding of the document"""
    rule = "C28.use"
    for kind, fn in lsp.HANDLERS.items():
        H = lsp.Request(R, fn, ("aether_lsp_utils::", "<aether_lsp_utils"))
        n = 0
        for s, k, v in H.outs:
            for e in s.eff:
                if e.tag != "eff" or not e.a[0].startswith(("from_proto::", "to_proto::", "LineIndex::")):
                    continue
                n += 1
                where = f"{H.where}: {kind}: {e.a[0]}"
                own = {f: [x for x in e.a[1] if c25.part(x, f)] for f in ("line_index", "position_encoding")}
                odd = [show(x)[:80] for x in e.a[1] if cli.fname(cli.strip(x)) in ("LineIndex::new",) or x.tag == "adt" and "PositionEncoding" in x.a[0] or x.tag == "fld" and x.a[1] == "position_encoding" and not c25.part(x, "position_encoding")]
                foreign = [key for xs in own.values() for x in xs for key in c25.doc_uris(H, x) if key is not H.uri]
                R.check(False if odd or foreign else True if all(own.values()) or e.a[0].startswith("LineIndex::") and own["line_index"] else None, rule, where, "with the document's line index and encoding" if not odd else f"converts with {odd}")
        if not n:
            R.undecided(rule, H.where, "no conversion found")


def check(R):
    R.program(*CRATES)
    R.guard(lambda: conversions(R), "C28.conversion", FROM)
    R.guard(lambda: edits(R), "C28.edits", TO)
    R.guard(lambda: negotiation(R), "C28.negotiate", "lsp::handlers_state::initialize")
    R.guard(lambda: documents(R), "C28.stored", DOC)
    R.guard(lambda: handlers(R), "C28.use", "lsp::handlers_format")
