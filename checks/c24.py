"""C24: after every edit the server's view of a document is consistent."""
from terms import *
from cases import *
import cli, lsp, mir
import c25

LEVEL = "proof"
TECHNIQUE = "inductive invariant over MIR dataflow summaries: every writer of a document's text, line index, parse or version enumerated and shown to re-establish text = index = parse together; the edit loop summarised as a fold with its index-validity invariant"
EXPLANATION = ("The invariant `the line index and the parse are those of the stored text` is established by `Document::new`, re-established by `Document::on_did_change`, and no other function writes those fields. The loop applying edits is summarised as a fold "
               "over the edits: each position is converted with an index built from the text at that moment or with an older index while all edits since lie strictly below the position; a full text replacement starts afresh; order is that of the client. "
               "The notification handlers open, change and close the document the client names with the client's text, edits and version.")
NOTE = "assumes the line index library, the parser and String::replace_range do what they document"
DOC = "lsp::documents::Document"
APPLY = "aether_lsp_utils::proto::from_proto::apply_text_changes"
CRATES = ("lsp", "aether_lsp_utils", "line_ending", "workspace", "settings")
FIELDS = {"contents", "line_index", "parse", "version"}


def hide(p, res):
    return any(x and x.startswith(("air_r_parser", "line_ending::", APPLY)) for x in (p, res))


def same_text(R, rule, where, doc, text):
    """index and parse of a document are those of the text"""
    for f, name in (("line_index", "LineIndex::new"), ("parse", "parse::parse")):
        x = project(doc, f)
        if cli.fname(x) in (name, "air_r_parser::parse"):
            of = cli.strip(args(x)[0])
            R.check(True if of is cli.strip(text) else None if unknown_parts(of, ok=("line_ending::normalize", "from_proto::apply_text_changes", "after from_proto::apply_text_changes")) else False, rule, f"{where}: {f}", f"the {f} is that of the stored text" if of is cli.strip(text) else f"the {f} is that of {show(of)[:120]}, the text is {show(text)[:120]}")
        else:
            stale = x.tag == "fld" and x.a[0].tag == "arg" or x.tag == "after" or cli.fname(x) in ("Default::default",)
            R.check(False if stale else None, rule, f"{where}: {f}", f"the {f} is {show(x)[:150]}, the text is {show(text)[:100]}")


def new(R):
    rule = "C24.new"
    fn = DOC + "::new"
    R.fn(fn)
    I = R.interp()
    I.opaque_fn = hide
    raw = mk("arg", "contents")
    for s, v in R.summary(fn, "contents version position_encoding", I):
        text = project(v, "contents")
        where = f"{R.where(fn)}: {show_conds(s.conds)[-40:]}"
        t = cli.strip(text)
        own = t is raw or cli.fname(t) == "line_ending::normalize" and cli.strip(args(t)[0]) is raw
        R.check(True if own else None if unknown_parts(t) else False, rule, where + ": text", "the text is the one opened" if own else show(t)[:120])
        same_text(R, rule, where, v, text)
        ver = project(v, "version")
        R.check(True if ver is mk("arg", "version") else None if unknown_parts(ver) else False, rule, where + ": version", "the version is the one given")


def change(R):
    rule = "C24.change"
    fn = DOC + "::on_did_change"
    R.fn(fn)
    I = R.interp()
    I.opaque_fn = hide
    me, new_version = mk("arg", "self"), mk("arg", "new_version")
    old = mk("fld", me, "version")
    n = 0
    for s, v in R.summary(fn, "self changes new_version", I):
        doc = s.mem[("h", "self")]
        where = f"{R.where(fn)}: {show_conds(s.conds)[-80:]}"
        text, ver = project(doc, "contents"), cli.strip(project(doc, "version"))
        if doc is me:
            older = newer(s.conds, old, new_version) is False
            R.check(True if older else None, rule, where, "an older version changes nothing" if older else "changes nothing")
            continue
        n += 1
        t = cli.strip(text)
        if t.tag == "after" and t.a[0] == "from_proto::apply_text_changes":
            want = [mk("fld", me, "contents"), mk("arg", "changes"), mk("fld", me, "line_index"), mk("fld", me, "position_encoding")]
            got = list(t.a[1])
            good = got == want
            R.check(True if good else None if any(unknown_parts(x) for x in got) else False, rule, where + ": text", "the edits are applied to the stored text, with its index" if good else show(t)[:200])
        elif text is mk("fld", me, "contents"):
            R.check(False, rule, where + ": text", "the edits are not applied")
        else:
            R.undecided(rule, where + ": text", show(text)[:150])
        same_text(R, rule, where, doc, text)
        up = ver.tag == "adt" and ver.a[1] == "Some" and cli.strip(ver.a[2][0]) is new_version
        R.check(True if up else False if ver is old or not unknown_parts(ver) else None, rule, where + ": version", "the version becomes that of the change" if up else f"the version becomes {show(ver)[:80]}")
        later = newer(s.conds, old, new_version)
        if isvar(s.conds, old, "None"):
            R.proved(rule, where + ": order", "no version is stored")
        else:
            odd = [t for t in s.conds if any(u is new_version for u in subterms(t)) and any(u is old or u.tag == "fld" and u.a[1] == "version" for u in subterms(t))]
            R.check(True if later else False if later is False or not odd else None, rule, where + ": order", "the change is not older than the stored version" if later else "a change may be applied though it is older than the stored version")
    if not n:
        R.undecided(rule, R.where(fn), "no outcome applies the edits")


def rel(t):
    """(relation, operands) of a comparison"""
    f = cli.fname(t) or t.tag
    if f not in ("lt", "le", "gt", "ge", "eq"):
        return None, ()
    a = list(args(t) if cli.fname(t) else t.a)
    a = list(a[0]) if len(a) == 1 and isinstance(a[0], tuple) else a
    return (f, a) if len(a) == 2 else (None, ())


def base(t):
    """t = (base, offset)"""
    if (cli.fname(t) or t.tag) == "bin":
        b = list(args(t)) if cli.fname(t) else list(t.a)
        if b[0] in ("Add", "Sub") and b[2].tag == "int":
            return b[1], b[2].a[0] if b[0] == "Add" else -b[2].a[0]
    return t, 0


def newer(conds, old, new):
    """do the conditions say new >= old: None when they say nothing"""
    o = payload(old, "Some", 0)
    lo, seen = None, False          # new - old >= lo
    for t, c in conds.items():
        tr = truth(conds, t)
        f, a = rel(t)
        if f is None or tr is None:
            continue
        (x, dx), (y, dy) = base(a[0]), base(a[1])
        if {x, y} != {o, new}:
            continue
        seen = True
        if f in ("gt", "ge"):
            (x, dx), (y, dy), f = (y, dy), (x, dx), {"gt": "lt", "ge": "le"}[f]
        # x + dx < y + dy  or its negation
        if f == "eq":
            b = (dx - dy if y is new else dy - dx) if tr else None
        elif y is new and tr:
            b = dx - dy + (f == "lt")
        elif x is new and not tr:
            b = dy - dx + (f == "le")
        else:
            b = None
        if b is not None:
            lo = b if lo is None else max(lo, b)
    return None if not seen else lo is not None and lo >= 0


def writers(R):
    rule = "C24.writers"
    P = R.prog
    ok = {DOC + "::new", DOC + "::on_did_change", f"<{DOC} as core::clone::Clone>::clone"}
    inside = set(mir.reachable(P, [DOC + "::on_did_change"]))
    inner = {p for p in inside if not any(c["path"] == p for q in P.fns if q not in inside for c in mir.names(P.fns[q]))}
    n = 0
    for p, w in sorted(mir.writers(P, DOC, FIELDS).items()):
        if "::test" in p or p.startswith(DOC + "::doodle"):
            continue
        w = {x for x in w if x[0] != "new" or p not in ok}
        if p in ok or p in inner:
            n += 1
            R.proved(rule, R.where(p), "its effect on the whole document is derived")
            continue
        if w:
            writer(R, rule, p, w)
    if not n:
        R.undecided(rule, DOC, "no writer found")


def writer(R, rule, p, w):
    """another function writes a document: it must leave the invariant"""
    f = R.prog.fns[p]
    me = [i for i in range(1, f["body"]["argc"] + 1) if mir.deref_type(f["body"]["locals"][i][0]) == DOC]
    if not me:
        return R.undecided(rule, R.where(p), f"writes {sorted(x[1] or 'a document' for x in w)}")
    names = " ".join("doc" if i == me[0] else f"a{i}" for i in range(1, f["body"]["argc"] + 1))
    I = R.interp()
    I.opaque_fn = hide
    doc0 = mk("arg", "doc")
    for s, v in R.summary(p, names, I):
        doc = s.mem.get(("h", "doc"))
        if doc is None:
            return R.undecided(rule, R.where(p), "writes a document")
        changed = [x for x in ("contents", "line_index", "parse") if project(doc, x) is not mk("fld", doc0, x)]
        if not changed:
            R.check(True if project(doc, "version") is mk("fld", doc0, "version") else None, rule, R.where(p), "leaves the text, the index, the parse and the version alone")
            continue
        same_text(R, rule, R.where(p), doc, project(doc, "contents"))


def apply(R):
    rule = "C24.apply"
    R.fn(APPLY)
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and ("line_ending::" in x or x.startswith("aether_lsp_utils::proto::from_proto::text_range")) for x in (p, res))
    changes, text0 = mk("arg", "changes"), mk("arg", "contents")
    n = 0
    for s, v in R.summary(APPLY, "contents changes line_index position_encoding", I):
        c = s.mem[("h", "contents")]
        where = R.where(APPLY)
        if c.tag != "fold":
            R.check(False if c is text0 else None, rule, where, f"the text becomes {show(c)[:150]}")
            continue
        over, rev, depth, init = c.a[0], c.a[1], c.a[2], c.a[3]
        el = mk("elem", over, depth)
        n += 1
        R.check(not rev, rule, where + ": order", "the edits are applied in the order sent" if not rev else "the edits are applied in reverse order")
        full = start(R, rule, where, s, over, init, changes, text0)
        for cs, x in c.a[4]:
            step(R, rule, where, dict(cs) if not isinstance(cs, dict) else cs, x, c, el, full)
    if not n:
        R.undecided(rule, R.where(APPLY), "no loop over the edits found")


def start(R, rule, where, s, over, init, changes, text0):
    """the text the first applied edit applies to; is it a full replacement"""
    if over is changes:
        if init is text0:
            R.proved(rule, where + ": start", "starts from the stored text")
            return False
        R.check(None if unknown_parts(init) else False, rule, where + ": start", f"starts from {show(init)[:120]}")
        return None
    # the edits after the last full replacement
    part = {"take", "skip", "filter", "step_by", "skip_while", "take_while", "truncate", "drain"}
    x = over
    while x.tag == "after" or cli.fname(x):
        name = x.a[0] if x.tag == "after" else cli.fname(x)
        inner = x.a[1][x.a[2]] if x.tag == "after" else (args(x) or [None])[0]
        if name.split("::")[-1] in part and inner is not None:
            R.check(False, rule, where + ": start", f"applies only a part of the edits: {name}")
            return None
        if inner is None or not hasattr(inner, "tag"):
            break
        x = inner
    a = args(over) if cli.fname(over) in ("Vec::split_off",) else None
    at = a[1] if a and a[0] is changes else None
    if at is None:
        R.undecided(rule, where + ": start", f"applies {show(over)[:150]}")
        return None
    base, plus = at, 0
    if cli.fname(at) == "bin" or at.tag == "bin":
        b = args(at) if cli.fname(at) else at.a
        if b[0] == "Add" and b[2].tag == "int":
            base, plus = b[1], b[2].a[0]
    f = base if base.tag == "fidx" else None
    if f is None:
        R.undecided(rule, where + ": start", f"applies the edits from {show(at)[:150]}")
        return None
    R.check(f.a[0] is changes and f.a[1] == "last", rule, where + ": start", f"starts at the {f.a[1]} full replacement")
    R.check(plus == 1, rule, where + ": rest", "goes on with the edit after it" if plus == 1 else f"goes on {plus} after it")
    t = cli.strip(init)
    if cli.fname(t) == "line_ending::normalize":
        t = cli.strip(args(t)[0])
    own = t.tag == "fld" and t.a[1] == "text" and (one := t.a[0]) is not None and (one.tag == "pay" and cli.fname(one.a[0]) == "last" and args(one.a[0])[0].tag == "after" and args(one.a[0])[0].a[0] == "Vec::split_off" or one.tag == "pay" and one.a[0].tag == "last")
    R.check(True if own else False if init is text0 else None, rule, where + ": replacement", "the text is that of the full replacement" if own else f"starts from {show(init)[:120]}")
    return True


def step(R, rule, where, conds, x, fold, el, full):
    init = fold.a[3]
    text = mk("phi", fold.a[2], 0, init)
    rng = payload(mk("fld", el, "range"), "Some", 0)
    if isvar(conds, mk("fld", el, "range"), "None"):
        t = cli.strip(x)
        t = cli.strip(args(t)[0]) if cli.fname(t) == "line_ending::normalize" else t
        return R.check(True if t is mk("fld", el, "text") else None, rule, where + ": replacement", "a full replacement replaces the text")
    if x.tag == "after" and x.a[0] == "String::replace_range":
        cur, span, new = x.a[1]
    else:
        return R.check(False if x.tag == "phi" else None, rule, where + ": edit", f"an edit makes {show(x)[:150]}")
    if cur.tag != "phi" or cur.a[2] is not init:
        return R.undecided(rule, where + ": edit", f"edits {show(cur)[:100]}")
    new = cli.strip(new)
    new = cli.strip(args(new)[0]) if cli.fname(new) == "line_ending::normalize" else new    # C20 decides about line endings
    ok = new is mk("fld", el, "text")
    R.check(True if ok else False if not unknown_parts(new) else None, rule, where + ": edit", "inserts the text of the edit" if ok else f"inserts {show(new)[:100]}")
    conv = outer(span, "from_proto::text_range")
    if len(conv) != 1:
        return R.undecided(rule, where + ": range", show(span)[:150])
    r, idx, enc = args(conv[0])
    R.check(True if r is rng else None if unknown_parts(r) else False, rule, where + ": range", "replaces the range of the edit" if r is rng else f"replaces {show(r)[:100]}")
    R.check(enc is mk("arg", "position_encoding") or None, rule, where + ": encoding", "with the encoding given")
    valid(R, rule, where, conds, idx, cur, fold, el, rng, full)


def outer(t, name):
    """the outermost calls of `name` in a term"""
    out, todo, seen = [], [t], set()
    while todo:
        u = todo.pop()
        if id(u) in seen:
            continue
        seen.add(id(u))
        if cli.fname(u) == name:
            out.append(u)
        else:
            todo += [v for v in kids(u)]
    return out


def kids(t):
    todo, out = list(t.a), []
    while todo:
        v = todo.pop()
        if isinstance(v, (tuple, list)):
            todo += v
        elif hasattr(v, "tag"):
            out.append(v)
    return out


def valid(R, rule, where, conds, idx, cur, fold, el, rng, full):
    """is the line index valid for the lines of the edit"""
    where += ": index"
    if cli.fname(idx) == "LineIndex::new":
        t = args(idx)[0]
        return R.check(True if t is cur else None if unknown_parts(t) else False, rule, where, "the index is built from the text before the edit" if t is cur else f"the index is built from {show(t)[:100]}")
    init, vals = tracked(idx, fold)
    if idx is mk("arg", "line_index"):
        return R.check(False, rule, where, "the index given is used for every edit")
    if init is None:
        return R.undecided(rule, where, f"converts with {show(idx)[:150]}")
    fresh = all(v.tag == "phi" or cli.fname(v) == "LineIndex::new" and args(v)[0].tag == "phi" and args(v)[0].a[2] is fold.a[3] for v in vals)
    given = init is mk("arg", "line_index")
    current = cli.fname(init) == "LineIndex::new" and cli.strip(args(init)[0]) is cli.strip(fold.a[3]) or given and full is False
    if not fresh or not given and not current:
        return R.undecided(rule, where, f"converts with {show(idx)[:150]}")
    # an index from before: the edit ends strictly above the start of the edit before it
    end = mk("fld", mk("fld", rng, "end"), "line")
    about = False
    for t, c in conds.items():
        f, a = rel(t)
        if f is None:
            continue
        if not any(tracked(y, fold)[0] is not None for y in a):
            continue
        about = True
        tr = truth(conds, t)
        if f in ("gt", "ge"):
            a, f = a[::-1], {"gt": "lt", "ge": "le"}[f]
        if f == "le" or f == "eq":
            # not (y <= x) is x < y
            if f == "le" and tr is False:
                a, f, tr = a[::-1], "lt", True
            else:
                continue
        if tr is not True:
            continue
        lo, hi = a
        i2, v2 = tracked(hi, fold)
        if i2 is None or lo is not end:
            continue
        starts = all(v is mk("fld", mk("fld", rng, "start"), "line") for v in v2)
        # nothing converted yet: the index given is that of the text given, unless the text was replaced
        first = i2.tag == "int" and (current or i2.a[0] == 0)
        if full is None:
            return R.undecided(rule, where, "does not say whether the text was replaced")
        if starts and not first:
            return R.check(False if i2.tag == "int" else None, rule, where, "the index of the text that was replaced is used for the edits after it")
        if starts and first:
            return R.proved(rule, where, "an older index is used only above the start of every edit applied since it was built")
        return R.check(False if not any(unknown_parts(v) for v in v2) else None, rule, where, f"the older index is used above {show(i2)[:30]} / {[show(v)[-40:] for v in v2]}")
    R.check(False, rule, where, "an older index is used " + ("without the edit being strictly above those applied since" if about else "whatever was applied since"))


def tracked(x, fold):
    """(initial value, values after an iteration) of a loop variable"""
    if x.tag == "fold" and x.a[0] is fold.a[0]:
        return x.a[3], [v for _, v in x.a[4]]
    return None, []


def empty(conds):
    """do the conditions speak of there being no edits"""
    for t in conds:
        if t.tag in ("exists", "fold", "comp"):
            continue
        if any(cli.fname(u) in ("is_empty", "Vec::is_empty", "len", "Vec::len") or u.tag in ("len", "is_empty") for u in subterms(t)) and any(u.tag == "fld" and u.a[1] == "content_changes" for u in subterms(t)):
            return True
    return False


def handlers(R):
    rule = "C24.notify"
    P = R.prog
    docs = mk("fld", mk("arg", "state"), "documents")
    td = mk("fld", mk("arg", "params"), "text_document")
    uri = mk("fld", td, "uri")

    def opaque(p, res):
        return any(x and (x.startswith(("air_r_parser", "line_ending", "lsp::workspaces", "lsp::handlers_state::update_config", "lsp::main_loop::")) or x in (DOC + "::new", DOC + "::on_did_change")) for x in (p, res))
    base = "lsp::handlers_state::"
    # open
    fn = base + "did_open"
    R.fn(fn)
    I = R.interp()
    I.opaque_fn = opaque
    for s, v in R.summary(fn, "params lsp_state state", I):
        ins = [e for e in s.eff if e.tag == "eff" and e.a[0] == "HashMap::insert" and e.a[1][0] is docs]
        if not ins and any(u.tag == "eff" and u.a[0].startswith(("Entry::", "OccupiedEntry", "HashMap::entry")) for u in s.eff):
            R.check(False if any(u.tag == "eff" and u.a[0].startswith("Entry::or_") for u in s.eff) else None, rule, R.where(fn), "a document already stored under that name is kept")
            continue
        if len(ins) != 1:
            R.check(False if not ins and not any(u.tag == "eff" and "HashMap" in u.a[0] for u in s.eff) else None, rule, R.where(fn), "the document opened is stored" if ins else "the document opened is not stored")
            continue
        key, d = cli.strip(ins[0].a[1][1]), ins[0].a[1][2]
        R.check(True if key is uri else None if unknown_parts(key) else False, rule, R.where(fn) + ": key", "stored under its own name" if key is uri else f"stored under {show(key)[:80]}")
        if cli.fname(d) != "Document::new":
            R.undecided(rule, R.where(fn), f"stores {show(d)[:100]}")
            continue
        text, ver = cli.strip(args(d)[0]), args(d)[1]
        R.check(True if text is mk("fld", td, "text") else None if unknown_parts(text) else False, rule, R.where(fn) + ": text", "with the text the client sent" if text is mk("fld", td, "text") else show(text)[:80])
        own = ver.tag == "adt" and ver.a[1] == "Some" and ver.a[2][0] is mk("fld", td, "version")
        R.check(True if own else None if unknown_parts(ver) else False, rule, R.where(fn) + ": version", "and its version" if own else f"with the version {show(ver)[:60]}")
        early = s.eff.index(ins[0])
        R.check(True if not any(e.tag == "eff" and e.a[0] == "handlers_state::update_config" for e in s.eff[:early]) else None, rule, R.where(fn) + ": order", "the document is stored before its settings are asked for")
    # change
    fn = base + "did_change"
    R.fn(fn)
    I = R.interp()
    I.opaque_fn = opaque
    n = 0
    for s, k, v in split_res(I, R.summary(fn, "params state", I)):
        ch = [e for e in s.eff if e.tag == "eff" and e.a[0] == "Document::on_did_change"]
        if not ch:
            R.check(True if k == "Err" else None if empty(s.conds) else False, rule, R.where(fn), "no document of that name: reported" if k == "Err" else "a change is not applied, and its version not stored")
            continue
        n += 1
        d, edits, ver = ch[0].a[1]
        keys = [cli.strip(args(u)[1]) for u in subterms(d) if cli.fname(u) in ("HashMap::get_mut", "HashMap::get") and args(u)[0] is docs]
        R.check(True if keys == [uri] else False if keys and not unknown_parts(keys[0]) else None, rule, R.where(fn) + ": document", "the document the client names is changed")
        want = mk("fld", mk("arg", "params"), "content_changes")
        R.check(True if edits is want else None if unknown_parts(edits) and cli.fname(edits) not in ("Iterator::take", "Iterator::skip") else False, rule, R.where(fn) + ": edits", "by all the edits sent, in order" if edits is want else f"by {show(edits)[:100]}")
        R.check(True if ver is mk("fld", td, "version") else None if unknown_parts(ver) else False, rule, R.where(fn) + ": version", "with the version sent" if ver is mk("fld", td, "version") else show(ver)[:80])
        R.check(len(ch) == 1 or None, rule, R.where(fn) + ": once", "the edits are applied once")
    if not n:
        R.undecided(rule, R.where(fn), "no outcome changes a document")
    # close
    fn = base + "did_close"
    R.fn(fn)
    I = R.interp()
    I.opaque_fn = opaque
    for s, v in R.summary(fn, "params state", I):
        rm = [e for e in s.eff if e.tag == "eff" and e.a[0] in ("HashMap::remove", "HashMap::remove_entry") and e.a[1][0] is docs]
        keys = [cli.strip(e.a[1][1]) for e in rm]
        left = project(s.mem[("h", "state")], "documents")
        if rm and left is not mk("after", rm[0].a[0], rm[0].a[1], 0, rm[0].a[2]):
            R.check(False if left.tag == "arr" else None, rule, R.where(fn) + ": only", f"the documents become {show(left)[:100]}")
        R.check(True if keys == [uri] else False if not any(e.tag == "eff" and e.a[0].startswith("HashMap") for e in s.eff) or keys and not unknown_parts(keys[0]) else None, rule, R.where(fn), "the document closed, and no other, is forgotten" if keys == [uri] else f"forgets {[show(x)[:60] for x in keys]}")


def check(R):
    R.program(*CRATES)
    R.guard(lambda: new(R), "C24.new", DOC + "::new")
    R.guard(lambda: change(R), "C24.change", DOC + "::on_did_change")
    R.guard(lambda: writers(R), "C24.writers", DOC)
    R.guard(lambda: apply(R), "C24.apply", APPLY)
    R.guard(lambda: handlers(R), "C24.notify", "lsp::handlers_state")
