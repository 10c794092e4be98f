"""C26 A project's configuration file overrides editor settings."""
import cli
import mir
import server
from cases import *
from terms import *

LEVEL = "proof"
TECHNIQUE = "outcome summaries over MIR of the option lookup (field by field, against a merge table), of the request path and of the editor's conversions; who-writes-this-field enumeration for the editor settings of a document"
EXPLANATION = ("The options of a document governed by a configuration file are that file's, computed from the document's own text, and depend on no editor setting; without one they are the defaults in which indent style, "
               "indent width and line width are each replaced by the editor's value of the same name when there is one, and every other option is the default. The editor's values of a formatting request are recorded for the "
               "request's document before it is formatted: `insertSpaces` as the style, `tabSize` as the width if it is an allowed width. No other function writes the editor settings of a document, a document starts without any, "
               "and a change of text keeps them.")
NOTE = "which configuration file applies is C07/C27, the conversion of a file's settings to options is C08, that the options reach the formatter is C25, the editor's configuration answers are C29"

OPTS = "air_r_formatter::context::RFormatOptions"
BASE = "FormatSettings::to_format_options"
MERGED = ("indent_style", "indent_width", "line_width")


def op_(t):
    return t.a[0] if t.tag in ("call", "ecall") else t.tag


def tail(t):
    return "::".join(op_(t).rsplit("::", 2)[-2:])


def fld(t, *ns):
    for n in ns:
        t = mk("fld", t, n)
    return t


def lookup(R):
    rule = "C26.options"
    fn = [p for p in R.prog.fns if p.startswith("lsp::workspaces::WorkspaceSettings") and p.endswith("::to_format_options")]
    if len(fn) != 1:
        return R.undecided(rule, "WorkspaceSettings::to_format_options", "not found")
    fn = fn[0]
    fields = [f["name"] for f in R.prog.adts[OPTS]["variants"][0]["fields"]] if OPTS in R.prog.adts else []
    if set(MERGED) - set(fields):
        return R.undecided(rule, OPTS, f"fields {fields}")
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and x.endswith("::" + BASE) for x in (p, res))
    me, src, ds = mk("arg", "self"), mk("arg", "source"), mk("arg", "ds")
    where = R.where(fn)
    seen = set()
    for s0, v in R.summary(fn, "self source ds", I):
        for s, kind in I.split(s0, me, "lsp::workspaces::WorkspaceSettings", ("Toml", "Fallback")):
            seen.add(kind)
            base = [mk("ecall", *e.a) for e in s.eff if e.tag == "eff" and tail(mk("ecall", *e.a)) == BASE]
            used = [b for b in base if b in set(subterms(v))]
            inner = payload(me, kind, 0)
            at = f"{where}: {kind}"
            if len(used) != 1:
                R.undecided(rule, at, f"options computed by {len(used)} lookups")
                continue
            b = used[0]
            own = cli.strip(args(b)[0]) is fld(inner, "format")
            other = any(u.tag == "fld" and u.a[1] == "format" for u in subterms(args(b)[0]))
            R.check(True if own else (False if other else None), rule, f"{at}: source of the options", "the settings found for the document" if own else f"options from {show(args(b)[0])[:80]}")
            txt = cli.strip(args(b)[1])
            R.check(True if txt is src else (False if txt.tag == "str" else None), rule, f"{at}: text", "line endings are inferred from the document's own text" if txt is src else f"line endings inferred from {show(txt)[:60]}")
            for f in fields:
                got = cli.strip(project(v, f))
                old = fld(b, f)
                d = fld(ds, f)
                w = f"{at}: {f}"
                if kind == "Toml":
                    good = got is old or got is cli.strip(old)
                    R.check(True if good else (False if ds in set(subterms(got)) else None), rule, w, "the file's option alone" if good else f"is {show(got)[:80]}")
                    continue
                c = variant(s, d) if f in MERGED else None
                if f not in MERGED:
                    good = got is old
                    R.check(True if good else (False if ds in set(subterms(got)) else None), rule, w, "is the default" if good else f"is {show(got)[:80]}")
                elif c == "Some":
                    x = payload(d, "Some", 0)
                    good = conv(got) is x
                    wrong = got is old or ds in set(subterms(got))
                    R.check(True if good else (False if wrong else None), rule, w, "is the editor's value" if good else f"the editor's value is not used: {show(got)[:80]}")
                elif c == "None":
                    good = got is old or got.tag == "adt" and not got.a[2] and variant(s, old) == got.a[1]
                    other = any(t.tag == "ecall" and t is not b for t in s.conds)   # depends on a call that is not understood
                    R.check(True if good else (False if ds in set(subterms(got)) or got.tag == "adt" and not other else None), rule, w, "without an editor value the default stays" if good else f"is {show(got)[:80]}")
                else:
                    x = [u for u in subterms(got) if u is d]
                    unw = op_(got).endswith("unwrap_or") and cli.strip(args(got)[0]) is d and cli.strip(args(got)[1]) is old
                    R.check(True if unw else (None if x else False if got is old else None), rule, w, "is the editor's value if there is one" if unw else "the editor's value is not used")
    for k in ("Toml", "Fallback"):
        if k not in seen:
            R.undecided(rule, where, f"no outcome for {k}")


def conv(t):
    """through conversions between option types"""
    while True:
        u = cli.strip(t)
        if op_(u).split("::")[-1] in ("from", "into") and len(args(u)) == 1:
            u = args(u)[0]
        if u is t:
            return t
        t = u


def variant(s, t):
    c = s.conds.get(t)
    return next(iter(c[1])) if c and c[0] == "v" and len(c[1]) == 1 else None


def request(R):
    """the request's options are recorded for its own document first"""
    rule = "C26.request"
    outs, _ = server.dispatch(R)
    n = {}
    for o in outs:
        if o.kind != "Request" or o.variant not in ("DocumentFormatting", "DocumentRangeFormatting"):
            continue
        n[o.variant] = n.get(o.variant, 0) + 1
        calls = o.calls()
        at = f"{R.where(server.HANDLE)}: {o.variant}"
        f = [i for i, e in enumerate(calls) if "formatting" in e.a[0] and e.a[0].startswith("handlers_format::")]
        rec = [i for i, e in enumerate(calls) if e.a[0].endswith("::did_change_formatting_options")]
        if not f:
            R.undecided(rule, at, "no formatting handler is called")
            continue
        if not rec:
            h = R.prog.fns.get(REQUEST[o.variant])
            # a handler that only reads the open documents cannot record anything
            inside = h is None or any("&mut" in l[0] or "&'" in l[0] and "mut " in l[0] for l in h["body"]["locals"][1:h["body"]["argc"] + 1])
            inside = inside or any(e.tag == "store" for e in o.s.eff)
            R.check(None if inside else False, rule, at, "the request's options are recorded" if inside else "the request's options are ignored")
            continue
        e = calls[rec[0]]
        want = [fld(o.params, "text_document", "uri"), fld(o.params, "options")]
        for k, (a, w) in enumerate(zip(e.a[1], want)):
            a = cli.strip(a)
            R.check(True if a is w else (None if unknown_parts(a) else False), rule, f"{at}: {('document', 'options')[k]}", "those of the request" if a is w else f"{show(a)[:80]}")
        R.check(rec[0] < f[0], rule, f"{at}: order", "recorded before the document is formatted" if rec[0] < f[0] else "recorded only after the document was formatted")
        w = [a for a in calls[f[0]].a[1] if any(u.tag == "after" and u.a[0].endswith("did_change_formatting_options") for u in subterms(a))]
        R.check(True if w or rec[0] > f[0] else None, rule, f"{at}: state", "the handler sees them")
    for v in REQUEST:
        if v not in n:
            R.undecided(rule, v, "request not found")


REQUEST = {"DocumentFormatting": "lsp::handlers_format::document_formatting", "DocumentRangeFormatting": "lsp::handlers_format::document_range_formatting"}


def record(R):
    rule = "C26.record"
    fn = "lsp::handlers_state::did_change_formatting_options"
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and x.endswith("::indent_width_from_usize") for x in (p, res))
    where = R.where(fn)
    uri, opts, state = mk("arg", "uri"), mk("arg", "opts"), mk("arg", "state")
    n = 0
    for s, v in R.summary(fn, "uri opts state", I):
        get = [mk("ecall", *e.a) for e in s.eff if e.tag == "eff" and tail(mk("ecall", *e.a)) in ("HashMap::get_mut", "HashMap::entry")]
        stores = [e for e in s.eff if e.tag == "store"]
        odd = [e for e in s.eff if e.tag in ("foreach", "loopeff")]
        if len(get) != 1 or tail(get[0]) != "HashMap::get_mut" or odd:
            R.undecided(rule, where, "lookup of the document not understood")
            continue
        g = get[0]
        key = cli.strip(args(g)[1])
        R.check(True if key is uri else (False if not unknown_parts(key) else None), rule, f"{where}: document", "the document of the request" if key is uri else f"document {show(key)[:60]}")
        k = variant(s, g)
        at = f"{where}: {show_conds(s.conds)[:120]}"
        if k == "None":
            R.check(not stores, rule, at, "an unknown document is left alone")
            continue
        n += 1
        doc = payload(g, "Some", 0)
        put = {}
        other = []
        for e in stores:
            pl, val = e.a[0], e.a[1]
            if pl is fld(doc, "settings"):
                for f in MERGED:
                    put[f] = project(val, f)
            elif pl.tag == "fld" and pl.a[0] is fld(doc, "settings") and pl.a[1] in MERGED:
                put[pl.a[1]] = val
            else:
                other.append(pl)
        R.check(True if not other else (False if any(doc in set(subterms(p)) for p in other) else None), rule, f"{at}: only settings", "nothing else of the document changes" if not other else f"also changes {show(other[0])[:80]}")
        st = put.get("indent_style")
        ins = truth(s.conds, fld(opts, "insert_spaces"))
        if st is None:
            R.violated(rule, f"{at}: indent style", "`insertSpaces` is not recorded")
        elif ins is None:
            dep = fld(opts, "insert_spaces") in set(subterms(st))
            R.check(None if dep else False, rule, f"{at}: indent style", "follows `insertSpaces`" if dep else f"does not follow `insertSpaces`: {show(st)[:60]}")
        else:
            x = payload(st, "Some", 0) if st.tag == "adt" and st.a[1] == "Some" else st
            want = "Space" if ins else "Tab"
            R.check(True if x.tag == "adt" and x.a[1] == want else (False if x.tag == "adt" else None), rule, f"{at}: indent style", f"insert spaces {ins} gives {show(x)[:40]}")
        wd = put.get("indent_width")
        if wd is None:
            R.violated(rule, f"{at}: indent width", "`tabSize` is not recorded")
        else:
            x = payload(wd, "Some", 0) if wd.tag == "adt" and wd.a[1] == "Some" else wd
            a = cli.strip(args(x)[0]) if op_(x).endswith("indent_width_from_usize") else None
            while a is not None and a.tag == "cast":
                a = cli.strip(a.a[0])
            good = a is fld(opts, "tab_size")
            R.check(True if good else (None if fld(opts, "tab_size") in set(subterms(x)) else False), rule, f"{at}: indent width", "is `tabSize`" if good else f"is {show(x)[:80]}")
        lw = put.get("line_width")
        R.check(True if lw is None or cli.strip(lw) is fld(doc, "settings", "line_width") else None, rule, f"{at}: line width", "is not touched")
    if not n:
        R.undecided(rule, where, "no outcome for an open document")
    width(R)


def width(R):
    """an editor width: itself if it is allowed, the default otherwise"""
    rule = "C26.width"
    fn = "lsp::settings_vsc::indent_width_from_usize"
    if fn not in R.prog.fns:
        return R.undecided(rule, fn, "not found")
    w = mk("arg", "w")
    where = R.where(fn)
    got = []
    for s, v in R.summary(fn, "w", R.interp()):
        x = cli.strip(v)
        while x.tag == "adt" and len(x.a[2]) == 1:
            x = cli.strip(x.a[2][0])
        c = s.conds.get(w)
        if any(t is not w for t in s.conds) or c is not None and c[0] != "i":
            R.undecided(rule, where, show_conds(s.conds)[:100])
            return
        got.append((c[1] if c else None, x))
    for lo, hi, want in ((1, 24, "self"), (0, 0, "default"), (25, 255, "default"), (256, 1 << 32, "default")):
        hit = [x for r, x in got if r is None or any(a <= hi and (b is None or b >= lo) for a, b in ((a if a is not None else -1 << 70, b if b is not None else 1 << 70) for a, b in r))]
        if not hit:
            R.undecided(rule, where, f"{lo}..{hi}: no outcome")
            continue
        for x in hit:
            while x.tag == "cast":
                x = cli.strip(x.a[0])
            if want == "self":
                R.check(True if x is w else (False if x.tag == "int" else None), rule, f"{where}: {lo}..{hi}", "an allowed width is used" if x is w else f"an allowed width gives {show(x)[:40]}")
            else:
                R.check(True if x.tag == "int" and x.a[0] == 2 else (False if x is w or x.tag == "int" else None), rule, f"{where}: {lo}..{hi}", "a width that is not allowed gives the default" if x.tag == "int" and x.a[0] == 2 else f"a width that is not allowed gives {show(x)[:40]}")


def writers(R):
    rule = "C26.only"
    P = R.prog
    docs = "lsp::documents::Document"
    if docs not in P.adts:
        return R.undecided(rule, docs, "not found")
    out = mir.writers(P, docs, {"settings"})
    out2 = mir.writers(P, "lsp::settings::DocumentSettings", set(MERGED))
    allowed = ("lsp::handlers_state::did_change_formatting_options", "lsp::handlers_state::update_documents_config")
    inner = mir.reachable(P, [a for a in allowed if a in P.fns])
    n = 0
    for p, hows in sorted(list(out.items()) + list(out2.items())):
        n += 1
        if any(p == a or p.startswith(a + "::{closure") for a in allowed):
            R.check(True, rule, p, "records the editor's values")
            continue
        how = {h for h, f in hows}
        # building a value is no change of an existing document
        if how <= {"new"}:
            ok = p.startswith(("lsp::documents::Document::", "<lsp::documents::", "lsp::settings", "<lsp::settings")) or "serde" in p
            R.check(True if ok else None, rule, p, "builds a value")
            continue
        conf = how - {"new", "ref?", "set?"}
        called = p in inner
        if called and all(q in inner or q in allowed or q == p for q, f in P.fns.items() if f.get("body") and any(p in mir.targets(P, c) for c in mir.names(f))):
            R.check(True, rule, p, "records the editor's values")
            continue
        R.check(False if conf and not called and not derived(p) else (True if derived(p) else None), rule, p, "writes the editor settings of a document" if conf else "may write the editor settings")
    if not n:
        R.undecided(rule, docs, "no writer found")
    # a document starts without editor values
    fn = docs + "::new"
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and (x.startswith(("air_r_parser", "line_ending")) or "LineIndex" in x) for x in (p, res))
    for s, v in R.summary(fn, "contents version position_encoding", I):
        st = project(v, "settings")
        for f in MERGED:
            x = project(st, f)
            R.check(True if x.tag == "adt" and x.a[1] == "None" else (False if x.tag == "adt" else None), "C26.new", f"{R.where(fn)}: {f}", "no editor value yet" if x.tag == "adt" and x.a[1] == "None" else f"starts with {show(x)[:60]}")


def derived(p):
    return p.startswith("<") and any(" as " + t in p for t in ("core::", "serde")) or "_::<impl serde" in p


def check(R):
    R.program(*server.CRATES, "air_r_formatter")
    lookup(R)
    request(R)
    record(R)
    writers(R)
