"""C25: the language server returns no edits for excluded or unparsable documents."""
from terms import *
from cases import *
import cli, lsp
import c05, c06

LEVEL = "proof"
TECHNIQUE = "path-sensitive dataflow over MIR: each outcome of both formatting handlers with its conditions and the calls made, judged against the exclusion and parse decisions"
EXPLANATION = ("Every outcome of the formatting and range formatting handlers is derived from type-checked MIR (helpers inlined, parameters and server state symbolic). An outcome which formats is reached only with the exclusion "
               "decision of the document's own settings negative and its own parse known to be free of errors; an outcome reached with either decision positive answers without edits; what is formatted, the options and the edits come from the "
               "one stored document the request names.")
NOTE = "covers the decisions and their data; which lines a range request touches and the correctness of the syntax tree are not part of it"
STATE_DOCS = "documents"


def doc_uris(H, t):
    """the keys under which stored documents in a term were looked up"""
    out = []
    for u in subterms(t):
        f = cli.fname(u)
        if f in ("HashMap::get", "HashMap::get_mut", "HashMap::index", "Index::index") and args(u)[0].tag == "fld" and args(u)[0].a[1] == STATE_DOCS:
            out.append(cli.strip(args(u)[1]))
        elif u.tag == "index" and u.a[0].tag == "fld" and u.a[0].a[1] == STATE_DOCS:
            out.append(cli.strip(u.a[1]))
    return out


def part(t, field):
    """t is a field of a stored document"""
    t = cli.strip(t)
    while t.tag == "fld" and t.a[1] != field:
        return False
    return t.tag == "fld" and t.a[1] == field and (t.a[0].tag == "pay" or t.a[0].tag == "index" or bool(cli.fname(t.a[0])))


def data(R):
    rule = "C25.document"
    for kind, fn in lsp.HANDLERS.items():
        H = lsp.Request(R, fn)
        n = 0
        for s, k, v in H.outs:
            case = f"{H.where}: {kind}"
            for e in s.eff:
                if e.tag != "eff":
                    continue
                for x in e.a[1]:
                    for key in doc_uris(H, x):
                        n += 1
                        R.check(True if key is H.uri else None if unknown_parts(key) else False, rule, case, "works on the document the request names" if key is H.uri else f"works on the document stored for {show(key)[:80]}")
                for x in e.a[1]:
                    for u in subterms(x):
                        if cli.fname(u) == lsp.SETTINGS:
                            key = cli.strip(args(u)[1])
                            R.check(True if key is H.uri else None if unknown_parts(key) else False, rule, f"{case}: settings", "asks for the settings of the document" if key is H.uri else f"asks for the settings of {show(key)[:80]}")
            for e in H.formatting(s):
                options(R, H, case, e)
        if not n:
            R.undecided(rule, H.where, "no document is looked up")


def options(R, H, case, e):
    rule = "C25.options"
    found = []
    for x in e.a[1]:
        for u in subterms(x):
            if cli.fname(u) in ("WorkspaceSettings::to_format_options", "FormatSettings::to_format_options", "RFormatOptions::default", "RFormatOptions::new", "Default::default", "RFormatOptions::from_toml"):
                found.append(u)
    made = [u for u in found if cli.fname(u) == "WorkspaceSettings::to_format_options"]
    if not made:
        return R.check(False if found else None, rule, f"{case}: {e.a[0]}", f"formats with the options {show(found[0])[:120]}" if found else "where the options come from is not known")
    for u in made:
        a = args(u)
        ws, text, ds = cli.strip(a[0]), cli.strip(a[1]), cli.strip(a[2])
        ok = cli.fname(ws) == lsp.SETTINGS and cli.strip(args(ws)[1]) is H.uri
        R.check(True if ok else None if unknown_parts(ws) or cli.fname(ws) else False, rule, f"{case}: {e.a[0]}: workspace", "the options are those of the document's workspace" if ok else f"the options are those of {show(ws)[:100]}")
        for t, f, what in ((text, "contents", "text"), (ds, "settings", "editor settings")):
            own = part(t, f) and doc_uris(H, t) == [H.uri]
            R.check(True if own else False if doc_uris(H, t) or not unknown_parts(t, ok=()) and not cli.fname(t) else None, rule, f"{case}: {e.a[0]}: {what}", f"made for the document's own {what}" if own else f"the options are made with {show(t)[:100]}")
    # what is formatted is the stored text and its stored parse
    for p in lsp.Request.trees(e):
        own = part(p, "parse") and doc_uris(H, p) == [H.uri]
        R.check(True if own else None, rule, f"{case}: {e.a[0]}: parse", "formats the stored parse of the document")
    if e.a[0] == "format::format_source_with_parse":
        t = cli.strip(e.a[1][0])
        own = part(t, "contents") and doc_uris(H, t) == [H.uri]
        R.check(True if own else False if doc_uris(H, t) else None, rule, f"{case}: {e.a[0]}: text", "formats the stored text of the document" if own else f"formats {show(t)[:100]}")


def answers(R):
    """no edits where the parse has an error, nor where formatting found nothing to change"""
    rule = "C25.unparsable"
    for kind, fn in lsp.HANDLERS.items():
        H = lsp.Request(R, fn)
        n = 0
        for s, k, v in H.outs:
            for t, c in s.conds.items():
                parse = None
                if cli.fname(t) in ("Parse::has_error", "Parse::error"):
                    parse = cli.strip(t.a[1][0])
                elif t.tag == "fld" and t.a[1] == "error":
                    parse = t.a[0]
                if parse is None or lsp.error_free(s.conds, parse) is not False:
                    continue
                n += 1
                ed = H.edits(k, v)
                R.check(True if ed is False else ed if ed is None else False, rule, f"{H.where}: {kind}", "no edits for a document with a syntax error" if ed is False else f"a document with a syntax error is answered with {show(v)[:100]}")
        if not n:
            R.undecided(rule, H.where, "no outcome for a document with a syntax error")


def decision_used(R):
    """an outcome with edits or formatting knows both decisions (shared with C05 and C06)"""
    c05.requests(R, "C25.excluded")
    c06.handlers(R, "C25.unparsable")


def check(R):
    R.program(*sorted(set(cli.ALL) | set(lsp.CRATES)))
    R.guard(lambda: decision_used(R), "C25.excluded", "lsp::handlers_format")
    R.guard(lambda: answers(R), "C25.unparsable", "lsp::handlers_format")
    R.guard(lambda: data(R), "C25.document", "lsp::handlers_format")
