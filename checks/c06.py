"""C06: source with syntax errors is never formatted."""
from terms import *
from cases import *
import cli, lsp, mir

LEVEL = "proof"
TECHNIQUE = "path summaries from MIR of the parser entry point, format_source and both language server handlers: on every path that reaches a formatting call the parse formatted is known to have no error; call-site inventory of the formatting entry points"
EXPLANATION = ("air_r_parser::parse records no error only when tree-sitter's root node of the given text reports none, and has_error / into_error read that record. Every path of format_source, format_source_with_parse and the formatting handlers "
               "that reaches a formatting call has the condition that the very parse it formats has no error. No other function calls a formatting entry point.")
NOTE = "Relies on tree-sitter's documented meaning of Node::has_error (an error or a missing node anywhere below)."
PARSE = "air_r_parser::parse::parse"
WEAKER = ("Node::is_error", "Node::is_missing", "Node::is_extra", "Node::is_named", "Node::kind", "Node::child_count", "Node::named_child_count", "Node::child", "Node::named_child", "Node::has_changes")


def parser(R):
    rule = "C06.parser"
    P = R.prog
    R.fn(PARSE)
    where = R.where(PARSE)
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and x.startswith(("air_r_parser::parse::RWalk", "<air_r_parser::parse::RWalk", "<air_r_parser::treesitter", "air_r_parser::treesitter", "air_r_parser::parse::RParse", "air_r_parser::treesitter::RParse")) for x in (p, res))
    text = mk("arg", "text")
    n = 0
    for s, v in R.summary(PARSE, "text options", I):
        n += 1
        err = project(v, "error")
        has = err.a[1] if err.tag == "adt" and err.a[1] in ("Some", "None") else None
        if has is None:
            R.undecided(rule, where, f"the error recorded is {show(err)[:150]}")
            continue
        flags = {}
        other = []
        for t, c in s.conds.items():
            f = cli.fname(t)
            if f == "Node::has_error" and root_of(t.a[1][0]):
                flags[root_of(t.a[1][0])] = truth(s.conds, t)
            elif any(cli.fname(u).startswith(("Node::", "TreeCursor::")) for u in subterms(t)):
                other.append(t)
        case = f"{where}: error {has}"
        if has == "Some":
            R.proved(rule, case, "an error is recorded")
            continue
        trees = [t for t, b in flags.items() if b is False]
        if trees:
            same = all(text_of(t) is text for t in trees)
            R.check(True if same else None, rule, case, "no error only if the root node of the tree parsed from the text reports none")
        else:
            weak = all(cli.fname(u) in WEAKER or not cli.fname(u).startswith(("Node::", "TreeCursor::")) or cli.fname(u) == "Node::has_error" for t in other for u in subterms(t))
            loops = any(u.tag in ("exists", "found", "fold", "loop", "loopval") for t in other for u in subterms(t))
            R.check(False if weak and not loops and not any(b is False for b in flags.values()) else None, rule, case, "no error is recorded although the root node of the tree is not asked whether it has one")
    if not n:
        R.undecided(rule, where, "no outcome")


def root_of(t):
    t = cli.strip(t)
    return cli.strip(t.a[1][0]) if cli.fname(t) == "Tree::root_node" else None


def text_of(tree):
    if tree.tag == "pay" and cli.fname(tree.a[0]) == "Parser::parse":
        return cli.strip(tree.a[0].a[1][1])
    return None


def record(R):
    rule = "C06.record"
    this = mk("arg", "self")
    err = mk("fld", this, "error")
    fn = "air_r_parser::parse::Parse::has_error"
    R.fn(fn)
    I = R.interp()
    for s, b in split_bool(I, R.summary(fn, "self", I)):
        v = isvar(s.conds, err, "Some")
        R.check(None if v is None and unknown_parts(s.conds) else b is v, rule, R.where(fn), f"{b} when the record is {'present' if v else 'absent' if v is False else 'either'}")
    fn = "air_r_parser::parse::Parse::into_error"
    R.fn(fn)
    I = R.interp()
    for s, v in R.summary(fn, "self", I):
        R.check(True if v is err else None, rule, R.where(fn), f"returns {show(v)[:80]}")


def source(R):
    rule = "C06.source"
    S = cli.Source(R)
    n = 0
    for s, k, v in S.outs:
        for e in s.eff:
            if e.tag == "eff" and e.a[0] in lsp.FORMATTING:
                n += 1
                judge(R, rule, S.where, s, e)
        if k == "Ok" and not any(e.tag == "eff" and e.a[0] in lsp.FORMATTING for e in s.eff):
            for p in S.parse:
                if lsp.error_free(s.conds, p) is not True:
                    R.check(False if lsp.error_free(s.conds, p) is False else None, rule, S.where, f"succeeds with {show(v)[:60]} for a text that may have a syntax error")
    if not n:
        R.undecided(rule, S.where, "no formatting call found")
    fn = "workspace::format::format_source_with_parse"
    if fn in R.prog.fns:
        I = R.interp()
        I.opaque_fn = lambda p, res: any(x and x.startswith(("air_r_parser", "air_r_formatter")) for x in (p, res))
        for s, v in R.summary(fn, "source parse options", I):
            for e in s.eff:
                if e.tag == "eff" and e.a[0] in lsp.FORMATTING:
                    judge(R, rule, R.where(fn), s, e)


def judge(R, rule, where, s, e):
    trees = lsp.Request.trees(e)
    if len(trees) != 1:
        return R.undecided(rule, f"{where}: {e.a[0]}", f"the tree formatted comes from {len(trees)} parses")
    p = list(trees)[0]
    ok = lsp.error_free(s.conds, p)
    odd = [t for t in s.conds if cli.fname(t) not in ("Parse::has_error", "Parse::error") and any(cli.fname(u) in ("Parse::has_error", "Parse::error", "Parse::into_error", "Parse::into_result") for u in subterms(t))]
    R.check(True if ok else False if not odd else None, rule, f"{where}: {e.a[0]}", "the parse formatted is known to have no error" if ok else "a parse which may have an error is formatted")


def handlers(R, rule="C06.lsp"):
    for name, fn in lsp.HANDLERS.items():
        q = lsp.Request(R, fn)
        n = 0
        for s, k, v in q.outs:
            for e in q.formatting(s):
                n += 1
                judge(R, rule, f"{q.where}: {name}", s, e)
            if not q.formatting(s) and q.edits(k, v) is not False:
                R.undecided(rule, f"{q.where}: {name}", f"answers {show(v)[:80]} without formatting")
        if not n:
            R.undecided(rule, q.where, "no formatting call found")


ENTRY = ("air_r_formatter::format_node", "air_r_formatter::format_range", "air_r_formatter::format_sub_tree", "biome_formatter::format_node", "biome_formatter::format_range", "biome_formatter::format_sub_tree", "workspace::format::format_source_with_parse", "workspace::format::format_source")


def sites(R):
    """nothing else formats"""
    rule = "C06.sites"
    P = R.prog
    roots = list(lsp.HANDLERS.values()) + [cli.FORMAT_SOURCE, "workspace::format::format_source_with_parse", "air::commands::format::format"]
    seen = mir.reachable(P, roots)
    n = 0
    for p in sorted(P.fns):
        if p.startswith(("air_r_formatter", "<air_r_formatter")) or "::tests" in p:
            continue
        called = sorted({c["path"] for c in mir.names(P.fns[p]) if c["path"] in ENTRY})
        if not called:
            continue
        n += 1
        if p in seen:
            R.proved(rule, R.where(p), f"calls {', '.join(called)}, reached from the front ends above")
            continue
        # some other use of the formatter: judged on its own
        I = R.interp()
        I.opaque_fn = lambda q, res, p=p: not (q or "").startswith(p) and not (res or "").startswith(p)
        found = 0
        for s, v in R.summary(p, None, I):
            for e in s.eff:
                if e.tag == "eff" and e.a[0] in lsp.FORMATTING:
                    found += 1
                    judge(R, rule, R.where(p), s, e)
        if not found:
            R.undecided(rule, R.where(p), f"{', '.join(called)} was not found on its paths")
    if not n:
        R.undecided(rule, "lsp, workspace", "no call of a formatting entry point found")


def check(R):
    R.program("air", "lsp", "workspace", "settings", "line_ending", "fs", "air_r_formatter", "air_r_parser")
    R.guard(lambda: parser(R), "C06.parser", PARSE)
    R.guard(lambda: record(R), "C06.record", "air_r_parser::parse::Parse")
    R.guard(lambda: source(R), "C06.source", cli.FORMAT_SOURCE)
    R.guard(lambda: handlers(R), "C06.lsp", "lsp::handlers_format")
    R.guard(lambda: sites(R), "C06.sites", "workspace::format")
