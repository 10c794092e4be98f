"""What a formatting rule prints: each successful path as the sequence of syntax parts, literal texts and comments."""
from cases import *
from terms import *
import cli

CRATES = ("air_r_formatter", "air_r_syntax")
SYNTAX = "air_r_syntax::generated::nodes::"
RULE = "air_r_formatter::FormatNodeRule"


def op_(t):
    return t.a[0] if t.tag in ("call", "ecall") else t.tag


def opaque(p, res, more=()):
    for x in (p, res):
        if not x:
            continue
        if x.endswith("::format") or x.endswith("::into_format") or "AsFormat" in x or "IntoFormat" in x:
            return True
        if (x.startswith("air_r_syntax::") or x.startswith("<air_r_syntax::")) and not x.split("::")[-1].startswith("as_"):
            return True
        if any(x.endswith(m) for m in more):
            return True
    return False


# builders that print what they are given
THROUGH = {"builders::group", "builders::block_indent", "builders::soft_block_indent", "builders::soft_space_or_block_indent", "builders::soft_line_indent_or_space", "builders::soft_line_indent_or_hard_space",
           "builders::indent", "builders::align", "builders::dedent", "builders::dedent_to_root", "builders::labelled", "Group::should_expand", "Group::with_group_id", "MemoizeFormat::memoized", "Memoized::new",
           "AsFormat::format", "IntoFormat::into_format", "FormatRefWithRule::with_options", "FormatOwnedWithRule::with_options", "FormatRefWithRule::new", "FormatOwnedWithRule::new", "verbatim::format_or_verbatim",
           "Argument::new", "Result::Ok", "Arguments::new", "format_with", "Arguments::from", "AsFormat::into_format"}
LAYOUT = {"builders::space", "builders::hard_space", "builders::maybe_space", "builders::soft_line_break", "builders::hard_line_break", "builders::empty_line", "builders::soft_line_break_or_space",
          "builders::soft_line_break_or_hard_space", "builders::expand_parent", "builders::line_suffix_boundary"}
COMMENTS = {"trivia::format_leading_comments": "leading", "trivia::format_trailing_comments": "trailing", "trivia::format_dangling_comments": "dangling"}
TOKENS = {"trivia::format_removed": "removed", "trivia::format_replaced": "replaced", "trivia::format_only_if_breaks": "removed", "trivia::format_trimmed_token": "part"}
VERBATIM = {"verbatim::format_verbatim_node", "verbatim::format_suppressed_node", "verbatim::format_bogus_node", "verbatim::format_verbatim_skipped"}
# uses of the formatter that print nothing
SILENT = {"Formatter::comments", "Formatter::context", "Formatter::options", "Formatter::state_snapshot", "Formatter::state_mut", "Formatter::state", "Formatter::restore_state_snapshot", "Formatter::group_id",
          "BufferExtensions::start_recording", "Recording::stop", "RemoveSoftLinesBuffer::new", "Recorded::will_break", "Comments::mark_suppression_checked", "FormatState::track_token", "Formatter::snapshot",
          "Buffer::state", "Buffer::state_mut", "Formatter::context_mut", "Buffer::elements", "Formatter::intern", "VecBuffer::new", "VecBuffer::into_vec", "Formatter::join", "Formatter::join_with",
          "Formatter::join_nodes_with_soft_line", "Formatter::join_nodes_with_hardline", "JoinBuilder::finish", "JoinNodesBuilder::finish"}
PRINTS = {"Buffer::write_fmt", "Recording::write_fmt", "Formatter::write_fmt", "BufferExtensions::write_fmt"}


def peel(t):
    """the term without clones, conversions and the success of a lookup"""
    while True:
        u = cli.strip(t)
        if u.tag in ("payload", "pay"):
            u = u.a[0]
        elif u.tag in ("call", "ecall") and op_(u) in ("Option::as_ref", "Clone::clone", "Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect"):
            u = args(u)[0]
        if u is t:
            return t
        t = u


WRITES = {"Buffer::write_element", "Formatter::write_element", "BufferExtensions::write_elements", "Buffer::write_elements"}


def T_eff(name, a):
    return mk("eff", name, tuple(a), 0)


def peel_box(t):
    t = cli.strip(t)
    while t.tag in ("call", "ecall") and op_(t).split("::")[-1] in ("into_boxed_slice", "into", "from"):
        t = cli.strip(args(t)[0])
    return t


def buffer(t):
    """the writes [(name, arguments)] into a buffer created here, or None"""
    steps = []
    while True:
        t = cli.strip(t)
        if t.tag == "after":
            steps.append((t.a[0], t.a[1]))
            t = t.a[1][t.a[2]]
        elif op_(t) == "VecBuffer::new":
            return steps[::-1]
        else:
            return None


def norm(t):
    """accessors are pure: the same part whichever call it came from"""
    t = peel(t)
    if t.tag == "ecall":
        return mk("call", t.a[0], tuple(norm(x) for x in args(t)))
    if t.tag == "call":
        return mk("call", t.a[0], tuple(norm(x) for x in args(t)))
    if t.tag == "fld":
        return mk("fld", norm(t.a[0]), *t.a[1:])
    return t


class Emit:
    def __init__(self, R, stop=()):
        self.R, self.P = R, R.prog
        self.stop = tuple(stop)
        self.depth = 0
        self.memo = {}

    def interp(self):
        I = self.R.interp()
        I.opaque_fn = lambda p, res: opaque(p, res, self.stop)
        return I

    # ---------------------------------------------------------- functions
    def run(self, path, names, conds=None):
        """[(conditions, [atom])] for every successful path of a function that prints"""
        I = self.interp()
        out = []
        for s, v in self.R.summary(path, names, I, conds=conds):
            if v.tag == "adt" and v.a[1] == "Err":
                continue
            out += self.effects(s.eff, v, dict(s.conds))
        return out

    def effects(self, effs, v, conds):
        cur = [(conds, [])]
        for e in effs:
            nxt = []
            for c, atoms in cur:
                for c2, more in self.effect(e, c):
                    nxt.append((c2, atoms + more))
            cur = nxt
        return cur

    def effect(self, e, conds):
        if e.tag == "foreach":
            return self.loop(e, conds)
        if e.tag in ("loopeff", "loop"):
            return [(conds, [("unknown", e)])] if self.writes(e) else [(conds, [])]
        if e.tag != "eff":
            return [(conds, [])]
        name, a = e.a[0], e.a[1]
        if name in PRINTS:
            return [(conds, [])] if buffer(a[0]) is not None else self.flat(a[1], conds)
        if name == "Format::fmt" or name == "FormatRule::fmt" and False:
            return self.flat(a[0], conds)
        if name.endswith("::fmt") and len(a) == 2:
            return self.flat(a[0], conds)
        if name in ("FormatNodeRule::fmt_leading_comments", "FormatNodeRule::fmt_trailing_comments", "FormatNodeRule::fmt_dangling_comments", "FormatNodeRule::fmt_fields", "FormatNodeRule::fmt_suppressed"):
            return [(conds, [("call", name.rsplit("_", 1)[0].rsplit("fmt_", 1)[-1] if name.endswith("_comments") else name.rsplit("::", 1)[-1], a[1])])]
        if name in SILENT or name in THROUGH or name in LAYOUT:
            return [(conds, [])]
        if name in WRITES and a and buffer(a[0]) is not None:
            return [(conds, [])]  # what it holds counts where it is used
        got = self.written(e, conds)
        if got is not None:
            return got
        if self.writes(e):
            return [(conds, [("unknown", e)])]
        return [(conds, [])]

    def written(self, e, conds):
        """atoms of an effect or call that writes elements or entries"""
        name, a = (e.a[0], e.a[1]) if e.tag == "eff" else (op_(e), args(e))
        if name in ("Buffer::write_element", "Formatter::write_element"):
            return self.element(a[1], conds)
        if name in ("BufferExtensions::write_elements", "Buffer::write_elements", "Formatter::write_elements"):
            bufs = [t for t in subterms(a[1]) if op_(t) == "VecBuffer::into_vec"]
            if len(bufs) == 1:
                return self.contents(args(bufs[0])[0], conds)
            return [(conds, [("unknown", a[1])])]
        if name.endswith("JoinBuilder::entries") or name.endswith("JoinNodesBuilder::entries"):
            return [(conds, [("list", cli.strip(a[1]))])]
        if name.endswith("JoinBuilder::entry"):
            return self.flat(a[1], conds)
        return None

    def element(self, x, conds):
        x = cli.strip(x)
        if x.tag == "adt" and x.a[1] in ("Tag", "Space", "HardSpace", "Line", "ExpandParent", "LineSuffixBoundary"):
            return [(conds, [])]
        if x.tag == "adt" and x.a[1] == "BestFitting":
            arr = cli.strip(payload(x, "BestFitting", 0))
            while arr.tag in ("call", "ecall") and args(arr) and "::from_" in op_(arr):
                arr = peel_box(args(arr)[0])
            if arr.tag != "arr":
                return [(conds, [("unknown", x)])]
            cur = [(conds, [])]
            for v in arr.a[0]:
                v = peel_box(v)
                more = self.contents(args(v)[0], conds) if op_(v) == "VecBuffer::into_vec" else [(conds, [("unknown", v)])]
                cur = [(c2, vs + [tuple(at)]) for c, vs in cur for c2, at in more]
            return [(c, [("fits", tuple(vs))]) for c, vs in cur]
        y = x
        while y.tag in ("payload", "pay"):
            y = y.a[0]
        if op_(y) == "Formatter::intern":
            return self.flat(args(y)[1], conds)
        return [(conds, [("element", x)])]

    def contents(self, t, conds):
        """what a buffer of its own holds"""
        steps = buffer(t)
        if steps is None:
            return [(conds, [("unknown", t)])]
        cur = [(conds, [])]
        for name, a in steps:
            nxt = []
            for c, at in cur:
                if name in PRINTS:
                    more = self.flat(a[1], c)
                elif name in SILENT:
                    more = [(c, [])]
                else:
                    more = self.written(T_eff(name, a), c) or [(c, [("unknown", T_eff(name, a))])]
                nxt += [(c2, at + m) for c2, m in more]
            cur = nxt
        return cur

    @staticmethod
    def writes(e):
        """may the effect print"""
        if e.tag == "eff":
            if e.a[0] in SILENT:
                return False
            a = e.a[1]
            return any(x.tag in ("mref",) or x.tag == "after" or x.tag == "arg" and x.a[0] == "f" for x in a if isinstance(x, T)) and not e.a[0].startswith(("Vec::", "slice::", "Option::"))
        return any(t.tag == "eff" and Emit.writes(t) for t in subterms(e) if t is not e)

    def loop(self, e, conds):
        over, rev, cases = e.a[0], e.a[1], e.a[2]
        alts = []
        for cs, body in cases:
            effs = body[1] if body and isinstance(body[0], tuple) else body
            c2 = dict(conds)
            for t, c in (cs.items() if isinstance(cs, dict) else cs):
                c2[t] = c
            alts += [(tuple((t, c) for t, c in c.items() if t not in conds), tuple(at)) for c, at in self.effects(effs, None, c2)]
        if all(not at for _, at in alts):
            return [(conds, [])]
        return [(conds, [("each", over, rev, e.a[3] if len(e.a) > 3 else None, tuple(alts))])]

    # ---------------------------------------------------------- values
    def flat(self, t, conds):
        t = cli.strip(t)
        n = op_(t)
        if t.tag == "format":
            return self.seq(t.a[0], conds)
        if t.tag == "arr":
            return self.seq(t.a[0], conds)
        if n == "format":
            return self.seq(args(t)[0].a[0] if isinstance(args(t)[0], T) else args(t)[0], conds)
        if n in LAYOUT:
            return [(conds, [])]
        if n in ("builders::text", "builders::token"):
            x = args(t)[0]
            return [(conds, [("lit", x.a[0] if x.tag == "str" else show(x))])]
        if n in COMMENTS:
            return [(conds, [("comments", COMMENTS[n], self.node(args(t)[0]))])]
        if n.startswith("FormatDanglingComments::"):
            return self.flat(args(t)[0], conds)
        if n in TOKENS:
            x = norm(args(t)[0])
            if TOKENS[n] == "part":
                return [(conds, [("unknown", t)])]
            extra = [("as", x, args(t)[1])] if TOKENS[n] == "replaced" else []
            return [(conds, [("part", x, TOKENS[n])] + extra)]
        if n in VERBATIM:
            return [(conds, [("verbatim", self.node(args(t)[0]), n)])]
        if n in ("builders::if_group_breaks", "builders::if_group_fits_on_line"):
            out = []
            for c, at in self.flat(args(t)[0], conds):
                if all(x[0] == "lit" for x in at):
                    out.append((c, [x[:2] + (n,) for x in at]))
                else:
                    out.append((c, [("sometimes", n, tuple(at))]))
            return out
        if n in ("builders::format_with", "builders::format_once"):
            return self.closure(args(t)[0], conds)
        if n == "AsFormat::format" or n in ("IntoFormat::into_format", "FormatRefWithRule::new", "FormatOwnedWithRule::new"):
            return self.whole(args(t)[0], conds)
        if n in THROUGH:
            return self.flat(args(t)[-1] if n == "builders::labelled" else args(t)[-1] if n in ("builders::align",) else args(t)[0], conds)
        if t.tag == "adt":
            if t.a[1] in ("Ok", "Some"):
                return self.flat(payload(t, t.a[1], 0), conds)
            if t.a[1] in ("None",):
                return [(conds, [])]
            return self.local(t, conds)
        if t.tag in ("payload", "pay"):
            return self.flat(t.a[0], conds)
        if t.tag == "tup" and not t.a[0]:
            return [(conds, [])]
        if t.tag in ("arg", "elem", "fld", "idx", "arg", "loopval"):
            return [(conds, [("fmt", norm(t))])]
        return [(conds, [("unknown", t)])]

    def seq(self, xs, conds):
        cur = [(conds, [])]
        for x in xs:
            cur = [(c2, at + more) for c, at in cur for c2, more in self.flat(x, c)]
        return cur

    def whole(self, x, conds):
        y = cli.strip(x)
        if y.tag == "adt" and y.a[1] in ("None", "Err"):
            return [(conds, [])]
        if y.tag == "adt" and y.a[1] in ("Ok", "Some"):
            return self.whole(payload(y, y.a[1], 0), conds)
        if y.tag in ("call", "ecall") and op_(y) in THROUGH | TOKENS.keys() | COMMENTS.keys() | VERBATIM | LAYOUT:
            return self.flat(y, conds)
        return [(conds, [("part", norm(x), "formatted")])]

    def node(self, x):
        x = norm(x)
        while op_(x) in ("AstNode::syntax", "AstNode::into_syntax") or op_(x).endswith("::syntax"):
            x = norm(args(x)[0])
        return x

    def closure(self, c, conds):
        c = cli.strip(c)
        if c.tag == "fn":
            return self.call(c.a[0], ["f"], conds, c)
        if c.tag != "clo":
            return [(conds, [("unknown", c)])]
        return self.call(c.a[0], [c, "f"], conds, c)

    def call(self, path, names, conds, t):
        if self.depth > 8 or not self.P.fn(path):
            return [(conds, [("unknown", t)])]
        self.depth += 1
        try:
            return self.run(path, names, conds)
        finally:
            self.depth -= 1

    def local(self, t, conds):
        """a format of this crate"""
        for (trait, name), impls in self.P.trait_impl.items():
            if name != "fmt" or not trait.startswith("biome_formatter::Format"):
                continue
            for st, ref, path in impls:
                if st.split("<")[0].lstrip("&") == t.a[0].split("<")[0] and trait.split("<")[0] == "biome_formatter::Format":
                    if any(path.endswith(s) or s in path for s in self.stop):
                        return [(conds, [("local", t)])]
                    return self.call(path, [t, "f"], conds, t)
        return [(conds, [("unknown", t)])]


def show_atom(a):
    k = a[0]
    if k == "part":
        return ("" if a[2] == "formatted" else a[2] + " ") + short(a[1])
    if k == "lit":
        return repr(a[1])
    if k == "comments":
        return f"{a[1]} comments of {short(a[2])}"
    if k == "verbatim":
        return f"verbatim {short(a[1])}"
    if k == "each":
        return f"for each of {show(a[1])[:60]}{' reversed' if a[2] else ''}: {{" + " | ".join("; ".join(show_atom(x) for x in at) for c, at in a[4]) + "}"
    if k == "sometimes":
        return f"{a[1]}({'; '.join(show_atom(x) for x in a[2])})"
    return f"{k} {show(a[1])[:120]}" if isinstance(a[1], T) else str(a)


def short(t):
    return show(t).replace("$node", "node")[:90]
