"""Path-sensitive value-flow summaries of MIR functions.

An abstract interpretation of the compiler's MIR: the value domain is the Herbrand universe of
terms.T (global value numbering), the state domain is partitioned by control-flow conditions over
those terms (variant sets, integer ranges, string sets, boolean atoms). Joins happen at control-flow
merges, loops are summarised to quantified conditions over their iterator (or left as havocked
loop values), calls to workspace functions are replaced by the callee's own summary. Nothing is
executed, no input is chosen and no solver is consulted."""
import re
from collections import defaultdict
from terms import *


def strip_generics(p):
    """remove `<...>` groups except a leading qualified-self group"""
    out, depth = [], 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            depth += 1
        elif c == ">" and p[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    s = "".join(out)
    while "::::" in s:
        s = s.replace("::::", "::")
    return s.strip(":")


_short = {}


def short(path):
    r = _short.get(path)
    if r is None:
        r = _short[path] = _shorten(path)
    return r


def _shorten(path):
    if path.startswith("<"):
        depth = 0
        for i, c in enumerate(path):
            if c == "<":
                depth += 1
            elif c == ">" and path[i - 1] != "-":
                depth -= 1
                if depth == 0:
                    inner, rest = path[1:i], path[i + 1:]
                    break
        if " as " in inner:
            tr = split_as(inner)[1]
            return strip_generics(tr).split("::")[-1] + rest
        return strip_generics(inner).split("::")[-1] + rest
    m = re.search(r"<impl (.*?)>::([A-Za-z_0-9]+)$", path)
    if m:
        body = m[1]
        if " for " in body:
            return strip_generics(body.split(" for ")[0]).split("::")[-1] + "::" + m[2]
        b = {"[T]": "slice", "[u8]": "slice"}.get(body, body)
        return strip_generics(b).split("::")[-1] + "::" + m[2]
    s = strip_generics(path)
    return "::".join(s.split("::")[-2:])


def split_as(inner):
    depth = 0
    for i in range(len(inner)):
        c = inner[i]
        if c == "<":
            depth += 1
        elif c == ">" and inner[i - 1] != "-":
            depth -= 1
        elif depth == 0 and inner.startswith(" as ", i):
            return inner[:i], inner[i + 4:]
    return inner, ""


def norm_ty(t):
    t = re.sub(r"'[a-z_]+ ", "", t)
    t = re.sub(r"<'[a-z_]+>", "", t)
    t = re.sub(r"'[a-z_]+, ", "", t)
    return t


def ty_head(t):
    t = norm_ty(t or "")
    while t.startswith("&"):
        t = t[1:].lstrip()
        if t.startswith("mut "):
            t = t[4:]
    return strip_generics(t) if not t.startswith("<") else t


class Prog:
    """All analysed crates' facts, indexed."""

    def __init__(self, crates):
        import facts
        self.crates = list(crates)
        self.fns, self.adts, self.impls, self.traits = {}, {}, [], []
        self.where = {}
        self.ext_enums = {}
        for c in crates:
            kinds = [k for _, k in facts.fact_files(c)]
            for k in kinds:
                d = facts.load(c, k)
                for f in d["fns"]:
                    p = f["path"] if k == "lib" else f["path"]
                    self.fns.setdefault(p, f)
                    f["crate"] = c
                for a in d["adts"]:
                    self.adts.setdefault(a["path"], a)
                for p, vs in d.get("extenums", ()):
                    self.ext_enums.setdefault(p, frozenset(vs))
                self.impls += d["impls"]
                self.traits += d["traits"]
        self.trait_impl = defaultdict(list)  # (trait path, item) -> [(self type, traitref, fn path)]
        for i in self.impls:
            if i["trait"]:
                for it in i["items"]:
                    if len(it) == 2:
                        self.trait_impl[(i["trait"], it[0])].append((norm_ty(i["self"]), norm_ty(i["traitref"] or ""), it[1]))
        self.derived = set()
        for i in self.impls:
            if any("AutomaticallyDerived" in a for a in i["attrs"]):
                for it in i["items"]:
                    self.derived.add(it[1])

    def fn(self, path):
        return self.fns.get(path)

    def find(self, suffix, crate=None):
        """functions whose path ends with suffix"""
        return [f for p, f in self.fns.items() if (p == suffix or p.endswith("::" + suffix)) and (crate is None or f["crate"] == crate)]

    def adt(self, path):
        return self.adts.get(strip_generics(path)) or self.adts.get(path)

    def resolve_trait(self, trait, name, selfty, full=None):
        """workspace impl of trait method for a (normalised) self type"""
        c = self.trait_impl.get((trait, name), ())
        hits = [x for x in c if x[0] == selfty and (full is None or x[1] == full)]
        if len(hits) == 1:
            return hits[0][2]
        if full is None or not hits:
            h = strip_generics(selfty)
            hits = [x for x in c if strip_generics(x[0]) == h and (full is None or x[1] == full)]
            if len(hits) == 1:
                return hits[0][2]
        return None


    def other_argument(self, trait, name, fn, targs):
        """is fn the impl of the trait for another concrete type argument than the call's?"""
        if len(targs) < 2:
            return False
        for st, ref, p in self.trait_impl.get((trait, name), ()):
            if p == fn and ref:
                m = re.search(r" as [^<]*<(.*)>>$", ref)
                if not m:
                    return False
                a, b = m.group(1), ", ".join(norm_ty(x) for x in targs[1:])
                concrete = lambda x: not re.search(r"(?<![A-Za-z0-9_:])([A-Z][A-Z0-9]?|Self|impl [A-Za-z].*)(?![A-Za-z0-9_:])", x)
                return concrete(a) and concrete(b) and strip_generics(a) != strip_generics(b)
        return False


class Unanalysable(Exception):
    pass


class State:
    __slots__ = ("mem", "conds", "eff")

    def __init__(self, mem, conds, eff):
        self.mem, self.conds, self.eff = mem, conds, eff

    def fork(self):
        return State(dict(self.mem), dict(self.conds), self.eff)


WIDTH = {f"{c}{n if n else 'size'}": (c == "i", n or 64) for c in "iu" for n in (0, 8, 16, 32, 64, 128)}


class Frame:
    __slots__ = ("id", "fn", "body", "subst", "depth", "info")


_bodyinfo = {}


def places_in_operand(o):
    return [o[1]] if o[0] in ("c", "m") else []


def base(p):
    return p if isinstance(p, int) else p[0]


def place_locals(p):
    if isinstance(p, int):
        return [p]
    return [p[0]] + [e[1] for e in p[1:] if isinstance(e, list) and e[0] == "i"]


class BodyInfo:
    """CFG facts of one body: reverse post-order, natural loops, liveness"""

    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [self.successors(b[2]) if not b[0] else [] for b in bl]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        onstack = {0}
        backs = []
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    backs.append((b, s))
                elif s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                stack.pop()
                onstack.discard(b)
                order.append(b)
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = defaultdict(list)
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        self.loops = {}
        for tail, head in backs:
            blk = self.loops.setdefault(head, {head})
            todo = [tail]
            while todo:
                x = todo.pop()
                if x in blk:
                    continue
                blk.add(x)
                todo += pred[x]
        # liveness
        use, deff = {}, {}
        self.mutref = set()
        for b in order:
            u, d = set(), set()
            for s in bl[b][1]:
                if isinstance(s, list) and len(s) >= 2 and isinstance(s[1], list):
                    for l in self.rv_locals(s[1]):
                        if l not in d:
                            u.add(l)
                    if s[1][0] in ("ref", "raw") and s[1][-1] not in ("shared", "fake"):
                        self.mutref.add(base(s[1][1]))
                    self._dest(s[0], u, d)
            t = bl[b][2]
            for l in self.term_locals(t):
                if l not in d:
                    u.add(l)
            if t[0] == "call":
                self._dest(t[3], u, d)
            elif t[0] == "return":
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in order}
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                out = set()
                for s in self.succ[b]:
                    out |= live.get(s, set())
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        self.live = live

    @staticmethod
    def _dest(p, u, d):
        if isinstance(p, int):
            d.add(p)
        else:
            for l in place_locals(p):
                if l not in d:
                    u.add(l)

    @staticmethod
    def successors(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])))
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [x for x in t[3:6] if isinstance(x, int) and not isinstance(x, bool)][:1]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "yield":
            return [t[2]]
        return []

    @staticmethod
    def rv_locals(r):
        k = r[0]
        out = []
        if k in ("ref", "raw", "discr"):
            return place_locals(r[1])
        for x in r[1:]:
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("c", "m"):
                    out += place_locals(x[1])
                elif x and isinstance(x[0], list):
                    for y in x:
                        if isinstance(y, list) and len(y) == 2 and y[0] in ("c", "m"):
                            out += place_locals(y[1])
        return out

    @staticmethod
    def term_locals(t):
        k = t[0]
        out = []
        if k == "switch":
            for p in places_in_operand(t[1]):
                out += place_locals(p)
        elif k == "call":
            for o in [t[1]] + t[2]:
                for p in places_in_operand(o):
                    out += place_locals(p)
        elif k == "yield":
            for p in places_in_operand(t[1]):
                out += place_locals(p)
        elif k == "assert":
            for p in places_in_operand(t[1]):
                out += place_locals(p)
        return out


def bodyinfo(fn):
    k = id(fn)
    r = _bodyinfo.get(k)
    if r is None:
        r = _bodyinfo[k] = BodyInfo(fn["body"])
    return r


MAX_STATES = 3000

from models import MODELS, PURE, TRANSPARENT, DISPLAY_TRANSPARENT, iter_val as models_iter_val  # noqa: E402


def isv(conds, t):
    c = conds.get(t)
    return next(iter(c[1])) if c and c[0] == "v" and len(c[1]) == 1 else None


def is_bool(t):
    """does the term hold a truth value"""
    if t.tag in ("not", "and", "or", "eq", "lt", "isv", "exists"):
        return True
    if t.tag in ("call", "ecall"):
        n = t.a[0].split("::")[-1]
        return n.startswith(("is_", "has_", "starts_with", "ends_with", "set_contains", "eq_ignore")) or n in ("contains", "contains_key", "any", "all")
    return False


class Interp:
    def __init__(self, prog, opaque=(), max_depth=24, opaque_fn=None, models=None, keep_log=False, effects=None, gate=False):
        self.gate = gate
        self.prog = prog
        self.opaque = set(opaque)
        self.opaque_fn = opaque_fn
        self.max_depth = max_depth
        self.fid = 0
        self.panics = []
        self.loopctx = []
        self.models = dict(MODELS)
        if models:
            self.models.update(models)
        self.keep_log = keep_log
        self.track_byref = False  # show which iterators are consumed through a reference
        self.const_cache = {}
        self.const_busy = set()
        self.inlined = set()
        self.unknown = set()   # external callees treated as uninterpreted
        self.spans = {}
        self.steps = 0
        self.step_limit = 400000

    # ---- entry points ----
    def summary(self, path, args=None, subst=None):
        """[(State, value)] for every way the function returns; panicking ends are in self.panics."""
        fn = self.prog.fn(path)
        if fn is None:
            raise Unanalysable(f"no function {path}")
        st = State({}, {}, ())
        body = fn["body"]
        if args is None:
            args = []
            for i in range(1, body["argc"] + 1):
                ty, name = body["locals"][i]
                name = name or self.arg_name(fn, i)
                if ty.startswith("&mut ") or ty.startswith("&'a mut ") or re.match(r"&('[a-z_]+ )?mut ", ty):
                    cell = ("h", name)
                    st.mem[cell] = mk("arg", name)
                    args.append(mk("mref", cell, ()))
                else:
                    args.append(mk("arg", name))
        outs = []
        for s, v in self.exec_fn(fn, args, st, 0, subst or {}):
            outs += self.drive(s, v, subst or {})
        return outs

    def drive(self, st, v, subst, turns=3):
        """an async function is summarised with its future polled to completion (every awaited future is ready in the end)"""
        if v.tag != "cor" or not turns or self.prog.fn(v.a[0]) is None:
            return [(st, v)]
        outs = []
        for s, r in self.exec_fn(self.prog.fn(v.a[0]), [v, mk("arg", "cx")], st, 0, dict(v.a[2]) or subst):
            outs += self.drive(s, r, subst, turns - 1)
        return outs

    @staticmethod
    def arg_name(fn, i):
        return f"a{i}"

    # ---- function execution ----
    def exec_fn(self, fn, args, st, depth, subst):
        if depth > self.max_depth:
            raise Unanalysable("inlining depth exceeded at " + fn["path"])
        if fn.get("tainted") or not fn.get("body"):
            raise Unanalysable("no body for " + fn["path"])
        self.inlined.add(fn["path"])
        self.fid += 1
        fr = Frame()
        fr.id, fr.fn, fr.body, fr.subst, fr.depth = self.fid, fn, fn["body"], subst, depth
        fr.info = bodyinfo(fn)
        st = st.fork()
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        outs = self.exec_blocks(fr, 0, st, None)
        res = []
        for kind, s, _ in outs:
            if kind == "ret":
                v = s.mem.get((fr.id, 0), UNIT)
                for k in [k for k in s.mem if k[0] == fr.id]:
                    del s.mem[k]
                res.append((s, v))
            elif kind == "skip":
                res.append((s, SKIP))
            else:
                raise Unanalysable(f"{kind} outside a loop in {fn['path']}")
        return self.gated(self.merge(res)) if depth else self.merge(res)

    def gated(self, outs):
        """joins states that differ in values only: a differing value becomes a choice by the path conditions"""
        if not self.gate or self.loopctx or len(outs) < 2:
            return outs
        groups = {}
        for s, v in outs:
            groups.setdefault((s.eff, frozenset(s.mem), v is SKIP or v is PANIC), []).append((s, v))
        res = []
        for (eff, cells, special), g in groups.items():
            if len(g) == 1 or special or len(g) > 40:
                res += g
                continue
            common = {t: c for t, c in g[0][0].conds.items() if all(s.conds.get(t) == c for s, _ in g[1:])}
            rest = [frozenset((t, c) for t, c in s.conds.items() if t not in common) for s, _ in g]
            if any(not r for r in rest):
                res += g
                continue
            for t in set.intersection(*[{t for t, _ in r} for r in rest]):
                j = dict(rest[0])[t]
                for r in rest[1:]:
                    j = j and c_or(j, dict(r)[t])
                if j:
                    common[t] = j
            # what the paths have in common besides: one of their conditions holds
            ds = merge_conds([dict(r) for r in rest])
            if len(ds) == 1:
                for t, c in ds[0].items():
                    j = c_and(common.get(t), c)
                    if j is not False:
                        common[t] = j
            else:
                common[mk("dnf", frozenset(freeze(d) for d in ds))] = ("b", frozenset((True,)))

            def choose(vals):
                return vals[0] if all(x is vals[0] for x in vals) else ite(list(zip(rest, vals)))
            mem = {k: choose([s.mem[k] for s, _ in g]) for k in cells}
            v = None if g[0][1] is None else choose([v for _, v in g])
            res.append((State(mem, common, eff), v))
        return res

    def pick(self, v, st):
        """the part of a choice that the state's conditions leave"""
        while v is not None and v.tag == "ite":
            cs = [(c, x) for c, x in v.a[0] if self.compatible(st, c)]
            if not cs:
                return v
            if len(cs) == len(v.a[0]):
                return v
            v = ite(cs)
        return v

    @staticmethod
    def compatible(st, c):
        return all(c_and(st.conds.get(t), k) is not False for t, k in c)

    def force(self, v, st):
        """[(state, value)] with the top-level choice of v decided"""
        v = self.deref(v, st)
        if v.tag != "ite":
            return [(st, v)]
        res = []
        for c, x in v.a[0]:
            s = st.fork()
            if all(self.assume(s, t, k) for t, k in c):
                res += self.force(x, s)
        return res

    def force_all(self, args, st):
        """[(state, args)] without top-level choices"""
        res = [(st, [])]
        for a in args:
            nxt = []
            for s, done in res:
                if a.tag == "mref":
                    for s2, x in self.force(a, s):
                        if self.deref(a, s2).tag == "ite":
                            s2 = s2.fork() if s2 is s else s2
                            self.write_loc(s2, a.a[0], a.a[1], x)
                        nxt.append((s2, done + [a]))
                else:
                    nxt += [(s2, done + [x]) for s2, x in self.force(a, s)]
            res = nxt
        return res

    def merge(self, outs):
        if len(outs) < 2:
            return outs
        groups = {}
        for s, v in outs:
            groups.setdefault((frozenset(s.mem.items()), s.eff, v), []).append(s)
        res = []
        for (m, e, v), ss in groups.items():
            if len(ss) == 1:
                res.append((ss[0], v))
            else:
                for c in merge_conds([s.conds for s in ss]):
                    res.append((State(dict(ss[0].mem), c, e), v))
        return res

    def exec_blocks(self, fr, start, st, loop):
        """run from block `start`; loop=(header, blocks) bounds the region (None: whole body)."""
        info = fr.info
        pend = {start: [st]}
        first = True
        outs = []
        while pend:
            b = min(pend, key=lambda x: info.rpo.get(x, 1 << 30))
            states = pend.pop(b)
            if not first and loop is not None:
                if b == loop[0]:
                    outs += [("back", s, None) for s in states]
                    continue
                if b not in loop[1]:
                    outs += [("exit", s, b) for s in states]
                    continue
            if len(states) > 1:
                states = self.prune_merge(fr, b, states)
            if len(states) > MAX_STATES:
                raise Unanalysable(f"too many states in {fr.fn['path']}")
            is_head = b in info.loops and not (first and loop is not None and b == loop[0])
            first = False
            for s in states:
                if is_head:
                    nxt = self.do_loop(fr, b, s)
                else:
                    nxt = self.step_block(fr, b, s)
                for kind, s2, to in nxt:
                    if kind == "goto":
                        pend.setdefault(to, []).append(s2)
                    else:
                        outs.append((kind, s2, to))
        return outs

    def prune_merge(self, fr, b, states):
        live = fr.info.live.get(b, set()) | fr.info.mutref
        for s in states:
            for k in [k for k in s.mem if k[0] == fr.id and k[1] not in live]:
                del s.mem[k]
        return [s for s, _ in self.gated(self.merge([(s, None) for s in states]))]

    # ---- loops ----
    def do_loop(self, fr, head, st):
        blocks = fr.info.loops[head]
        live = fr.info.live.get(head, set()) | fr.info.mutref
        for k in [k for k in st.mem if k[0] == fr.id and k[1] not in live]:
            del st.mem[k]
        cell = self.concrete_iter(fr, blocks, st)
        if cell is not None:
            res, todo, n = [], [st], 0
            while todo:
                s = todo.pop()
                n += 1
                if n > 400:
                    raise Unanalysable("unrolled loop too long in " + fr.fn["path"])
                for kind, s2, x in self.exec_blocks(fr, head, s, (head, blocks)):
                    if kind == "back":
                        todo.append(s2)
                    elif kind == "exit":
                        res.append(("goto", s2, x))
                    else:
                        res.append((kind, s2, x))
            return res

        def run(s):
            return self.exec_blocks(fr, head, s, (head, blocks))
        out = []
        for kind, s, x in self.summarize(st, run):
            out.append(("goto" if kind == "exit" else kind, s, x))
        return out

    def concrete_iter(self, fr, blocks, st):
        """the loop walks a constant array: unroll"""
        refs = {}
        for b in blocks:
            for s in fr.body["blocks"][b][1]:
                if isinstance(s[1], list) and s[1][0] == "ref" and isinstance(s[0], int):
                    refs[s[0]] = s[1][1]
        found = None
        for b in blocks:
            t = fr.body["blocks"][b][2]
            if t[0] == "call" and t[1][0] == "k" and t[1][1].get("name") in ("next", "next_back") and t[2]:
                o = t[2][0]
                p = o[1]
                seen = 0
                while isinstance(base(p), int) and base(p) in refs and seen < 4:
                    p = refs[base(p)]
                    seen += 1
                v = st.mem.get((fr.id, base(p)))
                if v is not None and v.tag == "mref":
                    v = self.load(st, v.a[0], v.a[1])
                if v is None or v.tag != "it" or v.a[0].tag != "arr":
                    return None
                if len(v.a[0].a[0]) > 130:
                    return None
                found = (fr.id, base(p))
        return found

    def summarize(self, st, run, pyiter=None):
        """Loop abstraction. run(state) -> [(kind, state, payload)] with kind 'back' for another round.
        Returns the non-back outcomes, conditions expressed over the whole iteration."""
        depth = len(self.loopctx)
        W = []
        exh = ("x", depth)
        for attempt in range(12):
            s0 = st.fork()
            ctx = {"depth": depth, "init": {}, "iters": {}}
            for i, c in enumerate(W):
                ph = mk("phi", depth, i, st.mem[c])
                ctx["init"][ph] = st.mem[c]
                s0.mem[c] = ph
            s0.mem.pop(exh, None)
            before = dict(s0.mem)
            self.loopctx.append(ctx)
            npan = len(self.panics)
            try:
                outs = run(s0)
            finally:
                self.loopctx.pop()
            changed = []
            for kind, s, _ in outs:
                if kind in ("back", "skip"):
                    for c in before:
                        if c in s.mem and s.mem[c] is not before[c] and c not in W and c not in changed:
                            changed.append(c)
            if not changed:
                break
            del self.panics[npan:]
            W += changed
        else:
            raise Unanalysable("loop state does not stabilise")
        backs = [s for k, s, _ in outs if k in ("back", "skip")]
        exits = [(k, s, x) for k, s, x in outs if k not in ("back", "skip")]

        def delta(s):
            return {t: c for t, c in s.conds.items() if st.conds.get(t) != c}

        def effdelta(s):
            return s.eff[len(s0.eff):]
        iters = list(ctx["iters"].items())  # phi or it term -> it
        if not iters and backs:
            w = self.parent_walk(st, W, backs, exits, depth, exh)
            if w:
                iters = [w]
        res = []
        itv = iters[0][1] if len(iters) == 1 else None
        it_phi = iters[0][0] if len(iters) == 1 else None
        backcases = []
        for s in backs:
            vals = tuple((i, s.mem.get(c, mk("phi", depth, i, st.mem[c]))) for i, c in enumerate(W))
            backcases.append((delta(s), (vals, effdelta(s))))
        backcases = merge_cases(backcases)
        eff_cases = merge_cases([(c, k[1]) for c, k in backcases if k[1]])
        canon_back = frozenset((freeze(c), k) for c, k in backcases)
        if itv is not None:
            bs, rev = itv.a[0], itv.a[1]
            dirn = "last" if rev else "first"
            early = [(k, s, x) for k, s, x in exits if exh not in s.mem]
            done = [(k, s, x) for k, s, x in exits if exh in s.mem]
            ec = merge_conds([delta(s) for _, s, _ in early])
            ecanon = frozenset(freeze(c) for c in ec)
            exists = mk("exists", bs, depth, ecanon)
            el, idx = mk("elem", bs, depth), mk("idx", bs, depth)
            found = mk("found", bs, dirn, ecanon, depth)
            fidx = mk("fidx", bs, dirn, ecanon, depth)
            fe = None
            if eff_cases:
                fe = mk("foreach", bs, rev, frozenset((freeze(c), e) for c, e in eff_cases), depth)
            # accumulators
            finals, prefix = {}, {}
            for i, c in enumerate(W):
                ph = mk("phi", depth, i, st.mem[c])
                if ph is it_phi or st.mem[c].tag == "it":
                    finals[ph] = [({}, mk("itend", st.mem[c]))]
                    prefix[ph] = mk("itrest", st.mem[c])
                    continue
                cases = merge_cases([(cc, dict(k[0]).get(i, ph)) for cc, k in backcases])
                finals[ph] = self.accumulate(ph, st.mem[c], cases, bs, rev, depth, canon_back)
                prefix[ph] = mk("prefix", st.mem[c], bs, depth, i, canon_back)
            for k, s, x in done:
                s = s.fork()
                s.mem.pop(exh, None)
                if fe is not None:
                    s.eff = s.eff[:len(s0.eff)] + (fe,) + effdelta(s)
                alts = [s]
                if early:
                    alts = self.assume_all(alts, exists, BF)
                for ph, choices in finals.items():
                    nxt = []
                    for a in alts:
                        for conds, val in choices:
                            b2 = a.fork() if len(choices) > 1 else a
                            if not self.add_conds(b2, conds):
                                continue
                            self.replace(b2, {ph: val}, st)
                            nxt.append(b2)
                    alts = nxt
                res += [(k, a, x) for a in alts]
            common = None
            for _, s, _ in early:
                f = set(delta(s).items())
                common = f if common is None else common & f
            for k, s, x in early:
                d = delta(s)
                s = s.fork()
                if len(ec) == 1 or not common:
                    drop = set(ec[0].items()) if len(ec) == 1 else set()
                else:
                    drop = common
                m = {el: found, idx: fidx}
                m.update(prefix)
                nc = dict(st.conds)
                ok = True
                for t, c in d.items():
                    if (t, c) in drop and (self.mentions(t, el) or self.mentions(t, idx)):
                        continue
                    t2 = subst(t, m)
                    j = c_and(nc.get(t2), c)
                    if j is False:
                        ok = False
                        break
                    nc[t2] = j
                if not ok:
                    continue
                ed = effdelta(s)
                s.eff = s.eff[:len(s0.eff)] + ((mk("foreach", bs, rev, frozenset((freeze(c), e) for c, e in eff_cases), depth, "until", ecanon),) if fe is not None else ()) + ed
                s.conds = nc
                if (exists not in nc) and ecanon != frozenset((frozenset(),)):
                    s.conds[exists] = BT
                elif ecanon == frozenset((frozenset(),)):
                    s.conds[exists] = BT
                self.replace(s, m, st)
                res.append((k, s, subst(x, m) if isinstance(x, T) else x))
            return res
        # general loop
        rec = mk("loop", tuple(st.mem[c] for c in W), canon_back, depth)
        m = {mk("phi", depth, i, st.mem[c]): mk("loopval", rec, i) for i, c in enumerate(W)}
        fe = mk("loopeff", rec, frozenset((freeze(c), e) for c, e in eff_cases)) if eff_cases else None
        for k, s, x in exits:
            s = s.fork()
            s.mem.pop(exh, None)
            if fe is not None:
                s.eff = s.eff[:len(s0.eff)] + (fe,) + effdelta(s)
            nc = {}
            ok = True
            for t, c in s.conds.items():
                t2 = subst(t, m)
                j = c_and(nc.get(t2), c)
                if j is False:
                    ok = False
                    break
                nc[t2] = j
            if not ok:
                continue
            s.conds = nc
            self.replace(s, m, st)
            res.append((k, s, subst(x, m) if isinstance(x, T) else x))
        return res

    def parent_walk(self, st, W, backs, exits, depth, exh):
        """a loop that goes from a path to its parent until there is none is an iteration over its ancestors"""
        for i, c in enumerate(W):
            ph = mk("phi", depth, i, st.mem[c])
            up = call("Path::parent", ph)
            nxt = payload(up, "Some", "0")
            if not all(s.mem.get(c) is nxt and isv(s.conds, up) == "Some" for s in backs):
                continue
            if any(isv(s.conds, up) is None and not self.hits(s, st) for _, s, _ in exits):
                continue
            if any(isinstance(x, T) and any(u is up for u in subterms(x)) and isv(s.conds, up) != "Some" for _, s, x in exits):
                continue
            every = [s for s in backs] + [s for _, s, _ in exits]
            uses = [t for s in every for t in s.conds if t is not up and st.conds.get(t) != s.conds[t]] + [e for s in every for e in s.eff[len(st.eff):]]
            uses += [x for _, _, x in exits if isinstance(x, T)]
            mark = mk("unk", "parent")
            a = [subst(u, {up: mark}) for u in uses]
            above = any(mark in set(subterms(u)) for u in a)
            here = any(ph in set(subterms(u)) for u in a)
            if above and here:
                return None
            anc = call("Path::ancestors", st.mem[c])
            base_ = anc if here else call("Iterator::skip", anc, Int(1))
            el = mk("elem", base_, depth)
            m = {ph: el} if here else {nxt: el}
            checks = {freeze({t: k for t, k in s.conds.items() if t is not up and st.conds.get(t) != k}) for s in backs}
            for s in every:
                v = isv(s.conds, up)
                extra = {t: k for t, k in s.conds.items() if t is not up and st.conds.get(t) != k}
                if v == "None":
                    if here and freeze(extra) not in checks or not here and extra:
                        return None
            for kind, s, x in exits:
                if isv(s.conds, up) == "None":
                    s.mem[exh] = TRUE
                    for t in [t for t in s.conds if t is not up and st.conds.get(t) != s.conds[t]]:
                        if here:
                            del s.conds[t]
            for s in every:
                s.conds.pop(up, None)
                s.conds = {subst(t, m): k for t, k in s.conds.items()}
                s.eff = tuple(subst(e, m) for e in s.eff)
                for k, v in list(s.mem.items()):
                    if v is not None and k != c:
                        s.mem[k] = subst(v, m)
                s.mem[c] = mk("itadv", ph)
            for j, (kind, s, x) in enumerate(exits):
                if isinstance(x, T):
                    exits[j] = (kind, s, subst(x, m))
            return (ph, mk("it", base_, False, ()))
        return None

    @staticmethod
    def hits(s, st):
        """does the loop's own round constrain this exit"""
        return any(st.conds.get(t) != k for t, k in s.conds.items())

    @staticmethod
    def mentions(t, el):
        return el in subterms(t)

    def assume_all(self, states, t, c):
        out = []
        for s in states:
            j = c_and(s.conds.get(t), c)
            if j is False:
                continue
            s.conds[t] = j
            out.append(s)
        return out

    def add_conds(self, s, conds):
        for t, c in conds.items():
            j = c_and(s.conds.get(t), c)
            if j is False:
                return False
            s.conds[t] = j
        return True

    def replace(self, s, m, st):
        keys = set(m)
        cache = {}
        for k, v in list(s.mem.items()):
            if v is not None:
                s.mem[k] = subst(v, m, cache)
        s.eff = tuple(subst(e, m, cache) for e in s.eff)

    def accumulate(self, ph, init, cases, bs, rev, depth, canon_back):
        pushes, sets, other = [], [], False
        for c, v in cases:
            if v is ph:
                continue
            if v.tag == "push" and v.a[0] is ph:
                pushes.append((freeze(c), v.a[1]))
            elif not contains_any(v, lambda x: x.tag in ("phi", "elem", "idx")):
                sets.append((c, v))
            else:
                other = True
        if pushes and not sets and not other:
            comp = mk("comp", bs, rev, depth, frozenset(pushes))
            if init.tag == "arr" and not init.a[0]:
                return [({}, comp)]
            return [({}, mk("append", init, comp))]
        if sets and not pushes and not other and len({v for _, v in sets}) == 1:
            val = sets[0][1]
            can = frozenset(freeze(c) for c, _ in sets)
            ex = mk("exists", bs, depth, can)
            return [({ex: BT}, val), ({ex: BF}, init)]
        if not cases or not (pushes or sets or other):
            return [({}, init)]
        return [({}, mk("fold", bs, rev, depth, init, frozenset((freeze(c), v) for c, v in cases)))]

    # ---- one block ----
    def step_block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unanalysable("step budget exceeded")
        blk = fr.body["blocks"][b]
        for s in blk[1]:
            self.stmt(fr, s, st)
        t = blk[2]
        k = t[0]
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "drop":
            return [("goto", st, t[2])]
        if k == "return":
            return [("ret", st, None)]
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "assert":
            tgt = BodyInfo.successors(t)
            return [("goto", st, tgt[0])] if tgt else []
        if k == "call":
            outs = self.do_call(fr, t, st)
            res = []
            for s, v in outs:
                if v is SKIP:
                    res.append(("skip", s, None))
                    continue
                if v is PANIC or t[4] is None:
                    self.panics.append((s, t[-1]))
                    continue
                self.store(fr, t[3], v, s)
                res.append(("goto", s, t[4]))
            return res
        if k == "yield":
            return [("goto", st, t[2])]
        raise Unanalysable("terminator " + k)

    def stmt(self, fr, s, st):
        dest, rv = s[0], s[1]
        if not isinstance(rv, list):
            return
        self.store(fr, dest, self.rvalue(fr, rv, st), st)

    def rvalue(self, fr, r, st):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1], st)
        if k in ("ref", "raw"):
            if r[-1] in ("shared", "fake"):
                return self.read(fr, r[1], st)
            loc = self.locate(fr, r[1], st)
            if loc[0] == "loc":
                return mk("mref", loc[1], loc[2])
            return loc[1]
        if k == "discr":
            v = self.deref(self.read(fr, r[1], st), st)
            if v.tag == "adt":
                for i, n in r[2] or ():
                    if n == v.a[1]:
                        return Int(i)
            return mk("discr", v, tuple((i, n) for i, n in (r[2] or ())), r[3] if len(r) > 3 else None)
        if k == "bin":
            return self.binop(r[1], self.deref(self.operand(fr, r[2], st), st), self.deref(self.operand(fr, r[3], st), st))
        if k == "un":
            v = self.operand(fr, r[2], st)
            if r[1] == "Not":
                ty = None
                if r[2][0] in ("c", "m"):
                    ty = fr.body["locals"][r[2][1]][0] if isinstance(r[2][1], int) else None
                elif r[2][1]["k"] == "int":
                    ty = r[2][1].get("ty")
                if ty in WIDTH:
                    if v.tag != "int":
                        return mk("un", "Not", v)
                    signed, bits = WIDTH[ty]
                    return Int(-v.a[0] - 1 if signed else (1 << bits) - 1 - v.a[0])
                return neg(v)
            if r[1] == "PtrMetadata":
                return call("len", self.deref(v, st))
            if v.tag == "int" and r[1] == "Neg":
                return Int(-v.a[0])
            return mk("un", r[1], v)
        if k == "cast":
            v = self.operand(fr, r[2], st) if isinstance(r[1], str) else self.operand(fr, r[1], st)
            o = r[2] if isinstance(r[1], str) else r[1]
            src = None
            if o[0] in ("c", "m") and isinstance(o[1], int):
                src = fr.body["locals"][o[1]][0]
            return self.cast(r, v, src)
        if k == "agg":
            ops = [self.operand(fr, o, st) for o in r[4]]
            if r[1] == "adt":
                names = r[5] if len(r) > 5 and r[5] else None
                if names is not None and len(names) != len(ops):
                    names = None
                return adt(strip_generics(r[2]), r[3], ops, names)
            if r[1] == "tuple":
                return tup(*ops)
            if r[1] == "array":
                return mk("arr", tuple(ops))
            if r[1] == "closure":
                return mk("clo", r[2], tuple(ops), fr_subst(fr))
            if r[1] == "coroutine":
                return mk("cor", r[2], tuple(ops), fr_subst(fr))
            return mk("agg", str(r[1]), tuple(ops))
        if k == "repeat":
            return mk("repeat", self.operand(fr, r[1], st), str(r[2]) if len(r) > 2 else "")
        return mk("opaque", repr(r)[:200])

    def cast(self, r, v, src=None):
        ty = r[3] if len(r) > 3 else ""
        if v.tag == "int":
            return v
        kind = r[1] if isinstance(r[1], str) else r[2]
        if isinstance(kind, str) and ("IntToInt" in kind):
            return v if widening(src, ty) else mk("cast", str(ty), v)
        return v

    def binop(self, op, a, b):
        return binop(op, a, b)

    # ---- places ----
    def locate(self, fr, p, st):
        if isinstance(p, int):
            return ("loc", (fr.id, p), ())
        cur = ("loc", (fr.id, p[0]), ())
        i = 1
        while i < len(p):
            e = p[i]
            if e == "*":
                v = self.load(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                if v is not None and v.tag == "mref":
                    cur = ("loc", v.a[0], v.a[1])
                else:
                    # a shared reference or box: transparent
                    if cur[0] == "loc" and i + 1 < len(p) and False:
                        pass
                    cur = ("val", v) if cur[0] != "loc" else ("locv", cur[1], cur[2], v)
                    if cur[0] == "locv":
                        cur = ("val", cur[3]) if not self.own_box(fr, p, i) else ("loc", cur[1], cur[2])
            elif e[0] == "f":
                cur = ("loc", cur[1], cur[2] + (("f", e[2]),)) if cur[0] == "loc" else ("val", project(cur[1], e[2]))
            elif e[0] == "v":
                # variant downcast; the next projection is a field
                nx = p[i + 1] if i + 1 < len(p) else None
                if nx is not None and nx != "*" and nx[0] == "f":
                    if cur[0] == "loc":
                        cur = ("loc", cur[1], cur[2] + (("v", e[2], nx[2]),))
                    else:
                        cur = ("val", payload(self.deref(cur[1], st), e[2], nx[2]))
                    i += 1
            elif e[0] == "i":
                ix = self.load(st, (fr.id, e[1]), ())
                cur = ("loc", cur[1], cur[2] + (("i", ix),)) if cur[0] == "loc" else ("val", index(cur[1], ix))
            elif e[0] == "c":
                if cur[0] == "loc":
                    cur = ("loc", cur[1], cur[2] + (("c", e[1], bool(e[2])),))
                else:
                    cur = ("val", cindex(cur[1], e[1], e[2]))
            elif e[0] == "s":
                v = self.load(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                cur = ("val", subslice(v, e[1], e[2], e[3]))
            else:
                v = self.load(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                cur = ("val", mk("proj", v, str(e)))
            i += 1
        return cur

    def own_box(self, fr, p, i):
        """deref of a Box local being written through: same cell (boxes are transparent)"""
        if i == 1:
            return fr.body["locals"][p[0]][0].startswith("alloc::boxed::Box<")
        return False

    def load(self, st, cell, proj):
        v = st.mem.get(cell)
        if v is None:
            v = mk("uninit", str(cell[1]))
        for e in proj:
            if v.tag == "mref":
                v = self.deref(v, st)
            if v.tag == "ite":
                v = self.pick(v, st)
            v = self.proj1(v, e)
        return self.pick(v, st) if v.tag == "ite" else v

    @staticmethod
    def proj1(v, e):
        if e[0] == "f":
            return project(v, e[1])
        if e[0] == "v":
            return payload(v, e[1], e[2])
        if e[0] == "i":
            return index(v, e[1])
        if e[0] == "c":
            return cindex(v, e[1], e[2])
        return mk("proj", v, repr(e))

    def read(self, fr, p, st):
        loc = self.locate(fr, p, st)
        if loc[0] == "val":
            return loc[1]
        return self.load(st, loc[1], loc[2])

    def deref(self, v, st):
        n = 0
        while v is not None and v.tag == "mref" and n < 8:
            v = self.load(st, v.a[0], v.a[1])
            n += 1
        if v is not None and v.tag == "ite":
            v = self.pick(v, st)
            if v.tag == "mref":
                return self.deref(v, st)
        return v

    def deep(self, v, st):
        """value with &mut references replaced by what they point to now"""
        if v.tag == "mref":
            return self.deref(v, st)
        if v.tag in ("tup", "arr"):
            if any(x.tag == "mref" for x in v.a[0]):
                return mk(v.tag, tuple(self.deep(x, st) for x in v.a[0]))
        if v.tag == "adt" and any(x.tag == "mref" for x in v.a[2]):
            return mk("adt", v.a[0], v.a[1], tuple(self.deep(x, st) for x in v.a[2]), v.a[3])
        return v

    def write_loc(self, st, cell, proj, v):
        if not proj:
            st.mem[cell] = v
            return
        cur = st.mem.get(cell) or mk("uninit", str(cell[1]))
        st.mem[cell] = self.updated(cur, proj, v, st)

    def updated(self, cur, proj, v, st):
        if not proj:
            return v
        if cur.tag == "mref":
            self.write_loc(st, cur.a[0], cur.a[1] + tuple(proj), v)
            return cur
        e = proj[0]
        inner = self.updated(self.proj1(cur, e), proj[1:], v, st)
        return setproj(cur, e, inner)

    def store(self, fr, p, v, st):
        loc = self.locate(fr, p, st)
        if loc[0] == "loc":
            self.write_loc(st, loc[1], loc[2], v)
        else:
            st.eff = st.eff + (mk("store", loc[1], v),)

    # ---- operands ----
    def operand(self, fr, o, st):
        if o[0] in ("c", "m"):
            return self.read(fr, o[1], st)
        return self.konst(fr, o[1])

    def konst(self, fr, k):
        kind = k["k"]
        if kind == "int":
            return Int(k["v"])
        if kind == "str":
            return Str(k["v"])
        if kind == "bytes":
            return mk("bytes", bytes(k["v"]))
        if kind == "fn":
            return self.fnval(k, fr)
        if kind == "static":
            return self.const_value(k["path"])
        if kind == "const":
            if k.get("val") is not None:
                return Int(k["val"])
            return self.const_value(k["path"])
        v = k.get("v", "")
        if k.get("ty") == "&str":
            try:
                import json
                return Str(json.loads(v))
            except Exception:
                pass
        if v == "()" or k.get("ty") == "()":
            return UNIT
        return mk("konst", k.get("ty", ""), v)

    def fnval(self, k, fr):
        args = tuple(subst_ty(a, fr.subst) for a in k.get("args", ()))
        return mk("fn", k["path"], args, k.get("res"), k.get("trait"), k.get("name"), k.get("krate"), bool(k.get("resdefault")))

    def const_value(self, path):
        if path in self.const_cache:
            return self.const_cache[path]
        if path in self.const_busy:
            return mk("const", path)
        f = self.prog.fn(path)
        if f is None or f["kind"] not in ("Const", "AssocConst", "Static", "AnonConst", "InlineConst"):
            v = mk("const", path)
        else:
            self.const_busy.add(path)
            saved = self.loopctx
            self.loopctx = []
            try:
                outs = self.exec_fn(f, [], State({}, {}, ()), 1, {})
                v = outs[0][1] if len(outs) == 1 and not outs[0][0].conds else mk("const", path)
            except Unanalysable:
                v = mk("const", path)
            finally:
                self.const_busy.discard(path)
                self.loopctx = saved
        self.const_cache[path] = v
        return v

    # ---- branching ----
    def switch(self, fr, t, st):
        v = self.deref(self.operand(fr, t[1], st), st)
        arms, other, ty = t[2], t[3], t[4]
        subj = v.a[0] if v.tag == "discr" else v
        if subj.tag == "ite":
            res = []
            for s, x in self.force(subj, st):
                if v.tag == "discr":
                    x = next((Int(i) for i, n in v.a[1] if n == x.a[1]), x) if x.tag == "adt" else mk("discr", x, *v.a[1:])
                res += self.switch_on(x, arms, other, ty, s)
            return res
        return self.switch_on(v, arms, other, ty, st)

    def switch_on(self, v, arms, other, ty, st):
        if ty == "bool":
            res = []
            for s, val in self.decide(v, st):
                n = 1 if val else 0
                tgt = next((b for x, b in arms if x == n), other)
                res.append(("goto", s, tgt))
            return res
        if v.tag == "int":
            tgt = next((b for x, b in arms if x == v.a[0]), other)
            return [("goto", st, tgt)] if tgt is not None else []
        res = []
        if v.tag == "discr":
            table = dict(v.a[1])
            subj = v.a[0]
            allv = frozenset(table.values())
            rest = set(allv)
            for x, b in arms:
                n = table.get(x)
                if n is None:
                    continue
                rest.discard(n)
                s = st.fork()
                if self.assume(s, subj, ("v", frozenset((n,)), allv)):
                    res.append(("goto", s, b))
            if rest and other is not None:
                s = st.fork()
                if self.assume(s, subj, ("v", frozenset(rest), allv)):
                    res.append(("goto", s, other))
            return res
        excl = []
        for x, b in arms:
            s = st.fork()
            if self.assume(s, v, ("i", ((x, x),))):
                res.append(("goto", s, b))
            excl.append((x, x))
        if other is not None:
            s = st.fork()
            c = c_not(("i", tuple(sorted(excl)))) if excl else ("i", ((-INF, INF),))
            from terms import _normr
            c = c_not(("i", _normr(excl)))
            if c is not False and self.assume(s, v, c):
                res.append(("goto", s, other))
        return res

    def assume(self, s, t, c):
        t, c = self.norm_atom(t, c)
        if t is None:
            return c
        j = c_and(s.conds.get(t), c)
        if j is False:
            return False
        s.conds[t] = j
        return True

    def norm_atom(self, t, c):
        """rewrites a constraint on a derived term into one on its source; (None, bool) if decided"""
        if t.tag == "int" and c[0] == "i":
            return None, any(a <= t.a[0] <= b for a, b in c[1])
        if t.tag == "str" and c[0] == "s":
            return None, (t.a[0] in c[2]) == c[1]
        if t.tag == "adt" and c[0] == "v":
            return None, t.a[1] in c[1]
        if t.tag == "bin" and c[0] == "i" and t.a[0] == "Add" and t.a[2].tag == "int":
            n = t.a[2].a[0]
            return self.norm_atom(t.a[1], ("i", tuple((a - n, b - n) for a, b in c[1])))
        return t, c

    def decide(self, v, st):
        """[(state, bool)]"""
        if v.tag == "int":
            return [(st, bool(v.a[0]))]
        if v.tag == "ite":
            return [r for s, x in self.force(v, st) for r in self.decide(x, s)]
        if v.tag in ("eq", "lt") and any(isinstance(x, T) and x.tag == "ite" for x in v.a):
            return [r for s, (x, y) in self.force_all(list(v.a), st) for r in self.decide({"eq": eq, "lt": lt}[v.tag](x, y), s)]
        if v.tag == "isv" and v.a[0].tag == "ite":
            return [r for s, x in self.force(v.a[0], st) for r in self.decide(mk("isv", x, *v.a[1:]), s)]
        if v.tag == "not":
            return [(s, not b) for s, b in self.decide(v.a[0], st)]
        if v.tag == "and":
            res = []
            for s, b in self.decide(v.a[0], st):
                res += [(s, False)] if not b else self.decide(v.a[1], s)
            return res
        if v.tag == "or":
            res = []
            for s, b in self.decide(v.a[0], st):
                res += [(s, True)] if b else self.decide(v.a[1], s)
            return res
        if v.tag == "eq":
            r = self.decide_eq(v.a[0], v.a[1], st)
            if r is not None:
                return r
        if v.tag == "isv":
            subj, names, allv = v.a
            return self.two(st, subj, ("v", names, allv))
        if v.tag == "lt":  # a < b
            a, b = v.a
            if a.tag == "int":
                return self.two(st, b, ("i", ((a.a[0] + 1, INF),)))
            if b.tag == "int":
                return self.two(st, a, ("i", ((-INF, b.a[0] - 1),)))
        if v.tag == "inset":
            return self.two(st, v.a[0], ("s", True, v.a[1]))
        if v.tag == "inrange":
            return self.two(st, v.a[0], ("i", v.a[1]))
        if v.tag == "cases":
            # boolean given by cases: ((frozen conds, bool),...)
            res = []
            for conds, b in v.a[0]:
                s = st.fork()
                if all(self.assume(s, t, c) for t, c in conds):
                    res.append((s, b))
            return res
        return self.two(st, v, BT)

    def two(self, st, t, c):
        res = []
        n, c2 = self.norm_atom(t, c)
        if n is None:
            return [(st, bool(c2))]
        cur = st.conds.get(n)
        j = c_and(cur, c2)
        if j is not False and j == cur:
            return [(st, True)]
        if j is False:
            return [(st, False)]
        s1 = st.fork()
        s1.conds[n] = j
        res.append((s1, True))
        nc = c_not(c2)
        j2 = c_and(cur, nc) if nc is not False else False
        if j2 is not False:
            s2 = st.fork()
            s2.conds[n] = j2
            res.append((s2, False))
        return res

    def decide_eq(self, a, b, st):
        if a is b:
            return [(st, True)]
        if is_const(a) and not is_const(b):
            a, b = b, a
        if is_const(a) and is_const(b):
            if a.tag == b.tag and a.tag in ("int", "str", "bytes"):
                return [(st, a is b)]
            if a.tag == "bytes" and b.tag == "arr" or a.tag == "arr" and b.tag == "bytes":
                return None
        if b.tag == "str":
            if a.tag == "cat":
                r = cat_eq(a, b.a[0])
                if r is False:
                    return [(st, False)]
            return self.two(st, a, ("s", True, frozenset((b.a[0],))))
        if b.tag == "int":
            if b.a[0] in (0, 1) and is_bool(a):
                return [(s, r == bool(b.a[0])) for s, r in self.decide(a, st)]
            return self.two(st, a, ("i", ((b.a[0], b.a[0]),)))
        if a.tag == "adt" and b.tag != "adt":
            a, b = b, a
        if b.tag == "adt" and b.a[1]:
            vs = self.variants_of(b.a[0])
            if not vs and not b.a[2] and a.tag != "adt":
                # an enum of a library, compared with one of its constants: equality of variants
                vs = self.prog.ext_enums.get(b.a[0])
            if a.tag == "adt":
                if a.a[1] != b.a[1]:
                    return [(st, False)]
                res = [(st, True)]
                for x, y in zip(a.a[2], b.a[2]):
                    nxt = []
                    for s, ok in res:
                        if not ok:
                            nxt.append((s, False))
                        else:
                            nxt += self.decide(eq(x, y), s)
                    res = nxt
                return res
            if vs:
                res = []
                for s, ok in self.two(st, a, ("v", frozenset((b.a[1],)), vs)):
                    if not ok:
                        res.append((s, False))
                        continue
                    rr = [(s, True)]
                    for n, y in zip(b.a[3], b.a[2]):
                        nxt = []
                        for s2, ok2 in rr:
                            if not ok2:
                                nxt.append((s2, False))
                            else:
                                nxt += self.decide(eq(payload(a, b.a[1], n), y), s2)
                        rr = nxt
                    res += rr
                return res
        if a.tag == b.tag == "adt" and a.a[0] == b.a[0] and not a.a[1] and len(a.a[2]) == len(b.a[2]):
            res = [(st, True)]
            for x, y in zip(a.a[2], b.a[2]):
                nxt = []
                for s, ok in res:
                    nxt += [(s, False)] if not ok else self.decide(eq(x, y), s)
                res = nxt
            return res
        if a.tag == b.tag == "tup" and len(a.a[0]) == len(b.a[0]):
            res = [(st, True)]
            for x, y in zip(a.a[0], b.a[0]):
                nxt = []
                for s, ok in res:
                    nxt += [(s, False)] if not ok else self.decide(eq(x, y), s)
                res = nxt
            return res
        # discriminant comparison (derived PartialEq)
        if a.tag == "discr" and b.tag == "discr" and a.a[0] is b.a[0]:
            return [(st, True)]
        return None

    def variants_of(self, path):
        if path == OPT:
            return frozenset(("Some", "None"))
        if path == RES:
            return frozenset(("Ok", "Err"))
        if path == ORD:
            return frozenset(("Less", "Equal", "Greater"))
        if path == CF:
            return frozenset(("Continue", "Break"))
        a = self.prog.adt(path)
        if a and a["kind"] == "enum":
            return frozenset(v["name"] for v in a["variants"])
        return None

    def split(self, st, v, path, order):
        """[(state, variant)] for the enum value v"""
        v = self.deref(v, st)
        if v.tag == "adt":
            return [(st, v.a[1])]
        if v.tag == "ite":
            return [r for s, x in self.force(v, st) for r in self.split(s, x, path, order)]
        allv = self.variants_of(path) or frozenset(order)
        res = []
        for n in order:
            s = st.fork()
            if self.assume(s, v, ("v", frozenset((n,)), allv)):
                res.append((s, n))
        return res

    # ---- calls ----
    def do_call(self, fr, t, st):
        f = t[1]
        args = [self.operand(fr, o, st) for o in t[2]]
        span = t[5] if len(t) > 5 else None
        fv = self.operand(fr, f, st)
        dty = None
        if isinstance(t[3], int):
            dty = fr.body["locals"][t[3]][0]
        return self.call_fn(fv, args, st, fr.depth, span, dty and subst_ty(dty, fr.subst), spread=True)

    def call_value(self, f, args, st, depth, span=None):
        return self.call_fn(f, args, st, depth, span, None, spread=True)

    def call_fn(self, fv, args, st, depth, span, dty, spread=True):
        fv = self.deref(fv, st)
        if fv.tag == "clo":
            fn = self.prog.fn(fv.a[0])
            if fn is None:
                return self.unknown_call("closure " + fv.a[0], args, st, span)
            env = fv
            sub = dict(fv.a[2])
            n = fn["body"]["argc"]
            if n == 2 and len(args) != 1:
                # closure with a tuple argument taken apart by the caller, or zero arguments
                pass
            return self.exec_fn(fn, [env] + list(args), st, depth + 1, sub)
        if fv.tag == "fn":
            return self.call_named(fv, args, st, depth, span, dty)
        return self.unknown_call("dyn", [fv] + list(args), st, span)

    def call_named(self, fv, args, st, depth, span, dty):
        path, targs, res, trait, name, krate, resdefault = fv.a
        sh = short(path)
        # indirect calls through the Fn traits
        if trait in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn") and name in ("call", "call_mut", "call_once"):
            rest = args[1]
            rest = list(rest.a[0]) if rest.tag == "tup" else [rest]
            return self.call_fn(args[0], rest, st, depth, span, dty)
        # enum/struct constructors used as functions
        if name and name[:1].isupper() or (not name and path.split("::")[-1][:1].isupper()):
            parent, v = path.rsplit("::", 1)
            parent = strip_generics(parent)
            vs = self.variants_of(parent)
            if vs and v in vs:
                return [(st, adt(parent, v, args))]
            a = self.prog.adt(path)
            if a is not None and a["kind"] == "struct":
                return [(st, adt(strip_generics(path), a["variants"][0]["name"] if a["kind"] == "enum" else None, args, None))]
        info = {"path": path, "targs": targs, "res": res, "trait": trait, "name": name, "krate": krate,
                "span": span, "dty": dty, "depth": depth, "short": sh}
        target = None
        sub = {}
        full_opaque = path in self.opaque or sh in self.opaque or (res and (res in self.opaque)) or \
            (self.opaque_fn is not None and self.opaque_fn(path, res))
        if not full_opaque:
            target = self.resolve(info, args, st)
            if target is not None and target != res and target != path and self.opaque_fn is not None and self.opaque_fn(target, target):
                return self.unknown_call(sh, args, st, span, info)
        if target is not None:
            fn = self.prog.fn(target)
            derived = target in self.prog.derived
            if fn is not None and fn.get("body") and not (derived and name in ("clone", "fmt", "eq", "ne", "cmp", "partial_cmp", "hash")):
                gen = fn.get("gen") or []
                if len(gen) == len(targs):
                    sub = dict(zip(gen, targs))
                elif trait and gen and len(gen) == len(targs) - 1:
                    sub = dict(zip(gen, targs[1:]))
                if trait and targs:
                    sub.setdefault("Self", targs[0])
                if depth + 1 <= self.max_depth:
                    return self.exec_fn(fn, args, st, depth + 1, sub)
        m = self.models.get(sh) or self.models.get(path)
        if m is not None and not (full_opaque and path not in self.models and sh not in self.models):
            if self.gate and any(self.deref(a, st).tag == "ite" for a in args):
                r = []
                for s, aa in self.force_all(args, st):
                    x = m(self, s, aa, info)
                    if x is NotImplemented:
                        r = x
                        break
                    r += x
                if r is not NotImplemented:
                    return self.gated(r)
            r = m(self, st, args, info)
            if self.gate and r is not NotImplemented and len(r) > 1:
                r = self.gated(r)
            if r is not NotImplemented:
                return r
        if sh in TRANSPARENT and args:
            if sh == "Iterator::by_ref" and self.track_byref:
                return [(st, mk("it", mk("call", sh, (models_iter_val(self, st, args[0]),)), False, ()))]
            return [(st, args[0])]
        return self.unknown_call(sh, args, st, span, info)

    def resolve(self, info, args, st):
        """the workspace function a call goes to, if known"""
        path, res, trait, name, targs = info["path"], info["res"], info["trait"], info["name"], info["targs"]
        if res and res in self.prog.fns:
            return res
        if path in self.prog.fns and not trait:
            return path
        if trait:
            if res and info["krate"] and not res.startswith("<") and res in self.prog.fns:
                return res
            selfty = norm_ty(targs[0]) if targs else None
            # From/Into/TryFrom/TryInto with concrete types
            if name in ("into", "try_into") and len(targs) >= 2:
                tr, nm = ("core::convert::From", "from") if name == "into" else ("core::convert::TryFrom", "try_from")
                full = f"<{norm_ty(targs[1])} as {tr}<{norm_ty(targs[0])}>>"
                r = self.prog.resolve_trait(tr, nm, norm_ty(targs[1]), full)
                if r:
                    return r
            if len(targs) >= 2:
                full = f"<{selfty} as {trait}<{', '.join(norm_ty(x) for x in targs[1:])}>>"
                r = self.prog.resolve_trait(trait, name, selfty, full)
                if r:
                    return r
            if selfty:
                r = self.prog.resolve_trait(trait, name, selfty.lstrip("&"))
                if r and not self.prog.other_argument(trait, name, r, targs):
                    return r
            # value-directed: the receiver is a known workspace ADT
            if args:
                v = self.deref(args[0], st)
                if v.tag == "adt":
                    r = self.prog.resolve_trait(trait, name, v.a[0])
                    if r:
                        return r
            if path in self.prog.fns and (res is None or info.get("resdefault")):
                if not self.prog.trait_impl.get((trait, name)):
                    return path
                if not res and targs and not re.fullmatch(r"[A-Z][A-Za-z0-9]*|Self", targs[0]):
                    return path
        return None

    def reads(self, sh, info):
        """is this call known to only read (a check may know more than the models do)"""
        return False

    def unknown_call(self, sh, args, st, span=None, info=None):
        muts = [a for a in args if a.tag == "mref"]
        # places reachable through captures and wrappers are written by whatever the callee does
        inner = [u for a in args if a.tag != "mref" for u in subterms(a) if u.tag == "mref"]
        muts += inner
        vals = tuple(self.deep(a, st) for a in args)
        if not muts and (sh in PURE or sh.split("::")[-1] in PURE_LAST and info and info.get("krate") in STD or self.reads(sh, info)):
            return [(st, call(sh, *vals))]
        self.unknown.add(sh)
        n = sum(1 for e in st.eff if e.tag == "eff" and e.a[0] == sh and e.a[1] == vals)
        st = st.fork()
        r = mk("ecall", sh, vals, n)
        e = mk("eff", sh, vals, n)
        self.spans.setdefault(e, span)
        st.eff = st.eff + (e,)
        for i, a in enumerate(args):
            if a.tag == "mref":
                self.write_loc(st, a.a[0], a.a[1], mk("after", sh, vals, i, n))
        for i, a in enumerate(inner):
            self.write_loc(st, a.a[0], a.a[1], mk("after", sh, vals, len(args) + i, n))
        return [(st, r)]

    # ---- iterators ----
    def apply_stages(self, st, it, e, depth):
        """[(tag, state, value)], tag in val/skip/stop"""
        cur = [("val", st, e)]
        for kind, arg in it.a[2]:
            nxt = []
            for tag, s, v in cur:
                if tag != "val":
                    nxt.append((tag, s, v))
                    continue
                if kind == "map":
                    nxt += [("val", s2, v2) for s2, v2 in self.call_value(arg, [v], s, depth)]
                elif kind == "filter":
                    for s2, v2 in self.call_value(arg, [v], s, depth):
                        for s3, b in self.decide(v2, s2):
                            nxt.append(("val", s3, v) if b else ("skip", s3, None))
                elif kind == "filter_map":
                    for s2, v2 in self.call_value(arg, [v], s, depth):
                        for s3, var in self.split(s2, v2, OPT, ("Some", "None")):
                            nxt.append(("val", s3, payload(self.deref(v2, s3), "Some", "0")) if var == "Some" else ("skip", s3, None))
                elif kind == "flatten":
                    for s3, var in self.split(s, v, OPT, ("Some", "None")):
                        nxt.append(("val", s3, payload(self.deref(v, s3), "Some", "0")) if var == "Some" else ("skip", s3, None))
                elif kind == "enumerate":
                    nxt.append(("val", s, tup(mk("idx", it.a[0], len(self.loopctx) - 1), v)))
                elif kind == "take_while":
                    for s2, v2 in self.call_value(arg, [v], s, depth):
                        for s3, b in self.decide(v2, s2):
                            nxt.append(("val", s3, v) if b else ("stop", s3, None))
                elif kind == "map_while":
                    for s2, v2 in self.call_value(arg, [v], s, depth):
                        for s3, var in self.split(s2, v2, OPT, ("Some", "None")):
                            nxt.append(("val", s3, payload(self.deref(v2, s3), "Some", "0")) if var == "Some" else ("stop", s3, None))
                elif kind == "inspect":
                    nxt += [("val", s2, v) for s2, _ in self.call_value(arg, [v], s, depth)]
                else:
                    raise Unanalysable("iterator stage " + kind)
            cur = nxt
        return cur

    def walk(self, st, it, body, depth):
        """python-level `for x in it { body }`; body(state, elem) -> [(kind, state, payload)], kind 'back'
        to go on. Returns [(kind, state, payload)] with kind 'done' for exhaustion."""
        it = self.as_iter(it)
        if it.a[0].tag == "arr":
            items = list(it.a[0].a[0])
            if it.a[1]:
                items.reverse()
            res, cur = [], [st]
            for x in items:
                nxt = []
                for s in cur:
                    for tag, s2, v in self.apply_stages(s, it, x, depth):
                        if tag == "skip":
                            nxt.append(s2)
                        elif tag == "stop":
                            res.append(("done", s2, None))
                        else:
                            for kind, s3, p in body(s2, v):
                                if kind == "back":
                                    nxt.append(s3)
                                else:
                                    res.append((kind, s3, p))
                cur = [s for s, _ in self.merge([(s, None) for s in nxt])]
                if len(cur) > MAX_STATES:
                    raise Unanalysable("too many states over a constant array")
            return res + [("done", s, None) for s in cur]
        cell = ("w", self.fid, len(self.loopctx))
        self.fid += 1
        st = st.fork()
        st.mem[cell] = it

        def run(s):
            res = []
            for s2, v in self.iter_next(s, mk("mref", cell, ()), depth):
                if v is SKIP:
                    res.append(("back", s2, None))
                elif v is NONE:
                    res.append(("done", s2, None))
                else:
                    res += body(s2, v.a[2][0])
            return res
        outs = self.summarize(st, run)
        for _, s, _ in outs:
            s.mem.pop(cell, None)
        return outs

    def as_iter(self, v):
        if v.tag == "it":
            return v
        return mk("it", v, False, ())

    def iter_next(self, st, ref, depth, back=False):
        """model of Iterator::next on an iterator variable"""
        v = self.deref(ref, st)
        if ref.tag != "mref":
            return None
        if v.tag != "it" and v.tag != "phi":
            return None
        ctx = self.loopctx[-1] if self.loopctx else None
        it = v
        if v.tag == "phi":
            owner = next((c for c in self.loopctx if v in c["init"]), None)
            if owner is None or owner["init"][v].tag != "it" or owner is not ctx:
                return None
            it = owner["init"][v]
        if back:
            it = mk("it", it.a[0], not it.a[1], it.a[2])
        if it.a[0].tag == "arr" and v.tag == "it":
            items = it.a[0].a[0]
            if not items:
                return [(st, NONE)]
            x, rest = (items[-1], items[:-1]) if it.a[1] else (items[0], items[1:])
            s = st.fork()
            nit = mk("it", mk("arr", rest), v.a[1], v.a[2])
            self.write_loc(s, ref.a[0], ref.a[1], nit)
            res = []
            for tag, s2, val in self.apply_stages(s, it, x, depth):
                if tag == "val":
                    res.append((s2, Some(val)))
                elif tag == "skip":
                    res += self.iter_next(s2, ref, depth, back)
                else:
                    res.append((s2, NONE))
            return res
        if ctx is None or (v.tag == "it" and ref.a[0] not in ctx.get("outer", {ref.a[0]})):
            return self.first_of(st, it, ref, depth)
        if ctx["iters"] and (v not in ctx["iters"]):
            return None
        ctx["iters"][v] = it
        d = ctx["depth"]
        s_end = st.fork()
        s_end.mem[("x", d)] = TRUE
        e = mk("elem", it.a[0], d)
        s = st.fork()
        self.write_loc(s, ref.a[0], ref.a[1], mk("itadv", v))
        res = [(s_end, NONE)]
        for tag, s2, val in self.apply_stages(s, it, e, depth):
            if tag == "val":
                res.append((s2, Some(val)))
            elif tag == "skip":
                res.append((s2, SKIP))
            else:
                s2.mem[("x", d)] = TRUE
                res.append((s2, NONE))
        return res

    def first_of(self, st, it, ref, depth):
        outs = self.walk(st, it, lambda s, e: [("hit", s, e)], depth)
        res = []
        for kind, s, p in outs:
            if ref is not None and ref.tag == "mref":
                self.write_loc(s, ref.a[0], ref.a[1], mk("itrest", it))
            res.append((s, Some(p) if kind == "hit" else NONE))
        return res


class _Mark:
    tag = "mark"
    a = ()


SKIP, PANIC = _Mark(), _Mark()
import models as _m

STD = {"core", "alloc", "std", "memchr"}
PURE_LAST = _m.PURE_LAST


def fr_subst(fr):
    return tuple(sorted(fr.subst.items()))


def subst_ty(t, sub):
    if not sub or not t:
        return t
    return re.sub(r"\b([A-Z][A-Za-z0-9]*|Self)\b(?!::|')", lambda m: sub[m[1]] if m[1] in sub and not t[:m.start()].endswith("::") else m[0], t)


def neg(v):
    if v.tag == "int":
        return FALSE if v.a[0] else TRUE
    if v.tag == "not":
        return v.a[0]
    return mk("not", v)


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(b) or (not is_const(a) and show(a) <= show(b)):
        pass
    else:
        a, b = b, a
    if a.tag == b.tag and a.tag in ("int", "str"):
        return TRUE if a is b else FALSE
    return mk("eq", a, b)


def lt(a, b):
    if a.tag == "int" and b.tag == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a is b:
        return FALSE
    return mk("lt", a, b)


def binop(op, a, b):
    if op == "Eq":
        return eq(a, b)
    if op == "Ne":
        return neg(eq(a, b))
    if op == "Lt":
        return lt(a, b)
    if op == "Gt":
        return lt(b, a)
    if op == "Le":
        return neg(lt(b, a))
    if op == "Ge":
        return neg(lt(a, b))
    base_op = op.replace("WithOverflow", "").replace("Unchecked", "")
    over = "WithOverflow" in op
    r = None
    if a.tag == "int" and b.tag == "int":
        x, y = a.a[0], b.a[0]
        r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}.get(base_op)
        if r is not None:
            r = Int(r)
    if r is None and base_op == "BitAnd" and (boolish(a) or boolish(b)):
        r = mk("and", a, b) if a.tag != "int" else (b if a.a[0] else FALSE)
    if r is None and base_op == "BitOr" and (boolish(a) or boolish(b)):
        r = mk("or", a, b) if a.tag != "int" else (TRUE if a.a[0] else b)
    if r is None and b.tag == "int":
        if base_op == "Sub":
            r = add(a, -b.a[0])
        elif base_op == "Add":
            r = add(a, b.a[0])
    if r is None and a.tag == "int" and base_op == "Add":
        r = add(b, a.a[0])
    if r is None:
        if base_op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and show(b) < show(a):
            a, b = b, a
        r = mk("bin", base_op, a, b)
    return tup(r, FALSE) if over else r


def add(a, n):
    if a.tag == "bin" and a.a[0] == "Add" and a.a[2].tag == "int":
        n += a.a[2].a[0]
        a = a.a[1]
    return a if n == 0 else mk("bin", "Add", a, Int(n))


def boolish(t):
    return t.tag in ("eq", "lt", "not", "isv", "and", "or", "exists", "inset", "inrange", "cases")


def widening(src, ty):
    """does every value of the source type survive the cast (an unknown source: unless the target is narrow)"""
    if src == "bool":
        return True
    if src == "char":
        src = "u32"
    a, b = WIDTH.get(src), WIDTH.get(ty)
    if a and b:
        return a[1] <= b[1] if a[0] == b[0] else (not a[0] and a[1] < b[1])
    return ty in ("usize", "u32", "u64", "i64", "i32", "isize", "i128", "u128")


def index(v, ix):
    if v.tag == "arr" and ix is not None and ix.tag == "int" and 0 <= ix.a[0] < len(v.a[0]):
        return v.a[0][ix.a[0]]
    if v.tag == "updi" and v.a[1] is ix:
        return v.a[2]
    if ix is not None and ix.tag == "fidx" and ix.a[0] is v:
        return mk("found", *ix.a)
    return call("index", v, ix)


def cindex(v, off, from_end):
    if v.tag == "arr":
        i = len(v.a[0]) - off if from_end else off
        if 0 <= i < len(v.a[0]):
            return v.a[0][i]
    if from_end:
        return mk("cidx_end", v, off)
    return call("index", v, Int(off))


def subslice(v, a, b, from_end):
    if v.tag == "arr":
        xs = v.a[0]
        return mk("arr", xs[a:len(xs) - b] if from_end else xs[a:b])
    return mk("subslice", v, a, b, bool(from_end))


def setproj(cur, e, v):
    if e[0] == "f":
        n = e[1]
        if cur.tag == "adt" and n in cur.a[3]:
            i = cur.a[3].index(n)
            fs = cur.a[2][:i] + (v,) + cur.a[2][i + 1:]
            return mk("adt", cur.a[0], cur.a[1], fs, cur.a[3])
        if cur.tag == "tup" and int(n) < len(cur.a[0]):
            i = int(n)
            return mk("tup", cur.a[0][:i] + (v,) + cur.a[0][i + 1:])
        if cur.tag in ("clo", "cor") and n.isdigit() and int(n) < len(cur.a[1]):
            i = int(n)
            return mk(cur.tag, cur.a[0], cur.a[1][:i] + (v,) + cur.a[1][i + 1:], cur.a[2])
        if project(cur, n) is v:
            return cur
        if cur.tag == "upd" and cur.a[1] == n:
            cur = cur.a[0]
        if v.tag == "fld" and v.a[0] is cur and v.a[1] == n:
            return cur
        return mk("upd", cur, n, v)
    if e[0] == "v":
        if cur.tag == "adt" and cur.a[1] == e[1] and e[2] in cur.a[3]:
            i = cur.a[3].index(e[2])
            fs = cur.a[2][:i] + (v,) + cur.a[2][i + 1:]
            return mk("adt", cur.a[0], cur.a[1], fs, cur.a[3])
        return mk("updv", cur, e[1], e[2], v)
    if e[0] == "i":
        return mk("updi", cur, e[1], v)
    return mk("updx", cur, repr(e), v)


def cat_eq(c, s):
    """can the concatenation c equal the constant s? False when its constant ends rule it out"""
    ps = c.a[0]
    if ps[0].tag == "str" and not s.startswith(ps[0].a[0]):
        return False
    if ps[-1].tag == "str" and not s.endswith(ps[-1].a[0]):
        return False
    return None


_m.bind(globals())
