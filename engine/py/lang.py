"""Regular-language abstract domain for strings.

A string-valued term built from one input by known partial functions (strip_prefix, trim, split_once, ...)
is a transformation of that input; a condition on it holds exactly for the inputs in a regular language, computed
by taking preimages. Sets of inputs are deterministic automata over character classes, so two ways of writing the
same recogniser are found equal and a difference comes with a shortest witness."""
from terms import *

OTHER, WS = "<other>", "<unicode-space>"
ASCII_WS = [" ", "\t", "\n", "\r", "\x0c"]
VT = "\x0b"


EVERY = frozenset((frozenset(),))


PATH_STR = {"OsStr::to_str", "Path::to_str", "str::from_utf8", "OsString::into_string"}
PATH_ID = {"OsStr::to_string_lossy", "Path::to_string_lossy", "OsStr::as_encoded_bytes", "OsStr::to_os_string", "OsString::from", "str::as_bytes", "String::as_bytes", "str::bytes", "String::into_bytes"}


class Unknown(Exception):
    pass


class Lang:
    """complete DFA over a fixed alphabet (list of symbols); state 0 is initial"""

    def __init__(self, sigma, trans, acc):
        self.sigma, self.trans, self.acc = sigma, trans, acc

    def minimal(self):
        n, k = len(self.trans), len(self.sigma)
        cls = [1 if i in self.acc else 0 for i in range(n)]
        while True:
            sig = {}
            new = []
            for i in range(n):
                key = (cls[i],) + tuple(cls[self.trans[i][a]] for a in range(k))
                new.append(sig.setdefault(key, len(sig)))
            if len(sig) == len(set(cls)):
                break
            cls = new
        order, idx, work = [], {}, [0]
        idx[cls[0]] = 0
        order.append(0)
        while work:
            s = work.pop(0)
            for a in range(k):
                t = self.trans[s][a]
                if cls[t] not in idx:
                    idx[cls[t]] = len(order)
                    order.append(t)
                    work.append(t)
        trans = [[idx[cls[self.trans[s][a]]] for a in range(k)] for s in order]
        return Lang(self.sigma, trans, frozenset(i for i, s in enumerate(order) if s in self.acc))

    def __eq__(self, o):
        a, b = self.minimal(), o.minimal()
        return a.trans == b.trans and a.acc == b.acc

    def __hash__(self):
        return 0

    def binary(self, o, f):
        k = len(self.sigma)
        idx, trans, acc, work = {(0, 0): 0}, [], set(), [(0, 0)]
        while work:
            p = work.pop(0)
            row = []
            if f(p[0] in self.acc, p[1] in o.acc):
                acc.add(idx[p])
            for a in range(k):
                q = (self.trans[p[0]][a], o.trans[p[1]][a])
                if q not in idx:
                    idx[q] = len(idx)
                    work.append(q)
                row.append(idx[q])
            trans.append(row)
        return Lang(self.sigma, trans, frozenset(acc)).minimal()

    def __and__(self, o):
        return self.binary(o, lambda a, b: a and b)

    def __or__(self, o):
        return self.binary(o, lambda a, b: a or b)

    def __sub__(self, o):
        return self.binary(o, lambda a, b: a and not b)

    def __invert__(self):
        return Lang(self.sigma, self.trans, frozenset(range(len(self.trans))) - self.acc).minimal()

    def __le__(self, o):
        return (self - o).empty()

    def empty(self):
        return self.witness() is None

    def witness(self):
        """a shortest member, as text"""
        seen, work = {0}, [(0, "")]
        while work:
            s, w = work.pop(0)
            if s in self.acc:
                return w
            for a, sym in enumerate(self.sigma):
                t = self.trans[s][a]
                if t not in seen:
                    seen.add(t)
                    work.append((t, w + {OTHER: "\u00b7", WS: "\u00a0"}.get(sym, sym)))
        return None


class NFA:
    def __init__(self, alpha):
        self.alpha, self.eps, self.tr, self.n = alpha, {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def t(self, a, sym, b):
        self.tr.setdefault((a, sym), set()).add(b)

    def embed(self, d):
        base = self.n
        self.n += len(d.trans)
        for i, row in enumerate(d.trans):
            for a, j in enumerate(row):
                self.t(base + i, a, base + j)
        return base, [base + i for i in d.acc]

    def closure(self, ss):
        ss = set(ss)
        work = list(ss)
        while work:
            for y in self.eps.get(work.pop(), ()):
                if y not in ss:
                    ss.add(y)
                    work.append(y)
        return frozenset(ss)

    def dfa(self, start, accs):
        accs = set(accs)
        s0 = self.closure([start])
        idx, trans, acc, work = {s0: 0}, [], set(), [s0]
        while work:
            s = work.pop(0)
            if s & accs:
                acc.add(idx[s])
            row = []
            for a in range(len(self.alpha)):
                q = self.closure(set().union(*[self.tr.get((x, a), ()) for x in s]) if s else ())
                if q not in idx:
                    idx[q] = len(idx)
                    work.append(q)
                row.append(idx[q])
            trans.append(row)
        return Lang(self.alpha, trans, frozenset(acc)).minimal()


class Alphabet:
    def __init__(self, consts):
        chars = set(ASCII_WS) | {VT}
        for s in consts:
            for c in s:
                chars.add(c)
                chars.add(c.lower() if len(c.lower()) == 1 else c)
                chars.add(c.upper() if len(c.upper()) == 1 else c)
        self.approx = False
        self.sigma = sorted(chars) + [WS, OTHER]
        self.ix = {s: i for i, s in enumerate(self.sigma)}
        self.ws = {self.ix[c] for c in ASCII_WS + [VT]} | {self.ix[WS]} | {self.ix[c] for c in chars if c.isspace()}
        self.ascii_ws = {self.ix[c] for c in ASCII_WS}
        self.every = set(range(len(self.sigma)))
        self.all = Lang(self.sigma, [[0] * len(self.sigma)], frozenset((0,)))
        self.none = Lang(self.sigma, [[0] * len(self.sigma)], frozenset())
        self.eps = self.lit("")

    def lit(self, s):
        n = NFA(self.sigma)
        st = n.new()
        cur = st
        for c in s:
            nx = n.new()
            n.t(cur, self.ix[c], nx)
            cur = nx
        return n.dfa(st, [cur])

    def cls(self, syms):
        n = NFA(self.sigma)
        a, b = n.new(), n.new()
        for s in syms:
            n.t(a, s, b)
        return n.dfa(a, [b])

    def cat(self, *ls):
        r = ls[0]
        for l in ls[1:]:
            n = NFA(self.sigma)
            b1, a1 = n.embed(r)
            b2, a2 = n.embed(l)
            for x in a1:
                n.e(x, b2)
            r = n.dfa(b1, a2)
        return r

    def star(self, l):
        n = NFA(self.sigma)
        s = n.new()
        b, a = n.embed(l)
        n.e(s, b)
        for x in a:
            n.e(x, s)
        return n.dfa(s, [s])

    def plus(self, l):
        return self.cat(l, self.star(l))

    def union(self, ls):
        r = self.none
        for l in ls:
            r = r | l
        return r

    def map_pre(self, l, h):
        """strings whose image under the per-character map h is in l"""
        return Lang(self.sigma, [[row[h[a]] for a in range(len(self.sigma))] for row in l.trans], l.acc).minimal()

    def length(self, ranges):
        """texts by length in bytes; exact for texts of one-byte characters only (see approx)"""
        self.approx = True
        top = max(x for lo, hi in ranges for x in (lo, hi) if abs(x) != float("inf")) + 2
        if top > 600:
            raise Unknown("length " + repr(ranges))
        n = len(self.sigma)
        tr = [[min(i + 1, top)] * n for i in range(top + 1)]
        return Lang(self.sigma, tr, frozenset(i for i in range(top + 1) if any(lo <= i <= hi for lo, hi in ranges))).minimal()

    def definite(self, L):
        """the members of L that the approximation is exact for"""
        if not self.approx:
            return L
        one = {i for i in self.every if self.sigma[i] != WS and (self.sigma[i] == OTHER or ord(self.sigma[i]) < 128)}
        return L & self.star(self.cls(one))

    # ---- preimages ----
    def pattern(self, p):
        """the language of single matches of a pattern argument (a string, a character, a predicate)"""
        if p.tag == "str":
            return self.lit(p.a[0]), len(p.a[0]) == 1
        if p.tag == "fnitem" or p.tag == "fn":
            n = str(p.a[0])
            for k, v in (("is_whitespace", self.ws), ("is_ascii_whitespace", self.ascii_ws)):
                if n.endswith(k):
                    return self.cls(v), True
        if p.tag == "int":
            return self.lit(chr(p.a[0])), True
        if p.tag == "bytes" and all(b < 128 for b in p.a[0]):
            return self.lit(p.a[0].decode()), len(p.a[0]) == 1
        if op(p) in ("Finder::new", "FinderRev::new"):
            return self.pattern(args(p)[0])
        if p.tag == "arr" and all(x.tag == "str" and len(x.a[0]) == 1 or x.tag == "int" for x in p.a[0]):
            return self.cls({self.ix[x.a[0] if x.tag == "str" else chr(x.a[0])] for x in p.a[0]}), True
        raise Unknown("pattern " + show(p))

    def path_part(self, o, L):
        """paths (with a normal last component) whose extension, file name or stem is in L"""
        A = self.all
        slash = self.lit("/")
        dirs = self.eps | self.cat(A, slash)
        name = self.plus(self.cls(self.every - {self.ix["/"]}))
        dot = self.lit(".")
        nodot = self.star(self.cls(self.every - {self.ix["/"], self.ix["."]}))
        if o == "Path::file_name":
            return self.cat(dirs, L & name)
        if o == "Path::extension":
            return self.cat(dirs, name, dot, L & nodot)
        # stem: all before the last dot that is not at the start
        stem_with = self.cat(L & name, dot, nodot)
        without = L & (nodot | self.cat(dot, nodot)) & name
        return self.cat(dirs, stem_with | without)

    def paths(self):
        """the paths the model covers: the last component is a name, not empty, `.` or `..`"""
        A = self.all
        slash = self.lit("/")
        name = self.plus(self.cls(self.every - {self.ix["/"]})) - self.lit(".") - self.lit("..")
        return self.cat(self.eps | self.cat(A, slash), name)

    def before(self, sep, single):
        """texts v such that the first match of sep in v + sep is at its end"""
        A = self.all
        if single:
            return ~self.cat(A, sep, A)
        w = sep.witness()
        if w is None or sep != self.lit(w):
            raise Unknown("separator")
        D = self.cat(A, sep, self.plus(self.cls(self.every)))
        acc = set()
        for q in range(len(D.trans)):
            x = q
            for c in w:
                x = D.trans[x][self.ix[c]]
            if x not in D.acc:
                acc.add(q)
        return Lang(D.sigma, D.trans, frozenset(acc)).minimal()

    def first_piece(self, x, pat, L, root):
        """x up to the first match of the separator, or all of x"""
        sep, single = self.pattern(pat)
        A = self.all
        V = L & self.before(sep, single)
        return self.pre(x, self.cat(V, self.eps | self.cat(sep, A)), root)

    def first_line(self, L):
        """texts whose first line, as str::lines gives it, is in L"""
        A, nl, cr = self.all, self.lit("\n"), self.lit("\r")
        one = L & ~self.cat(A, nl, A)
        return (one & ~self.eps) | self.cat(one & ~self.cat(A, cr), nl, A) | self.cat(one, cr, nl, A)

    def pre(self, t, L, root):
        """inputs (values of root) for which t is defined and its value is in L"""
        if t is root:
            return L
        o, ar = op(t), args(t)
        A = self.all
        if t.tag == "pay" and t.a[1] in ("Some", "Ok") and op(t.a[0]) in PATH_STR:
            return self.pre(args(t.a[0])[0], L, root)
        if o in PATH_ID or t.tag == "pay" and t.a[1] in ("Borrowed", "Owned"):
            return self.pre(ar[0], L, root)
        if t.tag == "cat" and len(t.a[0]) == 1:
            return self.pre(t.a[0][0], L, root)
        if t.tag == "pay" and t.a[1] == "Some" and op(t.a[0]) in ("Path::extension", "Path::file_name", "Path::file_stem"):
            return self.pre(args(t.a[0])[0], self.path_part(op(t.a[0]), L), root)
        if t.tag == "found" and op(t.a[0]) == "str::split" and t.a[1] == "first" and t.a[2] == EVERY:
            return self.first_piece(*args(t.a[0])[:2], L, root)
        if t.tag == "found" and op(t.a[0]) == "str::lines" and t.a[1] == "first" and t.a[2] == EVERY:
            return self.pre(args(t.a[0])[0], self.first_line(L), root)
        if t.tag == "pay" and t.a[1] == "Some" and op(t.a[0]) == "next":
            it = args(t.a[0])[0]
            if op(it) == "str::lines":
                return self.pre(args(it)[0], self.first_line(L), root)
            if op(it) == "str::splitn" and args(it)[1] is Int(2):
                return self.first_piece(args(it)[0], args(it)[2], L, root)
            if op(it) == "str::split":
                return self.first_piece(args(it)[0], args(it)[1], L, root)
            if op(it) == "itadv" and op(args(it)[0]) == "str::splitn" and args(args(it)[0])[1] is Int(2):
                x, _, pat = args(args(it)[0])
                sep, single = self.pattern(pat)
                if single:
                    return self.pre(x, self.cat(~self.cat(A, sep, A), sep, L), root)
        if t.tag == "loopval":
            # while let Some(rest) = x.strip_prefix(p) { x = rest }
            g = t.a[0]
            if g.tag == "loop" and len(g.a) >= 2 and len(g.a[0]) == 1 and len(g.a[1]) == 1:
                conds, step = next(iter(g.a[1]))
                upd = dict(step[0]).get(0) if step and not step[1] else None
                if len(conds) == 1 and upd is not None and upd.tag == "pay" and upd.a[1] == "Some":
                    c, k = next(iter(conds))
                    if c is upd.a[0] and k[0] == "v" and k[1] == frozenset(("Some",)) and op(c) in ("str::strip_prefix", "str::strip_suffix") and args(c)[0].tag == "phi":
                        p = self.pattern(args(c)[1])[0]
                        pre = op(c) == "str::strip_prefix"
                        V = L - (self.cat(p, A) if pre else self.cat(A, p))
                        return self.pre(g.a[0][0], self.cat(self.star(p), V) if pre else self.cat(V, self.star(p)), root)
        if t.tag == "pay" and t.a[1] == "Some" and t.a[2] == "0":
            c = t.a[0]
            o, ar = op(c), args(c)
            if o == "str::strip_prefix":
                return self.pre(ar[0], self.cat(self.pattern(ar[1])[0], L), root)
            if o == "str::strip_suffix":
                return self.pre(ar[0], self.cat(L, self.pattern(ar[1])[0]), root)
        if t.tag == "fld" and t.a[0].tag == "pay" and t.a[0].a[1] == "Some":
            c = t.a[0].a[0]
            o, ar = op(c), args(c)
            if o in ("str::split_once", "str::rsplit_once"):
                sep, single = self.pattern(ar[1])
                has = self.cat(A, sep, A)
                if o == "str::split_once":
                    bef = self.before(sep, single)
                    return self.pre(ar[0], self.cat(L & bef, sep, A) if t.a[1] == "0" else self.cat(bef, sep, L), root)
                if single:
                    return self.pre(ar[0], self.cat(L, sep, ~has) if t.a[1] == "0" else self.cat(A, sep, L & ~has), root)
        if o == "index" and len(ar) == 2 and ar[1].tag == "adt":
            # a slice up to or after the first match of a pattern
            r, x = ar[1], ar[0]
            kind = r.a[0].split("::")[-1]
            e = r.a[2][0] if len(r.a[2]) == 1 else None
            n = 0
            if e is not None and kind in ("RangeTo", "RangeFrom"):
                if op(e) == "bin" and args(e)[0] == "Add" and args(e)[2].tag == "int":
                    n, e = args(e)[2].a[0], args(e)[1]
                if e.tag == "pay" and op(e.a[0]) == "str::find" and args(e.a[0])[0] is x:
                    pat = args(e.a[0])[1]
                    sep, single = self.pattern(pat)
                    has = self.cat(A, sep, A)
                    width = len(sep.witness().encode()) if not sep.empty() else 0
                    if single and width == 1:
                        if kind == "RangeTo" and n == 0:
                            return self.pre(x, self.cat(L & ~has, sep, A), root)
                        if kind == "RangeFrom" and n == 0:
                            return self.pre(x, self.cat(~has, L & self.cat(sep, A)), root)
                        if kind == "RangeFrom" and n == 1:
                            return self.pre(x, self.cat(~has, sep, L), root)
        if t.tag == "call":
            if o in ("str::trim", "str::trim_start", "str::trim_end", "str::trim_left", "str::trim_right", "str::trim_ascii", "str::trim_ascii_start", "str::trim_ascii_end"):
                w = self.cls(self.ascii_ws if "ascii" in o else self.ws)
                lead = o.endswith(("trim", "start", "left", "ascii"))
                tail = o.endswith(("trim", "end", "right", "ascii"))
                V = L
                if lead:
                    V = V - self.cat(w, A)
                if tail:
                    V = V - self.cat(A, w)
                V = self.cat(*([self.star(w)] if lead else []), V, *([self.star(w)] if tail else []))
                return self.pre(ar[0], V, root)
            if o in ("str::trim_start_matches", "str::trim_end_matches", "str::trim_matches", "str::trim_left_matches", "str::trim_right_matches"):
                p, single = self.pattern(ar[1])
                if not single and o not in ("str::trim_start_matches", "str::trim_end_matches"):
                    raise Unknown(o)
                V = L
                lead, tail = "end" not in o and "right" not in o, "start" not in o and "left" not in o
                if lead:
                    V = V - self.cat(p, A)
                if tail:
                    V = V - self.cat(A, p)
                V = self.cat(*([self.star(p)] if lead else []), V, *([self.star(p)] if tail else []))
                return self.pre(ar[0], V, root)
            if o in ("str::to_lowercase", "str::to_ascii_lowercase", "str::to_uppercase", "str::to_ascii_uppercase"):
                low = "lower" in o
                h = {}
                for i, s in enumerate(self.sigma):
                    m = s if s in (WS, OTHER) else (s.lower() if low else s.upper())
                    h[i] = self.ix.get(m, self.ix[OTHER])
                return self.pre(ar[0], self.map_pre(L, h), root)
        raise Unknown("string operation " + show(t)[:300])

    def cond(self, t, c, root):
        """inputs satisfying one condition"""
        A = self.all
        if c[0] == "s":
            L = self.union([self.lit(x) for x in c[2]])
            return self.pre(t, L if c[1] else ~L, root)
        if c[0] == "v" and op(t) in PATH_STR:
            return A if c[1] & {"Some", "Ok"} else self.none
        if c[0] == "v" and op(t) in ("Path::extension", "Path::file_name", "Path::file_stem") and len(c[1]) == 1:
            has = self.pre(args(t)[0], self.path_part(op(t), A), root)
            return has if "Some" in c[1] else ~has
        if t.tag == "exists" and t.a[2] == EVERY and op(t.a[0]) in ("str::split", "str::splitn") and c[0] == "b":
            return A if c[1] == frozenset((True,)) else self.none
        if t.tag == "exists" and t.a[2] == EVERY and op(t.a[0]) == "str::lines" and c[0] == "b" and len(c[1]) == 1:
            return self.pre(args(t.a[0])[0], ~self.eps if True in c[1] else self.eps, root)
        if c[0] == "v" and op(t) == "next":
            it = args(t)[0]
            some = c[1] == frozenset(("Some",))
            if op(it) == "str::lines" and len(c[1]) == 1:
                return self.pre(args(it)[0], ~self.eps if some else self.eps, root)
            if op(it) in ("str::splitn", "str::split"):
                return A if some else self.none
            if op(it) == "itadv" and op(args(it)[0]) == "str::splitn" and args(args(it)[0])[1] is Int(2):
                x, _, pat = args(args(it)[0])
                h = self.cat(A, self.pattern(pat)[0], A)
                return self.pre(x, h if some else ~h, root)
        if c[0] == "v" and op(t) in ("Finder::find", "memmem::find", "memmem::rfind", "memchr::memchr", "memchr::memrchr"):
            ar = args(t)
            pat, x = (ar[0], ar[1]) if op(t) in ("Finder::find", "memchr::memchr", "memchr::memrchr") else (ar[1], ar[0])
            h = self.cat(A, self.pattern(pat)[0], A)
            return A if len(c[1]) != 1 else self.pre(x, h if "Some" in c[1] else ~h, root)
        if c[0] == "v" and op(t) == "str::get" and len(c[1]) == 1:
            raise Unknown("slice " + show(t)[:200])
        if c[0] == "i" and op(t) == "index" and op(args(t)[0]) in ("str::as_bytes", "String::as_bytes"):
            # the byte k places before the first match of a one-byte separator
            x, i = args(args(t)[0])[0], args(t)[1]
            k = 0
            if op(i) == "bin" and args(i)[0] == "Sub" and args(i)[2].tag == "int":
                k, i = args(i)[2].a[0], args(i)[1]
            elif i.tag == "bin" and i.a[0] == "Sub" and i.a[2].tag == "int":
                k, i = i.a[2].a[0], i.a[1]
            if op(i) == "bin" and args(i)[0] == "Add" and args(i)[2].tag == "int":
                k, i = k - args(i)[2].a[0], args(i)[1]
            elif i.tag == "bin" and i.a[0] == "Add" and i.a[2].tag == "int":
                k, i = k - i.a[2].a[0], i.a[1]
            if i.tag == "pay" and op(i.a[0]) == "str::find" and args(i.a[0])[0] is x and k >= 1 and len(c[1]) <= 4:
                sep, single = self.pattern(args(i.a[0])[1])
                syms = {j for j in self.every if self.sigma[j] not in (WS, OTHER) and any(lo <= ord(self.sigma[j]) <= hi for lo, hi in c[1])}
                rest = sum(min(hi, 127) - max(lo, 0) + 1 for lo, hi in c[1] if lo <= 127)
                if len(syms) == rest and all(hi < 128 for _, hi in c[1]):
                    pass
                elif any(lo == 0 or hi >= 127 for lo, hi in c[1]):
                    # the complement of single bytes
                    out = {j for j in self.every if self.sigma[j] not in (WS, OTHER)} - syms
                    if sum(1 for v in range(128) if not any(lo <= v <= hi for lo, hi in c[1])) != len(out):
                        raise Unknown("byte " + show_cond(t, c)[:200])
                    syms = self.every - out
                else:
                    raise Unknown("byte " + show_cond(t, c)[:200])
                self.approx = self.approx or k > 1
                tail = self.eps
                for _ in range(k - 1):
                    tail = self.cat(tail, self.cls(self.every))
                return self.pre(x, self.cat(self.before(sep, single) & self.cat(A, self.cls(syms), tail), sep, A), root)
        if c[0] == "i" and t.tag == "pay" and op(t.a[0]) == "str::find":
            x, pat = args(t.a[0])[:2]
            sep, single = self.pattern(pat)
            return self.pre(x, self.cat(self.before(sep, single) & self.length(c[1]), sep, A), root)
        if c[0] == "v":
            o, ar = op(t), args(t)
            if o in ("str::strip_prefix", "str::strip_suffix", "str::split_once", "str::rsplit_once", "str::find", "str::rfind"):
                p = self.pattern(ar[1])[0]
                L = {"str::strip_prefix": (p, A), "str::strip_suffix": (A, p)}.get(o, (A, p, A))
                L = self.cat(*L)
                if c[1] == frozenset(("Some",)):
                    return self.pre(ar[0], L, root)
                if c[1] == frozenset(("None",)):
                    return self.pre(ar[0], ~L, root)
                return A
        if c[0] == "b" and len(c[1]) == 1:
            yes = next(iter(c[1]))
            o, ar = op(t), args(t)
            if o in ("str::starts_with", "str::ends_with", "str::contains") and ar[0].tag == "str":
                k = ar[0].a[0]
                n = len(k)
                subs = {k[i:j] for i in range(n + 1) for j in range(i, n + 1) if o == "str::contains" or (i == 0 if o == "str::starts_with" else j == n)}
                L = self.union([self.lit(x) for x in sorted(subs)])
                return self.pre(ar[1], L if yes else ~L, root)
            if o in ("str::starts_with", "str::ends_with", "str::contains"):
                p = self.pattern(ar[1])[0]
                L = self.cat(*{"str::starts_with": (p, A), "str::ends_with": (A, p), "str::contains": (A, p, A)}[o])
                return self.pre(ar[0], L if yes else ~L, root)
            if o == "Path::ends_with" and ar[1].tag == "str" and ar[1].a[0] and not ar[1].a[0].startswith("/"):
                # whole components
                L = self.cat(self.eps | self.cat(A, self.lit("/")), self.lit(ar[1].a[0].rstrip("/")))
                return self.pre(ar[0], L if yes else ~L, root)
            if o in ("str::eq_ignore_ascii_case",) and ar[1].tag == "str":
                L = self.cat(self.eps, *[self.cls({self.ix[x] for x in (ch, ch.lower(), ch.upper()) if x in self.ix}) for ch in ar[1].a[0]])
                return self.pre(ar[0], L if yes else ~L, root)
            if t.tag == "eq":
                a, b = t.a
                if b.tag == "str":
                    a, b = b, a
                if a.tag == "str":
                    return self.pre(b, self.lit(a.a[0]) if yes else ~self.lit(a.a[0]), root)
            if o == "str::is_empty":
                return self.pre(ar[0], self.eps if yes else ~self.eps, root)
        if c[0] == "i" and op(t) == "len":
            if c[1] == ((0, 0),):
                return self.pre(args(t)[0], self.eps, root)
            if c[1][0][0] == 1 and len(c[1]) == 1 and c[1][0][1] == float("inf"):
                return self.pre(args(t)[0], ~self.eps, root)
            return self.pre(args(t)[0], self.length(c[1]), root)
        raise Unknown("condition " + show_cond(t, c)[:300])

    def conds(self, conds, root):
        r = self.all
        for t, c in conds.items():
            if t.tag == "not" or not any(x is root for x in subterms(t)):
                raise Unknown("condition " + show_cond(t, c)[:200])
            r = r & self.cond(t, c, root)
        return r


def constants(terms):
    out = set()
    for t in terms:
        for u in subterms(t):
            if u.tag == "bytes" and all(b < 128 for b in u.a[0]):
                out.add(u.a[0].decode())
            if u.tag == "int" and u.a[0] in (9, 10, 13):
                out.add(chr(u.a[0]))
            if u.tag == "arr":
                out |= {chr(x.a[0]) for x in u.a[0] if isinstance(x, T) and x.tag == "int" and 0x20 <= x.a[0] < 0x7f}
            if u.tag == "str":
                out.add(u.a[0])
    return out


def cond_constants(conds):
    out = constants(list(conds))
    for t, c in conds.items():
        if c[0] == "s":
            out |= set(c[2])
        if c[0] == "i" and t.tag != "call" or c[0] == "i" and op(t) == "index":
            out |= {chr(v) for lo, hi in c[1] for v in (lo, hi) if isinstance(v, int) and 0 < v < 127} | {chr(v) for lo, hi in c[1] for v in (lo - 1, hi + 1) if isinstance(v, int) and 0 < v < 127}
    return out
