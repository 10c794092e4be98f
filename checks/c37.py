"""C37: the grammar reader reads a grammar as written or reports where it fails."""
from terms import *
from cases import *
import flow, lang
from report import Missing, NoFacts

LEVEL = "proof"
TECHNIQUE = "transducer extraction from MIR summaries: lexeme languages per token kind compared as automata; parser functions compared case by case (by the kinds of the next tokens) with the notation's production, positions and errors included"
EXPLANATION = ("For the lexer, every outcome of `advance` is turned into the regular language of the text it consumes and of what may follow, and the language per token kind is compared with the notation's; what the token records is compared with what was consumed. "
               "The tokenising loop is checked to skip only blanks and comments, to give each token (and error) the position of its first character and to consume something in every round. "
               "Each parser function is summarised with the other productions opaque, and each outcome compared with the production it stands for: tokens taken, rules built, the order of their parts, position of errors. Termination: every loop round and every recursive call has taken a token.")
B = "biome_ungrammar::"
LX, PS = B + "lexer::", B + "parser::"
PRODUCTIONS = ("node", "rule", "seq_rule", "atom_rule", "opt_atom_rule")
SIMPLE = {"Eq": "=", "Star": "*", "QMark": "?", "LParen": "(", "RParen": ")", "Colon": ":", "Pipe": "|", "DoublePipe": "||", "DoubleAmpersand": "&&"}
IDENT = [(48, 57), (65, 90), (95, 95), (97, 122)]


def strip(t):
    while op(t) and t.tag in ("call", "ecall") and op(t).startswith(("From<", "Into<", "Into::", "AsRef", "ToOwned", "ToString", "Box::new", "Clone")):
        t = args(t)[-1]
    while t.tag == "cat" and len(t.a[0]) == 1:
        t = t.a[0][0]
    return t


# ---------------------------------------------------------------- lexer: one token
class Odd(Exception):
    pass


def charset(c):
    """character ranges of a condition"""
    if c[0] != "i":
        raise Odd("condition " + str(c)[:80])
    out = []
    for lo, hi in c[1]:
        lo = 0 if lo is None or lo == float("-inf") or lo < 0 else int(lo)
        hi = 0x10FFFF if hi is None or hi == float("inf") else int(hi)
        if lo <= hi:
            out.append((lo, hi))
    return tuple(out)


class Lexeme:
    """Reads an outcome of `advance` as: characters consumed one by one, loops over the rest, what may follow."""

    def __init__(self, root):
        self.root = root
        self.first = mk("call", "str::chars", (root,))

    def start(self, t):
        return t.tag == "it" and t.a[0] is self.first and not t.a[1] and not t.a[2]

    def chain(self, p):
        """position term -> list of steps from the start: 'c' (one character) or ('loop', loop term)"""
        steps = []
        while True:
            if self.start(p):
                return steps[::-1]
            if p.tag == "itrest" and self.start(p.a[0]):
                return (steps + ["c"])[::-1]
            if p.tag == "itadv" and len(p.a) == 1:
                steps.append("c")
                p = p.a[0]
            elif p.tag == "loopval" and p.a[0].tag == "loop":
                lp, i = p.a[0], p.a[-1]
                steps.append(("loop", lp, i))
                p = lp.a[0][i]
            else:
                raise Odd("position " + show(p)[:100])

    def char(self, p):
        """the term of the character read at position p"""
        return None

    def conds_at(self, conds, p):
        """(may be the end, ranges) allowed for the character at position p"""
        if self.start(p):
            # the first character: the engine has it as the first element
            f = [t for t in conds if t.tag == "found" and t.a[0] is self.first and t.a[2] == frozenset((frozenset(),))]
            rs = charset(conds[f[0]]) if f else ((0, 0x10FFFF),)
            return False, rs
        n = mk("call", "next", (p,))
        end = isvar(conds, n, "None")
        if end is True:
            return True, ()
        c = conds.get(payload(n, "Some", "0")) or conds.get(payload(n, "Some", 0))
        rs = charset(c) if c else ((0, 0x10FFFF),)
        return end is None, rs


def loop_cases(lp):
    """[(conditions, {index: new value}, effects)] of a loop term"""
    return [(dict(c), dict(k[0]), k[1]) for c, k in lp.a[1]]


def steps_of(L, p, conds):
    """[(kind, ...)] along the way to p, with the character ranges of each single character"""
    out = []
    q = None
    chain = L.chain(p)
    # rebuild positions from the start
    pos = [t for t in positions(L, p)]
    for st, (frm, to) in zip(chain, pos):
        if st == "c":
            end, rs = L.conds_at(conds, frm)
            out.append(("c", frm, rs, end))
        else:
            out.append(("loop", st[1], st[2]))
    return out


def positions(L, p):
    prs = []
    while not L.start(p):
        if p.tag == "itrest":
            prs.append((p.a[0], p))
            p = p.a[0]
        elif p.tag == "itadv":
            prs.append((p.a[0], p))
            p = p.a[0]
        else:
            frm = p.a[0].a[0][p.a[-1]]
            prs.append((frm, p))
            p = frm
    return prs[::-1]


def loop_body(L, lp, i):
    """[(ranges per character consumed, conditions, updates)] of one round, position at index i"""
    res = []
    for c, upd, eff in loop_cases(lp):
        if eff:
            raise Odd("effects in the loop")
        ph = [t for t in phis(lp, i)]
        if len(ph) != 1:
            raise Odd("loop position")
        ph = ph[0]
        new = upd.get(i, ph)
        n, p = 0, new
        while p is not ph:
            if p.tag != "itadv" or len(p.a) != 1:
                raise Odd("round position " + show(p)[:80])
            p = p.a[0]
            n += 1
        rs = []
        p = ph
        for _ in range(n):
            _, r = L.conds_at(c, p)
            rs.append(r)
            p = mk("itadv", p)
        # what is looked at beyond what is taken
        res.append((rs, c, upd, ph))
    return res


def phis(lp, i):
    out = set()
    for x in list(lp.a[1]):
        for t in flatten(x):
            for u in subterms(t):
                if u.tag == "phi" and u.a[1] == i and u.a[2] is lp.a[0][i]:
                    out.add(u)
    return out


def flatten(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, list, frozenset)):
        for y in x:
            yield from flatten(y)


def lexer_token(R):
    F = LX + "advance"
    R.fn(F)
    where = R.where(F)
    I = R.interp()
    root = mk("arg", "input")
    outs = split_res(I, R.summary(F, "input", I))
    L = Lexeme(root)
    rows, errors = [], []
    cuts = {0, 0x110000}
    spec_ranges = [(ord(c), ord(c)) for s in SIMPLE.values() for c in s] + IDENT + [(39, 39), (92, 92)]

    def note(rs):
        for lo, hi in rs:
            cuts.add(lo)
            cuts.add(hi + 1)
    for r in spec_ranges:
        note([r])
    unread = None
    for s, kind, v in outs:
        try:
            if kind == "Err":
                errors.append((s, v))
                # the first character, for the cover of inputs
                _, rs = L.conds_at(s.conds, mk("it", L.first, False, ()))
                note(rs)
                continue
            rest = s.mem.get(("h", "input"))
            if rest is None or op(rest) != "Chars::as_str":
                raise Odd("rest of the input " + (show(rest)[:100] if rest is not None else "unchanged"))
            p = args(rest)[0]
            st = steps_of(L, p, s.conds)
            follow = L.conds_at(s.conds, p)
            for x in st:
                if x[0] == "c":
                    note(x[2])
                else:
                    for rs, *_ in loop_body(L, x[1], x[2]):
                        for r in rs:
                            note(r)
            note(follow[1])
            rows.append((s, v, st, follow))
        except Odd as e:
            unread = f"[{show_conds(s.conds)[:150]}] gives {show(v)[:80]}: {e}"
    if unread:
        R.undecided("C37.token", where, unread)
        return
    # one abstract letter per class of characters
    cs = sorted(cuts)
    classes = list(zip(cs, [c - 1 for c in cs[1:]]))
    END = len(classes)

    def letters(rs):
        return frozenset(i for i, (lo, hi) in enumerate(classes) if any(a <= lo and hi <= b for a, b in rs))
    # languages over letters: NFA as regex pieces -> sets of (lexeme words) compared structurally:
    # each row: sequence of single letters and stars; compare through a small DFA
    got = {}
    for s, v, st, follow in rows:
        k = v.a[1] if v.tag == "adt" else None
        seq = [("1", letters(x[2]) | (frozenset((END,)) if x[3] is not False else frozenset())) if x[0] == "c" else ("*", [[letters(r) for r in rs] for rs, *_ in loop_body(L, x[1], x[2])]) for x in st]
        got.setdefault(k, []).append((seq, letters(follow[1]) | (frozenset((END,)) if follow[0] else frozenset()), s, v, st))
    allc = frozenset(range(END))
    one = lambda *cps: letters([(c, c) for c in cps])
    ident = letters(IDENT)
    want = {}
    for k, txt in SIMPLE.items():
        fol = allc | {END}
        if k == "Pipe":
            fol = fol - one(124)
        want[k] = [([("1", one(ord(c))) for c in txt], fol)]
    want["Node"] = [([("1", ident), ("*", [[ident]])], (allc | {END}) - ident)]
    want["Token"] = [([("1", one(39)), ("*", [[allc - one(39, 92)], [one(92), one(39, 92)]]), ("1", one(39))], allc | {END})]

    def word(w):
        return "".join("<end>" if i == END else chr(rep(classes[i])) for i in w)
    for k in want:
        g = dfa([(a, b) for a, b, *_ in got.get(k, [])], END)
        w = dfa(want[k], END)
        d = differ(g, w, END)
        construct = f"{where}: {k}"
        if d is None:
            R.proved("C37.token", construct, f"consumes exactly the notation's lexemes ({len(got.get(k, []))} outcomes)")
        else:
            word_, ingot = d
            R.violated("C37.token", construct, f"the text {word(word_)!r} is {'read' if ingot else 'not read'} as {k}" + (" although the notation does not say so" if ingot else ""))
    for k in got:
        if k not in want:
            R.undecided("C37.token", f"{where}: {k}", "a kind of token the rule does not know")
    # what the token records
    for k in ("Node", "Token"):
        for seq, fol, s, v, st in got.get(k, []):
            try:
                ok, why = content(L, k, strip(payload(v, 0, 0) if False else v.a[2][0]), st, s.conds)
            except Odd as e:
                ok, why = None, str(e)
            R.check(ok, "C37.content", f"{where}: {k}", why)
    # errors read nothing as a token and carry no wrong position
    for s, v in errors:
        if any(t.tag == "adt" and t.a[0].endswith("TokenKind") for t in subterms(v)):
            R.undecided("C37.token", where, "an error carries a token")
    R.floor("C37.token", "kinds of token", len(got), 1)


def rep(cl):
    lo, hi = cl
    for c in (ord("x"), ord("0"), ord("/"), ord("%"), lo):
        if lo <= c <= hi:
            return c
    return lo


def dfa(rows, END):
    """determinised on the fly: NFA over letters; rows: [(sequence, follow set)]; accepting after the lexeme and one follow letter"""
    # states: (row, index, offset in a star alternative)
    trans, eps, acc = {}, {}, set()
    start = []
    n = [0]

    def new():
        n[0] += 1
        return n[0]
    for seq, follow in rows:
        s = new()
        start.append(s)
        for kind, x in seq:
            t = new()
            if kind == "1":
                trans.setdefault(s, []).append((x, t))
            else:
                eps.setdefault(s, []).append(t)
                for alt in x:
                    a = t
                    for j, ls in enumerate(alt):
                        b = t if j == len(alt) - 1 else new()
                        trans.setdefault(a, []).append((ls, b))
                        a = b
            s = t
        f = new()
        trans.setdefault(s, []).append((follow, f))
        acc.add(f)
    return start, trans, eps, acc


def differ(g, w, END):
    """shortest word on which the two automata disagree, and whether the first accepts it"""
    def close(S, eps):
        S = set(S)
        todo = list(S)
        while todo:
            x = todo.pop()
            for y in eps.get(x, ()):
                if y not in S:
                    S.add(y)
                    todo.append(y)
        return frozenset(S)

    def step(S, a, trans, eps):
        return close([t for x in S for ls, t in trans.get(x, ()) if a in ls], eps)
    A, B_ = close(g[0], g[2]), close(w[0], w[2])
    seen = {(A, B_)}
    queue = [((A, B_), ())]
    while queue:
        (a, b), path = queue.pop(0)
        fa, fb = bool(a & g[3]), bool(b & w[3])
        if fa != fb:
            return path, fa
        for x in range(END + 1):
            n = (step(a, x, g[1], g[2]), step(b, x, w[1], w[2]))
            if n not in seen and (n[0] or n[1]):
                seen.add(n)
                queue.append((n, path + (x,)))
    return None


def content(L, kind, t, st, conds):
    """is the recorded text what was consumed (unescaped for token literals)"""
    loops = [x for x in st if x[0] == "loop"]
    if len(loops) != 1:
        return None, "no single loop"
    lp, pi = loops[0][1], loops[0][2]
    if t.tag != "loopval" or t.a[0] is not lp:
        return (None if unknown_parts([t]) - {"loopval", "loop", "phi", "itadv", "itrest"} else None), f"records {show(t)[:100]}"
    ci = t.a[-1]
    init = lp.a[0][ci]
    if kind == "Node":
        f = [u for u in conds if u.tag == "found" and u.a[0] is L.first]
        if not (f and strip(init) is f[0]):
            return (False if init.tag == "str" else None), f"the recorded name starts as {show(init)[:80]}, the first character is {'lost' if init.tag == 'str' else 'unclear'}"
    elif not (init.tag == "str" and init.a[0] == "" or init.tag == "cat" and not init.a[0]):
        return None, f"the recorded text starts as {show(init)[:80]}"
    for rs, c, upd, ph in loop_body(L, lp, pi):
        acc = [u for u in phis(lp, ci)]
        new = upd.get(ci)
        if new is None:
            return False, "characters are consumed without being recorded"
        parts = list(new.a[0]) if new.tag == "cat" else [new]
        if not parts or parts[0] not in acc:
            return None, f"records {show(new)[:100]}"
        chars = []
        p = ph
        for _ in rs:
            chars.append(payload(mk("call", "next", (p,)), "Some", "0"))
            p = mk("itadv", p)
        # an escape records the character behind the backslash
        esc = kind == "Token" and len(chars) == 2
        wanted = chars[1:] if esc else chars
        rest = [strip(x) for x in parts[1:]]
        wanted2 = [payload(mk("call", "next", (p_,)), "Some", 0) for p_ in ()]
        if [show(x) for x in rest] != [show(x) for x in wanted]:
            k = None if any(unknown_parts([x]) - {"phi", "itadv", "itrest", "loopval", "loop"} for x in rest) else False
            return k, f"a round consuming {len(chars)} characters records {[show(x)[-60:] for x in rest]}"
    return True, "records the characters consumed" + (", an escape as the character behind the backslash" if kind == "Token" else "")


# ---------------------------------------------------------------- lexer: all tokens
def suffix(t, base):
    """how the text t is what remains of base: list of what was skipped, outermost last; None if it is not"""
    if t is base:
        return []
    o = op(t)
    if o in ("str::trim_start_matches",):
        r = suffix(args(t)[0], base)
        return None if r is None else r + [("blanks", args(t)[1])]
    if o == "str::trim_start":
        r = suffix(args(t)[0], base)
        return None if r is None else r + [("blanks", None)]
    if o == "index" and args(t)[1].tag == "adt" and args(t)[1].a[0].endswith("RangeFrom"):
        x = args(t)[0]
        r = suffix(x, base)
        start = args(t)[1].a[2][0]
        if r is None:
            return None
        if start is call("len", x):
            return r + [("all", x)]
        if start.tag == "int":
            return r + [("cut", start.a[0], x)]
        if start.tag == "bin" and start.a[0] == "Add" and start.a[2].tag == "int" and start.a[1].tag == "pay" and op(start.a[1].a[0]) == "str::find":
            f = start.a[1].a[0]
            if args(f)[0] is x:
                return r + [("past", args(f)[1], start.a[2].a[0], x)]
        if start.tag == "pay" and op(start.a[0]) == "str::find" and args(start.a[0])[0] is x:
            return r + [("past", args(start.a[0])[1], 0, x)]
    if t.tag == "after" and t.a[0].endswith("lexer::advance"):
        r = suffix(t.a[1][0], base)
        return None if r is None else r + [("lexeme", t)]
    return None


def blank_set(R, f):
    """the characters a predicate accepts, as a set of code points up to 0x3000 ranges"""
    if f is None:
        return None
    if f.tag == "fn":
        g = f.a[0]
        I = R.interp()
        out = []
        for s, b in split_bool(I, R.summary(g, "c", I)):
            if b:
                c = s.conds.get(mk("arg", "c"))
                if s.conds.keys() - {mk("arg", "c")}:
                    return None
                out += list(charset(c)) if c else [(0, 0x10FFFF)]
        return sorted(out)
    if f.tag == "lam" or f.tag == "clo":
        ps = [u for u in subterms(f) if u.tag == "param"]
        d = f.a[1] if f.tag == "lam" and len(f.a) > 1 else None
        try:
            out = []
            for conds, val in d:
                cd = dict(conds)
                if val is Int(1):
                    if len(cd) != 1:
                        return None
                    out += list(charset(next(iter(cd.values()))))
            return sorted(out)
        except Exception:
            return None
    if f.tag == "arr" and all(x.tag == "int" for x in f.a[0]):
        return sorted((x.a[0], x.a[0]) for x in f.a[0])
    if f.tag == "str" and len(f.a[0]) == 1:
        return [(ord(f.a[0]),) * 2]
    if f.tag == "int":
        return [(f.a[0],) * 2]
    return None


def upto(txt, base):
    """the rest behind a piece of the base: base[..base.len() - rest.len()]"""
    if op(txt) == "index" and args(txt)[0] is base and args(txt)[1].tag == "adt" and args(txt)[1].a[0].endswith("RangeTo"):
        e = args(txt)[1].a[2][0]
        if e.tag == "bin" and e.a[0] == "Sub" and e.a[1] is call("len", base) and op(e.a[2]) == "len":
            return args(e.a[2])[0]
    return None


def tokenize(R):
    F = LX + "tokenize"
    R.fn(F)
    where = R.where(F)
    opq = tuple(p for p in R.prog.fns if p in (LX + "advance", LX + "Location::advance"))
    I = R.interp(opaque=opq)
    outs = split_res(I, R.summary(F, "input", I))
    loops = set()
    for s, k, v in outs:
        for t in list(s.conds) + [v] + list(s.eff):
            for u in subterms(t):
                if u.tag == "loop" and u.a[0] and any(x is mk("arg", "input") for x in u.a[0]):
                    loops.add(u)
    base = [u for u in loops if not any(w.tag == "loopval" for x in u.a[1] for t in flatten(x) for w in subterms(t))]
    if len(base) != 1:
        R.undecided("C37.skip", where, f"{len(base)} loops over the input")
        return
    lp = base[0]
    idx = {}
    for i, x in enumerate(lp.a[0]):
        if x is mk("arg", "input"):
            idx["input"] = i
        elif x.tag == "arr":
            idx["tokens"] = i
        elif x.tag == "adt" and x.a[0].endswith("Location"):
            idx["loc"] = i
    if set(idx) != {"input", "tokens", "loc"}:
        R.undecided("C37.skip", where, f"loop over {show(lp.a[0])[:200] if isinstance(lp.a[0], T) else [show(x)[:40] for x in lp.a[0]]}")
        return
    init = lp.a[0][idx["loc"]]
    R.check(all(strip(x) is Int(0) for x in init.a[2]), "C37.position", f"{where}: start", f"positions start at {show(init)}")
    depth = next(u.a[0] for x in lp.a[1] for t in flatten(x) for u in subterms(t) if u.tag == "phi")
    ph = {k: mk("phi", depth, i, lp.a[0][i]) for k, i in idx.items()}

    def unread(c, rest):
        """is rest all of the round's input by the conditions"""
        if rest is ph["input"]:
            return True
        a, b = call("len", rest), call("len", ph["input"])
        for t in (mk("eq", a, b), mk("eq", b, a)):
            if truth(c, t) is not None:
                return truth(c, t)
        for t in (mk("bin", "Sub", b, a),):
            d = c.get(t)
            for u in (t, mk("eq", t, Int(0))):
                if truth(c, u) is not None:
                    return truth(c, u)
            if d and d[0] == "i":
                if d[1] == ((0, 0),):
                    return True
                if not any(lo <= 0 <= hi for lo, hi in d[1]):
                    return False
        return None
    n = 0
    for c, upd, eff in loop_cases(lp):
        n += 1
        case = f"{where}: [{show_conds(c)[:250]}]"
        nxt = upd.get(idx["input"], ph["input"])
        sk = suffix(nxt, ph["input"])
        if sk is None:
            R.undecided("C37.skip", case, f"goes on with {show(nxt)[:150]}")
            continue
        toks = upd.get(idx["tokens"], ph["tokens"])
        # what is skipped
        for x in sk:
            if x[0] == "blanks":
                bs = blank_set(R, x[1])
                if bs is None:
                    R.undecided("C37.skip", where + ": blanks", show(x[1])[:100] if x[1] is not None else "trims all of Unicode's blanks")
                else:
                    pts = {p for lo, hi in bs for p in range(lo, min(hi, lo + 200) + 1)}
                    lost = [p for p in pts if p not in (32, 9, 10)]
                    miss = [p for p in (32, 9, 10) if p not in pts]
                    R.check(not lost and not miss, "C37.skip", where + ": blanks", f"{chr(lost[0])!r} is skipped" if lost else f"{chr(miss[0])!r} is not a blank" if miss else "only blanks are skipped as blanks")
            elif x[0] in ("all", "past", "cut"):
                txt = x[-1]
                sw = [t for t in c if op(t) == "str::starts_with" and args(t)[0] is txt]
                pre = [args(t)[1] for t in sw if truth(c, t)]
                ok = any(p.tag == "str" and p.a[0] == "//" for p in pre)
                if not ok:
                    R.check(False if sw or pre else None, "C37.skip", where + ": comments", f"text that starts with {[show(p) for p in pre]} is skipped as a comment")
                elif x[0] == "cut":
                    R.violated("C37.skip", where + ": comments", f"only {x[1]} bytes of a comment are skipped")
                elif x[0] == "past":
                    okc = strip(x[1]) in (Str("\n"), Int(10)) and x[2] in (0, 1)
                    R.check(okc, "C37.skip", where + ": comments", f"a comment ends {x[2]} characters past {show(x[1])}")
                else:
                    nl = [t for t in c if op(t) == "str::find" and args(t)[0] is txt]
                    R.check(True if any(isvar(c, t, "None") for t in nl) else False if nl else None, "C37.skip", where + ": comments", "the last line may be a comment" if nl else "a comment takes the rest of the text")
            elif x[0] == "lexeme":
                pass
        lex = [x[1] for x in sk if x[0] == "lexeme"]
        # tokens are recorded, in order, with the position where they start
        if len(lex) > 1:
            R.undecided("C37.skip", case, "several tokens in one round")
            continue
        if lex:
            if sk[-1][0] != "lexeme":
                R.undecided("C37.skip", case, "skips after the token")
            res = mk("ecall", *([lex[0].a[0], lex[0].a[1], lex[0].a[3] if len(lex[0].a) > 3 else 0]))
            if toks.tag != "push" or toks.a[0] is not ph["tokens"]:
                R.check(False if toks is ph["tokens"] else None, "C37.skip", case, "a token which was read is not recorded")
            else:
                tok = toks.a[1]
                kindt, loc = strip(project(tok, "kind")), strip(project(tok, "loc"))
                R.check(True if kindt.tag == "pay" and op(kindt.a[0]) and op(kindt.a[0]).endswith("advance") else None, "C37.skip", where + ": token", "recorded as read")
                rest = lex[0].a[1][0]
                u = unread(c, rest)
                if loc is ph["loc"]:
                    R.check(u if u is not None else (True if len(sk) == 1 else None), "C37.position", where + ": token", "a token's position is where it starts" if u else "the position of a token is taken before blanks in front of it are counted")
                elif loc.tag == "after" and loc.a[0].endswith("Location::advance") and loc.a[1][0] is ph["loc"]:
                    e = upto(loc.a[1][1], ph["input"])
                    R.check(True if e is rest else False if e is nxt else None, "C37.position", where + ": token", "a token's position is where it starts" if e is rest else "a token's position is where it ends" if e is nxt else show(loc)[:150])
                else:
                    R.check(None, "C37.position", where + ": token", show(loc)[:150])
        else:
            R.check(toks is ph["tokens"] or None, "C37.skip", where + ": no token", "no token without text")
            # a round without a token consumes something
            u = unread(c, nxt)
            R.check(True if u is False else None if u is None or sk else False, "C37.terminates", case, "a round without a token skips something")
        # position
        loc = upd.get(idx["loc"], ph["loc"])
        if loc.tag == "after" and loc.a[0].endswith("Location::advance") and loc.a[1][0] is ph["loc"]:
            txt = loc.a[1][1]
            good = None
            if op(txt) == "index" and args(txt)[0] is ph["input"] and args(txt)[1].tag == "adt" and args(txt)[1].a[0].endswith("RangeTo"):
                e = args(txt)[1].a[2][0]
                good = e is mk("bin", "Sub", call("len", ph["input"]), call("len", nxt))
                if not good and unknown_parts([e], ok=("lexer::advance", "after lexer::advance")) - {"phi"}:
                    good = None
            R.check(good, "C37.position", f"{where}: advance", "the position advances over exactly the text consumed" if good else f"the position advances over {show(txt)[:200]}")
        else:
            R.check(False if loc is ph["loc"] else None, "C37.position", f"{where}: advance", f"the position becomes {show(loc)[:100]}")
    # ends: all text read, or an error at the token's position
    for s, k, v in outs:
        case = f"[{show_conds(s.conds)[:120]}]"
        if k == "Ok":
            v = strip(v)
            good = v.tag == "loopval" and v.a[-1] == idx["tokens"] or v.tag == "arr" and not v.a[0]
            R.check(True if good else None, "C37.skip", where + ": result", show(v)[:60])
            emp = any((t.tag == "eq" and truth(s.conds, t) is True and Int(0) in t.a or op(t) == "len" and s.conds[t][0] == "i" and s.conds[t][1] == ((0, 0),) or t.tag == "loopval" and t.a[-1] == idx["input"] and s.conds[t] == ("s", True, frozenset(("",)))) for t in s.conds)
            lost = any(t.tag == "ecall" and t.a[0].endswith("lexer::advance") and isvar(s.conds, t, "Err") for t in s.conds)
            R.check(True if emp else False if lost else None, "C37.skip", where + ": end", "what cannot be read is left out without an error" if lost else "ends when all text has been read")
        else:
            if any(t.tag == "ecall" and t.a[0].endswith("lexer::advance") and isvar(s.conds, t, "Err") for t in s.conds):
                m = strip(project(v, "message"))
                R.check(False if m.tag == "str" and not m.a[0] else True if any(u.tag == "ecall" and u.a[0].endswith("advance") for u in subterms(m)) else None, "C37.position", where + ": message", f"the error says {show(m)[-80:]!r}")
            loc = strip(project(v, "location"))
            good = None
            if loc.tag == "adt" and loc.a[1] == "Some":
                l = strip(loc.a[2][0])
                good = l.tag == "loopval" and l.a[-1] == idx["loc"] or l is ph["loc"] or None
            elif loc.tag == "adt" and loc.a[1] == "None":
                good = False
            elif loc.tag == "fld" and loc.a[0].tag == "pay":
                good = False  # the error as the token reader made it, which knows no position
            R.check(good, "C37.position", where + ": error", "an error carries the position of the token" if good else f"the error's position is {show(loc)[:100]}")
    R.floor("C37.skip", "cases of the tokenising loop", n, 1)


def parse_count(t, text):
    """what a term counts of text: (what, slice start) or None. what: 'chars' | 'bytes' | 'newlines' | ..."""
    o = op(t)
    if o == "len":
        x = args(t)[0]
        if op(x) in ("str::chars", "str::char_indices"):
            return ("chars",) + where_from(args(x)[0], text)
        if op(x) == "str::bytes":
            return ("bytes",) + where_from(args(x)[0], text)
        if x is text or op(x) == "index":
            return ("bytes",) + where_from(x, text)
        if x.tag == "comp":
            over, rev, depth, cases = x.a[:4]
            if op(over) in ("str::bytes", "str::chars"):
                el = mk("elem", over, depth)
                cs = [dict(c) for c, v in cases]
                if len(cs) == 1 and set(cs[0]) == {el} and cs[0][el] == ("i", ((10, 10),)):
                    return ("newlines",) + where_from(args(over)[0], text)
                if len(cs) == 1 and set(cs[0]) == {el}:
                    return (f"characters {cs[0][el]}",) + where_from(args(over)[0], text)
        if op(x) in ("str::matches", "str::match_indices"):
            return (("newlines" if strip(args(x)[1]) in (Str("\n"), Int(10)) else "others"),) + where_from(args(x)[0], text)
        if op(x) == "str::lines":
            return ("lines",) + where_from(args(x)[0], text)
    if t.tag == "bin":
        return byte_tail(t, text)
    return None


def where_from(x, text):
    if x is text:
        return ("start",)
    if op(x) == "index" and args(x)[0] is text and args(x)[1].tag == "adt" and args(x)[1].a[0].endswith("RangeFrom"):
        st = args(x)[1].a[2][0]
        k = 0
        if st.tag == "bin" and st.a[0] == "Add" and st.a[2].tag == "int":
            k, st = st.a[2].a[0], st.a[1]
        if st.tag == "pay" and op(st.a[0]) in ("str::rfind", "str::find") and args(st.a[0])[0] is text and strip(args(st.a[0])[1]) in (Str("\n"), Int(10)):
            return (op(st.a[0]).split("::")[1], k)
    return ("?",)


def byte_tail(t, text):
    """len(text) - (position of the last line end + k), in whatever order it is written"""
    lin, const = {}, 0
    todo = [(t, 1)]
    while todo:
        x, s = todo.pop()
        if x.tag == "bin" and x.a[0] in ("Add", "Sub"):
            todo += [(x.a[1], s), (x.a[2], s if x.a[0] == "Add" else -s)]
        elif x.tag == "int":
            const += s * x.a[0]
        else:
            lin[x] = lin.get(x, 0) + s
    length = [x for x, n in lin.items() if n == 1 and op(x) == "len" and args(x)[0] is text]
    end = [x for x, n in lin.items() if n == -1 and x.tag == "pay" and op(x.a[0]) in ("str::rfind", "str::find") and args(x.a[0])[0] is text and strip(args(x.a[0])[1]) in (Str("\n"), Int(10))]
    if len(lin) == 2 and length and end:
        return ("bytes", op(end[0].a[0]).split("::")[1], -const)


def location(R):
    F = LX + "Location::advance"
    R.fn(F)
    where = R.where(F)
    I = R.interp()
    me, text = mk("arg", "self"), mk("arg", "text")
    n = 0
    for s, v in R.summary(F, "self text", I):
        new = s.mem.get(("h", "self"), me)
        line, col = project(new, "line"), project(new, "column")
        l0, c0 = project(me, "line"), project(me, "column")
        if new.tag == "fold" and op(new.a[0]) == "str::chars" and args(new.a[0])[0] is text and new.a[1] is False and new.a[3] is me and not s.conds:
            # character by character
            el, ph = mk("elem", new.a[0], new.a[2]), mk("phi", new.a[2], 0, me)
            for c, to in new.a[4]:
                c = dict(c)
                case = f"{where}: [{show_conds(c)[:100]}]"
                rs = c.get(el)
                if set(c) - {el} or not rs or rs[0] != "i":
                    R.undecided("C37.position", case, "condition of the loop")
                    continue
                n += 1
                isnl = rs[1] == ((10, 10),)
                if not isnl and any(a <= 10 <= b for a, b in rs[1]):
                    R.violated("C37.position", case, "a line end is not told from other characters")
                    continue
                if to.tag not in ("upd", "phi", "adt"):
                    R.undecided("C37.position", case, show(to)[:100])
                    continue
                gl, gc = project(to, "line"), project(to, "column")
                pl, pc = project(ph, "line"), project(ph, "column")
                inc = lambda t: mk("bin", "Add", t, Int(1))
                wl, wc = (inc(pl), Int(0)) if isnl else (pl, inc(pc))
                for nm, g, w in (("line", gl, wl), ("column", gc, wc)):
                    R.check(True if g is w else None if unknown_parts([g], ok=()) - {"phi"} else False, "C37.position", f"{case}: {nm}", f"becomes {show(g)[-80:]} at each such character")
            continue
        nl = None
        for t in s.conds:
            if op(t) in ("str::rfind", "str::find") and args(t)[0] is text and strip(args(t)[1]) in (Str("\n"), Int(10)):
                nl = isvar(s.conds, t, "Some")
            if op(t) == "str::contains" and args(t)[0] is text and strip(args(t)[1]) in (Str("\n"), Int(10)):
                nl = truth(s.conds, t)
        case = f"{where}: [{show_conds(s.conds)[:100]}]"
        if nl is None:
            R.undecided("C37.position", case, f"line {show(line)[:100]}, column {show(col)[:100]}")
            continue
        n += 1

        def added(t, t0):
            """(relative to the old value, count) of a sum"""
            if t is t0:
                return (True, 0)
            if t.tag == "bin" and t.a[0] == "Add" and t0 in t.a[1:]:
                o = t.a[2] if t.a[1] is t0 else t.a[1]
                return (True, o.a[0] if o.tag == "int" else parse_count(o, text))
            if t.tag == "int":
                return (False, t.a[0])
            return (False, parse_count(t, text))
        gl, gc = added(line, l0), added(col, c0)
        if nl:
            wl, wc = (True, ("newlines", "start")), (False, ("chars", "rfind", 1))
        else:
            wl, wc = (True, 0), (True, ("chars", "start"))
            if gl == (True, ("newlines", "start")):
                gl = wl
        for nm, g, w in (("line", gl, wl), ("column", gc, wc)):
            bad = None if g[1] is None or isinstance(g[1], tuple) and "?" in g[1] else False
            R.check(True if g == w else bad, "C37.position", f"{case}: {nm}", f"counts {g}, the notation's position counts {w}" if g != w else f"counts {w}")
    if not n:
        R.undecided("C37.position", where, "no case read")


# ---------------------------------------------------------------- parser
def tok(X, i=0):
    for _ in range(i):
        X = mk("popped", X)
    return call("last", X)


def kind_of(t):
    return mk("fld", payload(t, "Some", 0), "kind")


class P:
    """Outcomes of one parser function, token positions made canonical."""

    def __init__(self, R, name):
        self.R, self.name = R, name
        self.F = PS + name
        R.fn(self.F)
        self.where = R.where(self.F)
        self.kinds = frozenset(v["name"] for v in R.prog.adt(LX + "TokenKind")["variants"])
        opq = tuple(PS + x for x in PRODUCTIONS if x != name and R.prog.fn(PS + x)) + tuple(p for p in R.prog.fns if p in (PS + "Parser::intern_node", PS + "Parser::intern_token"))
        if name in ("opt_atom_rule", "rule", "seq_rule", "atom_rule") and False:
            opq += (self.F,)
        self.I = R.interp(opaque=opq)
        self.p = mk("arg", "p")
        self.X = mk("fld", self.p, "tokens")
        self.outs = []
        for s, v in R.summary(self.F, "p", self.I):
            m = {}
            for t in list(s.conds) + [v] + list(s.eff) + list(s.mem.values()):
                for u in subterms(t):
                    if u.tag == "fld" and u.a[1] == "tokens" and u.a[0].tag == "after" and "intern_" in u.a[0].a[0]:
                        m[u] = None
            for u in m:
                m[u] = canon_tokens(u)
            conds = {}
            dead = False
            for t, c in s.conds.items():
                t2 = fix(t, m)
                j = c_and(conds.get(t2), c)
                if j is False:
                    dead = True
                conds[t2] = j
            if dead or excluded(conds):
                continue
            st = flow.State({k: fix(x, m) for k, x in s.mem.items()}, conds, tuple(fix(e, m) for e in s.eff))
            self.outs.append((st, fix(v, m)))

    def res(self):
        return split_res(self.I, self.outs)

    def state(self, s):
        return s.mem.get(("h", "p"), self.p)

    def is_kind(self, t, names):
        names = frozenset(names if isinstance(names, (set, frozenset, tuple, list)) else (names,))
        return {t: ("v", frozenset(("Some",)), frozenset(("Some", "None"))), kind_of(t): ("v", names, self.kinds)}

    def none(self, t):
        return {t: ("v", frozenset(("None",)), frozenset(("Some", "None")))}

    def ran(self, s):
        """productions called, with where: [(name, state term)]"""
        out = []
        for e in s.eff:
            if e.tag == "eff" and e.a[0].split("::")[-1] in PRODUCTIONS:
                out.append((e.a[0].split("::")[-1], e.a[1][0], mk("ecall", e.a[0], e.a[1], e.a[2])))
            elif e.tag in ("loopeff", "foreach"):
                out.append(("loop", e, None))
        return out


def fix(t, m):
    return subst(t, m) if m else t


def canon_tokens(u):
    """tokens after interning a name are the tokens before"""
    while u.tag == "fld" and u.a[0].tag == "after" and "intern_" in u.a[0].a[0]:
        st = u.a[0].a[1][0]
        u = project(st, "tokens")
    if u.tag == "popped":
        return mk("popped", canon_tokens(u.a[0]))
    return u


def taken(state, root):
    """how many tokens have been taken since root (the tokens of a state)"""
    X = canon_tokens(project(state, "tokens"))
    n = 0
    while X.tag == "popped":
        X = X.a[0]
        n += 1
    return n if X is root else None


def error_at(v, tokterm):
    """is the error located at the token"""
    loc = strip(project(v, "location"))
    if loc.tag == "adt" and loc.a[1] == "Some":
        return strip(loc.a[2][0]) is mk("fld", payload(tokterm, "Some", 0), "loc")
    return False if loc.tag == "adt" else None


def rule_adt(v, variant):
    return v.tag == "adt" and v.a[0].endswith("Rule") and v.a[1] == variant


def interned(v):
    """('node' | 'token', name term)"""
    v = strip(v)
    if v.tag == "ecall" and "intern_" in v.a[0]:
        return v.a[0].split("intern_")[1], strip(v.a[1][1])
    return None, None


def tokens_of_after(call_):
    """tokens of the parser after a production has run"""
    return mk("fld", mk("after", call_.a[0], call_.a[1], 0, call_.a[2]), "tokens")


def opt_atom(R):
    p = P(R, "opt_atom_rule")
    K, X = p.kinds, p.X
    t0, t1 = tok(X), tok(X, 1)
    ok_ = (lambda: [(s, k, v) for s, k, v in p.res()])()
    OTHER = K - {"Node", "Token", "LParen"}
    rule = "C37.rule"

    def nothing(v, s, j):
        k, x = v
        if k != "Ok":
            return False
        x = x if x.tag == "adt" else x
        if not (x.tag == "adt" and x.a[1] == "None"):
            return False
        n = taken(p.state(s), X)
        return True if n == 0 and not p.ran(s) else False if n else None

    def unwrap(v):
        k, x = v
        return strip(x.a[2][0]) if k == "Ok" and x.tag == "adt" and x.a[1] == "Some" else None

    def base(kind, wrap, n, root=X, what=None):
        def expect(v, s, j):
            b = unwrap(v)
            if b is None:
                return False
            if wrap:
                if not rule_adt(b, wrap):
                    return False if b.tag == "adt" else None
                b = strip(b.a[2][0])
            m = taken(p.state(s), root)
            if kind == "Group":
                good = what(s) is b
            else:
                if not rule_adt(b, kind):
                    return False if b.tag == "adt" else None
                tb, nm = interned(b.a[2][0])
                if tb is None:
                    return None
                good = tb == kind.lower() and nm is payload(kind_of(t0), kind, 0)
            if good and m != n:
                return f"{m} tokens were taken, {n} belong to the construct"
            return good
        return expect

    outs = [(s, (k, x)) for s, k, x in ok_]
    spec = [("no token", p.none(t0), nothing), ("a token no rule starts with", p.is_kind(t0, OTHER), nothing),
            ("the name of the next rule", {**p.is_kind(t0, "Node"), **p.is_kind(t1, "Eq")}, nothing)]
    for kind in ("Node", "Token"):
        c0 = p.is_kind(t0, kind)
        rest = K - {"QMark", "Star"} - ({"Eq", "Colon"} if kind == "Node" else set())
        spec += [(f"{kind} at the end", {**c0, **p.none(t1)}, base(kind, None, 1)), (f"{kind}", {**c0, **p.is_kind(t1, rest)}, base(kind, None, 1)),
                 (f"{kind} ?", {**c0, **p.is_kind(t1, "QMark")}, base(kind, "Opt", 2)), (f"{kind} *", {**c0, **p.is_kind(t1, "Star")}, base(kind, "Rep", 2))]
    compare(R, p, rule, outs, spec)

    # a labelled rule and a group run another production first
    def sub(name, taken_before):
        """(call term) of the single production run, or a reason"""
        def get(s):
            r = p.ran(s)
            if len(r) != 1 or r[0][0] == "loop":
                return None
            nm, st, cl = r[0]
            return cl if nm == name and taken(st, X) == taken_before else (False if nm in PRODUCTIONS and (nm != name or taken(st, X) is not None) else None)
        return get

    def labelled(v, s, j):
        cl = sub("atom_rule", 2)(s)
        if cl is None or cl is False:
            return cl if p.ran(s) else False
        k, x = v
        if isvar(s.conds, cl, "Err"):
            return k == "Err" and x is payload(cl, "Err", 0)
        b = unwrap(v)
        if b is None:
            return False
        if not rule_adt(b, "Labeled"):
            return False if b.tag == "adt" else "the label is dropped" if b is payload(cl, "Ok", 0) else None
        lab, inner = strip(project_adt(b, "label")), strip(project_adt(b, "rule"))
        if p.state(s) is not mk("after", cl.a[0], cl.a[1], 0, cl.a[2]):
            return None
        return lab is payload(kind_of(t0), "Node", 0) and inner is payload(cl, "Ok", 0)
    compare(R, p, rule, outs, [("label", {**p.is_kind(t0, "Node"), **p.is_kind(t1, "Colon")}, labelled)])

    def group(v, s, j):
        cl = sub("rule", 1)(s)
        if cl is None or cl is False:
            return cl if p.ran(s) else False
        k, x = v
        if isvar(s.conds, cl, "Err"):
            return k == "Err" and x is payload(cl, "Err", 0)
        Y = tokens_of_after(cl)
        a, b = tok(Y), tok(Y, 1)
        if isvar(j, a, "None"):
            return k == "Err"
        kd = j.get(kind_of(a))
        if kd is None:
            return None if k == "Err" else "the closing parenthesis is not required"
        if kd[1] == frozenset(("RParen",)):
            inner = lambda s: payload(cl, "Ok", 0)
            kb = j.get(kind_of(b))
            if isvar(j, b, "None") or kb and not kb[1] & {"QMark", "Star"}:
                return base("Group", None, 1, Y, inner)(v, s, j)
            if kb and kb[1] == frozenset(("QMark",)):
                return base("Group", "Opt", 2, Y, inner)(v, s, j)
            if kb and kb[1] == frozenset(("Star",)):
                return base("Group", "Rep", 2, Y, inner)(v, s, j)
            got = unwrap(v)
            if got is not None and not kb and b not in set(subterms(x)) | set(subterms(p.state(s))):
                return "an operator behind the group is ignored"
            return None if got is None or not kb else "an operator behind the group is ignored"
        if "RParen" in kd[1]:
            return None
        return (error_at(x, a) if k == "Err" else "a group is closed by another token")
    compare(R, p, rule, outs, [("group", p.is_kind(t0, "LParen"), group)])


def project_adt(v, name):
    return v.a[2][list(v.a[3]).index(name)] if name in v.a[3] else v


def compare(R, p, rule, outs, spec):
    for name, conds, expect in spec:
        hit, bad = 0, False
        for s, v in outs:
            j = meet(s.conds, conds)
            if j is None:
                continue
            hit += 1
            r = expect(v, s, j)
            if r is True:
                continue
            bad = True
            val = v[1] if isinstance(v, tuple) else v
            unk = odd(list(j) + [val])
            detail = f"[{show_conds(j)[:500]}] gives {v[0] if isinstance(v, tuple) else ''} {show(val)[:200]}" + (f"; {r}" if isinstance(r, str) else "")
            if r is None or unk:
                R.undecided(rule, f"{p.where}: {name}", detail + (f"; unknown {sorted(unk)}" if unk else ""))
            else:
                R.violated(rule, f"{p.where}: {name}", detail)
        if not hit:
            R.undecided(rule, f"{p.where}: {name}", "no outcome of the code is compatible with this case")
        elif not bad:
            R.proved(rule, f"{p.where}: {name}", f"{hit} outcomes agree")


KNOWN = ("parser::rule", "parser::seq_rule", "parser::atom_rule", "parser::opt_atom_rule", "parser::node", "Parser::intern_node", "Parser::intern_token")


def odd(ts):
    return {u for u in unknown_parts(ts, ok=KNOWN + tuple(k.replace("parser::", "") for k in KNOWN)) if u not in ("loop", "loopval", "phi") and not any(u.endswith(k) for k in KNOWN)}


def atom(R):
    p = P(R, "atom_rule")

    def expect(v, s, j):
        r = p.ran(s)
        if len(r) != 1 or r[0][0] != "opt_atom_rule":
            return None
        cl = r[0][2]
        if r[0][1] is not p.p:
            return None
        k, x = v
        if isvar(j, cl, "Err"):
            return k == "Err" and x is payload(cl, "Err", 0)
        inner = payload(cl, "Ok", 0)
        if isvar(j, inner, "Some"):
            return k == "Ok" and strip(x) is payload(inner, "Some", 0)
        if isvar(j, inner, "None"):
            a = tok(tokens_of_after(cl))
            if k != "Err":
                return False
            if isvar(j, a, "Some"):
                return error_at(x, a)
            return True
        return None
    compare(R, p, "C37.rule", [(s, (k, x)) for s, k, x in p.res()], [("one rule", {}, expect)])


def loop_of(p, s, v, first):
    """the loop whose state starts after the first production: (loop, index of state, index of list, index of kind)"""
    for t in list(s.conds) + [v]:
        for u in subterms(t):
            if u.tag == "loop" and not any(w.tag == "loopval" for x in u.a[0] for w in subterms(x)):
                if any(w.tag == "loopval" for x in u.a[1] for y in flatten(x) for w in subterms(y)):
                    continue
                idx = {}
                for i, x in enumerate(u.a[0]):
                    if x.tag == "after" and x.a[0].endswith(first):
                        idx["state"] = i
                    elif x.tag == "arr":
                        idx["list"] = i
                    elif x.tag == "adt" and x.a[0].endswith("Option"):
                        idx["kind"] = i
                return u, idx
    return None, {}


def loop_phis(lp, idx):
    d = [u.a[0] for x in lp.a[1] for t in flatten(x) for u in subterms(t) if u.tag == "phi"]
    return {k: mk("phi", d[0], i, lp.a[0][i]) for k, i in idx.items()} if d else {}


def seq(R):
    p = P(R, "seq_rule")
    res = p.res()
    where, rule = p.where, "C37.rule"
    first = None
    for s, k, v in res:
        r = p.ran(s)
        if r and r[0][0] == "atom_rule" and r[0][1] is p.p:
            first = r[0][2]
    if first is None:
        R.undecided(rule, where, "does not start with one rule")
        return
    n = 0
    lps = set()
    for s, k, v in res:
        if isvar(s.conds, first, "Err"):
            R.check(k == "Err" and v is payload(first, "Err", 0), rule, f"{where}: error", "reported as it is")
            continue
        lp, idx = loop_of(p, s, v, "atom_rule")
        if lp is None or not {"state", "list"} <= set(idx):
            R.undecided(rule, f"{where}: sequence", f"[{show_conds(s.conds)[:150]}] gives {show(v)[:100]}")
            continue
        lps.add((lp, idx["state"], idx["list"]))
        n += 1
        check_list_result(R, p, s, k, v, lp, idx, rule, f"{where}: sequence", lambda j: "Seq", ("opt_atom_rule",))
    for lp, i, l in lps:
        ph = loop_phis(lp, {"state": i, "list": l})
        R.check([strip(x) for x in lp.a[0][l].a[0]] == [payload(first, "Ok", 0)], rule, f"{where}: first", "the sequence starts with the first rule")
        for c, upd, eff in loop_cases(lp):
            cl = mk("ecall", next((e.a[0] for e in eff if e.tag == "eff"), "?"), (ph["state"],), 0)
            good = isvar(c, payload(cl, "Ok", 0), "Some") and upd.get(i) is mk("after", cl.a[0], cl.a[1], 0, 0)
            pushed = upd.get(l)
            okp = pushed is not None and pushed.tag == "push" and pushed.a[0] is ph["list"] and strip(pushed.a[1]) is payload(payload(cl, "Ok", 0), "Some", 0)
            R.check(True if good and okp else False if good and (pushed is None or pushed is ph["list"] or pushed.tag == "push" or op(pushed) == "insert" or pushed.tag == "insert") else None, rule, f"{where}: next", f"each further rule is appended" if good and okp else f"[{show_conds(c)[:150]}] {show(pushed)[:150] if pushed else 'drops a rule'}")
    if not n:
        R.undecided(rule, where, "no result read")


def check_list_result(R, p, s, k, v, lp, idx, rule, construct, variant, runs):
    """the end of a list of rules: alone it is itself, several are wrapped"""
    st = next((mk("loopval", *u.a) for t in list(s.conds) + [v] + list(s.mem.values()) for u in subterms(t) if u.tag == "loopval" and u.a[0] is lp and u.a[-1] == idx["list"]), None)
    j = s.conds
    if k == "Err":
        for t in j:
            if t.tag == "ecall" and isvar(j, t, "Err") and strip(v) is payload(t, "Err", 0):
                R.proved(rule, construct + ", error", "an error of a part is reported as it is")
                return True
        return None
    if st is None:
        R.undecided(rule, construct, f"result {show(v)[:150]}")
        return
    n = j.get(call("len", st))
    single = n and n[0] == "i" and n[1] == ((1, 1),)
    many = n and n[0] == "i" and not any(lo <= 1 <= hi for lo, hi in n[1])
    v = strip(v)
    if single:
        good = v is payload(call("last", st), "Some", 0) or v is payload(call("first", st), "Some", 0) or op(v) in ("index", "Vec::remove", "Vec::swap_remove") and args(v)[0] is st and args(v)[1] is Int(0)
        R.check(good or (False if v.tag == "adt" else None), rule, construct + ", one", f"one part stands for itself" if good else f"one part gives {show(v)[:150]}")
    elif many:
        w = variant(j)
        good = v.tag == "adt" and v.a[1] == w and strip(v.a[2][0]) is st
        bad = None if w is None or unknown_parts([v]) - {"loopval", "loop", "phi", "after", "ecall"} - {x for x in unknown_parts([v]) if "rule" in x} else False
        R.check(good or bad, rule, construct + f", several ({w})", f"the parts in order" if good else f"gives {show(v)[:60]} … {show(v)[-120:]}, expected {w} of the parts in order")
    else:
        elem_ = v is payload(call("last", st), "Some", 0) or v is payload(call("first", st), "Some", 0)
        two = n and n[0] == "i" and any(lo <= 2 <= hi for lo, hi in n[1])
        one = n and n[0] == "i" and any(lo <= 1 <= hi for lo, hi in n[1])
        if elem_ and two:
            R.violated(rule, construct, "of two parts only one is kept")
        elif one and v.tag == "adt" and v.a[0].endswith("Rule") and strip(v.a[2][0]) is st:
            R.violated(rule, construct, f"one part alone is wrapped as {v.a[1]}")
        else:
            R.undecided(rule, construct, f"[{show_conds(j)[:150]}]")


def rule_(R):
    p = P(R, "rule")
    where, rule = p.where, "C37.rule"
    K = p.kinds
    COMB = {"Pipe": "Alt", "DoublePipe": "UnorderedSome", "DoubleAmpersand": "UnorderedAll"}
    t0 = tok(p.X)
    res = p.res()
    first = None
    lps = set()
    n = 0
    remembered, later = {}, []
    inv = lambda ns: frozenset().union(*[remembered.get(x, {x}) for x in ns]) if ns else frozenset()
    for s, k, v in res:
        r = p.ran(s)
        j = meet(s.conds, p.is_kind(t0, set(COMB)))
        if j is not None and (not r):
            R.check(k == "Err" and error_at(v, t0), rule, f"{where}: leading combinator", "reported at the combinator" if k == "Err" else f"accepted: {show(v)[:100]}")
            continue
        if r and r[0][0] == "seq_rule" and r[0][1] is p.p:
            first = r[0][2]
        if first is None:
            R.undecided(rule, where, f"[{show_conds(s.conds)[:150]}]")
            continue
        if meet(s.conds, p.is_kind(t0, set(COMB))) is not None and t0 not in s.conds:
            pass
        if isvar(s.conds, first, "Err"):
            R.check(k == "Err" and v is payload(first, "Err", 0), rule, f"{where}: error", "reported as it is")
            continue
        lp, idx = loop_of(p, s, v, "seq_rule")
        if lp is None or set(idx) != {"state", "list", "kind"}:
            R.undecided(rule, f"{where}: alternatives", f"[{show_conds(s.conds)[:150]}] gives {show(v)[:100]}")
            continue
        lps.add((lp, idx["state"], idx["list"], idx["kind"]))
        n += 1
        S, KD = mk("loopval", *([lp] + lv_args(s, v, lp, idx["state"]))), mk("loopval", *([lp] + lv_args(s, v, lp, idx["kind"])))
        nt = tok(mk("fld", S, "tokens"))
        kd = payload(KD, "Some", 0)

        def variant(j):
            c = j.get(kd)
            if c and len(inv(c[1])) == 1:
                return COMB.get(next(iter(inv(c[1]))))
            return None
        def final(s=s, k=k, v=v, lp=lp, idx=idx, nt=nt, kd=kd, variant=variant):
            if k == "Ok":
                # ends only where no combinator follows
                nk = s.conds.get(kind_of(nt))
                ended = isvar(s.conds, nt, "None") or nk and not nk[1] & set(COMB)
                R.check(True if ended else False if nk and nk[1] & set(COMB) else None, rule, f"{where}: end", "ends where no combinator follows" if ended else f"ends although {sorted(nk[1] & set(COMB)) if nk else '?'} follows")
                check_list_result(R, p, s, k, v, lp, idx, rule, f"{where}: combination", variant, ())
            else:
                if check_list_result(R, p, s, k, v, lp, idx, rule, f"{where}: combination", variant, ()) is None:
                    nk, ck = s.conds.get(kind_of(nt)), s.conds.get(kd)
                    mixed = nk and ck and len(nk[1]) == 1 and not nk[1] & inv(ck[1])
                    R.check(True if mixed and error_at(v, nt) else False if nk and nk[1] and ck and nk[1] & inv(ck[1]) and len(nk[1]) == 1 == len(ck[1]) or mixed and error_at(v, nt) is False else None, rule, f"{where}: mixed", "mixed combinators are reported at the second one" if mixed else f"[{show_conds(s.conds)[-200:]}] is an error")
        later.append(final)
    for lp, i, l, q in lps:
        # how the combinators are remembered
        names_of = {}
        for c, upd, eff in loop_cases(lp):
            ph = loop_phis(lp, {"state": i, "list": l, "kind": q})
            nk = c.get(kind_of(tok(mk("fld", ph["state"], "tokens"))))
            newk = upd.get(q, ph["kind"])
            if nk and isvar(c, ph["kind"], "None") and newk.tag == "adt" and newk.a[1] == "Some" and newk.a[2][0].tag == "adt":
                for nm in nk[1]:
                    names_of.setdefault(newk.a[2][0].a[1], set()).add(nm)
        remembered.update(names_of)
    for v_ in later:
        v_()
    for lp, i, l, q in lps:
        ph = loop_phis(lp, {"state": i, "list": l, "kind": q})
        for kn, nms in remembered.items():
            if len(nms) > 1:
                R.violated(rule, f"{where}: combinator", f"{' and '.join(sorted(nms))} are remembered as the same {kn}")
        R.check([strip(x) for x in lp.a[0][l].a[0]] == [payload(first, "Ok", 0)], rule, f"{where}: first", "starts with the first rule")
        R.check(lp.a[0][q].a[1] == "None" or None, rule, f"{where}: combinator", "unknown at first")
        nt = tok(mk("fld", ph["state"], "tokens"))
        for c, upd, eff in loop_cases(lp):
            nk = c.get(kind_of(nt))
            names = nk[1] if nk else K
            case = f"{where}: after {'/'.join(sorted(names))[:40]}"
            old = c.get(payload(ph["kind"], "Some", 0))
            if nk and len(names) > 1 and names <= set(COMB) and isvar(c, ph["kind"], "Some") and not any(t not in (ph["kind"], payload(ph["kind"], "Some", 0)) and any(w is ph["kind"] for w in subterms(t)) for t in c):
                mix = sorted((a, b) for a in names for b in (inv(old[1]) if old else COMB) if a != b)
                if mix:
                    R.violated(rule, case, f"{mix[0][0]} after {mix[0][1]} is accepted in one rule")
                    continue
            if nk and len(names) > 1 and names <= set(COMB) and isvar(c, ph["kind"], "None"):
                continue
            if not nk or len(names) != 1:
                R.check(False if nk and not names <= set(COMB) else None, rule, case, f"[{show_conds(c)[:200]}]")
                continue
            nm = next(iter(names))
            old = c.get(payload(ph["kind"], "Some", 0))
            fresh = isvar(c, ph["kind"], "None")
            newk = upd.get(q, ph["kind"])
            if nm not in COMB:
                R.violated(rule, case, "continues after a token which is no combinator")
                continue
            if fresh:
                good = newk.tag == "adt" and newk.a[1] == "Some" and newk.a[2][0].tag == "adt" and remembered.get(newk.a[2][0].a[1]) == {nm}
                R.check(True if good else False if newk.tag == "adt" else None, rule, case + ", first", f"remembers {show(newk)[-60:]}")
            else:
                same = old and inv(old[1]) == frozenset((nm,))
                R.check(True if same and newk is ph["kind"] else False if not old or not same else None, rule, case + ", again", "continues only with the same combinator" if same else "different combinators are mixed")
            run = [e for e in eff if e.tag == "eff"]
            cl = mk("ecall", run[0].a[0], run[0].a[1], run[0].a[2]) if len(run) == 1 else None
            if cl is None or not cl.a[0].endswith("seq_rule"):
                R.undecided(rule, case, f"runs {[show(e)[:40] for e in run]}")
                continue
            X = canon_tokens(project(cl.a[1][0], "tokens"))
            took = X is mk("popped", mk("fld", ph["state"], "tokens"))
            pushed = upd.get(l)
            okp = pushed is not None and pushed.tag == "push" and pushed.a[0] is ph["list"] and strip(pushed.a[1]) is payload(cl, "Ok", 0)
            R.check(True if took and okp and upd.get(i) is mk("after", cl.a[0], cl.a[1], 0, cl.a[2]) else False if took and pushed is None else None, rule, case + ", next", "takes the combinator and appends the next sequence")
    if not n:
        R.undecided(rule, where, "no result read")


def lv_args(s, v, lp, i):
    for t in list(s.conds) + [v] + list(s.mem.values()):
        for u in subterms(t):
            if u.tag == "loopval" and u.a[0] is lp and u.a[-1] == i:
                return list(u.a[1:])
    return [0, i]


def dummy(R):
    """is a rule term known to be the placeholder of a node without a rule"""
    return (1 << 64) - 1


def placeholder(conds, r):
    """True / False / None: is the rule r the placeholder Rule::Node(Node(!0))"""
    iv = isvar(conds, r, "Node")
    if iv is False:
        return False
    c = conds.get(project(payload(r, "Node", 0), 0)) or conds.get(mk("fld", payload(r, "Node", 0), 0)) or conds.get(mk("fld", payload(r, "Node", 0), "0"))
    if c and c[0] == "i":
        top = (1 << 64) - 1
        if c[1] == ((top, top),):
            return True if iv else None
        if not any(lo <= top <= hi for lo, hi in c[1]):
            return False
    for t in conds:
        if t.tag == "eq" and r in t.a and truth(conds, t) is not None:
            o = t.a[0] if t.a[1] is r else t.a[1]
            if any(u is Int((1 << 64) - 1) for u in subterms(o)):
                return truth(conds, t)
    return None


def node(R):
    p = P(R, "node")
    where, rule = p.where, "C37.node"
    t0, t1 = tok(p.X), tok(p.X, 1)
    K = p.kinds
    outs = [(s, (k, x)) for s, k, x in p.res()]

    def err(at):
        def expect(v, s, j):
            if v[0] != "Err":
                return False
            return True if at is None else error_at(v[1], at)
        return expect

    def body(v, s, j):
        k, x = v
        r = p.ran(s)
        rules = [t for t in j if t.tag == "fld" and t.a[1] == "rule"] + [t.a[0].a[0] for t in j if t.tag == "fld" and t.a[0].tag == "pay" and t.a[0].a[0].tag == "fld" and t.a[0].a[0].a[1] == "rule"]
        ph = None
        for t in rules:
            ph = placeholder(j, t) if ph is None else ph
            i = t.a[0]
            if op(i) == "index":
                tb, nm = interned(index_root(args(i)[1]))
                if tb is not None and not (tb == "node" and nm is payload(kind_of(t0), "Node", 0)):
                    return "the rule of another name is looked at"
        if not r:
            if k == "Err" and ph is False:
                return error_at(x, t0)
            return None if ph is None else (False if k == "Ok" or ph is True else None)
        if ph is not True:
            return "a rule which is there already is overwritten" if ph is False or not rules else None
        nm, st, cl = r[0]
        if len(r) != 1 or nm != "rule" or taken(st, p.X) != 2:
            return None
        if isvar(j, cl, "Err"):
            return k == "Err" and x is payload(cl, "Err", 0)
        if k != "Ok":
            return False
        fin = p.state(s)
        # the rule is stored under the name
        hit = [u for u in subterms(fin) if payload(cl, "Ok", 0) in (strip(y) for y in u.a if isinstance(y, T))]
        after = mk("after", cl.a[0], cl.a[1], 0, cl.a[2])
        if not hit:
            return False if fin is after else None
        idx = [u for u in subterms(fin) if interned(u)[0]]
        return True if idx and all(interned(u) == ("node", payload(kind_of(t0), "Node", 0)) for u in idx) else None
    spec = [("no token", p.none(t0), err(None)), ("not a name", p.is_kind(t0, K - {"Node"}), err(t0)),
            ("nothing after the name", {**p.is_kind(t0, "Node"), **p.none(t1)}, err(None)),
            ("no = after the name", {**p.is_kind(t0, "Node"), **p.is_kind(t1, K - {"Eq"})}, err(t1)),
            ("name = rule", {**p.is_kind(t0, "Node"), **p.is_kind(t1, "Eq")}, body)]
    compare(R, p, rule, outs, spec)


def index_root(t):
    while t.tag == "fld":
        t = t.a[0]
    return t


def parse(R):
    F = PS + "parse"
    R.fn(F)
    where, rule = R.where(F), "C37.node"
    opq = tuple(p for p in R.prog.fns if p == PS + "node")
    I = R.interp(opaque=opq)
    outs = split_res(I, R.summary(F, "tokens", I))
    toks = mk("arg", "tokens")
    n = 0
    for s, k, v in outs:
        j = s.conds
        cut = None
        for t in list(j) + [v]:
            for u in subterms(t):
                if u.tag == "loopval" and u.a[0].tag == "loop" and len(u.a[0].a[0]) == 1 and not any(w.tag == "loopval" for x in u.a[0].a[1] for y in flatten(x) for w in subterms(y)):
                    cut = u
        if cut is None:
            R.undecided(rule, where, f"[{show_conds(j)[:100]}] gives {show(v)[:100]}")
            continue
        n += 1
        st0 = cut.a[0].a[0][0]
        tk = project(st0, "tokens")
        R.check(True if op(tk) == "reversed" and args(tk)[0] is toks or tk.tag == "reversed" and tk.a[0] is toks else False if tk is toks else None, rule, f"{where}: tokens", f"the parser takes {show(tk)[:60]} from the end")
        m = mk("fld", cut, "grammar")
        rem = call("len", mk("fld", cut, "tokens"))
        c = j.get(rem)
        done = True if c and c[0] == "i" and c[1] == ((0, 0),) else False if c and c[0] == "i" and not any(lo <= 0 <= hi for lo, hi in c[1]) else truth(j, mk("eq", rem, Int(0)))
        nodes = mk("fld", m, "nodes")
        if k == "Err":
            call_ = [t for t in j if t.tag == "ecall" and t.a[0].endswith("node") and isvar(j, t, "Err")]
            if call_:
                R.check(strip(v) is payload(call_[0], "Err", 0), rule, f"{where}: error", "an error in a rule ends the reading and is reported as it is")
                continue
            ex = [t for t in j if t.tag == "exists" and truth(j, t)]
            R.check(undefined_search(ex[0], nodes) if len(ex) == 1 else None, rule, f"{where}: undefined", "a name without a rule is an error")
        else:
            ex = [t for t in j if t.tag == "exists" and truth(j, t) is False]
            good = undefined_search(ex[0], nodes) if len(ex) == 1 else False if not odd_loop(j) else None
            R.check(good, rule, f"{where}: undefined", "accepted only if every name has a rule" if good else "a grammar with a name without a rule is accepted")
            R.check(done, rule, f"{where}: all", "accepted only when all tokens have been read")
            R.check(True if strip(v) is m else None, rule, f"{where}: result", "gives the grammar built")
        for c, upd, eff in loop_cases(cut.a[0]):
            e = [x for x in eff if x.tag == "eff"]
            okk = len(e) == 1 and e[0].a[0].endswith("node")
            R.check(True if okk else None, rule, f"{where}: rounds", "each round reads one rule")
    if not n:
        R.undecided(rule, where, "no result read")


def odd_loop(j):
    return any(t.tag in ("exists", "dnf", "ite") for t in j)


def undefined_search(ex, nodes):
    """does the search find exactly the nodes which still have the placeholder"""
    over, depth, dnf = ex.a[0], ex.a[1], ex.a[2]
    if over is not nodes:
        if over.tag in ("skip", "take", "it", "slice") or op(over) in ("skip", "take", "Iterator::skip", "Iterator::take", "index", "step_by"):
            if any(u is nodes for u in subterms(over)):
                return False
        return None
    el = mk("elem", over, depth)
    r = mk("fld", el, "rule")
    for cl in dnf:
        d = dict(cl)
        ph = placeholder(d, r)
        if ph is not True:
            return None if ph is None and any(u.tag not in ("fld", "pay", "elem") for t in d for u in [t]) else False
        extra = [t for t in d if r not in subterms(t)]
        if extra:
            return False
    return bool(dnf)


def intern(R):
    for name in ("intern_node", "intern_token"):
        F = PS + "Parser::" + name
        f = R.fn(F)
        where, rule = R.where(F), "C37.intern"
        tab, lst = ("node_table", "nodes") if name.endswith("node") else ("token_table", "tokens")
        me, nm = mk("arg", "self"), mk("arg", "name")
        I = R.interp()
        for s, v in R.summary(F, "self name", I):
            v = strip(v)
            new = s.mem.get(("h", "self"), me)
            R.check(project(new, "tokens") is project(me, "tokens") or None, rule, f"{where}: frame", "takes no tokens")
            got = [t for t in s.conds if op(t) in ("HashMap::get", "HashMap::contains_key") and args(t)[0] is mk("fld", me, tab)]
            if len(got) == 1 and strip(args(got[0])[1]) is nm:
                there = isvar(s.conds, got[0], "Some") if op(got[0]) == "HashMap::get" else truth(s.conds, got[0])
                if there:
                    good = v is payload(got[0], "Some", 0) or op(v) in ("index", "HashMap::get") and args(v)[0] is mk("fld", me, tab) and strip(args(v)[1]) is nm
                    R.check(True if good and new is me else False if new is not me and new.tag == "upd" else None, rule, f"{where}: known", "a known name keeps its index" if good else f"a known name gives {show(v)[:100]}")
                    continue
                if there is False:
                    old = mk("fld", mk("fld", me, "grammar"), lst)
                    pl = project(project(new, "grammar"), lst)
                    ix = strip(v.a[2][0]) if v.tag == "adt" and v.a[2] else v
                    okl = ix is call("len", old) or ix is call("len", mk("fld", me, tab))
                    R.check(True if okl else False if ix.tag in ("int", "bin") else None, rule, f"{where}: new index", f"a new name gets {show(ix)[:100]}")
                    tb = project(new, tab)
                    okt = tb.tag == "after" and tb.a[0] == "HashMap::insert" and tb.a[1][0] is mk("fld", me, tab) and strip(tb.a[1][1]) is nm and strip(tb.a[1][2]) is v
                    R.check(True if okt else False if tb is mk("fld", me, tab) else None, rule, f"{where}: table", "a new name is entered in the table" if okt else f"the table becomes {show(tb)[:100]}")
                    okp = pl.tag == "push" and pl.a[0] is old
                    R.check(True if okp else False if pl is old else None, rule, f"{where}: list", "a new name is appended" if okp else f"the list becomes {show(pl)[:100]}")
                    if okp:
                        entry(R, rule, where, lst, nm, pl.a[1])
                    continue
            if not (op(v) == "Entry::or_insert_with" and op(args(v)[0]) == "HashMap::entry"):
                R.undecided(rule, where, f"gives {show(v)[:150]}")
                continue
            e, clo = args(v)[0], args(v)[1]
            good = args(e)[0] is mk("fld", me, tab) and strip(args(e)[1]) is nm
            R.check(True if good else False if args(e)[0].tag == "fld" and args(e)[0].a[1] != tab or strip(args(e)[1]).tag == "str" or op(strip(args(e)[1])) and op(strip(args(e)[1])).split("::")[-1] in CHANGES else None, rule, f"{where}: table", f"looked up by name in {show(args(e)[0])}")
            if clo.tag != "clo":
                R.undecided(rule, where, f"inserts {show(clo)[:100]}")
                continue
            cap = [strip(x) for x in clo.a[1]]
            R.check(True if call("len", mk("fld", me, tab)) in cap or call("len", mk("fld", mk("fld", me, "grammar"), lst)) in cap else None, rule, f"{where}: index", "a new name gets the next index")
            g = R.prog.fn(clo.a[0])
            I2 = R.interp()
            closure_body(R, I2, clo, where, rule, lst, nm)


def entry(R, rule, where, lst, nm, e):
    """what is appended for a new name"""
    name = strip(project(e, "name"))
    R.check(True if name is nm else False if name.tag == "str" else None, rule, f"{where}: name", f"records {show(name)[:80]}")
    if lst == "nodes":
        r = project(e, "rule")
        good = True if placeholder_value(r) else False if r.tag == "adt" and not unknown_parts([r]) else None
        R.check(good, rule, f"{where}: entry", "a new name has no rule yet" if good else f"a new name has the rule {show(r)[:80]}")


CHANGES = ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end", "trim_start_matches", "trim_matches", "replace")


def closure_body(R, I, clo, where, rule, lst, nm):
    """the closure appends the entry and returns the index"""
    caps = tuple(clo.a[1])
    for s, v in I.summary(clo.a[0]):
        env = lambda t: subst_caps(t, clo)
        ents = [e.a[1] for e in s.eff if e.tag == "eff" and e.a[0] == "Vec::push"]
        ents += [(w.a[0], w.a[1]) for x in s.mem.values() for w in subterms(x) if w.tag == "push"]
        if len(ents) != 1:
            R.check(False if not ents and not s.eff and not s.mem else None, rule, f"{where}: entry", f"appends {len(ents)} entries")
            continue
        to, e = env(ents[0][0]), env(ents[0][1])
        own = [t.a[1] for t in subterms(to) if t.tag == "fld"] + [x[1] for t in subterms(to) if t.tag == "mref" for x in t.a[1][-1:] if x[0] == "f"]
        R.check(True if lst in own else False if {"nodes", "tokens"} & set(own) else None, rule, f"{where}: list", f"appends to {own[:1]}{show(to)[:200] if not own else ''}")
        entry(R, rule, where, lst, nm, e)
        v = strip(env(v))
        x = strip(v.a[2][0] if v.tag == 'adt' and v.a[2] else v)
        ok = isinstance(x, T) and op(x) == "len" and "table" in show(x) or isinstance(x, T) and op(x) == "len" and lst in show(x)
        if x.tag == "int" or x.tag == "bin":
            ok = False
        R.check(True if ok else False if ok is False and (x.tag == "int" or x.tag == "bin" and any(op(u) == "len" for u in subterms(x))) else None, rule, f"{where}: new index", f"a new name gets {show(x)[:100]}")


def placeholder_value(r):
    return r.tag == "adt" and r.a[1] == "Node" and any(u is Int((1 << 64) - 1) for u in subterms(r))


def subst_caps(t, clo):
    """the closure's captured values in place of the fields of its first argument"""
    m = {}
    for u in subterms(t):
        if u.tag == "fld" and u.a[0].tag == "arg" and str(u.a[0].a[0]) in ("a1", "1") and str(u.a[1]).isdigit() and int(u.a[1]) < len(clo.a[1]):
            m[u] = clo.a[1][int(u.a[1])]
    return subst(t, m) if m else t


# ---------------------------------------------------------------- errors
def display(R):
    import words as W
    F = None
    for i in R.prog.impls:
        if i["trait"] == "core::fmt::Display" and i["self"].endswith("error::Error"):
            F = i["items"][0][1]
    if F is None:
        R.undecided("C37.display", "Error", "no Display")
        return
    R.fn(F)
    where = R.where(F)
    I = R.interp()
    me = mk("arg", "self")
    loc = mk("fld", me, "location")
    n = 0
    for s, k, v in split_res(I, R.summary(F, "self f", I)):
        if k != "Ok":
            continue
        txt = [t for e in s.eff for t in ([e] if e.tag == "eff" else [])]
        wr = []
        for e in s.eff:
            for a in e.a[1]:
                if a is not mk("arg", "f"):
                    wr += flat_text(a)
        n += 1
        some = isvar(s.conds, loc, "Some")
        if some is None:
            R.undecided("C37.display", where, show_conds(s.conds)[:100])
            continue
        l = payload(loc, "Some", 0)
        want = ([mk("bin", "Add", mk("fld", l, "line"), Int(1)), Str(":"), mk("bin", "Add", mk("fld", l, "column"), Int(1)), Str(": ")] if some else []) + [mk("fld", me, "message")]
        wr = join(wr)
        bad = None if unknown_parts(wr) or not wr else False
        R.check(True if wr == want else bad, "C37.display", f"{where}: {'with' if some else 'without'} position", f"prints {[show(x)[:60] for x in wr]}")
    if not n:
        R.undecided("C37.display", where, "no outcome")


def flat_text(a):
    a2 = strip(a)
    while op(a2) == "display":
        a2 = strip(args(a2)[0])
    if a2.tag == "cat":
        return [y for x in a2.a[0] for y in flat_text(x)]
    return [a2]


def join(parts):
    out = []
    for x in parts:
        if x.tag == "str" and out and out[-1].tag == "str":
            out[-1] = Str(out[-1].a[0] + x.a[0])
        else:
            out.append(x)
    return out


def reader(R):
    """Grammar::from_str is tokenize followed by parse"""
    F = None
    for i in R.prog.impls:
        if i["trait"] == "core::str::traits::FromStr" and i["self"].endswith("Grammar"):
            F = next(x[1] for x in i["items"] if x[0] == "from_str")
    R.fn(F or B + "Grammar::from_str")
    where = R.where(F)
    opq = tuple(p for p in R.prog.fns if p in (LX + "tokenize", PS + "parse"))
    I = R.interp(opaque=opq)
    for s, k, v in split_res(I, R.summary(F, "s", I)):
        tk = [t for e in s.eff for t in [e] if e.tag == "eff" and e.a[0].endswith("tokenize")]
        good = None
        if len(tk) == 1 and tk[0].a[1][0] is mk("arg", "s"):
            t = mk("ecall", *tk[0].a)
            if isvar(s.conds, t, "Err"):
                good = k == "Err" and strip(v) is payload(t, "Err", 0)
            else:
                pr = [e for e in s.eff if e.tag == "eff" and e.a[0].endswith("parse")]
                if len(pr) == 1 and strip(pr[0].a[1][0]) is payload(t, "Ok", 0):
                    pc = mk("ecall", *pr[0].a)
                    good = strip(v) is payload(pc, k, 0)
        R.check(good, "C37.reader", f"{where}: {k}", f"[{show_conds(s.conds)[:200]}] gives {show(v)[:100]}")


def check(R):
    R.program("biome_ungrammar")
    for f, r in ((lexer_token, "C37.token"), (tokenize, "C37.skip"), (location, "C37.position"), (opt_atom, "C37.rule"), (atom, "C37.rule"), (seq, "C37.rule"), (rule_, "C37.rule"), (node, "C37.node"), (parse, "C37.node"), (intern, "C37.intern"), (display, "C37.display"), (reader, "C37.reader")):
        R.guard(lambda: f(R), r, f.__name__)
