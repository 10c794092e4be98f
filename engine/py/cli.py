"""The `air format` command as a table: every outcome of the whole command with what it read, wrote and returned.

Files found by discovery are one list. For each file there are finitely many things that can happen (cannot be visited, cannot be read,
does not parse, is unchanged, changes, cannot be written). The conditions of an outcome on that list (some file satisfies ..., the list
of errors is empty, a fold over the list ends in ...) are evaluated for every set of things that can happen to the files of a run."""
from itertools import combinations
from terms import *
from cases import *
import flow, words as W
from report import Missing

FORMAT = "air::commands::format::format"
COMMANDS = (FORMAT, "air::commands::language_server::language_server", "air::commands::generate_shell_completion::generate_shell_completion")
CRATES = ("air", "workspace", "settings", "line_ending", "fs")
DISCOVER, SETTINGS, SOURCE = "discovery::discover_r_file_paths", "discovery::discover_settings", "format::format_source"
WRITERS = {"fs::write", "fs::rename", "fs::remove_file", "fs::remove_dir", "fs::remove_dir_all", "fs::copy", "fs::hard_link", "fs::create_dir", "fs::create_dir_all", "fs::set_permissions",
           "File::create", "File::create_new", "File::create_buffered", "File::set_len", "File::set_permissions", "File::set_modified", "File::options", "OpenOptions::new", "OpenOptions::open", "OpenOptions::write", "OpenOptions::append", "OpenOptions::truncate", "OpenOptions::create",
           "OpenOptions::create_new", "fs::symlink", "fs::soft_link", "unix::fs::symlink", "DirBuilder::create", "Command::new", "process::Command"}
STDOUT = {"stdio::stdout", "io::stdout", "stdio::_print", "io::_print", "Stdout::lock"}
HARMLESS = {"absolutize", "relativize_path", "normalize_path"}


ALL = CRATES + ("air_r_formatter", "air_r_parser", "comments")
PRINTS = ("std::io::stdio::stdout", "std::io::stdio::_print")
# calls which cannot create, change or delete a file (reading and looking at files)
CHANGES = ("std::fs::write", "std::fs::rename", "std::fs::remove_file", "std::fs::remove_dir", "std::fs::remove_dir_all", "std::fs::copy", "std::fs::hard_link", "std::fs::soft_link", "std::fs::create_dir", "std::fs::create_dir_all",
           "std::fs::set_permissions", "std::fs::File::create", "std::fs::File::create_new", "std::fs::File::set_len", "std::fs::File::set_permissions", "std::fs::File::set_modified", "std::fs::File::set_times", "std::fs::File::options", "std::fs::OpenOptions::new",
           "std::fs::DirBuilder::new", "std::os::unix::fs::symlink", "std::process::Command::new", "fs_err::write", "tempfile::")


def short_name(p):
    """last two segments of a function's path, as in the names of effects"""
    import flow
    return "::".join(flow.strip_generics(p).split("::")[-2:])


def named(P, names):
    return [p for p in P.fns if short_name(p) in names]


def outside_impls(P, crates=("workspace", "settings", "line_ending", "fs", "air_r_formatter", "air_r_parser", "comments")):
    """methods which code outside the analysed crates may call: impls of traits that are not theirs, drop included"""
    out = []
    for (tr, nm), hits in P.trait_impl.items():
        if tr.split("::")[0] not in ALL:
            out += [p for st, ref, p in hits if flow.strip_generics(st).lstrip("&<").split("::")[0] in crates]
    return out


def fname(t):
    """name of the function a term is the result of, or ''"""
    return t.a[0] if t.tag in ("call", "ecall") else ""


class Odd(Exception):
    pass


def strip(t):
    """through copies, borrows and conversions between text types"""
    while True:
        o = fname(t) or ""
        if o.startswith(("From<", "Into<")) or o in ("String::as_bytes", "str::as_bytes", "String::as_str", "str::to_owned", "str::to_string", "String::into_bytes", "Path::to_path_buf", "PathBuf::as_path", "AsRef::as_ref", "Borrow::borrow", "Clone::clone", "PathBuf::from", "String::from"):
            t = args(t)[-1] if o.startswith(("From<", "Into<")) else args(t)[0]
        elif t.tag == "cat" and len(t.a[0]) == 1 and isinstance(t.a[0][0], T):
            t = t.a[0][0]
        else:
            return t


class Command:
    def __init__(self, R):
        self.R = R
        R.fn(FORMAT)
        self.where = R.where(FORMAT)
        self.I = R.interp(opaque=("fs::normalize_path", "fs::relativize_path"))
        self.I.opaque_fn = lambda p, res: any(x and (x.startswith("workspace::") or "<workspace::" in x and " as " in x) for x in (p, res))
        self.outs = split_res(self.I, R.summary(FORMAT, "command", self.I))
        self.cmd = mk("arg", "command")
        self.check, self.force = mk("fld", self.cmd, "check"), mk("fld", self.cmd, "force")
        self.stdin, self.paths = mk("fld", self.cmd, "stdin_file_path"), mk("fld", self.cmd, "paths")
        self.files = {u for s, n, v in self.outs for e in s.eff for u in subterms(e) if u.tag == "ecall" and u.a[0] == DISCOVER}

    def label(self, conds):
        """the conditions of an outcome in short: the arguments and which calls succeeded or failed"""
        out = []
        for t, c in conds.items():
            if t in (self.check, self.force) or fname(t) == "len" and args(t)[0] is self.paths:
                out.append(show_cond(t, c).replace("$command.", ""))
            elif t is self.stdin:
                out.append("stdin" if isvar(conds, t, "Some") else "paths")
            elif t.tag == "ecall" and t.a[0] != "DefaultFilePatterns::try_from_iter" and c[0] == "v":
                out.append(f"{t.a[0]} {'/'.join(sorted(c[1]))}")
            elif t.tag == "pay" and t.a[0].tag == "ecall" and c[0] == "v":
                out.append(f"{t.a[0].a[0]} {'/'.join(sorted(c[1]))}")
            elif t.tag in ("ecall", "call") and c[0] == "b":
                out.append(("" if True in c[1] else "not ") + t.a[0])
        return ", ".join(out) or "always"

    def scenarios(self, check):
        """what can happen to one file"""
        base = [dict(entry="Err"), dict(entry="Ok", read="Err"), dict(entry="Ok", read="Ok", fmt="Err"), dict(entry="Ok", read="Ok", fmt="Ok", res="Unchanged")]
        ch = dict(entry="Ok", read="Ok", fmt="Ok", res="Changed")
        return [tuple(sorted(x.items())) for x in base + ([ch] if check else [dict(ch, write="Ok"), dict(ch, write="Err")])]

    def stdin_text(self, t):
        """is t the complete text read from standard input"""
        t = strip(t)
        if t.tag == "after" and t.a[0] == "Read::read_to_string" and t.a[2] == 1:
            return from_stdin(t.a[1][0]) and t.a[1][1] in (Str(""), mk("str", ""))
        if t.tag == "pay" and t.a[1] == "Ok" and t.a[0].tag == "ecall" and t.a[0].a[0] in ("io::read_to_string", "read::read_to_string"):
            return from_stdin(t.a[0].a[1][0])
        return False

    # ---- parts of a file's processing ----
    def kind(self, t):
        """('entry' | 'read' | 'fmt' | 'res' | 'write', files term) of a term about one file, or None"""
        if t.tag == "elem" and t.a[0] in self.files:
            return "entry"
        if t.tag in ("ecall", "call"):
            n, ar = t.a[0], t.a[1]
            if n in ("fs::read_to_string",) and self.kind_of_path(ar[0]):
                return "read"
            if n == SOURCE and self.is_part(strip(ar[0]), "read", "Ok"):
                return "fmt"
            if n == "fs::write" and self.kind_of_path(ar[0]):
                return "write"
        if self.is_part(t, "fmt", "Ok"):
            return "res"
        return None

    def is_part(self, t, kind, variant):
        return t.tag == "pay" and t.a[1] == variant and self.kind(t.a[0]) == kind

    def kind_of_path(self, t):
        return self.is_part(strip(t), "entry", "Ok")

    # ---- evaluation for one thing that can happen ----
    def holds(self, t, c, sc, env=None):
        """does the condition hold for a file to which sc happens; None unknown"""
        if env:
            t = subst(t, env)
        k = self.kind(t)
        if k is not None and c[0] == "v":
            v = dict(sc).get(k)
            return None if v is None else v in c[1]
        if t.tag == "dnf" and c[0] == "b" and len(c[1]) == 1:
            r = [self.all_hold(d, sc, env) for d in t.a[0]]
            v = True if True in r else None if None in r else False
            return v if v is None else v == (True in c[1])
        if t.tag == "adt" and c[0] == "v":
            return t.a[1] in c[1]
        if t.tag == "int" and c[0] == "i":
            return any((lo is None or lo <= t.a[0]) and (hi is None or t.a[0] <= hi) for lo, hi in c[1])
        if t.tag == "bool" and c[0] == "b":
            return t.a[0] in c[1]
        return None

    def all_hold(self, conds, sc, env=None):
        r = True
        for t, c in dict(conds).items():
            h = self.holds(t, c, sc, env)
            if h is False:
                return False
            if h is None:
                r = None
        return r

    def members(self, over, scs):
        """the things whose files contribute an element to a collection made from the files"""
        if over in self.files:
            return set(scs)
        if over.tag in ("sorted", "sortedby"):
            return self.members(over.a[0], scs)
        if over.tag == "comp":
            base = self.members(over.a[0], scs)
            if over.a[0] not in self.files:
                raise Odd("collection " + show(over.a[0])[:100])
            out = set()
            for sc in base:
                hs = [self.all_hold(cs, sc) for cs, v in over.a[3]]
                if True in hs:
                    out.add(sc)
                elif None in hs:
                    raise Odd("condition of a collection " + show(over)[:200])
            return out
        raise Odd("collection " + show(over)[:100])

    def about_files(self, t):
        return any(u in self.files for u in subterms(t))

    def some(self, t, scs):
        """the things of which one file's happening makes exists/len>0 true"""
        if t.tag == "exists":
            m = self.members(t.a[0], scs)
            if t.a[0] not in self.files:
                if t.a[2] == frozenset((frozenset(),)):
                    return m
                raise Odd("exists over " + show(t.a[0])[:100])
            out = set()
            for sc in m:
                hs = [self.all_hold(d, sc) for d in t.a[2]]
                if True in hs:
                    out.add(sc)
                elif None in hs:
                    raise Odd("exists " + show(t)[:300])
            return out
        raise Odd(show(t)[:100])

    def folded(self, t, S):
        """final values of a fold over the files when exactly the things in S happen, in any order and number"""
        if t.a[0] not in self.files:
            raise Odd("fold over " + show(t.a[0])[:100])
        ph = mk("phi", t.a[2], 0, t.a[3])
        start = (t.a[3], frozenset())
        seen, work, out = {start}, [start], set()
        while work:
            v, done = work.pop()
            if done == S:
                out.add(v)
            for sc in S:
                hit = False
                for cs, to in t.a[4]:
                    h = self.all_hold(cs, sc, {ph: v})
                    if h is None:
                        raise Odd("condition of a loop")
                    if h:
                        hit = True
                        w = self.number(subst(to, {ph: v}))
                        if w.tag not in ("int", "bool", "adt"):
                            raise Odd("value of a loop " + show(w)[:100])
                        nx = (w, done | {sc})
                        if nx not in seen:
                            seen.add(nx)
                            work.append(nx)
                if not hit:
                    nx = (v, done | {sc})
                    if nx not in seen:
                        seen.add(nx)
                        work.append(nx)
                if len(seen) > 5000:
                    raise Odd("too many values of a loop")
        return out

    def number(self, t):
        if t.tag == "bin" and t.a[0] == "Add":
            a, b = self.number(t.a[1]), self.number(t.a[2])
            if a.tag == b.tag == "int":
                return Int(min(a.a[0] + b.a[0], 3))
        return t

    def consistent(self, conds, S, scs):
        """may an outcome with these conditions occur when exactly the things in S happen; raises Odd when a condition on the files is not understood"""
        for t, c in conds.items():
            if not self.about_files(t):
                continue
            if self.reporting(t) is not None:
                continue
            if t.tag == "exists" and c[0] == "b" and len(c[1]) == 1:
                if bool(self.some(t, scs) & S) != (True in c[1]):
                    return False
                continue
            if fname(t) in ("len", "count") and c[0] == "i":
                m = self.members(args(t)[0], scs) & S
                lo = 1 if m else 0
                if not any((a is None or a <= (10 ** 9 if lo else 0)) and (b is None or b >= lo) for a, b in c[1]):
                    return False
                continue
            if fname(t) in ("first", "last") and c[0] == "v":
                m = self.members(args(t)[0], scs) & S
                if isvar(conds, t, "Some") is not None and bool(m) != isvar(conds, t, "Some"):
                    return False
                continue
            if t.tag == "eq" and c[0] == "b" and len(c[1]) == 1 and any(fname(x) == "len" for x in t.a) and Int(0) in t.a:
                n = [x for x in t.a if fname(x) == "len"][0]
                if (not (self.members(args(n)[0], scs) & S)) != (True in c[1]):
                    return False
                continue
            if t.tag == "fold":
                vs = self.folded(t, S)
                if not any(self.holds(v, c, None) for v in vs):
                    return False
                continue
            raise Odd("condition " + show_cond(t, c)[:300])
        return True

    def reporting(self, t):
        """(True when the condition is about writing messages to the standard error stream failing)"""
        names = {u.a[0] for u in subterms(t) if u.tag == "ecall"}
        if t.tag == "exists" or t.tag in ("ecall", "pay", "found"):
            w = {n for n in names if n.startswith("Write::") or n.endswith("::flush")}
            if w and any(n in ("stdio::stderr", "io::stderr") for n in names) and not any(n in STDOUT for n in names):
                ds = t.a[2] if t.tag == "exists" else ()
                if t.tag != "exists" or all(any(u.tag == "ecall" and u.a[0] in w for u in [x]) for d in ds for x in dict(d)):
                    return True
        return None

    # ---- effects ----
    def effects(self, effs, conds, sc=None):
        """yields (eff, conditions inside loops, over-term) of all effects, loops opened"""
        for e in effs:
            if e.tag == "foreach" and isinstance(e.a[2], frozenset):
                for cs, inner in e.a[2]:
                    for x in self.effects(inner, {**conds, **dict(cs)}):
                        yield x[0], x[1], x[2] + (e.a[0],)
            else:
                yield e, conds, ()

    def printed(self, effs):
        """what happens to standard output: ('write', text term, eff) | ('flush', None, eff) | ('print', text, eff) | ('other', None, eff)"""
        for e, conds, over in self.effects(effs, {}):
            if e.tag != "eff":
                if any(u.tag == "ecall" and u.a[0] in STDOUT for u in subterms(e)):
                    yield "other", None, e
                continue
            n = e.a[0]
            if n in ("stdio::_print", "io::_print"):
                yield "print", e.a[1][0] if e.a[1] else None, e
            elif n in STDOUT:
                pass
            elif e.a[1] and on_stdout(e.a[1][0]):
                m = n.split("::")[-1]
                if m in ("write_all", "write_fmt", "write_str", "write") and len(e.a[1]) > 1:
                    yield "write", e.a[1][1], e
                elif m == "flush":
                    yield "flush", None, e
                elif m not in ("lock", "is_terminal", "by_ref"):
                    yield "other", None, e
            elif any(on_stdout(x) for x in e.a[1][1:]):
                yield "other", None, e

    def expected(self, S, check):
        if any(dict(sc).get(k) == "Err" for sc in S for k in ("entry", "read", "fmt", "write")):
            return "Error"
        if check and any(dict(sc).get("res") == "Changed" for sc in S):
            return "Failure"
        return "Success"

    def subsets(self, scs):
        for n in range(len(scs) + 1):
            for c in combinations(scs, n):
                yield frozenset(c)


def from_stdin(t):
    while t.tag in ("ecall", "call"):
        if t.a[0] in ("stdio::stdin", "io::stdin"):
            return True
        if t.a[0] not in ("Stdin::lock", "Read::by_ref", "BufReader::new") or not t.a[1]:
            return False
        t = t.a[1][-1]
    return False


def flag(R, rule, field, spelling):
    """the field of FormatCommand is true exactly when the flag is given on the command line"""
    P = R.prog
    ty = "air::args::FormatCommand"
    got, add = f"<{ty} as clap_builder::derive::FromArgMatches>::from_arg_matches_mut", f"<{ty} as clap_builder::derive::Args>::augment_args"
    for f in (got, add):
        R.fn(f)
    I = R.interp()
    ids = set()
    for s, k, v in split_res(I, R.summary(got, None, I)):
        if k != "Ok":
            continue
        x = field_of(v, field)
        while x is not None and x.tag == "pay":
            x = x.a[0]
        lit = x.a[1][1].a[0] if x is not None and x.tag == "ecall" and x.a[0] == "ArgMatches::remove_one" and x.a[1][1].tag == "str" else None
        ids.add((lit, show(x)[:100] if x is not None else "?"))
    if len(ids) != 1 or list(ids)[0][0] is None:
        return R.undecided(rule, f"{ty}.{field}", f"set from {sorted(map(str, ids))[:2]}")
    ident = list(ids)[0][0]
    from_cli = set()
    for s, v in R.summary(add, None, R.interp()):
        for u in subterms(v):
            if u.tag == "ecall" and u.a[0] == "Command::arg":
                names, long, action = set(), None, None
                for w in subterms(u.a[1][1]):
                    if w.tag == "ecall" and w.a[0] == "Arg::new":
                        names.add(show(w.a[1][0]).strip("'"))
                    elif w.tag == "ecall" and w.a[0] == "Arg::long":
                        long = show(w.a[1][1]).strip("'")
                    elif w.tag == "ecall" and w.a[0] == "Arg::action" and w.a[1][1].tag == "adt":
                        action = w.a[1][1].a[1]
                if ident in names:
                    from_cli.add((long, action))
    R.check(True if from_cli == {(spelling, "SetTrue")} else False if len(from_cli) == 1 and None not in list(from_cli)[0] else None, rule, f"{ty}.{field}",
            f"set by argument '{ident}', spelled {sorted(map(str, from_cli))}, expected --{spelling} setting it to true")


def field_of(v, field):
    x = project(v, field)
    return x


def on_stdout(t):
    """is the term standard output itself, or a writer wrapped around it?"""
    while True:
        if t.tag in ("ecall", "call"):
            if t.a[0] in STDOUT:
                return True
            if not t.a[1] or t.a[0] not in ("BufWriter::new", "LineWriter::new", "LineWriter::with_capacity", "BufWriter::with_capacity", "Write::by_ref"):
                return False
            t = t.a[1][-1]
        elif t.tag == "after":
            t = t.a[1][t.a[2]]
        elif t.tag == "mref":
            return False
        else:
            return False


def describe(sc):
    d = dict(sc)
    if d["entry"] == "Err":
        return "a file that cannot be visited"
    if d.get("read") == "Err":
        return "a file that cannot be read"
    if d.get("fmt") == "Err":
        return "a file that cannot be formatted"
    if d.get("res") == "Unchanged":
        return "an unchanged file"
    return "a changed file" + (" that cannot be written" if d.get("write") == "Err" else "")


# ---- workspace::format::format_source ----
FORMAT_SOURCE = "workspace::format::format_source"
NODE, PRINT = "air_r_formatter::format_node", "Formatted::print"
# functions of a text which different texts may agree on
LOSSY = ("str::trim", "str::trim_end", "str::trim_start", "str::trim_matches", "str::trim_end_matches", "str::trim_start_matches", "str::to_lowercase", "str::to_uppercase", "str::to_ascii_lowercase", "len", "is_empty", "count", "str::starts_with",
         "str::ends_with", "str::contains", "contains", "starts_with", "ends_with", "str::eq_ignore_ascii_case")


class Source:
    """outcomes of format_source: what was parsed, formatted and compared"""

    def __init__(self, R, fn=FORMAT_SOURCE, names="source options"):
        self.R = R
        R.fn(fn)
        self.where = R.where(fn)
        I = R.interp()
        I.opaque_fn = lambda p, res: any(x and x.startswith(("air_r_parser", "air_r_formatter")) for x in (p, res))
        self.I = I
        self.text, self.options = [mk("arg", n) for n in names.split()]
        self.outs = split_res(I, R.summary(fn, names, I))
        self.parse = {u for s, k, v in self.outs for e in s.eff for u in subterms(e) if u.tag == "ecall" and u.a[0] == "parse::parse"}

    def code(self, t):
        """is t the complete printed text of the formatter: 'yes', 'part' (made from it), None"""
        t = strip(t)
        if t.tag in ("ecall", "call") and t.a[0] in ("Printed::into_code", "Printed::as_code"):
            x = strip(t.a[1][0])
            if x.tag == "pay" and x.a[1] == "Ok" and x.a[0].tag == "ecall" and x.a[0].a[0] == PRINT:
                y = strip(x.a[0].a[1][0])
                if y.tag == "pay" and y.a[1] == "Ok" and y.a[0].tag == "ecall" and y.a[0].a[0] == NODE:
                    return "yes"
        if any(u.tag in ("ecall", "call") and u.a[0] in ("Printed::into_code", "Printed::as_code") for u in subterms(t)):
            return "part"
        return None

    def nodes(self, s):
        """the format_node calls of an outcome"""
        return [u for e in s.eff for u in [e] if u.tag == "eff" and u.a[0] == NODE]

    def equality(self, conds):
        """(known to equal the source, known to differ, terms comparing them which are not understood)"""
        eq = ne = False
        odd = []
        for t, c in conds.items():
            if not any(self.code(u) == "yes" for u in subterms(t)):
                continue
            if t.tag == "ecall" and t.a[0] in (PRINT, NODE):
                continue
            if t.tag == "eq" and c[0] == "b" and len(c[1]) == 1:
                a, b = [strip(x) for x in t.a]
                if {a is self.text, b is self.text} == {True, False} and "yes" in (self.code(a), self.code(b)):
                    if True in c[1]:
                        eq = True
                    else:
                        ne = True
                    continue
                fa, fb = self.unary(a), self.unary(b)
                if fa and fb and fa[0] == fb[0] and {fa[1] is self.text, fb[1] is self.text} == {True, False} and "yes" in (self.code(fa[1]), self.code(fb[1])):
                    if False in c[1]:
                        ne = True
                    elif fa[0] not in LOSSY:
                        odd.append(t)
                    continue
            if all(u.tag in ("arg", "int", "str", "bool", "eq", "bin", "char", "cat") or fname(u) in LOSSY or fname(u) in ("Printed::into_code", "Printed::as_code", PRINT, NODE, "Parse::syntax", "parse::parse", "String::as_str", "String::as_bytes", "str::as_bytes") or u.tag in ("pay", "adt") for u in subterms(t)):
                continue
            odd.append(t)
        return eq, ne, odd

    @staticmethod
    def unary(t):
        return (fname(t), strip(args(t)[0])) if fname(t) and args(t) else None
