"""The parallel directory walk: the visitor of each thread in terms of the arguments of discover_r_file_paths."""
from terms import *
from cases import *
import cli, filters
from report import Missing

DISCOVER = "workspace::discovery::discover_r_file_paths"
NAMES = ("paths", "resolver", "mode", "exclude", "include")
WALK = "WalkParallel::visit"


def PRIMITIVE(p, res):
    return any(x and (x == "fs::normalize_path" or x.startswith("workspace::file_patterns::") or x.startswith("workspace::resolve::")) for x in (p, res))


def method(P, trait, name, of):
    """the impl of a trait method for the type of a value"""
    for st, ref, p in P.trait_impl.get((trait, name), ()):
        if st.split("<")[0] == of.split("<")[0]:
            return p
    return None


def growth(t, start):
    """elements pushed onto a collection (oldest first), or None when it is not the start with elements pushed"""
    out = []
    while t is not start:
        if t.tag == "push":
            out.append(t.a[1])
            t = t.a[0]
        elif t.tag == "arr" and start.tag == "arr" and t.a[0][:len(start.a[0])] == start.a[0]:
            return list(t.a[0][len(start.a[0]):]) + out[::-1]
        else:
            return None
    return out[::-1]


class Outcome:
    pass


class Visit:
    def __init__(self, R):
        self.R = R
        P = R.prog
        R.fn(DISCOVER)
        self.I = I = R.interp()
        I.opaque_fn = PRIMITIVE
        self.found = R.summary(DISCOVER, " ".join(NAMES), I)
        walks = {e for s, v in self.found for e in s.eff if e.tag == "eff" and e.a[0] == WALK}
        builders = {e.a[1][1] for e in walks}
        if not builders:
            raise Missing(f"{DISCOVER}: no parallel walk")
        self.walks = walks
        self.builder = sorted(builders, key=repr)[0]
        self.builders = builders
        if self.builder.tag != "adt":
            raise Missing("the builder of the visitors is not known: " + show(self.builder)[:100])
        build = method(P, "ignore::walk::ParallelVisitorBuilder", "build", self.builder.a[0])
        if build is None:
            raise Missing("no ParallelVisitorBuilder::build for " + self.builder.a[0])
        R.fn(build)
        self.build = build
        me = mk("arg", "builder")
        built = R.summary(build, "builder", I)
        if len(built) != 1 or built[0][1].tag != "adt":
            raise Missing(f"{build}: the visitor it makes is not known")
        self.built = built[0]
        self.changed_builder = built[0][0].mem.get(("h", "builder"), me) is not me
        self.visitor = subst(built[0][1], {me: self.builder})
        visit = method(P, "ignore::walk::ParallelVisitor", "visit", self.visitor.a[0])
        if visit is None:
            raise Missing("no ParallelVisitor::visit for " + self.visitor.a[0])
        R.fn(visit)
        self.visit = visit
        self.drop = method(P, "core::ops::drop::Drop", "drop", self.visitor.a[0])
        self.where = R.where(visit)
        self.exclude, self.include, self.resolver = mk("arg", "exclude"), mk("arg", "include"), mk("arg", "resolver")
        self.me, self.result = mk("arg", "visitor"), mk("arg", "result")
        self.entry = payload(self.result, "Ok", 0)
        self.shared = {}
        self.outs = [o for s, v in R.summary(visit, "visitor result", I) for o in [self.outcome(s, v)] if o]

    def fixed(self, names):
        """fields of the visitor which never change keep the value they were made with; the collections do not"""
        m = {}
        for f, x in zip(self.visitor.a[3], self.visitor.a[2]):
            if f not in names:
                m[mk("fld", self.me, f)] = x
        return m

    def outcome(self, s, v):
        o = Outcome()
        new = s.mem.get(("h", "visitor"), self.me)
        changed = [f for f in self.visitor.a[3] if project(new, f) is not mk("fld", self.me, f)]
        m = self.fixed(changed)
        conds = {}
        for t, c in s.conds.items():
            t2 = subst(t, m)
            if t2.tag == "adt" and c[0] == "v":
                if t2.a[1] not in c[1]:
                    return None
                continue
            conds[t2] = c
        o.conds, o.mem = conds, {k: subst(x, m) for k, x in s.mem.items()}
        o.note = ""
        o.pushed, o.into = [], {}
        ok = True
        for f in changed:
            g = growth(project(new, f), mk("fld", self.me, f))
            if g is None:
                ok = False
                o.note = f"{f} becomes {show(project(new, f))[:100]}"
            else:
                o.pushed += g
                o.into.setdefault(("own", f), []).extend(g)
        for cell, x in s.mem.items():
            if cell[0] == "lock":
                g = growth(x, cell[1])
                if g is None:
                    ok = False
                    o.note = f"the shared results become {show(x)[:100]}"
                elif g:
                    o.pushed += g
                    o.into.setdefault(("shared", subst(args(cell[1])[0], m)), []).extend(g)
        o.pushed = [subst(x, m) for x in o.pushed]
        o.pushes = len(o.pushed) if ok else None
        o.state = v.a[1] if v.tag == "adt" else None
        o.entry = isvar(conds, self.result, "Ok")
        o.directory = self.directory(conds)
        o.direct = self.direct(conds)
        path = {u for t in [*conds, *s.eff] for u in subterms(t) if cli.fname(u) == "DirEntry::path" and cli.strip(args(u)[0]) is self.entry}
        p = next(iter(path)) if len(path) == 1 else mk("none")

        def fmt(t):
            return t.tag == "fld" and t.a[1] == "format" and cli.fname(t.a[0]) == "PathResolver::resolve_or_fallback" and args(t.a[0])[0] is self.resolver and cli.strip(args(t.a[0])[1]) is p

        o.filter = filters.Filter(p, fmt, self.dir_arg)
        o.known = self.known(o.filter)
        o.label = self.label(o)
        return o

    def about_entry(self, t, name):
        return cli.fname(t) == name and cli.strip(args(t)[0]) is self.entry

    def file_type(self, t):
        return self.about_entry(t, "DirEntry::file_type")

    def is_dir(self, t):
        return cli.fname(t) == "FileType::is_dir" and args(t)[0].tag == "pay" and self.file_type(args(t)[0].a[0])

    def directory(self, conds):
        for t in conds:
            if self.file_type(t) and isvar(conds, t, "None"):
                return True
            if self.is_dir(t):
                return truth(conds, t)
        return None

    def dir_arg(self, conds, t):
        if t.tag == "int":
            return self.directory(conds) is bool(t.a[0])
        return self.is_dir(t) or t.tag in ("ite", "dnf") and all(self.is_dir(u) or self.file_type(u) for u in subterms(t) if cli.fname(u) and not cli.fname(u).startswith("DirEntry"))

    def direct(self, conds):
        for t, c in conds.items():
            if self.about_entry(t, "DirEntry::depth") and c[0] == "i":
                zero = any((lo is None or lo <= 0) and (hi is None or 0 <= hi) for lo, hi in c[1])
                more = any(hi is None or hi > 0 for lo, hi in c[1])
                return None if zero and more else zero
        return None

    def known(self, F):
        fixed = (self.exclude, self.include, self.result, mk("arg", "mode"))
        return lambda t: t in fixed or self.file_type(t) or self.is_dir(t) or self.about_entry(t, "DirEntry::depth") or F.mine(t)

    def label(self, o):
        out = []
        if o.entry is False or isvar(o.conds, self.result, "Err"):
            return "an entry which cannot be read"
        out.append({True: "directory", False: "file", None: "path"}[o.directory])
        out.append({True: "named directly", False: "found in a directory", None: "anywhere"}[o.direct])
        for t, c in o.conds.items():
            if t in (self.exclude, self.include):
                out.append(f"{t.a[0]} {'/'.join(sorted(c[1]))}")
            elif cli.fname(t) in filters.ONE or cli.fname(t) in filters.EITHER or cli.fname(t) == filters.INCLUDE:
                q = filters.base(args(t)[0]) if cli.fname(t) in filters.ONE else None
                out.append((q.a[1] if q is not None and q.tag == "fld" else cli.fname(t).split("::")[-1]) + (" matches" if isvar(o.conds, t, "Some") else " does not match"))
            elif t.tag == "fld" and t.a[1] in ("exclude", "default_exclude", "default_include") and isvar(o.conds, t, "None"):
                out.append(f"no {t.a[1]}")
        return ", ".join(out)
