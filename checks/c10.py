"""C10: without configuration, or with empty configuration, the documented defaults apply."""
import json, re, tomllib
from terms import *
from cases import *
import flow, mir, words as W
import c08, c11
from report import Missing, NoFacts, REPO

LEVEL = "proof"
TECHNIQUE = "gated value-numbering dataflow: the constant each setting has when the section or the option is missing, equated with the settings' Default and with the values parsed from the documentation; origin analysis of the fallback settings"
EXPLANATION = ("Every setting's value with no format section, and with the section empty, is computed from the MIR and compared with FormatSettings::default, which is itself a constant term; the constant is compared with the complete "
               "example configuration and the `with a default of` sentences of the documentation. The settings used where no configuration applies are traced to Settings::default in the command line tool and the language server.")
SECTION = {"line-width": "line_width", "indent-width": "indent_width", "indent-style": "indent_style", "line-ending": "line_ending", "persistent-line-breaks": "persistent_line_breaks",
           "assignment-style": "assignment_style", "default-exclude": "default_exclude", "default-table": "table", "exclude": "exclude", "skip": "skip", "table": "table"}


def documented(R):
    """{option: [(source, value)]} from the documentation"""
    text = open(f"{REPO}/docs/configuration.qmd", encoding="utf-8").read()
    out = {}
    m = re.search(r"complete `air.toml`.*?```\s*toml\n(.*?)```", text, re.S)
    if m:
        for k, v in tomllib.loads(m[1]).get("format", {}).items():
            out.setdefault(k, []).append(("the example configuration", v))
    for k, sec in W.doc_sections().items():
        m = re.search(r"with a default of `?(\"?[A-Za-z0-9-]+\"?)`?", sec)
        if m and k in SECTION:
            out.setdefault(k, []).append((f"section {k}", json.loads(m[1])))
    return out


def spelled(v, conds):
    """the documented form of a constant setting"""
    if v.tag == "adt":
        name = v.a[0].split("::")[-1]
        if len(v.a[2]) == 1 and v.a[2][0].tag == "int":
            return v.a[2][0].a[0]
        for crate, n, option, want, _ in c11.ENUMS:
            if n == name and v.a[1] in want and (n != "LineEnding" or crate == v.a[0].split("::")[0]):
                return want[v.a[1]]
    return None


def names_of(v):
    return [u.a[0] for u in subterms(v) if u.tag == "str"]


def expected(key, val):
    """judge(value) for the setting behind key when the documentation says val"""
    def plain(v):
        s = spelled(v, {})
        return None if s is None else s == val

    def persistent(v):
        return None if v.tag != "adt" else v.a[1] == {True: "Respect", False: "Ignore"}[val]

    def present(v):
        return None if v.tag != "adt" else (v.a[1] == "Some") == val

    def empty(v):
        if v.tag != "adt":
            return None
        if v.a[1] == "None":
            return val == []
        return None if val == [] and unknown_parts(v) else names_of(v) == val
    if key in ("line-width", "indent-width", "indent-style", "line-ending", "assignment-style"):
        return plain
    return {"persistent-line-breaks": persistent, "default-exclude": present, "default-table": present}.get(key, empty)


def values(R, default):
    where = R.where(c08.DEFAULT)
    docs = documented(R)
    R.floor("C10.documented", "options with a documented default", len(docs), 11)
    for key, says in sorted(docs.items()):
        st = SECTION.get(key)
        if st is None:
            R.undecided("C10.documented", f"documentation: {key}", "not an option this check knows")
            continue
        if key == "table":
            continue
        v = project(default, st)
        for src, val in says:
            ok = expected(key, val)(v)
            R.check(ok, "C10.documented", f"{where}: {key}", f"the default is {show(v)[:160]}; {src} says {val!r}")
    # the functions formatted as tables
    sec = W.doc_sections().get("default-table", "")
    fs = re.findall(r"^-\s+`([^`(]+)\(\)`", sec, re.M)
    v = project(default, "table")
    ns = names_of(v)
    ok = sorted(fs) == sorted(ns) if fs else None
    if ok is False and unknown_parts(v):
        ok = None
    R.check(ok, "C10.documented", f"{where}: default-table", f"tables by default: {ns}; documented: {fs}")
    v = project(default, "default_include")
    R.check(True if v.tag == "adt" and v.a[1] == "Some" else None if v.tag != "adt" else False, "C10.documented", f"{where}: included files", f"the built-in include patterns apply: {show(v)[:60]}")


def empty(R):
    M = c08.Model(R, {})
    if M.default is None:
        R.undecided("C10.empty", R.where(c08.DEFAULT), "the default settings are not a constant")
        return None
    none = c08.is_(M.format, "None")
    allnone = {**c08.is_(M.format, "Some")}
    names = flow_fields(R)
    for f in names:
        allnone.update(c08.is_(project(M.sect, f), "None"))
    settings = [a for a in M.default.a[3]]
    for title, conds in (("no format section", none), ("an empty format section", allnone)):
        n = 0
        for s, v in M.outs:
            j = meet(s.conds, conds)
            if j is None:
                continue
            n += 1
            for st in settings:
                for x, c in c08.resolve(M.value(v, st), j):
                    w = f"{M.where}: {st} with {title}"
                    r = c08.same(x, M.dflt(st), c)
                    if r is True:
                        R.proved("C10.empty", w, show(x)[:100])
                    else:
                        unk = unknown_parts([x], ok=c08.OKPARTS)
                        R.check(None if unk else False, "C10.empty", w, f"is {show(x)[:200]}, not the default {show(M.dflt(st))[:100]}")
        if not n:
            R.check(False if M.outs else None, "C10.empty", f"{M.where} with {title}", "never becomes settings")
        for s, v in M.errs:
            j = meet(s.conds, conds)
            # the built-in patterns are constants that compile; only failures that depend on the options count
            if j is not None and mentions_options(s.conds):
                R.check(None if unknown_parts(list(s.conds)) else False, "C10.empty", f"{M.where} with {title}", f"fails when [{show_conds(j)[:300]}]")
    return M


def mentions_options(conds):
    return any(u.tag == "pay" or u.tag == "ecall" and u.a[0].endswith("try_from_iter") for t in conds for u in subterms(t))


def flow_fields(R):
    adt = W.adt_name(R, "FormatTomlOptions", "workspace")
    fs = R.prog.adt(adt)["variants"][0]["fields"]
    return [f[0] if isinstance(f, (list, tuple)) else f["name"] if isinstance(f, dict) else f for f in fs]


def fallback(R, default):
    """PathResolver<Settings>::new is given Settings::default()"""
    n = 0
    dpath = W.impl_fn(R, "workspace::settings::Settings", "Default", "default")
    for name, bb, aa, sp in mir.sites(R.prog, "PathResolver::<T>::new"):
        f = R.prog.fn(name)
        call = f["body"]["blocks"][bb][2][1][1]
        if not name.startswith(("air::", "<air::", "lsp::", "<lsp::")) or "::test" in name or call["args"] != ["workspace::settings::Settings"]:
            continue
        n += 1
        R.saw(f)
        verdict, seen = True, []
        for o in mir.origins(f, aa[0]):
            path = o[1] if o[0] == "call" else None
            if path and path.endswith("Default::default"):
                path = dpath
            seen.append(str(path or o))
            if path and R.prog.fn(path):
                for s, v in R.summary(path, None, R.interp(gate=True, opaque=tuple(q for q in R.prog.fns if q.endswith("::try_from_iter")))):
                    x = project(v, "format")
                    for st in default.a[3]:
                        if not c08.same(project(x, st), project(default, st), s.conds):
                            verdict = verdict and (None if unknown_parts(project(x, st), c08.OKPARTS) else False)
                            seen.append(f"{st} is {show(project(x, st))[:80]}")
            else:
                verdict = verdict and None
        R.check(verdict, "C10.fallback", f"{sp[0]}:{sp[1]} {name}", f"the settings used when no configuration applies: {seen[:4]}")
    R.floor("C10.fallback", "resolvers of the command line tool and the language server", n, 1)


def check(R):
    R.program("workspace", "settings", "line_ending")
    M = R.guard(lambda: empty(R), "C10.empty", c08.INTO)
    R.guard(lambda: values(R, M.default), "C10.documented", c08.DEFAULT) if M else None
    if M is None:
        return
    try:
        R.program("air", "lsp", "workspace", "settings", "line_ending")
        R.guard(lambda: fallback(R, M.default), "C10.fallback", "PathResolver::new")
    except NoFacts:
        pass
