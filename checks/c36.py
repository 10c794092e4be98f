"""C36: the Zed extension downloads and runs the released binary."""
import os, tomllib
from terms import *
from cases import *
import flow
from report import Missing, NoFacts, REPO

LEVEL = "proof"
TECHNIQUE = "case tables over MIR summaries: the released-asset table against the release configuration, and every outcome of the command construction against the order of preference"
EXPLANATION = ("The summary of GithubReleaseDetails::new gives, for each operating system and architecture, the exact asset name, archive kind and paths, compared with the targets and archive suffixes of dist-workspace.toml and the layout dist gives its archives. "
               "Every outcome of language_server_command (all paths, helpers inlined, external calls symbolic) is compared with the order user path, PATH, cached download, new download; the arguments of each are traced to the user's; the downloaded asset is the one searched by equality of names, and what the clean-up deletes excludes the directory just filled.")
NEW = "zed_air::GithubReleaseDetails::new"
CMD = "<zed_air::AirExtension as zed_extension_api::Extension>::language_server_command"
OSES = {"Mac": "apple-darwin", "Linux": "unknown-linux-gnu", "Windows": "pc-windows-msvc"}
ARCHES = {"Aarch64": "aarch64", "X8664": "x86_64", "X86": "x86"}
LOOPY = {"loop", "loopval", "phi", "itadv", "itend", "itrest", "loopeff", "nextof"}
EXT = ("LspSettings::for_worktree", "Worktree::which", "github::latest_github_release", "platform::current_platform", "fs::metadata", "Metadata::is_file", "wit::download_file", "fs::read_dir",
       "zed_extension_api::set_language_server_installation_status", "wit::set_language_server_installation_status", "GithubReleaseDetails::new", "fs::remove_dir_all", "DirEntry::file_name", "DirEntry::path", "Metadata::is_dir", "Path::is_dir", "Path::is_file", "Path::exists")


def strip(t):
    while True:
        if op(t) and op(t).startswith(("From<", "Into<", "Into::", "AsRef", "ToOwned", "ToString", "String::as_str", "Deref")) and t.tag in ("call", "ecall"):
            t = args(t)[-1]
        elif t.tag == "cat" and len(t.a[0]) == 1:
            t = t.a[0][0]
        else:
            return t


def released():
    with open(os.path.join(REPO, "dist-workspace.toml"), "rb") as f:
        d = tomllib.load(f)["dist"]
    return set(d["targets"]), d.get("windows-archive", ".zip"), d.get("unix-archive", ".tar.xz")


def binary_name():
    with open(os.path.join(REPO, "crates/air/Cargo.toml"), "rb") as f:
        c = tomllib.load(f)
    bins = [b["name"] for b in c.get("bin", [])] or [c["package"]["name"]]
    return c["package"]["name"], bins[0]


def variant(conds, t, names):
    left = [n for n in names if isvar(conds, t, n) is not False]
    return left


def assets(R):
    targets, win, unix = released()
    pkg, exe = binary_name()
    where = R.where(NEW)
    f = R.fn(NEW)
    # arguments by type, so that their order is free
    names = []
    for i in range(1, f["body"]["argc"] + 1):
        ty = f["body"]["locals"][i][0]
        names.append("os" if ty.endswith("::Os") else "arch" if ty.endswith("::Architecture") else "version" if "String" in ty or "str" in ty else "x%d" % i)
    ospath = next(f["body"]["locals"][i][0] for i in range(1, f["body"]["argc"] + 1) if names[i - 1] == "os")
    osv, arch, ver = mk("arg", "os"), mk("arg", "arch"), mk("arg", "version")
    outs = R.summary(NEW, " ".join(names), R.interp())
    published = {f"{pkg}-{t}{win if 'windows' in t else unix}" for t in targets}
    kinds = {".zip": "Zip", ".tar.gz": "GzipTar", ".gz": "Gzip"}
    n = 0
    for o, osname in OSES.items():
        for a, aname in ARCHES.items():
            target = f"{aname}-{osname}"
            archive = win if o == "Windows" else unix
            given = {osv: ("v", frozenset((o,)), frozenset(OSES)), arch: ("v", frozenset((a,)), frozenset(ARCHES))}
            hit = 0
            for s, v in outs:
                if meet(s.conds, given) is None:
                    continue
                hit += 1
                case = f"{where}: {a} {o}"
                if s.eff or any(t not in (osv, arch) for t in s.conds):
                    R.undecided("C36.asset", case, f"also depends on [{show_conds(s.conds)[:200]}] {show(s.eff)[:100]}")
                    continue
                name, kind, dir_, path = (strip(project(v, x)) for x in ("asset_name", "downloaded_file_type", "downloaded_directory", "downloaded_binary_path"))
                unk = unknown_parts([name, kind, dir_, path])
                bad = None if unk else False
                if target in targets:
                    want = Str(f"{pkg}-{target}{archive}")
                    R.check(name is want or (bad if name.tag != "str" else False), "C36.asset", case, f"asks for {show(name)[:120]}; published as {show(want)}")
                    k = kinds.get(archive)
                    R.check(True if adt_variant(kind) == k else bad, "C36.kind", case, f"unpacks {show(name)[:80]} as {show(kind)[:80]}")
                else:
                    R.check(False if name.tag == "str" and name.a[0] in published else True if name.tag == "str" else None, "C36.asset", case, f"{target} is not released; asks for {show(name)[:120]}, which is {'the file of another platform' if name.tag == 'str' and name.a[0] in published else 'not published, so that the search fails'}")
                # the directory keeps versions apart; the binary lies where the archive puts it
                parts = list(dir_.a[0]) if dir_.tag == "cat" else [dir_]
                vs = [p for p in parts if strip(p) is ver]
                good = len(vs) == 1 and all(p.tag == "str" or strip(p) is ver for p in parts)
                R.check(True if good else bad, "C36.directory", case, f"unpacks into {show(dir_)[:120]}" + ("" if good else ", where another version may already lie"))
                inner = f"/{exe}.exe" if o == "Windows" and archive == ".zip" else f"/{pkg}-{target}/{exe}" + (".exe" if o == "Windows" else "")
                if target in targets:
                    want = join(parts + [Str(inner)])
                    R.check(True if path is want else bad, "C36.binary", case, f"runs {show(path)[:160]}; the archive puts it at {show(want)[:160]}")
                n += 1
            if not hit:
                R.undecided("C36.asset", f"{where}: {a} {o}", "no outcome")
    R.floor("C36.asset", "platform cases", n, 1)


def adt_variant(t):
    return t.a[1] if t.tag == "adt" else t.a[0].split("::")[-1] if t.tag == "const" else show(t).split("::")[-1].rstrip("{}")


def join(parts):
    out = []
    for p in parts:
        if p.tag == "str" and out and out[-1].tag == "str":
            out[-1] = Str(out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    return out[0] if len(out) == 1 else mk("cat", tuple(out))


def settings_path(t):
    """field names from the settings of the language server to t, payloads dropped"""
    p = []
    while True:
        if t.tag == "fld":
            p.append(t.a[1]); t = t.a[0]
        elif t.tag == "pay":
            t = t.a[0]
        elif t.tag in ("call", "ecall") and op(t) == "LspSettings::for_worktree":
            return ".".join(reversed([x for x in p if not str(x).isdigit()]))
        else:
            s = strip(t)
            if s is t:
                return None
            t = s


def setting(conds, leaf):
    """('some', term) | 'none' | None, for binary.<leaf> of the user's settings"""
    for t in conds:
        sp = settings_path(t)
        if sp == "binary." + leaf and isvar(conds, t, "Some"):
            return ("some", t)
    for t in conds:
        sp = settings_path(t)
        if sp == "binary." + leaf and isvar(conds, t, "None") or sp == "binary" and isvar(conds, t, "None") or op(t) == "LspSettings::for_worktree" and isvar(conds, t, "Err"):
            return "none"
    return None


def is_file(conds, path):
    """is the file at path known to be a regular file"""
    for t, c in conds.items():
        if op(t) == "Metadata::is_file" and truth(conds, t) is not None:
            m = args(t)[0]
            if m.tag == "pay" and op(m.a[0]) == "fs::metadata" and strip(args(m.a[0])[0]) is path and isvar(conds, m.a[0], "Ok"):
                return truth(conds, t)
        if op(t) == "Path::is_file" and strip(args(t)[0]) is path and truth(conds, t) is not None:
            return truth(conds, t)
        if op(t) == "fs::metadata" and strip(args(t)[0]) is path and isvar(conds, t, "Err"):
            return False
    return None


def events(eff):
    out = []
    for e in eff:
        out += [u for u in subterms(e) if u.tag == "eff"] if e.tag != "eff" else [e]
    return out


def command(R):
    R.fn(CMD)
    where = R.where(CMD)
    opq = tuple(p for p in R.prog.fns if p == NEW)
    I = R.interp(opaque=opq)
    outs = split_res(I, R.summary(CMD, "self id worktree", I))
    me = mk("arg", "self")
    cached = project(me, "cached_binary_path")
    n = {"user": 0, "which": 0, "cached": 0, "download": 0}
    tally = {}

    def say(ok, rule, case, detail):
        # many outcomes share a case: report one obligation per case
        k = (rule, case)
        old = tally.get(k)
        rank = {True: 0, None: 1, False: 2}
        ok = True if ok else ok
        ok = False if ok is False else ok
        if old is None or rank[ok] > rank[old[0]]:
            tally[k] = (ok, detail, (old[2] if old else 0) + 1)
        else:
            tally[k] = (old[0], old[1], old[2] + 1)

    for s, kind, v in outs:
        c = s.conds
        user = setting(c, "path")
        which = [t for t in c if op(t) == "Worktree::which"]
        ws = next((t for t in which if isvar(c, t, "Some")), None)
        wn = any(isvar(c, t, "None") for t in which)
        ca = None
        if isvar(c, cached, "None"):
            ca = False
        elif isvar(c, cached, "Some"):
            ca = is_file(c, payload(cached, "Some", 0))
        rel = next((t for t in c if op(t) == "github::latest_github_release"), None)
        ev = [u.a[0] for u in events(s.eff)]
        case = f"[{show_conds(c)[:400]}]"
        cmd = strip(project(v, "command")) if kind == "Ok" else None
        unk = unknown_parts(list(c) + ([v] if isinstance(v, T) else []), ok=EXT) - LOOPY
        bad = None if unk else False
        # which source this outcome is about
        if user and user[0] == "some":
            src, good = "user", cmd is payload(user[1], "Some", 0)
            what = "the path the user set"
        elif user is None:
            # decided before the user's setting was looked at
            src, what = "user", "the path the user set"
            good = False if kind == "Err" or cmd is not None else None
        elif ws is not None:
            src, what, good = "which", "the binary on the PATH", cmd is payload(ws, "Some", 0)
        elif not wn:
            src, what, good = "which", "the binary on the PATH", False
        elif ca:
            src, what, good = "cached", "the binary downloaded before", cmd is payload(cached, "Some", 0)
        else:
            src, what = "download", "the released binary"
            if ca is None and kind == "Ok" and cmd is payload(cached, "Some", 0):
                good = False
            elif kind == "Ok":
                good = download(R, s, c, cmd, say, where)
            else:
                good = download_err(R, s, c, v)
        n[src] += kind == "Ok"
        if src == "cached" and kind != "Ok":
            good = False
        if good is not True and unk:
            good = None
        say(good, "C36.order", f"{where}: {what}", (f"{case} gives {show(cmd)[:200] if cmd is not None else 'an error ' + show(v)[:150]}" + (f"; unknown {sorted(unk)}" if unk and good is None else "")) if good is not True else "used in exactly the outcomes where no preferred source applies")
        if src != "download" and any(e.endswith(("download_file", "latest_github_release")) for e in ev):
            say(None if unk else False, "C36.order", f"{where}: {what}", f"{case} asks the network although a preferred binary is there")
        for t in which:
            say(strip(args(t)[1]) is Str("air") if len(args(t)) > 1 else None, "C36.order", f"{where}: name searched on the PATH", show(t)[:150])
        # arguments
        if kind == "Ok":
            ar = setting(c, "arguments")
            got = strip(project(v, "args"))
            if ar and ar[0] == "some":
                good = got is payload(ar[1], "Some", 0)
            elif ar == "none":
                good = got.tag == "arr" and [strip(x) for x in got.a[0]] == [Str("language-server")]
            else:
                # not looked at: whatever the arguments are, they are not the user's
                good = settings_path(got) == "binary.arguments" if settings_path(got) else False
            say(good or bad, "C36.arguments", f"{where}: with {what}", f"{case} starts it with {show(got)[:200]}" if not good else "the user's arguments, or `language-server` without any")
        # what is remembered
        new = s.mem.get(("h", "self"))
        if new is not None and new is not me:
            nv = strip(project(new, "cached_binary_path"))
            if nv is not cached:
                if nv.tag == "adt" and nv.a[1] == "Some":
                    p = strip(payload(nv, "Some", 0))
                    good = p is cmd or p.tag == "fld" and p.a[1] == "downloaded_binary_path" or None
                    good = good if good or unknown_parts([p], ok=EXT) else False
                else:
                    good = True if adt_variant(nv) == "None" else None
                say(good, "C36.cache", f"{where}: remembered path", f"{case} remembers {show(nv)[:200]}" if not good else "only the path of a downloaded binary is remembered")
        # what the clean-up deletes
        for e in s.eff:
            cleanup(R, e, s, where, say)
        for t in c:
            if op(t) == "LspSettings::for_worktree":
                good = args(t)[0] is mk("arg", "id") or any(u is mk("arg", "id") for u in subterms(args(t)[0]))
                say(good or None, "C36.order", f"{where}: settings read", show(t)[:150])
    for (rule, case), (ok, detail, k) in tally.items():
        R.check(ok, rule, case, detail + f" ({k} outcomes)" if ok else detail)
    for src, k in n.items():
        if not k:
            R.violated("C36.order", f"{where}: {src}", "no outcome starts the binary from this source") if not R_unknown(outs) else R.undecided("C36.order", f"{where}: {src}", "no outcome recognised")


def R_unknown(outs):
    return any(unknown_parts(list(s.conds), ok=EXT) - LOOPY for s, k, v in outs)


def details(t):
    """the release details a field is taken from, and the field"""
    t = strip(t)
    if t.tag == "fld" and op(t.a[0]) == "GithubReleaseDetails::new":
        return t.a[0], t.a[1]
    return None, None


def download(R, s, c, cmd, say, where):
    d, fld = details(cmd)
    if d is None or fld != "downloaded_binary_path":
        return False if not unknown_parts([cmd], ok=EXT) else None
    for a in args(d):
        a = strip(a)
        if a.tag == "fld" and op(a.a[0]) == "platform::current_platform":
            continue
        if a.tag == "fld" and a.a[1] == "version" and a.a[0].tag == "pay" and op(a.a[0].a[0]) == "github::latest_github_release":
            r = a.a[0].a[0]
            say(True if strip(args(r)[0]) is Str("posit-dev/air") else False, "C36.release", f"{where}: repository", show(args(r)[0]))
            o = args(r)[1]
            say(True if strip(project(o, "pre_release")) is Int(0) else None if unknown_parts([o]) else False, "C36.release", f"{where}: no pre-release", show(o)[:150])
            continue
        return None
    path = mk("fld", d, "downloaded_binary_path")
    there = is_file(c, path)
    dl = [u for e in s.eff for u in events([e]) if u.a[0].endswith("download_file")]
    if not dl:
        if there is not True:
            say(False if there is False or not unknown_parts(list(c), ok=EXT) - LOOPY else None, "C36.download", f"{where}: download", f"[{show_conds(c)[:300]}] runs a binary which was not downloaded and need not be there")
        return True
    for u in dl:
        a = [strip(x) for x in u.a[1]]
        url, to, kind = a[0], a[1], a[2] if len(a) > 2 else None
        say(details(to) == (d, "downloaded_directory") or None, "C36.download", f"{where}: unpacked into", show(to)[-150:])
        say(kind is not None and details(kind) == (d, "downloaded_file_type") or None, "C36.download", f"{where}: unpacked as", show(kind)[-150:] if kind else "")
        if details(to)[1] not in (None, "downloaded_directory") or to.tag == "str":
            say(False, "C36.download", f"{where}: unpacked into", show(to)[-200:])
        if url.tag == "fld" and url.a[1] == "download_url" and url.a[0].tag == "found":
            over, first, dnf = url.a[0].a[:3]
            okd = len(dnf) >= 1
            for cl in dnf:
                cl = list(cl)
                k = [t for t, cc in cl if t.tag == "eq" and cc == ("b", frozenset((True,))) and {(details(x)[1] or (x.a[1] if x.tag == "fld" else None)) for x in map(strip, t.a)} == {"asset_name", "name"} and any(details(x)[0] is d for x in t.a)]
                if not k:
                    okd = None if unknown_parts([t for t, _ in cl], ok=EXT) - {"elem"} else False
            if not (over.tag == "fld" and over.a[1] == "assets"):
                okd = None
            say(okd, "C36.asset-search", f"{where}: asset", f"searched by {show(dnf)[-300:]}" if okd is not True else "the first asset of the release whose name equals the asset name")
        else:
            say(None if unknown_parts([url], ok=EXT) - {"found", "elem"} else False, "C36.asset-search", f"{where}: asset", show(url)[-300:])
        # a failed download is an error
        call_ = [t for t in c if op(t) and op(t).endswith("download_file")]
        okk = any(isvar(c, t, "Ok") for t in call_)
        say(True if okk else False if not unknown_parts(list(c), ok=EXT) - LOOPY else None, "C36.download", f"{where}: failed download", "reported as an error" if okk else f"[{show_conds(c)[:300]}] goes on although the download may have failed")
    return True


def download_err(R, s, c, v):
    for t in c:
        if isvar(c, t, "Err") and op(t) and op(t).endswith(("latest_github_release", "download_file", "read_dir")):
            return True
        if t.tag == "exists" and truth(c, t) is False:
            return True
        if isvar(c, t, "Err"):
            return True
    return None


def cleanup(R, e, s, where, say):
    """conditions under which the clean-up loop deletes an entry"""
    for u in subterms(e):
        if u.tag == "eff" and "remove" in u.a[0] and u is e:
            say(None, "C36.cleanup", f"{where}: clean-up", f"deletes {show(u)[:150]} outside of a loop over the entries")
        if u.tag in ("loop", "foreach"):
            for part in cases_of(u):
                conds, effs = part
                rm = [x for x in effs if x.tag == "eff" and "remove" in x.a[0]]
                if not rm:
                    continue
                good = False
                for t, k in conds:
                    if k == ("b", frozenset((False,))) and t.tag == "eq" and any(details(x)[1] == "downloaded_directory" for x in t.a) and any(op(y) == "DirEntry::file_name" for x in t.a for y in subterms(x)):
                        good = True
                    if op(t) == "OsStr::to_str" and k[0] == "v" and k[1] == frozenset(("None",)):
                        good = True
                if not good and unknown_parts([t for t, _ in conds], ok=EXT) - LOOPY:
                    good = None
                say(good, "C36.cleanup", f"{where}: clean-up", f"deletes {show(rm[0])[:100]} when [{show_conds(dict(conds))[:300]}], which includes the directory just filled" if good is not True else "keeps the directory the binary was unpacked into")


def cases_of(u):
    out = []

    def go(x):
        if isinstance(x, (tuple, list, frozenset)):
            x = tuple(x) if not isinstance(x, frozenset) else tuple(x)
            if len(x) == 2 and isinstance(x[0], frozenset) and isinstance(x[1], tuple) and all(isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], T) for p in x[0]):
                effs = [y for y in flat(x[1]) if isinstance(y, T) and y.tag in ("eff", "loopeff", "foreach")]
                out.append((x[0], effs))
                return
            for y in x:
                go(y)
    go(u.a)
    return out


def flat(x):
    if isinstance(x, (tuple, list, frozenset)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def check(R):
    R.program("zed_air")
    R.guard(lambda: assets(R), "C36.asset", "released assets")
    R.guard(lambda: command(R), "C36.order", "order of preference")
