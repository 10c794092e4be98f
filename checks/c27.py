"""C27 Workspace folders follow the client's open, close and reload events."""
import itertools

import cli
import flow
import server
from cases import *
from terms import *

LEVEL = "proof"
TECHNIQUE = "effect summaries of the folder operations over MIR, with the path resolver's operations as the vocabulary; guarded loop bodies matched case by case against the specification; definite event order in the handlers"
EXPLANATION = ("Opening a folder always registers exactly one resolver, under the path of the folder's URL, holding every settings entry discovered for that path (none when discovery fails, so that a later correction is picked up); closing removes the entry of that same path and nothing else. "
               "A changed configuration file clears and refills, from what discovery finds then, every open folder that contains the file or lies below its directory, and the reload reports a change whenever there is such a folder. The handlers open every added and close every removed folder, reload for every changed file, and tell the client about every open document if any reload changed something. "
               "Settings of a document are looked up in the closest folder and there in the closest directory, with the path made in the same way, and the folders the client sends at start-up are all opened. No other function changes the resolver.")
NOTE = "uses the contract of PathResolver proved for C07 and of is_air_toml (C12); discovery itself is C07/C09"

WS = "lsp::workspaces::WorkspaceSettingsResolver"
ADD, REMOVE, CLEAR, RESOLVE, DISCOVER = "PathResolver::add", "PathResolver::remove", "PathResolver::clear", "PathResolver::resolve", "discovery::discover_settings"
OPS = (ADD, REMOVE, CLEAR, RESOLVE)
URL, SELF = mk("arg", "url"), mk("arg", "self")
MAP = mk("fld", SELF, "path_to_settings_resolver")


def opaque(p, res):
    return any(x and (x.replace("::<T>", "").endswith(tuple("::" + o for o in OPS) + ("::discover_settings",)) or x.endswith("settings::Settings as core::default::Default>::default")) for x in (p, res))


def interp(R):
    I = R.interp()
    I.opaque_fn = opaque
    return I


def short(e):
    return "::".join(e.a[0].rsplit("::", 2)[-2:])


def effects(xs):
    """effects with those inside for-each loops, each with the loops around it"""
    for e in xs:
        if e.tag == "foreach":
            for conds, body in e.a[2]:
                for y in effects(body_effs(body)):
                    yield (y[0], ((e, conds),) + y[1])
        elif e.tag == "eff":
            yield (e, ())
        elif e.tag in ("loopeff", "store"):
            yield (e, ())


def body_effs(body):
    if isinstance(body, tuple) and len(body) == 2 and isinstance(body[1], tuple) and not hasattr(body[0], "tag"):
        return body[1]
    return body if isinstance(body, tuple) else ()


def arg(e, k):
    return cli.strip(e.a[1][k])


def paths(R):
    """the path a URL stands for, from the lookup every document goes through"""
    fn = WS + "::settings_for_url"
    I = interp(R)
    rule = "C27.lookup"
    where = R.where(fn)
    found = set()
    n = 0
    for s, v in R.summary(fn, "self url", I):
        kind = v.a[1] if v.tag == "adt" else None
        if kind not in ("Toml", "Fallback"):
            R.undecided(rule, where, f"result {show(v)[:80]}")
            continue
        n += 1
        res = [e for e in s.eff if e.tag == "eff" and short(e) == RESOLVE]
        at = f"{where}: {show_conds({t: c for t, c in s.conds.items() if 'resolve' not in show(t)})[:120]}"
        if not res:
            scheme = s.conds.get(mk("call", "Url::scheme", (URL,)))
            isfile = truth_file(s)
            R.check(kind == "Fallback" and isfile is not True, rule, at, "without a path the defaults apply" if isfile is not True else "a file is not looked up")
            continue
        if arg(res[0], 0) is not MAP:
            R.undecided(rule, at, f"looks in {show(res[0].a[1][0])[:60]}")
            continue
        key = arg(res[0], 1)
        if URL in set(subterms(key)):
            found.add(key)
        else:
            good = op_(key) == "Path::join" and set(subterms(key)) >= {MAP}
            ln = [c for t, c in s.conds.items() if (t.tag == "len" or op_(t) in ("len", "Vec::len")) and "items" in show(t)]
            one = any(c[0] == "i" and c[1] == ((1, 1),) or c == ("i", ((1, 1),)) for c in ln) or any(len(c[1]) == 1 and c[1][0][0] == c[1][0][1] == 1 for c in ln if c[0] == "i")
            R.check(True if good and one else None, rule, at, "an untitled document is looked up in the only open folder")
        first = mk("ecall", *res[0].a)
        inner = project(payload(first, "Some", 0), "value")
        fs = s.conds.get(first)
        if fs and fs[0] == "v" and fs[1] == frozenset({"None"}):
            R.check(kind == "Fallback", rule, at, "outside every folder the defaults apply")
            continue
        if len(res) < 2:
            R.check(False if kind == "Toml" else None, rule, at, "the settings of the closest folder are searched")
            continue
        good = arg(res[1], 0) is inner and arg(res[1], 1) is key
        R.check(True if good else (False if arg(res[1], 1) is not key else None), rule, at, "the closest folder's own settings are searched for the same path" if good else f"searches {show(res[1].a[1][0])[-60:]} for {show(res[1].a[1][1])[-60:]}")
        second = mk("ecall", *res[1].a)
        ss = s.conds.get(second)
        if ss and ss[0] == "v" and ss[1] == frozenset({"Some"}):
            good = kind == "Toml" and v.a[2] and cli.strip(v.a[2][0]) is project(payload(second, "Some", 0), "value")
            R.check(True if good else False if kind == "Fallback" else None, rule, at, "settings found are the configuration file's")
        elif ss and ss[1] == frozenset({"None"}):
            R.check(kind == "Fallback", rule, at, "without a configuration file the defaults apply")
    if not n:
        R.undecided(rule, where, "no outcome")
    return found


def op_(t):
    return t.a[0] if t.tag in ("call", "ecall") else t.tag


def truth_file(s):
    """does the outcome stand for a URL with a path"""
    for t, c in s.conds.items():
        if op_(t) == "Url::to_file_path" and c[0] == "v":
            return c[1] == frozenset({"Ok"})
        if op_(t) == "Url::scheme" and c[0] == "s":
            if c[1] and "file" not in c[2] or (not c[1] and "file" in c[2]):
                return False
    return None


def fresh(t):
    """an empty resolver"""
    t = cli.strip(t)
    if t.tag == "adt" and t.a[0].endswith("::PathResolver"):
        it = project(t, "items")
        return it.tag == "arr" and not it.a[0]
    return op_(t) in ("PathResolver::new", "PathResolver::default") or (op_(t) == "default" and "PathResolver" in show(t))


def filled(t, d):
    """is t an empty resolver to which every entry of the discovery d was added"""
    t = cli.strip(t)
    if t.tag != "fold":
        return None
    over, rev, depth, init, cases = t.a[:5]
    if over is not payload(d, "Ok", 0) or not fresh(init) or len(cases) != 1:
        return None if over is payload(d, "Ok", 0) and len(cases) == 1 else (False if over is payload(d, "Ok", 0) else None)
    (conds, val), = cases
    e = mk("elem", over, depth)
    if val.tag != "after" or "::".join(val.a[0].rsplit("::", 2)[-2:]) != ADD:
        return None
    a = [cli.strip(x) for x in val.a[1]]
    return not conds and a[1] is project(e, "directory") and a[2] is project(e, "settings")


def open_close(R, keys):
    for name, want in (("open_workspace_folder", ADD), ("close_workspace_folder", REMOVE)):
        fn = f"{WS}::{name}"
        rule = f"C27.{name.split('_')[0]}"
        where = R.where(fn)
        I = interp(R)
        n = 0
        for s, v in R.summary(fn, "self url", I):
            ops = [(e, ls) for e, ls in effects(s.eff) if e.tag == "eff" and short(e) in OPS]
            onmap = [(e, ls) for e, ls in ops if arg(e, 0) is MAP]
            odd = [e for e, ls in effects(s.eff) if e.tag == "loopeff"]
            at = f"{where}: {show_conds({t: c for t, c in s.conds.items() if op_(t).startswith('Url::') or 'discover' in op_(t)})[:150]}"
            isfile = truth_file(s)
            if isfile is False or isfile is None and not onmap:
                n += 1
                R.check(not onmap if isfile is False else None, rule, at, "a folder without a path changes nothing")
                continue
            n += 1
            if len(onmap) != 1 or onmap[0][1] or short(onmap[0][0]) != want:
                R.check(None if odd else False, rule, at, f"does {[short(e) for e, _ in onmap] or 'nothing'} to the open folders; expected one {want}")
                continue
            e = onmap[0][0]
            k = arg(e, 1)
            R.check(True if k in keys else (False if keys and URL in set(subterms(k)) else None), "C27.identity", at, "under the path documents are looked up with" if k in keys else f"under {show(k)[:80]}, documents are looked up with {[show(x)[:80] for x in keys]}")
            if want != ADD:
                continue
            d = [x for x, ls in effects(s.eff) if x.tag == "eff" and short(x) == DISCOVER]
            if len(d) != 1:
                R.check(None if d or odd else False, rule, at, "settings are discovered once" if d else "no settings are discovered")
                continue
            da = cli.strip(d[0].a[1][0])
            R.check(True if da.tag == "arr" and [cli.strip(x) for x in da.a[0]] == [k] else (False if da.tag == "arr" else None), rule, at, "settings are those discovered for the folder's path")
            dt = mk("ecall", *d[0].a)
            c = s.conds.get(dt)
            okd = c and c[0] == "v" and c[1]
            val = arg(e, 2)
            if okd == frozenset({"Ok"}):
                f = filled(val, dt)
                R.check(True if f else False if f is False or fresh(val) else None, rule, at, "holds every entry discovered" if f else f"holds {show(val)[:100]}")
            elif okd == frozenset({"Err"}):
                R.check(True if fresh(val) else None, rule, at, "a folder whose settings cannot be loaded is open, without settings")
            else:
                R.undecided(rule, at, "outcome of discovery not tested")
        if not n:
            R.undecided(rule, where, "no outcome")


# ----------------------------------------------------------------- reload
def relation(t, path, item):
    """what a condition says about an item: 'in' the file lies in the folder, 'below' the folder lies below its directory"""
    if op_(t) == "Path::starts_with":
        a, b = (cli.strip(x) for x in args(t))
        if a is path and b is item:
            return "in"
        if a is item and op_(b) in ("fld", "pay", "payload") and any(op_(u) == "Path::parent" for u in subterms(b)):
            return "below"
        if a is item and b is path:
            return "never"
    return None


def reload_(R, keys):
    fn = WS + "::reload_workspaces_matched_by_url"
    rule = "C27.reload"
    where = R.where(fn)
    I = interp(R)
    n = 0
    for s, v in R.summary(fn, "self url", I):
        if any(op_(t) == "Path::parent" and c[0] == "v" and c[1] == frozenset({"None"}) for t, c in s.conds.items()):
            continue   # a file has a directory
        names = [t for t, c in s.conds.items() if op_(t) in ("Path::ends_with", "is_air_toml") or "file_name" in show(t)[:60]]
        isconf = any(truth(s.conds, t) for t in names if op_(t) == "Path::ends_with") or any(c[0] == "s" and c[1] for t, c in s.conds.items() if "file_name" in show(t)[:60])
        loops = [e for e in s.eff if e.tag == "foreach" and MAP in set(subterms(e.a[0]))]
        ops = [(e, ls) for e, ls in effects(s.eff) if e.tag == "eff" and short(e) in (ADD, REMOVE, CLEAR)]
        at = f"{where}: {show_conds({t: c for t, c in s.conds.items() if op_(t).startswith(('Url::', 'Path::ends'))})[:150]}"
        isfile = truth_file(s)
        if isfile is False or (isfile and not isconf):
            n += 1
            R.check(not ops, rule, at, "another file changes nothing" if not ops else "settings are reloaded for another file")
            R.check(False if v.tag == "int" and v.a[0] else True, rule, at, "and reports no change")
            continue
        n += 1
        if not loops:
            und = any(e.tag == "loopeff" for e in s.eff)
            R.check(None if und or ops else False, rule, at, "the folders it governs are reloaded" if ops else "no folder is reloaded")
            continue
        e = loops[0]
        over, rev, cases, depth = e.a[0], e.a[1], e.a[2], e.a[3]
        if partial(over):
            R.violated(rule, at, f"only some folders are visited: {op_(partial(over))}")
            continue
        el = mk("elem", over, depth)
        ip, iv = project(el, "path"), project(el, "value")
        path = next(iter(keys)) if len(keys) == 1 else None
        for inn, below, d in itertools.product((True, False), (True, False), ("Ok", "Err")):
            if not (inn or below):
                continue
            hit = []
            unk = False
            for conds, body in cases:
                ok = True
                for t, c in conds:
                    r = relation(t, path, ip)
                    if r:
                        ok = ok and ({"in": inn, "below": below, "never": False}[r] in c[1])
                    elif op_(t) == DISCOVER or "discover_settings" in op_(t):
                        ok = ok and d in c[1]
                    else:
                        unk = unk or not ignorable(t)
                if ok:
                    hit.append(body_effs(body))
            w = f"{at}: folder {'containing the file' if inn else 'below its directory'}, discovery {d}"
            good = False if not hit and not unk else None
            why = "is not reloaded"
            for b in hit:
                g, why = refilled(b, ip, iv, d)
                good = g if good in (None, True) or g is False else good
            R.check(good if not (unk and good) else None, rule, w, "is cleared and refilled from disk" if good else why)
        # told?
        if v.tag == "int" and v.a[0]:
            R.check(True, "C27.reload-told", at, "reports a change")
            continue
        ex = [(t, truth(s.conds, t)) for t in s.conds if t.tag == "exists" and t.a[0] is over] + ([(v, False)] if v.tag == "exists" else [])
        miss, unk = None, not ex
        for inn, below, d in itertools.product((True, False), (True, False), ("Ok", "Err")):
            if not (inn or below):
                continue
            seen = False
            for t, b in ex:
                if b is not False:
                    continue
                el2 = mk("elem", t.a[0], t.a[1])
                for conj in t.a[2]:
                    sat = True
                    for x, c in conj:
                        r = relation(x, path, project(el2, "path"))
                        if r:
                            sat = sat and ({"in": inn, "below": below, "never": False}[r] in c[1])
                        elif "discover_settings" in op_(x):
                            sat = sat and d in c[1]
                        elif "discover_settings" in show(x):
                            sat = False   # more is asked for than the folder being reloaded
                        else:
                            unk = unk or not ignorable(x)
                            sat = False
                    seen = seen or sat
            if not seen:
                miss = (inn, below, d)
        zero = v.tag == "int" and not v.a[0] or v.tag == "exists"
        R.check(True if miss is None and not unk else (False if zero and not unk else None), "C27.reload-told", at, "reports no change only when no folder was reloaded" if miss is None else f"may report no change although a folder {'containing the file' if miss[0] else 'below its directory'} was reloaded (discovery {miss[2]})")
    if not n:
        R.undecided(rule, where, "no outcome")


def ignorable(t):
    return False


def refilled(effs, ip, iv, d):
    """clear, discover, add everything discovered, in this order"""
    seq = list(effects(effs))
    at = None
    cleared = False
    disc = None
    added = False
    for e, ls in seq:
        if e.tag != "eff":
            return None, "loop not understood"
        o = short(e)
        if o == CLEAR and arg(e, 0) is iv:
            if added:
                return False, "is cleared after it was refilled"
            cleared = True
        elif o == DISCOVER:
            a = cli.strip(e.a[1][0])
            if a.tag != "arr":
                return None, "discovery not understood"
            if [cli.strip(x) for x in a.a[0]] != [ip]:
                return False, f"is refilled from another path: {show(a)[:80]}"
            disc = mk("ecall", *e.a)
        elif o == ADD:
            if disc is None or len(ls) != 1:
                return (False, "gets settings that were not discovered") if disc is None else (None, "loop not understood")
            l, conds = ls[0]
            el = mk("elem", l.a[0], l.a[3])
            if l.a[0] is not payload(disc, "Ok", 0):
                return None, "what is added is not understood"
            good = not conds and arg(e, 1) is project(el, "directory") and arg(e, 2) is project(el, "settings")
            if not good:
                return False, "gets only part of what was discovered" if conds else f"gets {show(e.a[1][2])[-60:]} at {show(e.a[1][1])[-60:]}"
            added = True
    if not cleared and not any(True for e in effs if e.tag == "store"):
        return False, "keeps its old settings as well"
    if disc is None:
        return False, "is not read again from disk"
    if d == "Ok" and not added:
        return False, "does not get the settings that were discovered"
    return True, ""


# ----------------------------------------------------------------- handlers
def handlers(R):
    rule = "C27.handlers"
    ls = mk("arg", "lsp_state")
    P = mk("arg", "params")
    fld = lambda t, *ns: t if not ns else fld(mk("fld", t, ns[0]), *ns[1:])
    # folders
    fn = "lsp::handlers_state::did_change_workspace_folders"
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and x.startswith(WS + "::") for x in (p, res))
    where = R.where(fn)
    for s, v in R.summary(fn, "params lsp_state", I):
        for part, o in (("added", "open_workspace_folder"), ("removed", "close_workspace_folder")):
            over = fld(P, "event", part)
            every(R, rule, f"{where}: {part}", s.eff, over, o, lambda el: project(el, "uri"))
    # watched files
    fn = "lsp::handlers_state::did_change_watched_files"
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and (x.startswith(WS + "::") or "sync_file_settings" in x) for x in (p, res))
    where = R.where(fn)
    from c29 import every_document
    over = fld(P, "changes")
    for s, v in R.summary(fn, "params lsp_state state", I):
        every(R, rule, f"{where}: changes", s.eff, over, "reload_workspaces_matched_by_url", lambda el: project(el, "uri"))
        sync = [e for e in s.eff if e.tag == "eff" and "sync_file_settings" in e.a[0]]
        told = [(t, truth(s.conds, t)) for t in s.conds if t.tag in ("exists", "fold") and t.a[0] is over]
        full = [b for t, b in told if dnf_all_reload(t)]
        if sync:
            R.check(True if every_document(sync[0].a[1][1], "state") else None, rule, f"{where}: documents", "every open document is reported")
            last = max((i for i, e in enumerate(s.eff) if e.tag == "foreach" and e.a[0] is over), default=-1)
            R.check(True if s.eff.index(sync[0]) > last else False, rule, f"{where}: order", "after the settings were reloaded")
        else:
            also = any("document" in show(t) for t in s.conds)
            R.check(True if False in full else None if also else (False if not told or not full or True in full else None), rule, f"{where}: {show_conds(s.conds)[:80]}", "the client is only left alone when no reload changed anything")
    # start-up
    fn = WS + "::from_workspace_folders"
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and (x.endswith("::open_workspace_folder") or x.endswith("settings::Settings as core::default::Default>::default")) for x in (p, res))
    where = R.where(fn)
    for s, v in R.summary(fn, "workspace_folders", I):
        every(R, rule, f"{where}: start-up", s.eff, mk("arg", "workspace_folders"), "open_workspace_folder", lambda el: project(el, "uri"))
    fn = "lsp::handlers_state::initialize"
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and (x.startswith((WS, "lsp::logging::", "lsp::capabilities::"))) for x in (p, res))
    where = R.where(fn)
    fs = fld(P, "workspace_folders")
    for s, v in R.summary(fn, "params lsp_state log_tx", I):
        if not (v.tag == "adt" and v.a[1] == "Ok"):
            continue
        mks = [e for e in s.eff if e.tag == "eff" and short(e).endswith("from_workspace_folders")]
        c = s.conds.get(fs)
        at = f"{where}: {show_conds({t: c for t, c in s.conds.items() if t is fs})}"
        if len(mks) != 1:
            R.check(None if mks else False, rule, at, "the folders of the client are opened" if mks else "no folder is opened")
            continue
        a = cli.strip(mks[0].a[1][0])
        some = c and c[0] == "v" and c[1] == frozenset({"Some"})
        none = c and c[0] == "v" and c[1] == frozenset({"None"})
        good = a is payload(fs, "Some", 0) if some else none and a.tag == "arr" and not a.a[0]
        R.check(True if good else (False if not none and a.tag == "arr" else None), rule, at, "the folders of the client are opened")
        fin = project(s.mem.get(("h", "lsp_state"), ls), "workspace_settings_resolver")
        R.check(True if fin is mk("ecall", *mks[0].a) else (False if fin is fld(ls, "workspace_settings_resolver") else None), rule, at, "and kept")


def dnf_all_reload(t):
    """does this exists-condition cover every element whose reload returned true"""
    if t.tag == "fold":
        over, rev, depth, init, cases = t.a[:5]
        return init.tag == "int" and not init.a[0] and len(cases) == 1 and all(not c and op_(v) in ("BitOr", "bin") and any(x.tag == "ecall" and op_(x).endswith("reload_workspaces_matched_by_url") for x in parts(v)) for c, v in cases)
    return any(len(c) == 1 and all(op_(x).endswith("reload_workspaces_matched_by_url") and y[1] == frozenset({True}) for x, y in c) for c in t.a[2])


def parts(t):
    return [y for x in t.a for y in ((x,) if hasattr(x, "tag") else x if isinstance(x, tuple) else ()) if hasattr(y, "tag")]


def partial(over):
    """the part of an iteration that leaves elements out"""
    for t in subterms(over):
        if op_(t) in ("Iterator::take", "Iterator::skip", "Iterator::step_by", "Iterator::take_while", "Iterator::skip_while", "Iterator::nth"):
            return t
    return None


def every(R, rule, where, effs, over, name, sel):
    loops = [e for e in effs if e.tag == "foreach" and e.a[0] is over]
    und = any(e.tag == "loopeff" for e in effs) or any(e.tag == "foreach" and over in set(subterms(e.a[0])) for e in effs)
    good, why = None, "loop not understood"
    if not loops:
        hit = [e for e, l in effects(effs) if e.tag == "eff" and e.a[0].endswith("::" + name)]
        und = und or bool(hit)
        for e in effs:
            if e.tag == "foreach" and over in set(subterms(e.a[0])) and partial(e.a[0]) and any(y.tag == "eff" and y.a[0].endswith("::" + name) for y, _ in effects((e,))):
                return R.violated(rule, where, f"only some are handed to {name}: {op_(partial(e.a[0]))}")
        return R.check(None if und else False, rule, where, f"each is handed to {name}" if und else f"{name} is never called")
    for l in loops:
        el = mk("elem", l.a[0], l.a[3])
        conds_all = []
        g = True
        for conds, body in l.a[2]:
            es = [e for e in body_effs(body) if e.tag == "eff" and e.a[0].endswith("::" + name)]
            if len(es) != 1:
                g, why = (False if not es else None), f"not every one is handed to {name}"
                break
            if arg(es[0], 1) is not sel(el):
                g, why = False, f"{name} gets {show(es[0].a[1][1])[-60:]}"
                break
        # elements on which the body does nothing have no case
        if g and not any(not conds for conds, _ in l.a[2]) and len(l.a[2]) == 1:
            g, why = False, f"only some are handed to {name}"
        if g:
            good = True
            break
        good = g
    R.check(good, rule, where, f"each is handed to {name}" if good else why)


def writers(R):
    """no other event changes the open folders"""
    import mir
    rule = "C27.only"
    P = R.prog
    may = {"initialize", "did_change_workspace_folders", "did_change_watched_files"}
    change = ("PathResolver::add", "PathResolver::remove", "PathResolver::clear", "PathResolver::items_mut", "PathResolver::matches_mut")
    roots = [p for p in P.fns if p.startswith(("lsp::handlers_state::", "lsp::handlers_format::", "lsp::handlers::", "lsp::handlers_ext::", "lsp::notifications::")) and "{closure" not in p.rsplit("::", 1)[-1] and p.rsplit("::", 1)[-1] not in may and not any("test" in x for x in p.split("::"))]
    n = 0
    for r in roots:
        if any(r.startswith(f"lsp::handlers_state::{m}") for m in may):
            continue
        n += 1
        seen = mir.reachable(P, [r])
        hit = [q for q in seen if q.replace("::<T>", "").endswith(change) or q in (WS + "::open_workspace_folder", WS + "::close_workspace_folder", WS + "::reload_workspaces_matched_by_url")]
        R.check(not hit, rule, R.where(r), "does not change the open folders" if not hit else "changes the open folders: " + " -> ".join(x.rsplit("::", 1)[-1] for x in mir.chain(seen, hit[0]))[:160])
    if not n:
        R.undecided(rule, "lsp", "no handlers found")


def check(R):
    R.program(*server.CRATES)
    keys = paths(R)
    if len(keys) != 1:
        R.undecided("C27.identity", WS, f"documents are looked up with {[show(k)[:60] for k in keys]}")
    open_close(R, keys)
    reload_(R, keys)
    handlers(R)
    writers(R)
