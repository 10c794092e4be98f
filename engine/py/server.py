"""The language server as tables: what each protocol method sends to the main loop, and what the main loop does for each message."""
from terms import *
from cases import *
import cli, flow

CRATES = ("lsp", "aether_lsp_utils", "workspace", "settings", "line_ending")
HANDLE = "lsp::main_loop::GlobalState::handle_event"
LOOP = "lsp::main_loop::GlobalState::main_loop"
BACKEND = "lsp::tower_lsp::Backend"
T = "lsp::tower_lsp::"
HIDE = ("lsp::handlers", "lsp::workspaces", "lsp::logging", "air_r_parser", "air_r_formatter")
# protocol method of the trait (or custom method) -> the handlers which carry it out
REQUESTS = {"initialize": "lsp::handlers_state::initialize", "shutdown": None, "formatting": "lsp::handlers_format::document_formatting",
            "range_formatting": "lsp::handlers_format::document_range_formatting", "air/viewFile": "lsp::handlers_ext::view_file"}
NOTES = {"initialized": "lsp::handlers::handle_initialized", "did_change_workspace_folders": "lsp::handlers_state::did_change_workspace_folders",
         "did_change_configuration": "lsp::handlers_state::did_change_configuration", "did_change_watched_files": "lsp::handlers_state::did_change_watched_files",
         "did_open": "lsp::handlers_state::did_open", "did_change": "lsp::handlers_state::did_change", "did_save": None, "did_close": "lsp::handlers_state::did_close"}
MAIN = set(x for x in list(REQUESTS.values()) + list(NOTES.values()) if x)


def short(path):
    return "::".join(path.split("::")[-2:])


def variants(R, path):
    return [v["name"] for v in R.prog.adts[path]["variants"]]


class Out:
    """an outcome of handling a message"""
    def __init__(self, kind, variant, s, k, v, params, tx):
        self.kind, self.variant, self.s, self.k, self.v, self.params, self.tx = kind, variant, s, k, v, params, tx

    def calls(self):
        """calls of handlers, in order"""
        return [e for e in self.s.eff if e.tag == "eff" and e.a[0].split("::")[0] in ("handlers", "handlers_state", "handlers_format", "handlers_ext")]

    def sends(self):
        """messages sent to the one who asked: (effect, payload)"""
        return [(e, e.a[1][1]) for e in self.s.eff if e.tag == "eff" and e.a[0].split("::")[-1] == "send" and e.a[1] and cli.strip(e.a[1][0]) is self.tx]

    def leaks(self):
        """other places the answer channel goes to"""
        return [e for e in self.s.eff if self.tx is not None and not (e.tag == "eff" and e.a[0].split("::")[-1] == "send" and cli.strip(e.a[1][0]) is self.tx) and any(u is self.tx for u in subterms(e))]


def interp(R):
    I = R.interp()
    I.keep_log = True
    I.opaque_fn = lambda p, res: any(x and x.startswith(HIDE) for x in (p, res))
    return I


def dispatch(R):
    """(outcomes, panics) of the main loop for each message"""
    R.fn(HANDLE)
    I = interp(R)
    ev = mk("arg", "event")
    msg = payload(ev, "Lsp", 0)
    out, panics = [], []

    def classify(s):
        for s1, a in I.split(s, ev, "lsp::main_loop::Event", tuple(variants(R, "lsp::main_loop::Event"))):
            if a != "Lsp":
                yield s1, a, None, None, None
                continue
            for s2, b in I.split(s1, msg, T + "LspMessage", ("Notification", "Request")):
                inner = payload(msg, b, 0)
                path = T + ("LspNotification" if b == "Notification" else "LspRequest")
                for s3, c in I.split(s2, inner, path, tuple(variants(R, path))):
                    yield s3, b, c, payload(inner, c, 0), payload(msg, b, 1) if b == "Request" else None
    for s0, v0 in R.summary(HANDLE, "self event", I):
        for s, kind, variant, params, tx in classify(s0):
            for s4, k in I.split(s, v0, flow.RES, ("Ok", "Err")):
                out.append(Out(kind, variant, s4, k, payload(v0, k, 0), params, tx))
    for s0, span in list(I.panics):
        for s, kind, variant, params, tx in classify(s0):
            panics.append((Out(kind, variant, s, "panic", None, params, tx), span))
    return out, panics


def methods(R):
    """protocol method -> function: the trait's methods, and those registered by name"""
    P = R.prog
    out = {}
    pre = f"<{BACKEND} as tower_lsp::LanguageServer>::"
    for p in P.fns:
        if p.startswith(pre) and "::{" not in p[len(pre):]:
            out[p[len(pre):]] = p
    I = interp(R)
    fn = T + "new_lsp"
    if fn in P.fns:
        for s, v in R.summary(fn, "", I):
            for e in s.eff:
                if e.tag == "eff" and e.a[0].endswith("::custom_method"):
                    name, f = e.a[1][1], e.a[1][2]
                    if name.tag == "str" and f.tag == "fn":
                        out[name.a[0]] = f.a[0]
    return out


class Front:
    """what a protocol method does: outcomes with the messages sent to the main loop"""
    def __init__(self, R, name, fn):
        R.fn(fn)
        self.name, self.fn = name, fn
        I = interp(R)
        self.I = I
        n = R.prog.fns[fn]["body"]["argc"]
        self.outs = R.summary(fn, "self params" if n == 2 else "self", I)
        self.panics = list(I.panics)
        self.params = mk("arg", "params") if n == 2 else None

    def sent(self, s):
        """messages of an outcome: (kind, variant, params, answer channel)"""
        out = []
        for e in s.eff:
            if e.tag != "eff" or e.a[0].split("::")[-1] != "send":
                continue
            m = e.a[1][1]
            if m.tag == "adt" and m.a[1] == "Lsp":
                m = m.a[2][0]
            if m.tag == "adt" and m.a[1] in ("Request", "Notification"):
                r = m.a[2][0]
                if r.tag == "adt":
                    out.append((m.a[1], r.a[1], r.a[2][0] if r.a[2] else None, m.a[2][1] if m.a[1] == "Request" else None, e))
                    continue
            out.append((None, None, None, None, e))
        return out


def fronts(R):
    return {m: Front(R, m, fn) for m, fn in sorted(methods(R).items())}
