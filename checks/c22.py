"""C22: what the server advertises and subscribes to reaches the handler of that name."""
from terms import *
from cases import *
import cli, server, flow

LEVEL = "proof"
TECHNIQUE = "composition of two MIR summary tables, protocol method to message and message to handler call, checked against the protocol; advertised capabilities and dynamic registrations evaluated to terms and compared with the implemented methods"
EXPLANATION = ("Every path of every protocol method sends one message with the method's own parameters before anything else; every path of the dispatcher for that message calls the handler of that method once, with these parameters and the server's own state. "
               "The capabilities in the answer to `initialize` and the dynamic registrations are evaluated: each one advertised has its methods implemented, each optional feature implemented is advertised.")
NOTE = "assumes tower-lsp starts methods in the order of arrival and the channel keeps order"
CAPS = {"text_document_sync": ("did_open", "did_change", "did_close"), "hover_provider": ("hover",), "completion_provider": ("completion",), "signature_help_provider": ("signature_help",), "definition_provider": ("goto_definition",), "type_definition_provider": ("goto_type_definition",),
        "implementation_provider": ("goto_implementation",), "references_provider": ("references",), "document_highlight_provider": ("document_highlight",), "document_symbol_provider": ("document_symbol",), "workspace_symbol_provider": ("symbol",), "code_action_provider": ("code_action",),
        "code_lens_provider": ("code_lens",), "document_formatting_provider": ("formatting",), "document_range_formatting_provider": ("range_formatting",), "document_on_type_formatting_provider": ("on_type_formatting",), "rename_provider": ("rename",), "document_link_provider": ("document_link",),
        "color_provider": ("document_color",), "folding_range_provider": ("folding_range",), "declaration_provider": ("goto_declaration",), "execute_command_provider": ("execute_command",), "call_hierarchy_provider": ("prepare_call_hierarchy",), "semantic_tokens_provider": ("semantic_tokens_full",),
        "moniker_provider": ("moniker",), "inline_value_provider": ("inline_value",), "inlay_hint_provider": ("inlay_hint",), "linked_editing_range_provider": ("linked_editing_range",), "diagnostic_provider": ("diagnostic",), "selection_range_provider": ("selection_range",)}
REGISTERED = {"workspace/didChangeConfiguration": "did_change_configuration", "workspace/didChangeWatchedFiles": "did_change_watched_files", "textDocument/didSave": "did_save", "textDocument/didOpen": "did_open", "textDocument/didChange": "did_change", "textDocument/didClose": "did_close",
              "textDocument/formatting": "formatting", "textDocument/rangeFormatting": "range_formatting", "workspace/didChangeWorkspaceFolders": "did_change_workspace_folders"}


def route(R):
    rule = "C22.route"
    fronts = server.fronts(R)
    outs, panics = server.dispatch(R)
    for m, h in list(server.REQUESTS.items()) + list(server.NOTES.items()):
        kind = "Request" if m in server.REQUESTS else "Notification"
        f = fronts.get(m)
        if f is None:
            if m != "did_save":
                R.check(False, rule, f"{server.BACKEND}: {m}", "not implemented: the protocol library's default ignores it")
            continue
        where = f"{R.where(f.fn)}: {m}"
        var = set()
        for s, v in f.outs:
            sent = f.sent(s)
            if len(sent) != 1 or sent[0][0] is None:
                if h is None and not sent:
                    continue
                R.check(False if not sent and not any(e.tag == "eff" and e.a[0] != "log" for e in s.eff) else None, rule, where, f"sends {len(sent)} messages to the main loop")
                continue
            k, name, params, tx, e = sent[0]
            var.add((k, name))
            R.check(k == kind, rule, where, f"sent as a {k.lower()}")
            if f.params is not None:
                own = params is f.params
                R.check(True if own else None if params is None or unknown_parts(params) else False, rule, where + ": parameters", "passes its own parameters" if own else f"passes {show(params)[:80] if params is not None else None}")
            if kind == "Notification":
                before = [x.a[0] for x in s.eff[:s.eff.index(e)] if x.tag == "eff" and x.a[0] != "log"]
                R.check(True if not before else None, rule, where + ": order", "sent at once, before anything that could let another method overtake it")
        if h is None:
            continue
        for k, name in sorted(var):
            mine = [o for o in outs if o.kind == k and o.variant == name]
            at = f"{R.where(server.HANDLE)}: {m} as {name}"
            if not mine:
                R.undecided(rule, at, "no outcome for this message")
            for o in mine:
                handle(R, rule, at, o, h)


def handle(R, rule, at, o, h):
    want = server.short(h)
    if h not in R.prog.fns:
        return R.undecided(rule, at, f"the handler {h} does not exist")
    calls = [e for e in o.calls()]
    main = [e for e in calls if e.a[0] == want]
    others = [e for e in calls if e.a[0] in {server.short(x) for x in server.MAIN} and e.a[0] != want]
    if others:
        return R.check(False, rule, at, f"handled by {others[0].a[0]}")
    if not main:
        empty = [t for t in o.s.conds if any(u is o.params for u in subterms(t))]
        logless = [e for e in o.s.eff if e.tag == "eff" and e.a[0] not in ("log", "Instant::now", "Instant::elapsed")]
        spawned = any(any(u is o.params for u in subterms(e)) for e in logless)
        return R.check(None if spawned or any(cli.fname(u) and cli.fname(u).split("::")[-1] in ("is_empty", "len") or u.tag in ("len", "is_empty") for t in empty for u in subterms(t)) else False, rule, at, f"{want} is not called" + (f" when {show_conds({t: o.s.conds[t] for t in empty})[:150]}" if empty else ""))
    R.check(True if len(main) == 1 else None, rule, at + ": once", "handled once")
    a = main[0].a[1]
    if o.params is not None and h != "lsp::handlers::handle_initialized":
        own = any(cli.strip(x) is o.params for x in a)
        R.check(True if own else None if any(u is o.params for x in a for u in subterms(x)) else False, rule, at + ": parameters", "with the parameters received" if own else f"with {show(a[0])[:80]}")
    states = [x for x in a if any(u is mk("arg", "self") for u in subterms(x))]
    R.check(bool(states) or None, rule, at + ": state", "on the server's own state")
    body = R.prog.fns[h]["body"]
    final = o.s.mem.get(("h", "self"))
    for i in range(body["argc"]):
        ty = body["locals"][i + 1][0]
        if not ty.startswith(("&mut lsp::state::", "&mut lsp::main_loop::")) or final is None or i >= len(a):
            continue
        kept = any(u.tag == "after" and u.a[0] == want and u.a[2] == i for u in subterms(final))
        R.check(True if kept else None if o.leaks() else False, rule, at + ": effect", "what the handler changes stays changed" if kept else f"what the handler changes is lost: {show(a[i])[:60]} is a copy")


def capabilities(R):
    rule = "C22.advertise"
    have = set(server.methods(R))
    fn = "lsp::handlers_state::initialize"
    R.fn(fn)
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and x.startswith(("lsp::workspaces", "lsp::logging", "air_r_")) for x in (p, res))
    n = 0
    for s, k, v in split_res(I, R.summary(fn, "params lsp_state log_tx", I)):
        if k == "Err":
            continue
        caps = project(v, "capabilities")
        if caps.tag != "adt":
            R.undecided(rule, R.where(fn), show(caps)[:100])
            continue
        n += 1
        for name, x in zip(caps.a[3], caps.a[2]):
            on = advertised(x)
            if name in CAPS:
                if on is None:
                    R.undecided(rule, f"{R.where(fn)}: {name}", show(x)[:100])
                    continue
                miss = [m for m in CAPS[name] if m not in have]
                if on:
                    R.check(not miss, rule, f"{R.where(fn)}: {name}", "advertised and implemented" if not miss else f"advertised, but {miss} are not implemented")
                elif not miss:
                    R.check(False, rule, f"{R.where(fn)}: {name}", f"{CAPS[name]} are implemented but not advertised: no client will ask")
        ws = project(payload(project(caps, "workspace"), "Some", 0), "workspace_folders")
        if project(caps, "workspace").tag == "adt" and project(caps, "workspace").a[1] == "Some" and ws.tag == "adt" and ws.a[1] == "Some":
            ch = advertised(project(ws.a[2][0], "change_notifications"))
            sup = advertised(project(ws.a[2][0], "supported"))
            R.check(True if ch and sup else False if ch is False or sup is False else None, rule, f"{R.where(fn)}: workspace folders", "supported, with notifications of changes" if ch and sup else "notifications of workspace folder changes are implemented but not asked for")
        else:
            w = project(caps, "workspace")
            R.check(False if advertised(w) is False else None, rule, f"{R.where(fn)}: workspace folders", "notifications of workspace folder changes are implemented but not asked for")
    if not n:
        R.undecided(rule, R.where(fn), "no answer found")


def advertised(x):
    """is a capability value advertised"""
    if x.tag == "adt":
        if x.a[1] == "None":
            return False
        if x.a[1] == "Some":
            return advertised(x.a[2][0])
        if x.a[1] in ("Left", "Simple", "Bool") and x.a[2]:
            return advertised(x.a[2][0])
        if x.a[1] == "Kind":
            return advertised(x.a[2][0])
        return True
    if x.tag == "int":
        return bool(x.a[0])
    if x.tag == "const":
        return not x.a[0].endswith("::NONE")
    if x.tag == "str":
        return True
    if x.tag == "fld" and show(x).startswith("default<"):
        return False
    if show(x).startswith("default<"):
        return False
    return None


def register(R):
    rule = "C22.register"
    have = set(server.methods(R))
    fn = "lsp::handlers::handle_initialized"
    R.fn(fn)
    I = R.interp()
    flags = {"dynamic_registration_for_did_change_configuration": "workspace/didChangeConfiguration", "dynamic_registration_for_did_change_watched_files": "workspace/didChangeWatchedFiles"}
    caps = mk("fld", mk("arg", "lsp_state"), "capabilities")
    for s, v in R.summary(fn, "lsp_state", I):
        regs = [e for e in s.eff if e.tag == "eff" and e.a[0].endswith("::register_capability")]
        methods, odd = set(), not all(e.a[1][1].tag == "arr" for e in regs)
        for e in regs:
            for u in subterms(e.a[1][1]):
                if u.tag == "adt" and u.a[0].endswith("::Registration"):
                    m = project(u, "method")
                    if m.tag == "str":
                        methods.add(m.a[0])
                    else:
                        odd = True
        where = f"{R.where(fn)}: {show_conds({t: c for t, c in s.conds.items() if t.tag == 'fld' and t.a[0] is caps})[-120:]}"
        for m in sorted(methods):
            r = REGISTERED.get(m)
            R.check(True if r in have else None if r is None else False, rule, f"{where}: {m}", "registered and implemented" if r in have else f"registered, but {r} is not implemented")
        early = v.tag == "adt" and v.a[1] == "Err" and not regs
        for fl, m in flags.items():
            on = truth(s.conds, mk("fld", caps, fl))
            if on and not early:
                R.check(True if m in methods else None if odd else False, rule, f"{where}: {m}", "asked of a client that supports it" if m in methods else "not asked of a client that supports it")
            elif not early and on is None:
                R.check(None if odd else False, rule, f"{where}: {m}", f"{'asked' if m in methods else 'not asked'} whether or not the client supports it")
            elif on is False:
                R.check(True if m not in methods else False, rule, f"{where}: {m}", "not asked of a client that does not support it" if m not in methods else "asked of a client that does not support it")


def check(R):
    R.program(*server.CRATES)
    R.guard(lambda: route(R), "C22.route", server.BACKEND)
    R.guard(lambda: capabilities(R), "C22.advertise", "lsp::handlers_state::initialize")
    R.guard(lambda: register(R), "C22.register", "lsp::handlers::handle_initialized")
