"""C23: one failing event never takes the server down; only a shutdown request ends the loop, after its answer."""
from terms import *
from cases import *
import cli, server, flow

LEVEL = "proof"
TECHNIQUE = "loop summary of the event loop (conditions of staying and of leaving, effects of an iteration) composed with the outcome table of the dispatcher"
EXPLANATION = ("The event loop is summarised: every way to leave it, every way to stay and what an iteration does. Leaving requires the dispatcher to have said shutdown (or the event channel to be closed); an error of the dispatcher stays in the loop and is logged; each iteration handles the event just received. "
               "The dispatcher's outcomes show that only the shutdown request makes it say so, and only with the answer sent; and that an error of a handler is returned or logged, never a panic.")
NOTE = "panics inside handlers are outside this property (it speaks of errors returned); logging is recognised at tracing's macros"


def is_handle(t):
    return cli.fname(t) == "GlobalState::handle_event"


def told(conds):
    """what the conditions say about the latest event: Ok:Shutdown, Ok:None, Ok, Err, None"""
    best = None
    for t, c in conds.items():
        if c[0] != "v":
            continue
        if is_handle(t) and len(c[1]) == 1:
            best = best or next(iter(c[1]))
        if t.tag == "pay" and t.a[1] == "Ok" and is_handle(t.a[0]) and "Shutdown" in c[2]:
            best = "Ok:" + "|".join(sorted(c[1]))
    return best


def closed(conds):
    return any(cli.fname(t) and cli.fname(t).split("::")[-1] == "recv" and isvar(conds, t, "None") for t in conds)


def loop(R):
    rule = "C23.loop"
    fn = server.LOOP
    R.fn(fn)
    I = R.interp()
    I.keep_log = True
    I.opaque_fn = lambda p, res: any(x and x.startswith(("lsp::handlers", server.HANDLE, "lsp::logging")) for x in (p, res))
    outs = R.summary(fn, "self", I)
    where = R.where(fn)
    loops = set()
    for s, v in outs:
        loops |= {u for e in s.eff if e.tag == "loopeff" for u in [e.a[0]]}
        w = told(s.conds)
        if closed(s.conds):
            R.proved(rule, where + ": leaves", "leaves when no event can come any more")
        else:
            R.check(w == "Ok:Shutdown" if w else None, rule, where + ": leaves", "leaves after a shutdown request" if w == "Ok:Shutdown" else f"leaves after the outcome {w} of an event")
    for s, span in I.panics:
        w = told(s.conds)
        if w and w.startswith("Err"):
            R.check(False, rule, where + ": panics", f"panics when handling an event fails (line {span[1]})")
        elif w:
            R.undecided(rule, where + ": panics", f"may panic after an event (line {span[1]})")
        elif not closed(s.conds) and any(is_handle(t) or cli.fname(t) and cli.fname(t).split("::")[-1] == "recv" for t in s.conds):
            R.undecided(rule, where + ": panics", f"may panic at line {span[1]}")
        else:
            R.proved(rule, where + ": panics", "panics only when started twice or when no event can come any more")
    if not loops and not outs:
        # the loop is never left
        R.undecided(rule, where, "the loop is never left")
    cases = [c for l in loops if l.tag == "loop" for c in l.a[1]]
    seen = set()
    for conds, (vals, eff) in ((dict(c[0]), c[1]) for c in cases):
        w = told(conds)
        handled = [e for e in eff if e.tag == "eff" and e.a[0] == "GlobalState::handle_event"]
        recv = [e for e in eff if e.tag == "eff" and e.a[0].split("::")[-1] == "recv"]
        if not handled:
            R.check(False if recv and not closed(conds) else None, rule, where + ": stays", "an event received is not handled")
            continue
        ev = handled[0].a[1][1]
        own = recv and ev is payload(mk("ecall", *recv[-1].a), "Some", 0) and len(recv) == 1 and len(handled) == 1
        R.check(True if own else None, rule, where + ": one by one", "an iteration handles the one event it received, to its end" if own else f"handles {show(ev)[:80]}")
        if w is None or w.startswith("Ok"):
            seen.add("Ok")
        if w is None or w == "Err":
            seen.add("Err")
            if w == "Err":
                logs = [e for e in eff if e.tag == "eff" and e.a[0] == "log" and e.a[1] and e.a[1][0].tag == "str" and e.a[1][0].a[0] in ("error", "warn")]
                R.check(bool(logs) or None if any(u.tag == "eff" and u.a[0] != "log" for u in eff[eff.index(handled[0]) + 1:]) else bool(logs), rule, where + ": logged", "the error of an event is logged" if logs else "the error of an event is dropped silently")
    R.check(True if "Err" in seen else False if cases else None, rule, where + ": failing event", "stays in the loop when handling an event fails" if "Err" in seen else "does not go on after a failing event")
    R.check(True if "Ok" in seen else None, rule, where + ": event", "stays in the loop after an event")


def dispatch(R):
    rule = "C23.dispatch"
    outs, panics = server.dispatch(R)
    n = 0
    for o in outs:
        where = f"{R.where(server.HANDLE)}: {o.variant or o.kind}"
        v = o.v
        if o.k == "Ok":
            name = v.a[1] if v.tag == "adt" else None
            if name is None:
                R.undecided(rule, where, f"says {show(v)[:80]}")
            elif name == "Shutdown":
                n += 1
                R.check(o.kind == "Request" and o.variant == "Shutdown", rule, where + ": ends", "only the shutdown request ends the loop" if o.variant == "Shutdown" else "ends the loop")
                R.check(len(o.sends()) == 1 if not o.leaks() else None, rule, where + ": answered", "it is answered before the loop ends" if len(o.sends()) == 1 else "it ends the loop without an answer")
            else:
                R.proved(rule, where, "the loop goes on")
        for e in o.calls():
            if e.a[0] in {server.short(x) for x in server.MAIN} and o.k == "Ok":
                r = mk("ecall", *e.a)
                seen = any(u is r for t in o.s.conds for u in subterms(t)) or any(u is r for x in o.s.eff if x is not e for u in subterms(x))
                R.check(seen or False, rule, where + ": looked at", "whether the handler failed is looked at" if seen else f"whether {e.a[0]} failed is never looked at")
        failed = [t for t in o.s.conds if cli.fname(t) and cli.fname(t).split("::")[0].startswith("handlers") and isvar(o.s.conds, t, "Err")]
        if failed:
            logged = any(e.tag == "eff" and e.a[0] == "log" for e in o.s.eff)
            R.check(True if o.k == "Err" or logged else False, rule, where + ": failure", "a handler's error is reported to the loop" if o.k == "Err" else "a handler's error is logged" if logged else "a handler's error is dropped")
    for o, span in panics:
        where = f"{R.where(server.HANDLE)}: {o.variant or o.kind}"
        failed = [t for t in o.s.conds if isvar(o.s.conds, t, "Err") and cli.fname(t) and cli.fname(t).split("::")[0].startswith("handlers")]
        sent = [t for t in o.s.conds if isvar(o.s.conds, t, "Err") and cli.fname(t) and cli.fname(t).split("::")[-1] == "send"]
        once = any(u.tag == "fld" and u.a[1] == "log_tx" and isvar(o.s.conds, u, "None") for u in o.s.conds)
        if failed:
            R.check(False, rule, where + ": panic", f"panics when its handler fails (line {span[1]})")
        elif sent:
            R.check(False, rule, where + ": panic", f"panics when the client cancelled the request (line {span[1]})")
        else:
            R.check(True if once else None, rule, where + ": panic", "panics only when initialized twice, which the protocol layer rejects" if once else f"may panic (line {span[1]})")


def check(R):
    R.program(*server.CRATES)
    R.guard(lambda: loop(R), "C23.loop", server.LOOP)
    R.guard(lambda: dispatch(R), "C23.dispatch", server.HANDLE)
