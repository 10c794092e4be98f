"""C21: every request is answered exactly once, with its own kind of answer."""
from terms import *
from cases import *
import cli, server, mir

LEVEL = "proof"
TECHNIQUE = "dataflow summaries of the main loop's dispatcher and of every protocol method, composed per request variant: messages sent on the answer channel counted on every path, with their provenance"
EXPLANATION = ("For each request variant every path of the dispatcher is enumerated with the messages it puts on that request's answer channel: exactly one, carrying what the request's handler returned (its value in the response variant, or its error). "
               "For each protocol method every path is enumerated: it sends one message of one variant with its own parameters, receives once on the channel it created for it, and returns the payload of the response variant which the dispatcher uses for that request, or an error exactly when the answer is one.")
NOTE = "assumes channels deliver, and handlers return (panics of handlers are not excluded here)"


def dispatch(R):
    rule = "C21.dispatch"
    outs, panics = server.dispatch(R)
    answer = {}
    for v in server.variants(R, server.T + "LspRequest"):
        mine = [o for o in outs if o.kind == "Request" and o.variant == v]
        where = f"{R.where(server.HANDLE)}: {v}"
        if not mine:
            R.check(False, rule, where, "no path handles the request and returns")
            continue
        for o in mine:
            sends, leaks = o.sends(), o.leaks()
            if leaks:
                R.undecided(rule, where, f"the answer channel goes elsewhere: {show(leaks[0])[:120]}")
                continue
            R.check(len(sends) == 1, rule, where + ": once", f"answered {len(sends)} times" + (f" when {show_conds(o.s.conds)[-150:]}" if len(sends) != 1 else ""))
            if len(sends) != 1:
                continue
            p = cli.strip(sends[0][1])
            calls = [e for e in o.calls() if any(u is o.params for u in subterms(e)) or e.a[0] in {server.short(x) for x in server.MAIN}]
            main = [e for e in calls if e.a[0] in {server.short(x) for x in server.REQUESTS.values() if x}]
            if p.tag != "adt" or p.a[1] not in ("Ok", "Err"):
                R.undecided(rule, where + ": answer", show(p)[:150])
                continue
            x = p.a[2][0]
            if p.a[1] == "Err":
                # an error answer: the handler failed
                own = main and x is payload(mk("ecall", *main[-1].a), "Err", 0)
                R.check(True if own else None if main and unknown_parts(x) else False, rule, where + ": error", "a failing handler is answered with its error" if own else f"answered with the error {show(x)[:120]}")
                continue
            if x.tag != "adt" or not x.a[0].endswith("LspResponse"):
                R.undecided(rule, where + ": answer", show(x)[:150])
                continue
            answer.setdefault(v, set()).add(x.a[1])
            y = x.a[2][0] if x.a[2] else None
            if not main:
                R.check(True if y is None or y.tag in ("unit", "tuple", "tup") and not y.a or show(y) == "()" else None, rule, where + ": answer", "a constant answer")
                continue
            r = mk("ecall", *main[-1].a)
            ok = y is payload(r, "Ok", 0)
            fails = isvar(o.s.conds, r, "Err")
            R.check(False if fails else True if ok else None if unknown_parts(y) else False, rule, where + ": answer", "answered with the handler's result" if ok else f"answered with {show(y)[:120]}")
    for o, span in panics:
        if o.kind != "Request" or o.sends():
            continue
        where = f"{R.where(server.HANDLE)}: {o.variant}"
        once = o.variant == "Initialize" and any(u.tag == "fld" and u.a[1] == "log_tx" and isvar(o.s.conds, u, "None") for u in o.s.conds)
        R.check(True if once else None, rule, where + ": panic", "panics only when initialized twice, which the protocol layer rejects" if once else f"may panic before answering ({span[1]})")
    return answer


def front(R, answer):
    rule = "C21.front"
    n = 0
    for m, f in server.fronts(R).items():
        where = f"{R.where(f.fn)}: {m}"
        asked = {(v) for s, _ in f.outs for k, v, *_ in f.sent(s) if k == "Request"}
        if not asked and m not in server.REQUESTS:
            continue
        n += 1
        outs = split_res(f.I, f.outs)
        for s, k, v in outs:
            sent = [x for x in f.sent(s) if x[0] == "Request"]
            if len(sent) != 1:
                R.check(False if not sent and k == "Ok" else None, rule, where + ": asks", f"the main loop is asked {len(sent)} times")
                continue
            _, var, params, tx, _ = sent[0]
            if f.params is not None:
                R.check(True if params is f.params else None if params is None or unknown_parts(params) else False, rule, where + ": parameters", "passes its own parameters" if params is f.params else f"passes {show(params)[:80] if params is not None else None}")
            want = answer.get(var)
            recv = [e for e in s.eff if e.tag == "eff" and e.a[0].split("::")[-1] in ("recv", "blocking_recv")]
            # the two ends of one channel
            pair = [e for e in recv if tx.tag == "fld" and cli.strip(e.a[1][0]).tag == "fld" and cli.strip(e.a[1][0]).a[0] is tx.a[0] or same_channel(tx, e.a[1][0])]
            if len(pair) != 1:
                R.check(False if not recv and k == "Ok" else None, rule, where + ": waits", f"receives {len(pair)} times on the channel given")
                continue
            R.proved(rule, where + ": waits", "receives once on the channel it gave")
            r = payload(mk("ecall", *pair[0].a), "Some", 0)
            if k == "Err":
                ok = isvar(s.conds, r, "Err")
                R.check(True if ok else False if isvar(s.conds, r, "Ok") else None, rule, where + ": error", "an error exactly when the answer is one" if ok else "an answer which is no error is turned into one")
                continue
            if isvar(s.conds, r, "Err"):
                R.check(False, rule, where + ": error", "an error answer is returned as a result")
                continue
            got = None
            x = v
            if x.tag == "pay" and x.a[0] is payload(r, "Ok", 0):
                got = x.a[1]
            if got is None:
                R.check(None if unknown_parts(v) else False, rule, where + ": answer", f"returns {show(v)[:120]}")
                continue
            if want is None:
                R.undecided(rule, where + ": answer", f"the answer to {var} was not derived")
                continue
            R.check(want == {got}, rule, where + ": answer", f"returns the payload of {got}, which is what {var} is answered with" if want == {got} else f"expects {got}, but {var} is answered with {sorted(want)}")
        for s, span in f.panics:
            sent = [x for x in f.sent(s) if x[0] == "Request"]
            if not sent:
                continue
            var = sent[0][1]
            want = answer.get(var)
            if want is None:
                continue
            bad = [t for t, c in s.conds.items() if c[0] == "v" and t.tag == "pay" and t.a[1] == "Ok" and c[1] & want]
            R.check(True if not bad or any(c[0] == "v" and c[1] == frozenset({"Err"}) and cli.fname(t) and cli.fname(t).endswith("::send") or c[0] == "v" and c[1] == frozenset({"None"}) and cli.fname(t) and cli.fname(t).endswith("::recv") for t, c in s.conds.items()) else None,
                    rule, where + ": panic", "panics only when the main loop is gone or answers another kind")
    if not n:
        R.undecided(rule, server.BACKEND, "no protocol request found")


def same_channel(tx, rx):
    rx = cli.strip(rx)
    while rx.tag == "after":
        rx = cli.strip(rx.a[1][rx.a[2]])
    return tx.tag in ("fld", "idx", "proj") and rx.tag == tx.tag and tx.a[0] is rx.a[0] and tx.a[1] != rx.a[1]


def check(R):
    R.program(*server.CRATES)
    answer = {}
    R.guard(lambda: answer.update(dispatch(R)), "C21.dispatch", server.HANDLE)
    R.guard(lambda: front(R, answer), "C21.front", server.BACKEND)
