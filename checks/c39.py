"""C39: the auxiliary tasks of the language server outlive failures and report them."""
from terms import *
from cases import *
import cli, server, mir, flow

LEVEL = "proof"
TECHNIQUE = "loop summaries over MIR of the auxiliary and log loops: ways of leaving and of panicking compared with the failures of tasks, log effect required on each failing iteration, never-empty task list and task registration traced"
EXPLANATION = ("The auxiliary loop's iterations are enumerated: a task that panicked or failed stays in the loop with an error logged, no way to leave or panic depends on a task's failure; the task list always holds a task that never ends, so waiting for the next task never finds it empty. "
               "Spawned tasks reach that list. The log loop delivers each message's contents to the client and ends only when its channel is closed; a log record that cannot be delivered is an error value, not a panic. The main loop starts both and keeps them until it ends.")
NOTE = "assumes tokio::select! waits for both sources and JoinHandle reports panics as errors"
A = "lsp::main_loop::AuxiliaryState"
L = "lsp::logging::LogThreadState"


def outcome(conds):
    """what the conditions say a joined task did: panicked, failed, event, nothing, None"""
    said = None
    for t, c in conds.items():
        if c[0] != "v" or len(c[1]) != 1:
            continue
        n = next(iter(c[1]))
        if {"Ok", "Err"} >= set(c[2]) and n == "Err":
            # Some.0 is Err: join error;  Some.0.Ok.0 is Err: the task's own
            if t.tag == "pay" and t.a[1] == "Ok":
                said = "failed"
            elif t.tag == "pay" and t.a[1] == "Some":
                said = said or "panicked"
        if t.tag == "pay" and t.a[1] == "Ok" and t.a[0].tag == "pay" and t.a[0].a[1] == "Ok" and set(c[2]) == {"Some", "None"}:
            said = "event" if n == "Some" else "nothing"
    return said


def allowed(conds):
    """a panic when a source is exhausted"""
    why = None
    for t, c in conds.items():
        if c[0] != "v" or len(c[1]) != 1:
            continue
        n = next(iter(c[1]))
        if n == "Disabled":
            why = "no source to wait for, which cannot be: their patterns always match"
        if n == "None" and set(c[2]) == {"Some", "None"}:
            f = cli.fname(t) or ""
            if t.tag in ("fld", "pay", "idx") and show(t).endswith("_0.0") or f.split("::")[-1] == "recv":
                why = why or "events"
            else:
                why = why or "tasks"
    return why


def auxiliary(R):
    rule = "C39.auxiliary"
    P = R.prog
    never = pending(R)
    fn = A + "::start"
    R.fn(fn)
    I = R.interp()
    I.keep_log = True
    outs = R.summary(fn, "self", I)
    where = R.where(fn)
    for s, v in outs:
        w = outcome(s.conds)
        R.check(False if w in ("panicked", "failed") else None, rule, where + ": leaves", f"the loop is left after a task {w}" if w else f"the loop may be left when {show_conds(s.conds)[-150:]}")
    if not outs:
        R.proved(rule, where + ": leaves", "the loop is never left")
    panics(R, rule, where, I, never)
    fn = A + "::next_event"
    if fn not in P.fns:
        return R.undecided(rule, where, "no function waiting for the next event")
    R.fn(fn)
    I = R.interp()
    I.keep_log = True
    outs = R.summary(fn, "self", I)
    where = R.where(fn)
    panics(R, rule, where, I, never)
    seen = set()
    for s, v in outs:
        w = outcome(s.conds)
        if w in ("panicked", "failed"):
            logs = any(e.tag == "eff" and e.a[0] == "log" for e in s.eff)
            seen.add(w)
            R.check(logs, rule, where + ": logged", f"a task that {w} is logged" if logs else f"a task that {w} is not logged")
    for l in {e.a[0] for s, v in outs for e in s.eff if e.tag == "loopeff"}:
        if l.tag != "loop":
            continue
        for conds, (vals, eff) in ((dict(c[0]), c[1]) for c in l.a[1]):
            w = outcome(conds)
            if w in ("panicked", "failed"):
                seen.add(w)
                logs = [e for e in eff if e.tag == "eff" and e.a[0] == "log" and e.a[1][0].tag == "str" and e.a[1][0].a[0] in ("error", "warn")]
                R.check(bool(logs), rule, where + ": logged", f"a task that {w} is logged, and the loop goes on" if logs else f"a task that {w} is not reported to the log")
            elif w == "event":
                R.check(False, rule, where + ": result", "the event a task returned is dropped")
            elif w == "nothing":
                R.proved(rule, where + ": result", "a task with nothing to say stays in the loop")
    for w in ("panicked", "failed"):
        if w not in seen:
            R.undecided(rule, where, f"no iteration for a task that {w}")


def panics(R, rule, where, I, never):
    for s, span in I.panics:
        w, ok = outcome(s.conds), allowed(s.conds)
        if w in ("panicked", "failed"):
            R.check(False, rule, where + ": panics", f"panics when a task {w} (line {span[1]})")
        elif ok == "tasks":
            R.check(never, rule, where + ": panics", "the task list is never exhausted: it holds a task that never ends" if never else f"panics when no task is left (line {span[1]})")
        elif ok == "events":
            R.proved(rule, where + ": panics", "only when no event can come any more")
        else:
            R.check(True if ok else None, rule, where + ": panics", ok or f"may panic at line {span[1]}")


def pending(R):
    """is a task that never ends on the list from the start"""
    fn = A + "::new"
    R.fn(fn)
    I = R.interp()
    ok = None
    for s, v in R.summary(fn, "client", I):
        push = [e for e in s.eff if e.tag == "eff" and e.a[0].split("::")[-1] == "push" and any(cli.fname(u) == "pending::pending" for u in subterms(e))]
        ok = bool(push) if ok in (None, True) else ok
    return ok


def spawned(R):
    rule = "C39.spawned"
    P = R.prog
    fn = "lsp::main_loop::AuxiliaryEventSender::spawn_blocking_task"
    if fn in P.fns:
        R.fn(fn)
        I = R.interp()
        I.keep_log = True
        for s, v in R.summary(fn, "self handler", I):
            sends = [e for e in s.eff if e.tag == "eff" and e.a[0].split("::")[-1] == "send"]
            own = [e for e in sends if any(u.tag == "adt" and u.a[1] == "SpawnedTask" and any(cli.fname(x) and cli.fname(x).split("::")[-1] in ("spawn_blocking", "spawn") and any(y is mk("arg", "handler") for y in subterms(x)) for x in subterms(u)) for u in subterms(e))]
            R.check(True if own else False if not sends else None, rule, R.where(fn), "the handle of the task is given to the auxiliary loop" if own else "the task's outcome is lost")
        for s, span in I.panics:
            R.check(None, rule, R.where(fn) + ": panics", f"may panic at line {span[1]}")
    # the loop keeps the handles it is given
    fn = A + "::start"
    push = [c for p in mir.reachable(P, [fn]) if p.startswith(A) for c in mir.names(P.fns[p]) if c["path"].split("::")[-1] == "push" and "FuturesUnordered" in c["path"]]
    R.check(True if push else False if any(v["name"] == "SpawnedTask" for v in P.adts["lsp::main_loop::AuxiliaryEvent"]["variants"]) else None, rule, R.where(fn), "the tasks given are waited for" if push else "the tasks given are dropped")


def logs(R):
    rule = "C39.log"
    P = R.prog
    fn = L + "::start"
    R.fn(fn)
    I = R.interp()
    outs = R.summary(fn, "self", I)
    where = R.where(fn)
    for s, v in outs:
        ok = any(cli.fname(t) and cli.fname(t).split("::")[-1] == "recv" and isvar(s.conds, t, "None") for t in s.conds)
        R.check(True if ok else False if any(cli.fname(t) for t in s.conds) else None, rule, where + ": leaves", "ends when the channel is closed" if ok else f"ends when {show_conds(s.conds)[-120:]}")
    for s, span in I.panics:
        exhausted = any(cli.fname(t) and cli.fname(t).split("::")[-1] == "recv" and isvar(s.conds, t, "None") for t in s.conds)
        R.check(True if exhausted else None, rule, where + ": panics", "only when no message can come any more" if exhausted else f"may panic at line {span[1]}")
    n = 0
    for l in {e.a[0] for s, v in outs for e in s.eff if e.tag == "loopeff"}:
        if l.tag != "loop":
            continue
        for conds, (vals, eff) in ((dict(c[0]), c[1]) for c in l.a[1]):
            n += 1
            recv = [e for e in eff if e.tag == "eff" and e.a[0].split("::")[-1] == "recv"]
            out = [e for e in eff if e.tag == "eff" and e.a[0] == "Client::log_message"]
            if not out:
                R.check(False if recv else None, rule, where + ": delivers", f"a message is dropped when {show_conds(conds)[-100:]}")
                continue
            own = any(recv and u is payload(mk("ecall", *recv[-1].a), "Some", 0) for u in subterms(out[0].a[1][2]))
            R.check(True if own and len(out) == 1 else None, rule, where + ": delivers", "each message received is delivered to the client once")
    if not n:
        R.undecided(rule, where, "no loop over the messages found")
    # the writer behind tracing
    for p in [p for p in P.fns if p.startswith("<lsp::logging::LogWriter") and p.endswith(("::write", "::flush")) and "io::" in p]:
        R.fn(p)
        I = R.interp()
        n = P.fns[p]["body"]["argc"]
        for s, k, v in split_res(I, R.summary(p, "self buf" if n == 2 else "self", I)):
            if n != 2:
                continue
            sends = [e for e in s.eff if e.tag == "eff" and e.a[0].split("::")[-1] == "send"]
            if k == "Ok":
                R.check(True if len(sends) == 1 else False if not sends else None, rule, R.where(p), "a record written is sent once" if len(sends) == 1 else "a record written is not sent")
            else:
                R.proved(rule, R.where(p), "a record that cannot be delivered is an error value")
        for s, span in I.panics:
            R.check(False if any(cli.fname(t) and cli.fname(t).split("::")[-1] == "send" for t in s.conds) else None, rule, R.where(p) + ": panics", f"panics when a record cannot be delivered (line {span[1]})")


def started(R):
    rule = "C39.started"
    P = R.prog
    fn = server.LOOP
    R.fn(fn)
    I = R.interp()
    I.opaque_fn = lambda p, res: any(x and x.startswith(("lsp::handlers", server.HANDLE, "lsp::logging", A)) for x in (p, res))
    for s, v in R.summary(fn, "self", I):
        run = {}
        for i, e in enumerate(s.eff):
            if e.tag == "eff" and e.a[0].split("::")[-1] in ("spawn", "spawn_local", "spawn_on"):
                for u in e.a[1]:
                    if u.tag in ("cor", "clo"):
                        for p in (A + "::start", L + "::start"):
                            if any(c["path"] == p for q in mir.reachable(P, [u.a[0]]) for c in mir.names(P.fns[q])):
                                run[p] = i
        first = next((i for i, e in enumerate(s.eff) if e.tag == "loopeff"), None)
        for p in (A + "::start", L + "::start"):
            ok = p in run and (first is None or run[p] < first)
            R.check(True if ok else False if p in run or not any(any(c["path"] == p for c in mir.names(P.fns[q])) for q in P.fns) else None, rule, f"{R.where(fn)}: {p.split('::')[-2]}", "started before the event loop" if ok else "never started")
        ends = [i for i, e in enumerate(s.eff) if e.tag == "eff" and e.a[0].split("::")[-1] in ("shutdown", "abort_all", "detach_all")]
        R.check(True if not ends or first is None or min(ends) > first else False, rule, R.where(fn) + ": kept", "kept until the event loop ends" if not ends or first is None or min(ends) > first else "stopped before the event loop")


def check(R):
    R.program(*server.CRATES)
    R.guard(lambda: auxiliary(R), "C39.auxiliary", A)
    R.guard(lambda: spawned(R), "C39.spawned", A)
    R.guard(lambda: logs(R), "C39.log", L)
    R.guard(lambda: started(R), "C39.started", server.LOOP)
