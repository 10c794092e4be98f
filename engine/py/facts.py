"""Front end: (re)builds the type-checked facts of /repo's crates from the current working tree.

Facts come from a rustc driver (engine/driver) run by `cargo check` over a generated workspace
(engine/mkws.py) whose members' sources are /repo's own files. Nothing of /repo is executed."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

V = "/verif"
sys.path.insert(0, V + "/engine")
import mkws

B = V + "/.build"
WS, TARGET, FACTS, DRIVER_DIR = B + "/ws", B + "/target", B + "/facts", B + "/driver"
DRIVER = DRIVER_DIR + "/debug/airfacts"
REPO = mkws.REPO


class FrontEndError(Exception):
    pass


def _files(root, skip=()):
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", "tests", "snapshots", ".git", "node_modules", "pkg", "grammars") and x not in skip)
        for f in sorted(fs):
            yield os.path.join(d, f)


def _hash_tree(h, root, exts=None):
    for p in _files(root):
        if exts and not p.endswith(exts):
            continue
        h.update(os.path.relpath(p, root).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")


_engine_hash = None


def engine_hash():
    global _engine_hash
    if _engine_hash is None:
        h = hashlib.sha256()
        _hash_tree(h, V + "/engine/driver/src")
        _hash_tree(h, V + "/engine/stubs", (".rs", ".toml"))
        with open(V + "/engine/mkws.py", "rb") as f:
            h.update(f.read())
        _engine_hash = h.hexdigest()
    return _engine_hash


def crate_dir(name):
    return os.path.join(REPO, mkws.MEMBERS[name][0].split("/src/")[0])


_h = {}


def crate_hash(name, overlay=""):
    if name not in _h:
        h = hashlib.sha256(engine_hash().encode())
        _hash_tree(h, crate_dir(name), (".rs", ".toml", ".json", ".ungram", ".R", ".txt"))
        if name == "crates":
            # build.rs asks cargo metadata for the workspace's package names
            for p in sorted(_files(REPO + "/crates")):
                if p.endswith("Cargo.toml"):
                    h.update(open(p, "rb").read())
        for d in mkws.MEMBERS[name][2]:
            if d in mkws.MEMBERS:
                h.update(crate_hash(d).encode())
        _h[name] = h.hexdigest()[:20]
    return _h[name]


def _env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS")) and k not in ("CARGO_HOME",):
            e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_driver():
    stamp = DRIVER_DIR + "/stamp"
    if os.path.isfile(DRIVER) and os.path.isfile(stamp) and open(stamp).read() == engine_hash():
        return
    e = _env()
    e["CARGO_TARGET_DIR"] = DRIVER_DIR
    r = run(["cargo", "+nightly", "build", "--offline"], cwd=V + "/engine/driver", env=e)
    if r.returncode != 0:
        raise FrontEndError("driver does not build:\n" + r.stderr[-3000:])
    open(stamp, "w").write(engine_hash())


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()


def fact_files(name):
    kind = mkws.MEMBERS[name][1]
    outs = [(name, "lib")]
    if kind == "libbin":
        outs.append((name, "bin"))
    return outs


def fact_path(name, kind):
    return f"{FACTS}/{name}.{kind}-{crate_hash(name)}.json"


def drop_fingerprints(names):
    # nightly cargo's layout: build/<package>/<hash>/fingerprint
    for n in names:
        shutil.rmtree(f"{TARGET}/debug/build/{n}", ignore_errors=True)
    fp = TARGET + "/debug/.fingerprint"
    for d in os.listdir(fp) if os.path.isdir(fp) else ():
        if d.rsplit("-", 1)[0] in names:
            shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def dependents(names):
    """names plus every member that depends on one of them"""
    out = set(names)
    while True:
        more = {m for m, (_, _, deps) in mkws.MEMBERS.items() if m not in out and out & set(deps)}
        if not more:
            return out
        out |= more


def ensure(names):
    """Facts for each of names, from /repo's current tree. Returns {name: error text or None}."""
    os.makedirs(FACTS, exist_ok=True)
    lock = open(B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _ensure(names)
    finally:
        lock.close()


def closure(names):
    out, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n in out:
            continue
        out.add(n)
        todo += [d for d in mkws.MEMBERS[n][2] if d in mkws.MEMBERS]
    return out


def _present(n):
    return all(os.path.isfile(fact_path(n, k)) for _, k in fact_files(n))


def _ensure(names):
    missing_src = [n for n in names if not os.path.isfile(os.path.join(REPO, mkws.MEMBERS[n][0]))]
    names = [n for n in names if n not in missing_src]
    errors = {n: "its root source file does not exist" for n in missing_src}
    want = [n for n in names if not _present(n)]
    if want:
        build_driver()
        mkws.generate(WS)
        stale = {n for n in closure(want) if not _present(n)}
        drop_fingerprints(stale)
        tmp = f"{FACTS}/tmp.{os.getpid()}"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e = _env()
        e["CARGO_TARGET_DIR"] = TARGET
        e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        e["AIRFACTS_OUT"] = tmp
        e["AIRFACTS_CRATES"] = ",".join(mkws.MEMBERS)
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        cmd = ["cargo", "+nightly", "check", "--offline", "--keep-going", "--message-format", "json"]
        for n in want:
            cmd += ["-p", n]
        r = run(cmd, cwd=WS, env=e)
        errs = {}
        for line in r.stdout.splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errs.setdefault(m["target"]["name"], []).append(m["message"].get("rendered") or m["message"]["message"])
        for n in sorted(stale | set(want)):
            for nm, k in fact_files(n):
                src = f"{tmp}/{nm}.{k}.json"
                if os.path.isfile(src):
                    for old in os.listdir(FACTS):
                        if old.startswith(f"{n}.{k}-") and len([o for o in os.listdir(FACTS) if o.startswith(f"{n}.{k}-")]) > 3:
                            os.unlink(f"{FACTS}/{old}")
                            break
                    os.replace(src, fact_path(n, k))
        shutil.rmtree(tmp, ignore_errors=True)
        for n in want:
            if not _present(n):
                errors[n] = "".join(errs.get(n, []))[:4000] or r.stderr[-3000:]
    return {n: errors.get(n) for n in list(names) + missing_src}


def load(name, kind="lib"):
    with open(fact_path(name, kind)) as f:
        return json.load(f)


if __name__ == "__main__":
    t = time.time()
    res = ensure(sys.argv[1:] or list(mkws.MEMBERS))
    for k, v in res.items():
        print(k, "ok" if v is None else "ERROR " + v[:300])
    print(round(time.time() - t, 1), "s")
