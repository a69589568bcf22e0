"""Histories of process starts over one grammar cache storage: crashes, storage faults, leftovers, then good starts.

Every start is a process of its own that imports the library afresh (in a fork of an interpreter that has lark in
memory already), finds its temporary directory, constructs parsers and parses the fingerprint documents.  All it has
in common with earlier starts is the simulated storage below `store`, the only place where files can be created.
"""

from __future__ import annotations

import errno
import json
import os
import pickle
import random
import re
import select
import shutil
import signal
import sys
import tempfile
import time

from sim import canon, disk, state, world

real_time = time.time
WRITES = {"write", "rename", "unlink", "mkdir", "truncate", "link"}
REBUILD = 60000         # function calls inside lark; loading takes about 6 000, building more than 500 000


class Store:
    def __init__(self, root: str) -> None:
        self.root = root
        self.tmp = os.path.join(root, "tmp")
        self.home = os.path.join(root, "home")
        self.cwd = os.path.join(root, "cwd")
        for d in (self.tmp, self.home, self.cwd):
            os.makedirs(d, exist_ok=True)

    def files(self) -> dict:
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                try:
                    with open(p, "rb") as h:
                        out[p] = h.read()
                except OSError:
                    out[p] = b"?"
        return out

    def everything(self) -> dict:
        out = dict(self.files())
        for d, ds, _ in os.walk(self.root):
            for x in ds:
                out[os.path.join(d, x)] = b"dir"
        return out


def victim(st: Store, rng: random.Random) -> str | None:
    fs = sorted(p for p in st.files() if not os.path.islink(p))
    return fs[rng.randrange(len(fs))] if fs else None


def disk_step(st: Store, step: dict, memory: dict) -> str:
    """What happens to the storage between two starts."""
    rng = random.Random(f"disk:{step['seed']}")
    do = step["do"]
    p = victim(st, rng)
    if do == "empty":
        shutil.rmtree(st.root)
        Store(st.root)
        return do
    if do == "no-tmp":
        shutil.rmtree(st.tmp, ignore_errors=True)
        return do
    if do == "tmp-back":
        os.makedirs(st.tmp, exist_ok=True)
        return do
    if do == "restore" and memory.get("good"):
        for q, b in memory["good"].items():
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if os.path.islink(q):
                os.unlink(q)
            if os.path.isdir(q):
                os.rmdir(q)
            with open(q, "wb") as f:
                f.write(b)
        return do
    if p is None:
        return "nothing"
    data = st.files()[p]
    n = len(data)
    if do == "truncate":
        at = rng.choice([0, 1, rng.randrange(n + 1), rng.randrange(min(n, 300) + 1), max(0, n - 1), n // 4096 * 4096,
                         rng.randrange(n + 1) // 4096 * 4096, max(0, n - rng.randrange(1, 200))])
        new = data[:at]
    elif do == "zero-tail":
        at = rng.randrange(n + 1) // 4096 * 4096
        new = data[:at] + b"\0" * (n - at)
    elif do == "zero-page":
        at = rng.randrange(n + 1) // 4096 * 4096
        new = data[:at] + b"\0" * len(data[at:at + 4096]) + data[at + 4096:]
    elif do == "garbage":
        new = rng.randbytes(rng.choice([0, 1, 10, 100, 5000, n]))
        if rng.random() < 0.5:
            new = data.split(b"\n")[0] + b"\n" + new
    elif do == "text":
        new = rng.choice([b"\n", b"\n\n\n", b"{}", b"null\n", "grammar: é\n".encode(), b"\xff\xfe\x00", b"<html></html>\n"]) * rng.randrange(1, 5)
    elif do == "wrong-type":
        head = data.split(b"\n")[0] if rng.random() < 0.8 else b"0" * 64
        objs = [None, {}, [], 42, "x", {"data": {}}, {"memo": {}, "data": {}}, {"data": None, "memo": {0: {}}}, b"", (1, 2)]
        first = rng.choice([{}, {}, {}, None, 3, [1]])
        new = head + b"\n" + pickle.dumps(first) + (pickle.dumps(rng.choice(objs)) if rng.random() < 0.8 else b"")
    elif do == "other-head":
        new = b"0" * len(data.split(b"\n")[0]) + data[len(data.split(b"\n")[0]):]
    elif do == "append":
        new = data + rng.randbytes(rng.randrange(1, 400))
    elif do == "unlink":
        os.unlink(p)
        return do
    elif do == "dir":
        os.unlink(p)
        os.mkdir(p)
        return do
    elif do == "loop":
        os.unlink(p)
        os.symlink(os.path.basename(p), p)
        return do
    elif do == "dangling":
        os.unlink(p)
        os.symlink(os.path.join(st.root, "gone", "x"), p)
        return do
    else:
        return "nothing"
    with open(p, "wb") as f:
        f.write(new)
    return do


def other_package(env, how: int) -> str:
    """A copy of the package as another version would be: a grammar that understands other documents."""
    src = os.path.dirname(world.ROOT_PYCEP)
    d = os.path.join(env.scratch, f"other{how}")
    if not os.path.isdir(d):
        shutil.copytree(src, os.path.join(d, "pycep"), ignore=shutil.ignore_patterns("__pycache__"))
        g = os.path.join(d, "pycep", "bicep.lark")
        with open(g, encoding="utf-8") as f:
            t = f.read()
        t = t.replace('"param"', '"parm"').replace('"var"', '"vor"') if how % 2 == 0 else t.replace('"resource"', '"resorce"').replace('"output"', '"outptu"')
        with open(g, "w", encoding="utf-8") as f:
            f.write(t)
        if how >= 2:
            i = os.path.join(d, "pycep", "__init__.py")
            with open(i, encoding="utf-8") as f:
                t = f.read()
            import re as _re
            with open(i, "w", encoding="utf-8") as f:
                f.write(_re.sub(r'__version__ = "[^"]*"', '__version__ = "0.0.1"', t))
    return d


# ---- one start ---------------------------------------------------------------------------------------------------

class Count:
    n = 0


def count_calls() -> None:
    m = sys.monitoring
    if m.get_tool(4) is None:
        m.use_tool_id(4, "simcount")
    c = Count
    c.n = 0
    root = world.ROOT_LARK

    def started(code, offset):
        if not code.co_filename.startswith(root):
            return m.DISABLE
        c.n += 1
        if c.n > REBUILD:
            m.set_events(4, 0)
        return None
    m.register_callback(4, m.events.PY_START, started)
    m.restart_events()
    m.set_events(4, m.events.PY_START)


def start_child(step: dict, env, st: Store, docs: list) -> dict:
    from sim.zygote import purge
    rep: dict = {"parsers": [], "fired": {}, "calls": 0, "ops": []}
    purge()
    if "other" in step:
        sys.path.insert(0, other_package(env, step["other"]))
    os.environ.update(TMPDIR=st.tmp, HOME=st.home, XDG_CACHE_HOME=os.path.join(st.home, ".cache"))
    for v in step.get("unset", ()):
        os.environ.pop(v, None)
        rep["fired"][f"{v} not set"] = 1
    os.chdir(st.cwd)
    if step.get("nobody"):
        import pwd

        rep["fired"]["user without an entry"] = 1

        def nobody(*a):
            raise KeyError("getpwuid(): uid not found: 12345")
        pwd.getpwuid = pwd.getpwnam = nobody        # as in a container started with a user of its own
    if step.get("no_cwd"):
        d = os.path.join(st.root, "gone-cwd")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        os.rmdir(d)
    tempfile.tempdir = None
    tempfile._name_sequence = None
    tempfile._once_lock = world.allocate_lock()
    faults = [dict(f) for f in step.get("faults", ())]
    ops = rep["ops"]
    seen = {"n": 0}

    def handler(name, path, fd, n, flags):
        if name == "sleep":
            return 0
        rel = os.path.relpath(path, st.root) if path else ""
        ops.append([name, rel, bool(flags & 3 or flags & os.O_CREAT) if name == "open" else name in WRITES])
        seen["n"] += 1
        if seen.get("crash"):
            os._exit(77)
        w = world.W
        if w is not None and w.current is not None and w.current.op is not None:
            w.syscall(w.current, name)
        for f in faults:
            if f.get("done") or (f.get("names") and name not in f["names"]) or (f.get("where") and not rel.startswith(f["where"])):
                continue
            if f.get("writes") is not None and name == "open" and bool(flags & 3) != f["writes"]:
                continue
            if f.get("skip", 0) > 0:
                f["skip"] -= 1
                continue
            if not f.get("sticky"):
                f["done"] = True
            kind = f"{name} {errno.errorcode.get(f.get('errno', 0), '')}{f['act'] if f['act'] != 'errno' else ''}".strip()
            rep["fired"][kind] = rep["fired"].get(kind, 0) + 1
            if f["act"] == "crash":
                os._exit(77)
            if f["act"] == "short-crash":
                seen["crash"] = True
                return -(f["n"] + 1)
            if f["act"] == "short":
                return -(f["n"] + 1)
            return f["errno"]
        return 0
    world.monitor_off()
    disk.watch(st.root)
    disk.L.shim_deny_create(step.get("deny", errno.EROFS))
    disk.L.shim_random(1, step.get("seed", 1))
    disk.clock(*step.get("clock", [1_700_000_000, 1000]))
    watch = None
    if step.get("app"):
        state.application(step["app"])
        rep["state"] = []
        watch = state.Watch(lambda kind, uid, detail: rep["state"].append(detail))
    import pycep
    if watch:
        watch.check(True, None, "importing pycep")
        watch.active = 1
    todo = step["parsers"]

    def construct(i: int, q: dict) -> None:
        r: dict = {"i": i}
        rep["parsers"].append(r)
        a = len(ops)
        try:
            p = pycep.BicepParser(add_line_numbers=q["ln"], cache=q["cache"])
        except Exception as e:  # noqa: BLE001
            r["error"] = canon.error(e)
            return
        finally:
            if watch:
                watch.check(True, i, f"constructing parser {i}")
            r["lark_calls"] = Count.n
            r["ops"] = [a, len(ops)]
        r["outcomes"] = []
        for d in q["docs"]:
            try:
                v, e = p.parse(text=docs[d]), None
            except Exception as x:  # noqa: BLE001
                v, e = None, x
            rep["calls"] += 1
            r["outcomes"].append(canon.outcome(v, e))
            if watch:
                watch.check(True, i, f"a parse call of parser {i}")
    disk.on(handler)
    if step.get("threads"):
        w = world.World(dict(step["sched"], policy=step["sched"].get("policy", "sys")), [], None)

        def body(i, q):
            def go(t):
                w.begin(t, i)
                construct(i, q)
                w.end(t)
            return go
        for i, q in enumerate(todo):
            w.add(f"T{i}", body(i, q))
        if watch:
            w.watch = lambda t: watch.check(False, t.op, "as another thread gets its turn")
        w.run()
        if w.deadlock:
            rep["deadlock"] = w.deadlock
        if w.harness_error:
            rep["harness"] = w.harness_error
        rep["switches"] = w.switches
        rep["parsers"].sort(key=lambda r: r["i"])
    else:
        for i, q in enumerate(todo):
            count_calls()
            construct(i, q)
            sys.monitoring.set_events(4, 0)
    disk.off()
    if disk.failure:
        rep["harness"] = disk.failure
    rep["left_open"] = len(disk.open_fds())
    return rep


def start(step: dict, env, st: Store, docs: list) -> dict:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(100)
            try:
                rep = start_child(step, env, st, docs)
            except BaseException:  # noqa: BLE001
                import traceback
                disk.L.shim_set_active(0)
                rep = {"broken": traceback.format_exc()[-2000:]}
            data = json.dumps(rep).encode("utf-8", "surrogatepass")
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while True:
        ok, _, _ = select.select([r], [], [], 5)
        if ok:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.waitstatus_to_exitcode(status) == 77:
        return {"crashed": True, "parsers": [], "fired": {"crash": 1}, "calls": 0, "ops": []}
    if not data:
        return {"died": status}
    return json.loads(data.decode("utf-8", "surrogatepass"))


# ---- the history ---------------------------------------------------------------------------------------------------

def execute(spec: dict, env) -> dict:
    shutil.rmtree(os.path.join(env.rundir, "store"), ignore_errors=True)
    st = Store(os.path.join(env.rundir, "store"))
    out = {"violations": [], "harness": [], "calls": 0, "fired": {}, "probes": [], "counts": {}, "steps": 0, "switches": 0}
    memory: dict = {}
    snap = os.path.join(env.scratch, "good-store")
    log = []
    bad = out["violations"].append
    dirty = True            # may the next fault-free start have to rebuild?
    for i, step in enumerate(spec["history"]):
        k = step["k"]
        if k == "disk":
            if step["do"] == "restore" and not memory.get("good"):
                memory["good"] = snapshot(env, st, snap, spec)
            did = disk_step(st, step, memory)
            out["fired"][f"storage {did}"] = out["fired"].get(f"storage {did}", 0) + 1
            dirty = True
            log.append(did)
            continue
        before = st.everything()
        rep = start(step, env, st, spec["docs"])
        after = st.everything()
        if rep.get("harness"):
            out["harness"].append(rep["harness"])
            break
        if "died" in rep or "broken" in rep:
            # nothing but the crashes injected ends a start
            bad({"kind": "start", "op": i, "detail": f"start {i} ended with {rep.get('broken') or 'wait status %d' % rep['died']}"})
            break
        for f, n in rep["fired"].items():
            out["fired"][f] = out["fired"].get(f, 0) + n
        out["calls"] += rep["calls"]
        out["switches"] += rep.get("switches", 0)
        out["counts"]["starts"] = out["counts"].get("starts", 0) + 1
        log.append([rep.get("crashed", 0), [o[:2] for o in rep["ops"] if not looks_like_probe(o[1], st, before, after)][:50],
                    [canon.digest(x) for x in rep["parsers"] if x.get("error")]])
        for d in rep.get("state", ()):
            bad({"kind": "state", "op": i, "detail": f"start {i}: {d}"})
        if rep.get("deadlock"):
            bad({"kind": "deadlock", "op": i, "detail": rep["deadlock"]})
        faulty = bool(step.get("faults") or step.get("threads") or "other" in step or step.get("no_cwd") or step.get("unset") or step.get("nobody"))
        if "other" not in step:
            for p, q in zip(rep["parsers"], step["parsers"]):
                if "error" in p:
                    bad({"kind": "construct", "op": i, "detail": f"start {i} could not construct a parser (cache={q['cache']}): {canon.short(p['error'])}"})
                    continue
                for d, got in zip(q["docs"], p["outcomes"]):
                    want = spec["expect"][f"{int(q['ln'])}|{d}"] if spec["expect"] else got
                    if got != want:
                        bad({"kind": "outcome", "op": i, "detail": f"start {i}, cache={q['cache']}, document {d}: {canon.diff(got, want)}"})
                        break
        # -- C05
        if all(not q["cache"] for q in step["parsers"]) and not rep.get("crashed"):
            touched = sorted({f"{o[0]} {o[1]}" for o in rep["ops"] if o[1] not in ("", ".", "tmp", "home", "cwd")
                              and not looks_like_probe(o[1], st, before, after)})
            if touched:
                bad({"kind": "touched", "op": i, "detail": f"start {i} with cache=False touched the storage: {touched[:6]}"})
            if before != after:
                bad({"kind": "touched", "op": i, "detail": f"start {i} with cache=False changed the storage: "
                     f"{sorted(set(before) ^ set(after))[:5]}"})
            continue
        if faulty or rep.get("crashed"):
            dirty = True
            continue
        if not dirty:
            wrote = sorted({f"{o[0]} {o[1]}" for o in rep["ops"] if o[2] and os.path.join(st.root, o[1]) in after
                            and o[1] not in ("tmp", "home", "cwd")})
            if wrote or before != after:
                bad({"kind": "rewritten", "op": i, "detail": f"start {i}, after a good start, wrote to the storage: {wrote[:6]}"})
            for p, q in zip(rep["parsers"], step["parsers"]):
                if q["cache"] and p.get("lark_calls", 0) > REBUILD:
                    bad({"kind": "rebuilt", "op": i, "detail": f"start {i}, after a good start, built the grammar again instead of loading it"})
                    break
            out["counts"]["starts_from_a_good_storage"] = out["counts"].get("starts_from_a_good_storage", 0) + 1
        elif any(p.get("lark_calls", 0) > REBUILD for p in rep["parsers"]):
            out["probes"].append("a good start rebuilt the grammar")
        dirty = False
    out["history"] = canon.digest(log)
    out["steps"] = len(spec["history"])
    out["probes"] = sorted(set(out["probes"]))
    return out


def looks_like_probe(rel: str, st: Store, before: dict, after: dict) -> bool:
    """tempfile tries out a directory with a file of its own that is gone at once."""
    p = os.path.join(st.root, rel)
    return p not in before and p not in after and re.fullmatch(r"[a-z0-9_]{8}", os.path.basename(rel)) is not None


def snapshot(env, st: Store, path: str, spec: dict) -> dict:
    """The storage as one good start leaves it (made once per worker)."""
    if not os.path.isdir(path):
        tmp = Store(os.path.join(env.scratch, "snap-store"))
        rep = start({"k": "boot", "parsers": [{"ln": False, "cache": True, "docs": []}]}, env, tmp, [])
        if rep.get("broken"):
            raise RuntimeError(rep["broken"])
        os.rename(tmp.root, path)
    s = Store(path)
    return {os.path.join(st.root, os.path.relpath(p, path)): b for p, b in s.files().items()}


def fingerprint(spec: dict, env) -> dict:
    """What parsers that never saw a cache make of the documents."""
    out = {}
    for ln in (False, True):
        p = env.BicepParser(add_line_numbers=ln, cache=False)
        for i, t in enumerate(spec["docs"]):
            signal.alarm(20)
            try:
                v, e = p.parse(text=t), None
            except Exception as x:  # noqa: BLE001
                v, e = None, x
            out[f"{int(ln)}|{i}"] = canon.outcome(v, e)
    signal.alarm(0)
    return {"expect": out}
