"""First imports of the package under faults: attempts that fail are repeated in the same process, from one thread or
several at once; afterwards the parser must be the usual one.

The package is a copy of /repo's below the run's directory, so that the system call seam sees the reading of its files.
"""

from __future__ import annotations

import errno
import gc
import os
import shutil
import sys

from sim import canon, concert, disk, world


def execute(spec: dict, env) -> dict:
    from sim.zygote import purge
    rep: dict = {"violations": [], "harness": [], "calls": 0, "fired": {}, "probes": [], "counts": {}}
    d = os.path.join(env.rundir, "site")
    shutil.copytree(world.ROOT_PYCEP, os.path.join(d, "pycep"), ignore=shutil.ignore_patterns("__pycache__"))
    purge()
    sys.path.insert(0, d)
    world.ROOT_PYCEP = os.path.join(d, "pycep") + "/"
    if spec.get("narrow"):
        world.ROOT_LARK = "\0"          # only the library's own code is stepped through
    world.SCOPE.clear()
    base = disk.real_fds()
    disk.clock(1_700_000_000, 1000)
    disk.L.shim_random(1, 1)
    bad = rep["violations"].append
    log = []
    seen = {"n": 0}
    active: list = []
    unraisable: list = []
    sys.unraisablehook = lambda a: unraisable.append(1)

    def syscall(name, path, fd, n, flags):
        w = world.W
        if w is None or w.current is None or not path.endswith(".lark"):
            return 0
        t = w.current
        if t.op is None:
            return 0
        w.syscall(t, name)
        seen["n"] += 1
        for f in active:
            if f.get("done") or f["name"] not in (name, "any"):
                continue
            if f.get("skip", 0) > 0:
                f["skip"] -= 1
                continue
            f["done"] = not f.get("sticky")
            f["fired"] = True
            k = f"{name} {errno.errorcode[f['errno']]}" if f["act"] == "errno" else f"{name} short"
            rep["fired"][k] = rep["fired"].get(k, 0) + 1
            return f["errno"] if f["act"] == "errno" else -(f["n"] + 1)
        return 0

    got: dict = {}

    def attempt(key, ln, docs, retry: int = 0) -> None:
        """What an application does that wants a parser."""
        try:
            import pycep
            p = pycep.BicepParser(add_line_numbers=ln)
            out = []
            for i in docs:
                try:
                    v, e = p.parse(text=spec["docs"][i]), None
                except Exception as x:  # noqa: BLE001
                    v, e = None, x
                out.append(canon.outcome(v, e))
                rep["calls"] += 1
            got[key] = ("ok", out)
        except (world.Deadlock, world.Over):
            raise
        except BaseException as e:  # noqa: BLE001
            got[key] = ("error", e)

    disk.watch(d)
    disk.on(syscall)
    for i, step in enumerate(spec["history"]):
        active[:] = [dict(f) for f in step.get("io", ())]
        raises = [dict(f) for f in step.get("raises", ())]
        w = world.World(dict(step["sched"]), raises, None)
        got.clear()
        unraisable.clear()

        def body(j, q):
            def go(t):
                w.begin(t, j)
                attempt(j, q["ln"], q["docs"])
                w.end(t)
            return go
        for j, q in enumerate(step["users"]):
            w.add(f"T{j}", body(j, q))
        if raises or len(step["users"]) > 1:
            world.monitor(True, bool(raises), (), True)
        w.run()
        world.monitor_off()
        for k, n in w.fired.items():
            rep["fired"][k] = rep["fired"].get(k, 0) + n
        rep["switches"] = rep.get("switches", 0) + w.switches
        rep["steps"] = rep.get("steps", 0) + sum(t.total for t in w.tasks)
        if w.harness_error:
            rep["harness"].append(w.harness_error)
            break
        if w.deadlock:
            bad({"kind": "deadlock", "op": i, "detail": w.deadlock})
            break
        hard = [f["errno"] for f in active if f.get("fired") and f["act"] == "errno" and f["errno"] != errno.EINTR]
        raised = [f for f in raises if f.get("fired")]
        for j, q in enumerate(step["users"]):
            kind, x = got.get(j, ("error", None))
            log.append([i, j, kind, type(x).__name__])
            rep["counts"][f"attempts_{'that_failed' if kind == 'error' else 'that_worked'}"] = \
                rep["counts"].get(f"attempts_{'that_failed' if kind == 'error' else 'that_worked'}", 0) + 1
            if kind == "error":
                if isinstance(x, OSError) and x.errno in hard:
                    continue
                if x is not None and raised and concert.chain_has(x, "injected by the simulator"):
                    continue
                if (hard or raised) and len(step["users"]) > 1 and isinstance(x, (ImportError, AttributeError)):
                    continue        # another thread's import of the same module failed, and CPython hands out what there is of it
                bad({"kind": "import", "op": i, "detail": f"attempt {i}, thread {j}: importing the package and making a parser failed with "
                     f"{canon.short(canon.error(x)) if x is not None else 'nothing'}; faults of this attempt: {hard} {[f['exc'] for f in raised]}"})
            else:
                for k, o in zip(q["docs"], x):
                    want = spec["expect"][f"{int(q['ln'])}|{k}"]
                    if o != want and not (raised and "error" in o):
                        bad({"kind": "outcome", "op": i, "detail": f"attempt {i}, thread {j}, document {k}: {canon.diff(o, want)}"})
                        break
        if not rep["violations"]:
            for x in [x for k, x in got.values() if k == "error" and x is not None]:
                x.__traceback__ = None
            got.clear()
            gc.collect()
            left = disk.open_fds()
            if left or disk.real_fds() - base:
                bad({"kind": "fd-leak", "op": i, "detail": f"attempt {i} left descriptors open: {left or sorted(disk.real_fds() - base)}"})
        if rep["violations"]:
            break
    disk.off()
    if disk.failure:
        rep["harness"].append(disk.failure)
    rep["history"] = canon.digest([log, rep["fired"]])
    rep["counts"]["operations on the grammar file"] = seen["n"]
    return rep
