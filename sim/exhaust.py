"""Calls that run out of stack or memory at seeded points; then the resource is back."""

from __future__ import annotations

import os
import sys
from pathlib import Path

from sim import canon, concert, disk


def deep_call(n: int, fn, kw):
    """`fn` called from a stack that is already `n` frames deep."""
    if n > 0:
        return deep_call(n - 1, fn, kw)
    return fn(**kw)


def depth() -> int:
    f, n = sys._getframe(), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def execute(spec: dict, env) -> dict:
    import _testcapi
    os.makedirs(env.rundir, exist_ok=True)
    os.chdir(env.rundir)
    rep: dict = {"violations": [], "calls": 0, "fired": {}, "probes": [], "counts": {}}
    unraisable: list = []
    sys.unraisablehook = lambda a: unraisable.append(type(a.exc_value).__name__)
    cx = concert.Ctx(spec, env)
    for p in spec["parsers"]:
        cx.parsers[p["id"]] = env.stock[p["src"]]
        cx.options[p["id"]] = bool(p["ln"])
    disk.L.shim_random(1, 1)
    disk.clock(1_700_000_000, 1000)
    path = Path(env.rundir) / "f.bicep"
    log = []
    fired = rep["fired"]
    progress = os.path.join(env.rundir, "progress")

    def note(i: int) -> None:
        fd = os.open(progress, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        os.write(fd, str(i).encode())
        os.close(fd)

    remove, nomem, setlimit = _testcapi.remove_mem_hooks, _testcapi.set_nomemory, sys.setrecursionlimit
    library = functions() if any("in" in op.get("x", ()) for op in spec["ops"]) else {}
    for i, op in enumerate(spec["ops"]):
        note(i)
        k = op["k"]
        rep["calls"] += 1
        if k == "new":
            fn, kw = env.BicepParser, {"add_line_numbers": op["ln"], "cache": True}
        else:
            p = cx.parsers.get(op["p"])
            if p is None:
                continue
            fn = p.parse if k.startswith("parse") else p.create_tree
            if k.endswith("file"):
                path.write_bytes(cx.docs[op["d"]].encode("utf-8"))
                kw = {"file_path": path}
            else:
                kw = {"text": concert.fresh(cx.docs[op["d"]])}
        value = exc = None
        x = op.get("x")
        n_un = len(unraisable)
        if x is None:
            try:
                value = fn(**kw)
            except Exception as e:  # noqa: BLE001
                exc = e
        elif x["how"] == "memory":
            a, b = x["from"], x["to"]
            if "in" in x:
                arm(library, x["in"], x["nth"], a, b)
            try:
                try:
                    if "in" not in x:
                        nomem(a, b)
                    value = fn(**kw)
                finally:
                    remove()
                    if "in" in x:
                        disarm()
            except BaseException as e:  # noqa: BLE001
                exc = e
        else:
            try:
                if x["how"] == "limit":
                    setlimit(depth() + x["n"])
                try:
                    value = deep_call(x.get("deep", 0), fn, kw)
                finally:
                    setlimit(1000)
            except BaseException as e:  # noqa: BLE001
                exc = e
        if k == "new":
            if exc is None:
                cx.parsers[op["p"]] = value
                cx.options[op["p"]] = op["ln"]
            elif x is None:
                rep["violations"].append({"kind": "construct", "op": i, "detail": f"constructing a parser failed after the resource was back: "
                                          f"{canon.short(canon.error(exc))}"})
            log.append([i, type(exc).__name__])
            if x is not None and exc is not None:
                count(fired, x, exc)
            continue
        want = spec["expect"][f"{k.replace('file', '')}|{int(cx.options[op['p']])}|{op['d']}"]
        setlimit(20000)
        got = canon.outcome(value, exc)
        setlimit(1000)
        if exc is not None:
            exc.__traceback__ = None
        if got == want or concert.loosen(got) == concert.loosen(want):
            if x is not None:
                fired["not hit"] = fired.get("not hit", 0) + 1
            log.append([i, "right"])
            continue
        if x is not None and exc is not None:
            count(fired, x, exc)
            log.append([i, type(exc).__name__])
            continue
        if want is None:
            if x is None:
                log.append([i, type(exc).__name__])
                continue
        rep["violations"].append({"kind": "wrong" if x is not None else "outcome", "op": i, "detail":
                                  (f"{k} of document {op['d']} with {x} returned" if x is not None else
                                   f"{k} of document {op['d']}, after the resource was back:") + f" {canon.diff(got, want)}"
                                  + (f" (lost inside the interpreter: {unraisable[n_un:]})" if unraisable[n_un:] else "")})
        if len(rep["violations"]) > 3:
            break
    rep["history"] = canon.digest(log)
    rep["steps"] = len(log)
    return rep


def functions() -> dict:
    """The code of every function of the library, by name."""
    import types
    out: dict = {}
    todo = [m for n, m in sorted(sys.modules.items()) if n.partition(".")[0] == "pycep"]
    seen = set()
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        o = getattr(o, "__func__", o)
        o = getattr(o, "__wrapped__", o)
        if isinstance(o, types.FunctionType):
            if o.__module__.partition(".")[0] == "pycep":
                out.setdefault(o.__code__.co_name, {})[o.__code__] = 1
                todo += [c.cell_contents for c in o.__closure__ or () if c != types.CellType()]
        elif isinstance(o, types.ModuleType) and o.__name__.partition(".")[0] == "pycep" or isinstance(o, type) and o.__module__.partition(".")[0] == "pycep":
            todo += list(vars(o).values())
        elif isinstance(o, property):
            todo += [f for f in (o.fget, o.fset, o.fdel) if f]
        elif type(o).__name__ == "_VArgsWrapper":
            todo.append(o.base_func)
        elif isinstance(o, (dict, list, tuple)) and len(o) < 1000:
            todo += list(o.values() if isinstance(o, dict) else o)
    return out


def arm(library: dict, name: str, nth: int, a: int, b: int) -> None:
    """Allocations fail from the a-th to before the b-th one after the n-th call (or every call) of a library function began."""
    import _testcapi
    nomem = _testcapi.set_nomemory
    m = sys.monitoring
    m.use_tool_id(5, "simarm")
    left = [nth]

    def entered(code, offset):
        left[0] -= 1
        if left[0] == 0 or nth == 0:
            nomem(a, b)
    m.register_callback(5, m.events.PY_START, entered)
    for code in library.get(name, ()):
        m.set_local_events(5, code, m.events.PY_START)
    arm.codes = list(library.get(name, ()))


def disarm() -> None:
    m = sys.monitoring
    for code in arm.codes:
        m.set_local_events(5, code, 0)
    m.register_callback(5, m.events.PY_START, None)
    m.free_tool_id(5)


def count(fired: dict, x: dict, exc) -> None:
    k = f"{x['how']} exhausted: {type(exc).__name__}" + (f" ({type(exc.orig_exc).__name__})" if hasattr(exc, "orig_exc") else "")
    fired[k] = fired.get(k, 0) + 1


def ample(spec: dict, env) -> dict:
    """The outcome of a call that has stack enough, or how many allocations it makes."""
    import _testcapi
    p, t = env.stock["N"], spec["text"]
    fn = p.parse if spec["k"] == "parse" else p.create_tree
    rep: dict = {}
    sys.setrecursionlimit(30000)
    try:
        v, e = fn(text=t), None
    except Exception as x:  # noqa: BLE001
        v, e = None, x
    rep["outcome"] = canon.outcome(v, e)
    if not spec.get("count"):
        return rep
    sys.setrecursionlimit(1000)
    seen: set = set()
    m = sys.monitoring
    m.use_tool_id(5, "simarm")
    m.register_callback(5, m.events.PY_START, lambda code, offset: seen.add(code.co_name))
    codes = [c for by in functions().values() for c in by]
    for code in codes:
        m.set_local_events(5, code, m.events.PY_START)
    try:
        fn(text=t)
    except Exception:  # noqa: BLE001, S110  it is known how it ends
        pass
    for code in codes:
        m.set_local_events(5, code, 0)
    m.free_tool_id(5)
    rep["names"] = sorted(seen)
    n = 64
    while n < 1 << 22:
        v = e = None
        try:
            try:
                _testcapi.set_nomemory(n, n + 1)
                v = fn(text=t)
            finally:
                _testcapi.remove_mem_hooks()
        except BaseException as x:  # noqa: BLE001
            e = x
        if canon.outcome(v, e) == rep["outcome"]:
            break
        n = n * 3 // 2
    rep["allocs"] = n
    return rep
