"""One simulated run inside one process: tasks calling the library under the scheduler, with faults.

`execute(spec, env)` runs in a process forked for this run only.  It returns a JSON-able report; `violations` in it
are statements about the code under test, `harness` ones are about the simulator itself.
"""

from __future__ import annotations

import base64
import gc
import json
import os
import random
import select
import signal
import sys
import tempfile
import time as _time
from pathlib import Path

from sim import canon, disk, state, world

real_time = _time.time
ERRNAME = {2: "FileNotFoundError", 21: "IsADirectoryError", 20: "NotADirectoryError", 13: "PermissionError"}


class Ctx:
    def __init__(self, spec: dict, env) -> None:
        self.spec = spec
        self.env = env
        self.docs = spec["docs"]
        self.expect = spec.get("expect", {})
        self.parsers: dict = {}
        self.options: dict = {}
        self.results: dict = {}         # uid -> (value, snapshot)
        self.mutated: set = set()
        self.violations: list = []
        self.history: list = []
        self.calls = 0
        self.fs: dict = {}              # model of the run's files: name -> state
        self.fs_log: list = []          # (seq, name -> resolved state)
        self.overlap = 0
        self.active = 0
        self.unraisable: list = []
        self.skipped = 0
        self.pair_hits: set = set()
        self.forks = 0
        self.share = {}
        self.seq = 0
        self.watch: state.Watch | None = None

    def tick(self) -> None:
        self.seq += 1

    def bad(self, kind: str, uid, detail: str) -> None:
        self.violations.append({"kind": kind, "op": uid, "detail": detail[:1500]})


def fresh(text: str) -> str:
    """An equal but new string object."""
    return "".join([text[:1], text[1:]]) if len(text) > 1 else (text + " ")[:-1]


def key_of(op: dict, ln) -> str:
    return f"{op['k']}|{int(bool(ln))}|{op['d']}"


def chain_has(e: BaseException, msg: str) -> bool:
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        if msg in str(x) or (isinstance(x, SystemExit) and x.code == 3):
            return True
        todo += [x.__cause__, x.__context__, getattr(x, "orig_exc", None)]
        todo += [getattr(x, "exceptions", None)] if isinstance(getattr(x, "exceptions", None), BaseException) else []
    return False


# ---- the operations --------------------------------------------------------------------------------------------

def do_call(cx: Ctx, op: dict):
    """Makes the call described by `op`; returns (value, exception)."""
    k = op["k"]
    try:
        if k == "new":
            kw = {}
            if "ln" in op:
                kw["add_line_numbers"] = op["ln"]
            if "cache" in op:
                kw["cache"] = op["cache"]
            return cx.env.BicepParser(**kw), None
        p = cx.parsers[op["p"]]
        fn = p.parse if k in ("parse", "parsefile") else p.create_tree
        if k in ("parse", "tree"):
            if op.get("share"):
                t = cx.share.setdefault(op["d"], fresh(cx.docs[op["d"]]))
            else:
                t = fresh(cx.docs[op["d"]])
            return fn(text=t), None
        if k in ("parsefile", "treefile"):
            return fn(file_path=file_path(cx, op)), None
        if k == "misuse":
            how = op["how"]
            if how == 0:
                return p.parse(text="param a string", file_path=Path("x.bicep")), None
            if how == 1:
                return p.parse(), None
            if how == 2:
                return p.create_tree(text="param a string", file_path=Path("x.bicep")), None
            if how == 3:
                return p.parse(text=b"param a string"), None
            if how == 4:
                return p.parse(text=17), None
            if how == 5:
                return cx.env.BicepParser("param a string"), None
            return p.create_tree(file_path=Path("does/not/exist.bicep")), None
        raise AssertionError(k)
    except (world.Deadlock, world.Over):
        raise
    except BaseException as e:  # noqa: BLE001
        return None, e


def file_path(cx: Ctx, op: dict) -> Path:
    f = op.get("via", op["f"])
    return Path(f) if op.get("rel") else Path(cx.env.rundir) / f


def run_op(cx: Ctx, op: dict, t, depth: int = 0) -> None:
    k = op["k"]
    uid = op["u"]
    w = world.W
    if k == "fs":
        do_fs(cx, op)
        return
    if k == "mutate":
        do_mutate(cx, op)
        return
    if k == "drop":
        cx.results.pop(op["r"], None)
        return
    if k == "gc":
        gc.collect()
        return
    if k == "clock":
        disk.jump(op.get("real", 0), op.get("mono", 0))
        return
    if k == "fork":
        do_fork(cx, op["ops"], uid)
        return
    if k == "yield":
        return
    if k != "new" and op["p"] not in cx.parsers:
        cx.skipped += 1
        return
    cx.calls += 1
    n_unraisable = len(cx.unraisable)
    if cx.active:
        cx.overlap += 1
    cx.active += 1
    if t is not None and not depth:
        t.limit = op.get("limit", world.FAR)
        w.begin(t, uid)
    cx.tick()
    start = cx.seq
    if cx.watch is not None:
        cx.watch.check(True, uid, "before the call")
    own = cx.watch.own() if cx.watch is not None and not depth else None
    if k == "new" and op.get("tmp"):
        tempfile.tempdir = os.path.join(cx.env.rundir, op["tmp"])
        os.makedirs(tempfile.tempdir, exist_ok=True)
    value, exc = do_call(cx, op)
    if own is not None and own != cx.watch.own():
        cx.bad("state", uid, f"after the call: settings of the calling thread changed: {own} became {cx.watch.own()}")
    if cx.watch is not None:
        cx.watch.check(True, uid, "after the call" if not cx.active > 1 else "after the call, while others are going on")
    cx.tick()
    end = cx.seq
    if t is not None and not depth:
        w.end(t)
    cx.active -= 1
    judge(cx, op, value, exc, start, end, cx.unraisable[n_unraisable:])
    if exc is not None:
        exc.__traceback__ = None
    if isinstance(exc, SystemExit) and op.get("die"):
        raise SystemExit from None


def judge(cx: Ctx, op: dict, value, exc, start: int, end: int, unraisable: list) -> None:
    k, uid = op["k"], op["u"]
    w = world.W
    injected = [f for f in cx.spec.get("faults", ()) if f["op"] == uid and f.get("fired") and f["act"] == "raise"]
    io = [f for f in cx.spec.get("faults", ()) if f["op"] == uid and f.get("fired") and f["act"] in ("errno", "short")]
    if k == "new":
        if exc is None:
            cx.parsers[op["p"]] = value
            cx.options[op["p"]] = bool(op.get("ln"))
        cx.history.append([uid, start, end, "new" if exc is None else canon.digest(canon.error(exc))])
        if exc is not None:
            if injected and chain_has(exc, "injected by the simulator"):
                return
            if io and op.get("may_fail"):
                return
            cx.bad("construct", uid, f"constructing a parser failed: {canon.short(canon.error(exc))}")
        elif injected and not issubclass(world.EXCS[injected[-1]["exc"]], Exception) and not unraisable:
            cx.bad("swallowed", uid, f"{injected[-1]['exc']} thrown into the constructor never reached the caller")
        return
    got = canon.outcome(value, exc)
    cx.history.append([uid, start, end, canon.digest(normal_file(got, cx))])
    if injected:
        if exc is not None and chain_has(exc, "injected by the simulator"):
            return
        if exc is None and not unraisable:
            cx.bad("swallowed", uid, f"{injected[-1]['exc']} thrown into the call never reached the caller, "
                                     f"which got {canon.short(got)}")
            return
        if exc is not None and not unraisable:
            cx.bad("swallowed", uid, f"{injected[-1]['exc']} thrown into the call is not recorded in "
                                     f"{canon.short(got)}")
            return
    if k in ("parsefile", "treefile"):
        judge_file(cx, op, got, exc, start, end, io)
    else:
        want = cx.expect.get(op.get("e") or (key_of(op, cx.options[op["p"]]) if "d" in op else f"misuse|{op['how']}"))
        if want is None:
            cx.violations.append({"kind": "harness", "op": uid, "detail": "no expectation"})
        elif op.get("may_fail") and exc is not None:
            pass
        elif op.get("strip") and "ok" in got and lines_wrong(cx, op, got):
            cx.bad("lines", uid, f"{describe(op, cx)}: {lines_wrong(cx, op, got)}")
        elif got != want:
            cx.bad("outcome", uid, f"{describe(op, cx)}: {canon.diff(got, want)}")
    if exc is None and op.get("keep"):
        cx.results[uid] = (value, got)


LINES = ("s__start_line__", "s__end_line__")


def strip(o):
    if isinstance(o, dict):
        return {k: [[a, strip(b)] for a, b in v if a not in LINES] if k == "{}" else strip(v) for k, v in o.items()}
    if isinstance(o, list):
        return [strip(x) for x in o]
    return o


def lines_wrong(cx: Ctx, op: dict, got) -> str | None:
    if op["k"] != "parse":
        return None
    if cx.options[op["p"]]:
        if strip(got) == got:
            return "the result of a parser with line numbers has none"
        plain = cx.expect[f"plain|{op['d']}"]
        if strip(got) != plain:
            return "without its line numbers the result is not the plain one: " + canon.diff(strip(got), plain)
    elif strip(got) != got:
        return "the result of a parser without line numbers has some"
    return None


def describe(op: dict, cx: Ctx) -> str:
    return f"{op['k']} of document {op.get('d', op.get('f'))} with parser {op['p']} (line numbers {cx.options[op['p']]})"


def normal_file(o, cx: Ctx):
    s = json.dumps(o)
    return json.loads(s.replace(cx.env.rundir, "@")) if cx.env.rundir in s else o


def loosen(o):
    """Outcomes of file and text calls differ legitimately only in the wording of the validation error."""
    if isinstance(o, dict) and o.get("error") == "ValueError":
        return {"error": "ValueError"}
    if isinstance(o, dict) and o.get("error") == "UnicodeDecodeError":
        return {"error": "UnicodeDecodeError"}
    return o


def file_states(cx: Ctx, name: str, start: int, end: int) -> list:
    """What `name` stood for at some instant between start and end."""
    out = []
    for i, (seq, states) in enumerate(cx.fs_log):
        until = cx.fs_log[i + 1][0] if i + 1 < len(cx.fs_log) else 1 << 60
        if seq <= end and until >= start:
            s = states.get(name, "missing")
            if s not in out:
                out.append(s)
    return out


def want_for(cx: Ctx, op: dict, state):
    if state == "missing":
        return {"error": "FileNotFoundError", "errno": 2}
    if state == "dir":
        return {"error": "IsADirectoryError", "errno": 21}
    if state == "loop":
        return {"error": "OSError", "errno": 40}
    kind = "parse" if op["k"] == "parsefile" else "tree"
    return cx.expect.get(f"{kind}|{int(cx.options[op['p']])}|b{state}")


def judge_file(cx: Ctx, op: dict, got, exc, start: int, end: int, io: list) -> None:
    states = file_states(cx, op["f"], start, end)
    wants = [want_for(cx, op, s) for s in states]
    if any(x is None for x in wants):
        cx.violations.append({"kind": "harness", "op": op["u"], "detail": f"no expectation for {states}"})
        return
    g = loosen(got)
    if len(states) > 1:
        cx.pair_hits.add("file changed during the call")
    errs = [f for f in io if f["act"] == "errno" and f["errno"] != 4]
    if errs:
        # an error of the storage was reported to the call
        e = [f["errno"] for f in errs]
        if isinstance(exc, OSError) and exc.errno in e:
            return
        if any(f.get("hard") for f in errs):
            cx.bad("fault-hidden", op["u"], f"{op['k']} got errno {e} from the {errs[0].get('kind')}, but the outcome is "
                                            f"{canon.short(got)}")
            return
        if g in [loosen(x) for x in wants]:
            return
        cx.bad("fault-outcome", op["u"], f"{op['k']} got errno {e}; outcome {canon.short(got)} is neither that error nor "
                                         f"the right one")
        return
    if got.get("error") == "ValueError" and not any(str(v).startswith("->") for v in cx.fs.values()):
        # an error that is about a file is about the file of this call
        own = os.path.basename(op["f"])
        rest = got["msg"].replace(own, "")
        other = sorted(os.path.basename(n) for n in cx.fs if len(os.path.basename(n)) > 6 and os.path.basename(n) not in own and os.path.basename(n) in rest)
        if other:
            cx.bad("file-outcome", op["u"], f"{op['k']} of {op['f']} failed with a message about {other[0]}: {normal_file(got, cx)['msg'][:200]}")
            return
    if g not in [loosen(x) for x in wants]:
        cx.bad("file-outcome", op["u"], f"{op['k']} of {op['f']} (content at the time: {states}): "
                                        f"{canon.diff(g, loosen(wants[-1]))}")


def do_fs(cx: Ctx, op: dict) -> None:
    disk.L.shim_set_active(0)
    d = cx.env.rundir
    f = op["f"]
    p = os.path.join(d, f)
    try:
        do = op["do"]
        if do in ("replace", "rewrite", "create"):
            data = base64.b64decode(cx.spec["blobs"][op["c"]])
            if do == "replace":
                q = os.path.join(os.path.dirname(p), f".{os.path.basename(f)}.new")
                with open(q, "wb") as h:
                    h.write(data)
                if os.path.isdir(p) and not os.path.islink(p):
                    os.rmdir(p)
                os.replace(q, p)
                cx.fs[f] = op["c"]
            else:
                if cx.fs.get(f) == "dir":
                    os.rmdir(p)
                    cx.fs[f] = "missing"
                tgt = target(cx, f)
                if tgt is None:
                    return
                with open(os.path.join(d, tgt), "wb") as h:
                    h.write(data)
                cx.fs[tgt] = op["c"]
        elif do == "unlink":
            if cx.fs.get(f, "missing") not in ("missing", "dir"):
                os.unlink(p)
                cx.fs[f] = "missing"
        elif do == "symlink":
            if cx.fs.get(f) == "dir":
                return
            q = os.path.join(d, f".{f}.lnk")
            if os.path.islink(q):
                os.unlink(q)
            os.symlink(op["to"], q)
            os.replace(q, p)
            cx.fs[f] = "->" + op["to"]
        elif do == "mkdir":
            if cx.fs.get(f, "missing") == "missing":
                os.mkdir(p)
                cx.fs[f] = "dir"
        elif do == "chdir":
            os.makedirs(p, exist_ok=True)
            os.chdir(p)
    finally:
        disk.L.shim_set_active(1)
    log_fs(cx)


def target(cx: Ctx, f: str):
    for _ in range(8):
        s = cx.fs.get(f, "missing")
        if isinstance(s, str) and s.startswith("->"):
            f = s[2:]
        else:
            return None if s == "dir" else f
    return None


def log_fs(cx: Ctx) -> None:
    cx.tick()
    states = {}
    for f in list(cx.fs):
        g, n = f, 0
        while isinstance(cx.fs.get(g), str) and cx.fs[g].startswith("->"):
            g, n = cx.fs[g][2:], n + 1
            if n > 10:
                break
        states[f] = "loop" if n > 10 else cx.fs.get(g, "missing")
    cx.fs_log.append((cx.seq, states))


# ---- C09: what the caller does to his results ---------------------------------------------------------------------

def containers(v, seen=None):
    """Every mutable container reachable in a result, each once per place."""
    out, todo = [], [v]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            out.append(x)
            todo.extend(x.values())
        elif isinstance(x, (list, set)):
            out.append(x)
            todo.extend(x)
        elif isinstance(x, tuple):
            todo.extend(x)
        if len(out) > 200000:
            break
    return out


def do_mutate(cx: Ctx, op: dict) -> None:
    if op["r"] not in cx.results:
        cx.skipped += 1
        return
    value, _snap = cx.results[op["r"]]
    if not isinstance(value, dict):
        return
    cx.mutated.add(op["r"])
    rng = random.Random(f"mut:{op['seed']}")
    cs = containers(value)
    how = rng.randrange(5)
    if how == 0:
        victims = cs[::-1]                      # everything
    else:
        victims = [cs[rng.randrange(len(cs))] for _ in range(rng.randrange(1, 8))]
    for c in victims:
        a = rng.randrange(4)
        if isinstance(c, dict):
            if a == 0:
                c.clear()
            elif a == 1:
                c["__planted__"] = ["by the caller"]
            elif a == 2 and c:
                k = list(c)[rng.randrange(len(c))]
                c[k] = "overwritten by the caller"
            elif c:
                c.pop(list(c)[rng.randrange(len(c))])
        elif isinstance(c, list):
            if a == 0:
                c.clear()
            elif a == 1:
                c.append({"planted": "by the caller"})
            elif a == 2:
                c.reverse()
            else:
                c.insert(0, "planted by the caller")
        elif isinstance(c, set):
            c.clear()


def check_results(cx: Ctx) -> None:
    owner: dict = {}
    for uid, (value, snap) in cx.results.items():
        if uid not in cx.mutated:
            now = canon.outcome(value)
            if now != snap:
                cx.bad("changed", uid, f"a result nobody touched changed after it was returned: {canon.diff(now, snap)}")
        if not cx.spec.get("alias"):
            continue
        mine: dict = {}
        if uid in cx.mutated:
            continue
        for c in containers(value):
            if id(c) in mine:
                cx.bad("alias", uid, f"one {type(c).__name__} is in two places of the same result: {canon.short(canon.canon(c))}")
                break
            mine[id(c)] = c
        for i, c in mine.items():
            if i in owner:
                cx.bad("alias", uid, f"a {type(c).__name__} is shared by the results of ops {owner[i]} and {uid}: "
                                     f"{canon.short(canon.canon(c))}")
                break
            owner[i] = uid
    if cx.spec.get("alias") and owner:
        hit = reachable_hit(cx, owner)
        if hit:
            cx.bad("alias", hit[0], hit[1])


def roots(cx: Ctx) -> list:
    r = list(cx.parsers.values())
    for name, m in list(sys.modules.items()):
        if name == "pycep" or name.startswith("pycep."):
            r.append(m.__dict__)
    import lark
    r += [lark.Lark.__dict__, lark.Transformer.__dict__]
    return r


def reachable_hit(cx: Ctx, owner: dict):
    """Is a mutable part of a result reachable from a parser or from the library's own state?"""
    seen: set = set()
    todo = roots(cx)
    skip = {id(cx), id(cx.results), id(owner), id(cx.__dict__), id(sys.modules)}
    import types
    n = 0
    while todo and n < 400000:
        x = todo.pop()
        if id(x) in seen or id(x) in skip:
            continue
        if isinstance(x, (types.ModuleType, types.FrameType)):
            continue
        seen.add(id(x))
        n += 1
        if id(x) in owner and isinstance(x, (dict, list, set)):
            return owner[id(x)], (f"a {type(x).__name__} of this result is still held by the parser or the library: "
                                  f"{canon.short(canon.canon(x))}")
        if isinstance(x, types.FunctionType):
            todo += [x.__closure__, x.__defaults__, x.__kwdefaults__, x.__dict__]
            continue
        todo += gc.get_referents(x)
    return None


# ---- C13: forked children -----------------------------------------------------------------------------------------

def do_fork(cx: Ctx, ops: list, uid) -> None:
    cx.forks += 1
    disk.L.shim_set_active(0)
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        rep: dict = {"violations": [], "calls": 0}
        try:
            os.close(r)
            signal.alarm(40)
            world.FORKED = True
            if world.W is not None and world.W.current is not None:
                world.CHILD_IDENT = world.W.ident(world.W.current)
            world.W = None
            world.monitor_off()
            sub = Ctx(dict(cx.spec, faults=[]), cx.env)
            sub.parsers, sub.options, sub.share = cx.parsers, cx.options, cx.share
            sub.fs, sub.fs_log, sub.seq = cx.fs, cx.fs_log, cx.seq
            try:
                for op in ops:
                    try:
                        run_op(sub, op, None)
                    except world.Deadlock as e:
                        sub.bad("fork-deadlock", op["u"], f"in a forked child: {e}")
                        break
            except BaseException as e:  # noqa: BLE001
                rep["harness"] = f"fork child: {type(e).__name__}: {e}"
            rep["violations"] = sub.violations
            rep["calls"] = sub.calls
            rep["history"] = [[h[0], h[3]] for h in sub.history]
            data = json.dumps(rep).encode()
            while data:
                data = data[os.write(wfd, data):]
        finally:
            os._exit(0)
    os.close(wfd)
    data = b""
    end = real_time() + 60
    while True:
        ok, _, _ = select.select([r], [], [], 5)
        if ok:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        elif real_time() > end:
            os.kill(pid, signal.SIGKILL)
            break
    os.close(r)
    _, status = os.waitpid(pid, 0)
    disk.L.shim_set_active(1)
    if not data:
        cx.bad("fork-hang", uid, f"a child forked here did not finish its calls (wait status {status})")
        return
    rep = json.loads(data)
    if rep.get("harness"):
        cx.violations.append({"kind": "harness", "op": uid, "detail": rep["harness"]})
    for v in rep["violations"]:
        if v["kind"] == "harness":
            cx.violations.append(v)
            continue
        cx.bad("fork-" + v["kind"] if not v["kind"].startswith("fork") else v["kind"], v["op"], "in a forked child: " + v["detail"])
    cx.calls += rep["calls"]
    cx.history += [[u, 0, 0, d] for u, d in rep.get("history", ())]


# ---- the run ------------------------------------------------------------------------------------------------------

def execute(spec: dict, env) -> dict:
    cx = Ctx(spec, env)
    os.makedirs(env.rundir, exist_ok=True)
    os.chdir(env.rundir)
    sys.unraisablehook = lambda a: cx.unraisable.append(type(a.exc_value).__name__)
    if spec.get("app"):
        state.application(spec["app"])
        if spec["app"].get("cwd"):
            os.makedirs("away", exist_ok=True)
            os.chdir("away")
    base_fds = disk.real_fds()
    if spec.get("clock"):
        disk.clock(*spec["clock"])
    disk.L.shim_random(1, spec.get("seed", 1))
    for p in spec["parsers"]:
        if p["src"] == "new":
            cx.parsers[p["id"]] = env.BicepParser(add_line_numbers=p["ln"], cache=p.get("cache", True))
        else:
            cx.parsers[p["id"]] = env.stock[p["src"]]
        cx.options[p["id"]] = bool(p["ln"])
    if spec.get("deep"):
        os.makedirs("deep/dir")
        os.symlink("deep/dir", "lnk")
    for f, st in spec.get("fs0", {}).items():
        p = os.path.join(env.rundir, f)
        if isinstance(st, int):
            with open(p, "wb") as h:
                h.write(base64.b64decode(spec["blobs"][st]))
        elif st == "dir":
            os.mkdir(p)
        elif st.startswith("->"):
            os.symlink(st[2:], p)
        cx.fs[f] = st
    log_fs(cx)
    sched = spec["sched"]
    w = world.World(sched, spec.get("faults", []), spec.get("trace"))
    if sched.get("recursion"):
        sys.setrecursionlimit(sched["recursion"])

    def nest(t, f):
        for op in f["ops"]:
            try:
                run_op(cx, op, t, depth=1)
            except world.Deadlock as e:
                cx.bad("deadlock", op["u"], f"in a call nested in op {f['op']}: {e}")

    w.on_nest = nest
    w.on_fork = lambda t, f: do_fork(cx, f["ops"], f["op"])

    def body(ops):
        def go(t):
            for op in ops:
                run_op(cx, op, t)
        return go
    for i, task in enumerate(spec["tasks"]):
        w.add(f"T{i}", body(task["ops"]))

    def syscall(name, path, fd, n, flags):
        ww = world.W
        if ww is None:
            return 0
        t = ww.current
        if t is None or t.op is None or t.nested:
            return 0
        hit = ww.syscall(t, name)
        if hit is None:
            return 0
        kind = hit.get("kind", hit["act"])
        ops = hit.get("names")
        if (ops and name not in ops) or hit.get("skip", 0) > 0:
            if name in (ops or [name]):
                hit["skip"] -= 1
            t.faults_s.insert(0, hit)           # wait for the next call of that kind
            hit["at"] = t.s + 1
            return 0
        if hit.get("sticky"):
            t.faults_s.insert(0, hit)
            hit["at"] = t.s + 1
        ww.fired[f"{name} {kind}"] = ww.fired.get(f"{name} {kind}", 0) + 1
        hit["fired"] = True
        hit["kind_hit"] = name
        ww.log.append([t.op, "s", t.s, f"{name} {kind}"])
        if hit["act"] == "errno":
            if hit.get("times", 1) > 1:
                hit["times"] -= 1
                hit["at"] = t.s + 1
                t.faults_s.insert(0, hit)
            return hit["errno"]
        return -(hit["n"] + 1)

    for op in spec.get("before", ()):
        run_op(cx, op, None)
    disk.watch(env.rundir)
    if spec.get("stat_freeze"):
        disk.L.shim_stat_freeze(spec["stat_freeze"])
    disk.on(syscall)
    codes = ()
    if sched.get("instructions"):
        codes = [c for c in env.codes if c.co_name in sched["instructions"]]
    if sched.get("monitor", True):
        world.monitor(True, sched.get("interrupts", False), codes, sched.get("coarse", False))
    if spec.get("state"):
        cx.watch = state.Watch(cx.bad)
        cx.watch.active = 1
        w.watch = lambda t: cx.watch.check(False, t.op, "as another thread gets its turn")
    w.run()
    world.monitor_off()
    disk.off()
    if cx.watch is not None:
        cx.watch.active = 0
        left = [t.name for t in w.tasks if not t.primary and t.state != "done"]
        if left:
            cx.bad("state", None, f"threads left behind: {left}")
    else:
        sys.setrecursionlimit(1000)
    if w.deadlock:
        cx.bad("deadlock", None, w.deadlock)
    if w.overrun:
        cx.bad("overrun", None, w.overrun)
    if w.blocked_at_release:
        cx.bad("blocked", None, "could not go on although only a stalled thread was in the way: " + "; ".join(w.blocked_at_release))
    if not w.deadlock and not w.overrun:
        try:
            for op in spec.get("after", ()):
                run_op(cx, op, None)
        except world.Deadlock as e:
            cx.bad("deadlock", op["u"], f"a later call: {e}")
        check_results(cx)
        if cx.watch is not None:
            try:
                left = os.waitpid(-1, os.WNOHANG)
                cx.bad("state", None, f"a child process was left behind: {left}")
            except ChildProcessError:
                pass
        if spec.get("check_fds"):
            gc.collect()
            left = disk.open_fds()
            extra = disk.real_fds() - base_fds
            if left or extra:
                cx.bad("fd-leak", None, f"descriptors still open after every call returned: {sorted(set(left) | extra)}")
    harness = [v["detail"] for v in cx.violations if v["kind"] == "harness"]
    if w.harness_error:
        harness.append(w.harness_error)
    if disk.failure:
        harness.append(disk.failure)
    return {
        "violations": [v for v in cx.violations if v["kind"] != "harness"],
        "harness": harness,
        "trace": w.decisions,
        "fired": w.fired,
        "switches": w.switches,
        "sig": w.sig,
        "calls": cx.calls,
        "overlap": cx.overlap,
        "skipped": cx.skipped,
        "probes": sorted(cx.pair_hits),
        "history": canon.digest([sorted(cx.history, key=str), w.log, w.decisions]),
        "steps": sum(t.total for t in w.tasks),
        "sim_ns": disk.mono() - spec["clock"][1] * 10 ** 9 if spec.get("clock") else 0,
        "forks": cx.forks,
        "released": w.released,
    }
