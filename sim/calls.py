"""Requests other than whole runs: baselines and single-process measurements."""

from __future__ import annotations

import sys

from sim import canon, concert, world


def register(handlers: dict) -> None:
    from sim import torn
    from sim import boots, exhaust, imports, leak
    handlers["exhaust"] = exhaust.execute
    handlers["ample"] = exhaust.ample
    handlers["leak"] = leak.execute
    handlers["imports"] = imports.execute
    handlers["torn"] = torn.execute
    handlers["fingerprint"] = boots.fingerprint


def info(spec: dict, env) -> dict:
    return {"codes": [c.co_name for c in env.codes], "python": sys.version}


def base(spec: dict, env) -> dict:
    """The outcome of one call made alone by a new parser in a process that never made another call."""
    import signal
    signal.alarm(10 if spec.get("count") else 5)        # ends this process; the driver then drops the document
    cx = concert.Ctx({"docs": [spec.get("text", "")]}, env)
    op = dict(spec["op"])
    if "d" in op:
        op["d"] = 0
    cx.parsers[0] = env.stock["N"]
    op["p"] = 0
    w = world.World({"policy": "none"}, [])
    w.marks = [] if spec.get('count') else None
    got = []

    def go(t):
        for n in (1, 2):
            w.begin(t, n)
            value, exc = concert.do_call(cx, op)
            got.append([t.n, t.pn, t.i, t.c, w.marks])
            w.end(t)
            got.append(canon.outcome(value, exc))
            if w.marks is None:
                break
            w.marks = []                        # the second time everything built on demand is there
    w.add("T0", go)
    if spec.get("count"):
        world.monitor(True, True)
    w.run()
    world.monitor_off()
    if w.harness_error:
        return {"harness": [w.harness_error]}
    if w.marks is None:
        return {"outcome": got[1]}
    first, again = got[0], got[2] if len(got) > 2 else got[0]
    return {"outcome": got[1], "cold": measured(first), "warm": measured(again)}


def measured(got: list) -> dict:
    n, pn, i, c, marks = got
    by: dict = {}
    for m in marks:
        by.setdefault(m[3], []).append(m)
    some = []
    for name in sorted(by):                     # some of every function
        ms = by[name]
        step = max(1, len(ms) / 12)
        some += [ms[int(k * step)] for k in range(int(len(ms) / step))]
    step = max(1, len(marks) / 200)
    even = [marks[int(k * step)] for k in range(int(len(marks) / step))]
    return {"n": n, "pn": pn, "i": i, "c": c, "marks": even, "each": some, "names": sorted(by)}
