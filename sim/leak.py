"""A long life of one parser: rounds of calls that succeed, fail, are interrupted or meet read errors, each on a text of
its own, measured after every round."""

from __future__ import annotations

import ctypes
import gc
import os
import re
import sys
import types
from pathlib import Path

from sim import canon, disk, world

SLACK_BLOCKS = 0.5      # per call and round
SLACK_BYTES = 100
NAME_BLOCKS = 1         # for the interned name of a file


# names of every kind, which nothing has a reason to remember
TAGGED = """
@deco{0}()
param p{0} type{0} = other{0}(1)
resource r{0} 'Ns{0}/t{0}@2020-{0}' = {{
  name: 'n{0}'
  k{0}: [v{0}.q{0}]
  resource c{0} 'k{0}' = {{
    name: 'x{0}'
  }}
}}
module m{0} 'br/al{0}:path{0}:v{0}' = {{}}
module n{0} './d{0}.bicep' = {{}}
import {{n{0}}} from 'f{0}.bicep'
extension e{0}
metadata k{0} = 'v{0}'
func f{0}(a{0} string) string => '${{a{0}}}'
type t{0} = {{
  a{0}: string
}}
output o{0} array = [for i{0} in l{0}: i{0}]
var b{0} = a{0}.list{0}(y{0}) ?? '''
{0}
'''
"""
LONGER = 1500           # calls, after which what is bounded is full


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks",
                                               "fordblks", "keepcost")]


mallinfo2 = ctypes.CDLL(None).mallinfo2
mallinfo2.restype = Mallinfo2


def memory() -> tuple:
    m = mallinfo2()
    return sys.getallocatedblocks(), m.uordblks + m.hblkhd


def unique(text: str, old: str, r: int, i: int) -> tuple:
    """The text with its document tag replaced by one that no other text has."""
    tag = f"zu{r}x{i}y"
    return f"// {tag}\n" + text.replace(old, tag), tag


def execute(spec: dict, env) -> dict:
    os.makedirs(env.rundir, exist_ok=True)
    os.chdir(env.rundir)
    gc.unfreeze()
    rep: dict = {"violations": [], "calls": 0, "fired": {}, "probes": [], "counts": {}}
    unraisable: list = []
    sys.unraisablehook = lambda a: unraisable.append(1)
    parsers = []
    for p in spec["parsers"]:
        parsers.append(env.BicepParser(add_line_numbers=p["ln"], cache=True) if p["src"] == "new" else env.stock[p["src"]])
    disk.L.shim_random(1, 1)
    disk.clock(1_700_000_000, 1000)
    docs = spec["docs"]
    fault: dict = {}

    def syscall(name, path, fd, n, flags):
        if fault.get("errno") and name == fault["name"]:
            fault["n"] -= 1
            if fault["n"] < 0:
                rep["fired"][f"{name} error"] = rep["fired"].get(f"{name} error", 0) + 1
                e, fault["errno"] = fault["errno"], 0
                return e
        return 0
    disk.watch(env.rundir)
    deltas = []
    tags: list = []

    def one(c: dict, r: int, i: int, t) -> None:
        k = c["k"]
        p = env.BicepParser(add_line_numbers=spec["parsers"][c["p"]]["ln"]) if c.get("fresh") else parsers[c["p"]]
        text, tag = unique(*docs[c["d"]], r, i)
        if c.get("names"):
            text += TAGGED.format(tag)
        tags.append(tag)
        fn = p.parse if k.startswith("parse") else p.create_tree
        rep["calls"] += 1
        if t is not None:
            world.W.begin(t, f"{r}.{i}")
        try:
            if k.endswith("file"):
                disk.L.shim_set_active(0)
                # CPython 3.12 never frees the interned parts of a path
                path = Path(env.rundir) / (f"f{r}x{i}.bicep" if spec.get("names") else "f.bicep")
                path.write_text(text, encoding="utf-8")
                disk.L.shim_set_active(1)
                fault.clear()
                fault.update(c.get("io", {}))
                try:
                    fn(file_path=path)
                finally:
                    fault.clear()
                    disk.L.shim_set_active(0)
                    os.unlink(path)
            else:
                fn(text=text)
            how = "ok"
        except BaseException as e:  # noqa: BLE001
            how = type(e).__name__
        if t is not None:
            world.W.end(t)
        rep["counts"][how] = rep["counts"].get(how, 0) + 1

    calls = spec["calls"]
    disk.on(syscall)
    disk.L.shim_set_active(0)
    n = len(calls)
    named = sum(c["k"].endswith("file") for c in calls) if spec.get("names") else 0
    rep["named"] = named
    rounds, longer, r = spec["rounds"], max(spec["rounds"] + 6, LONGER // n + 6), -1
    while True:
        r += 1
        if r == rounds:
            # what grows may be bounded all the same: then it is full after many more calls
            if not growth(deltas[spec["warm"]:], n, named) or rounds == longer:
                break
            rounds = longer
        faults = []
        for i, c in enumerate(calls):
            if "at" in c:
                faults.append({"op": f"{r}.{i}", "on": "i", "at": c["at"] + (7 * r * c.get("walk", 0)), "act": "raise", "exc": c["exc"], "kind": c["exc"]})
        if spec["threads"]:
            # every call in a thread of its own, some of them overlapping
            w = world.World(dict(spec["sched"], seed=spec["sched"].get("seed", 0) + r), faults, None)
            for i, c in enumerate(calls):
                w.add(f"T{i}", (lambda c, i: lambda t: one(c, r, i, t))(c, i))
        else:
            w = world.World({"policy": "none"}, faults, None)
            w.add("T0", lambda t: [one(c, r, i, t) for i, c in enumerate(calls)])
        if faults or spec["threads"]:
            world.monitor(True, bool(faults), (), spec["threads"] and not faults)
        w.run()
        world.monitor_off()
        for k, n in w.fired.items():
            rep["fired"][k] = rep["fired"].get(k, 0) + n
        if w.harness_error:
            return {"harness": [w.harness_error], "violations": []}
        if w.deadlock:
            rep["violations"].append({"kind": "deadlock", "op": r, "detail": w.deadlock})
            return rep
        w.tasks.clear()
        w.faults.clear()
        del w
        if r in (0, rounds - 1):
            wait_for_threads()
            kept = keepers(tags)
            if kept:
                rep["violations"].append({"kind": "kept", "op": 0, "detail": kept})
        tags.clear()
        wait_for_threads()
        for _ in range(3):
            gc.collect()
        sys._clear_type_cache()         # the interpreter's own cache of attribute names, which fills slowly
        deltas.append(memory())
    disk.off()
    rep["deltas"] = [[b[i] - a[i] for a, b in zip(deltas, deltas[1:])] for i in (0, 1)]
    grown = growth(deltas[max(spec["warm"], len(deltas) - 6):], n, named)
    if grown:
        rep["violations"].append({"kind": "grows", "op": None, "detail": grown})
    if disk.failure:
        rep["harness"] = [disk.failure]
    rep["history"] = canon.digest([rep["counts"], spec["calls"]])
    rep["steps"] = rep["calls"]
    return rep


def growth(deltas: list, n: int, named: int) -> str | None:
    """Did every one of these rounds leave memory behind?"""
    blocks, size = ([b[i] - a[i] for a, b in zip(deltas, deltas[1:])] for i in (0, 1))
    if min(blocks) > SLACK_BLOCKS * n + 6 + named * NAME_BLOCKS:         # measuring takes 4 blocks itself
        return (f"every round of {n} calls leaves memory behind: {blocks} blocks in the last {len(blocks)} rounds "
                f"({size} bytes outside the small-object allocator)")
    if min(size) > SLACK_BYTES * (n + named) + 1000:
        return f"every round of {n} calls leaves {size} bytes behind (large allocations)"
    return None


def wait_for_threads() -> None:
    import _thread
    import select
    for _ in range(2000):
        if _thread._count() == 0:
            return
        select.select([], [], [], 0.001)


def keepers(tags: list) -> str | None:
    """Does any object still hold the text or the result of a call that is over?"""
    gc.collect()
    gc.collect()
    me = {id(tags), id(sys._getframe()), id(sys._getframe().f_locals)}
    pat = re.compile(r"zu\d+x\d+y")
    for o in gc.get_objects():
        if id(o) in me or type(o) in (types.FrameType, types.CodeType):
            continue
        big = None
        hits = 0
        for x in gc.get_referents(o):
            if isinstance(x, str) and len(x) >= 5 and "zu" in x and pat.search(x):
                hits += 1
                if len(x) > 60 and x.count("\n") or len(x) > 200:
                    big = x
        if big is not None and o is not tags:
            return f"a {type(o).__name__} still holds the text of a finished call: {canon.short(str.__str__(big), 120)}"
        if hits and o is not tags:
            if type(o) is dict and any(isinstance(v, (dict, list)) for v in o.values()) and any(isinstance(k, str) and pat.search(k) for k in o):
                return f"a part of the result of a finished call is still alive: {canon.short(canon.canon(o), 160)}"
            if type(o).__name__ == "Tree" or (isinstance(o, list) and any(type(x).__name__ in ("Tree", "Token", "BicepElement") for x in o)):
                return f"a part of the parse tree or the result of a finished call is still alive: {canon.short(repr(o)[:160])}"
    return None
