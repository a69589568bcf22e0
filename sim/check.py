"""What all checks share: running a plan, deciding, confirming, minimising, replaying."""

from __future__ import annotations

import copy
import hashlib
import json
import random
import time

from sim import plan as planning
from sim.driver import HarnessError


class Check:
    id = ""
    title = ""
    level = "exploration"
    image = "B"
    quick_runs = 100000         # upper bounds; the time budget usually comes first
    thorough_runs = 10 ** 7
    quick_s = 80
    thorough_s = 900
    run_timeout = 60
    rule = ""
    real = "pycep, lark, regex, CPython"
    stub = "thread scheduler, locks, clock, sleep, randomness; faults at system calls"
    kinds: tuple | None = None          # violation kinds that are this property's; None: all

    def __init__(self, seed: int, tier: str) -> None:
        self.seed = seed
        self.tier = tier
        self.codes: list = []

    # -- to be defined by each check
    def plan(self, rng: random.Random, z, idx: int) -> dict | None:
        raise NotImplementedError

    def prepare(self, z) -> None:
        self.codes = z.request("B", {"t": "info"}, timeout=120)["codes"]

    def smoke(self, scratch: str) -> dict | None:
        """A violation that the simulator itself could not survive, or None."""
        return None

    def reproduce_finding(self, finding: dict, scratch: str) -> bool:
        """Does the recorded history of a known finding still break the property?"""
        return False

    def attach(self, spec: dict, z) -> bool:
        return planning.attach(spec, z)

    # -- running
    def run(self, spec: dict, z, trace=None) -> dict:
        """One run of `spec`: {"violations": [...], ...}.  Raises HarnessError if the simulator is at fault."""
        s = dict(spec)
        if trace is not None:
            s["trace"] = trace
        s["rundir"] = z.rundir
        z.clean()
        rep = z.request(spec.get("image") or self.image, s, timeout=self.run_timeout)
        if rep.get("harness"):
            raise HarnessError(json.dumps(rep["harness"])[:3000])
        if rep.get("hang"):
            return {"violations": [{"kind": "hang", "op": None, "detail": f"the calls did not finish within "
                                    f"{self.run_timeout} s (they take well under one)"}], "hang": True, "trace": trace or []}
        if "died" in rep:
            return {"violations": [{"kind": "crash", "op": None, "detail": f"the process died with wait status "
                                    f"{rep['died']}"}], "died": rep["died"], "trace": trace or []}
        if self.kinds is not None:
            rep["violations"] = [v for v in rep["violations"] if v["kind"] in self.kinds]
        return rep

    def interesting(self, spec: dict, rep: dict) -> bool:
        return bool(rep.get("fired")) or rep.get("switches", 0) > len(spec.get("tasks", ()))

    def signature(self, spec: dict, rep: dict) -> str:
        return f"{rep.get('sig', 0):x}.{rep.get('history', '')}"

    # -- minimising
    def shrinks(self, spec: dict, trace: list):
        """Smaller (spec, trace) candidates, the boldest first."""
        tasks = spec["tasks"]
        if trace:
            yield spec, []
            n = len(trace)
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    yield spec, trace[:i] + trace[i + size:]
                size //= 2
        if len(tasks) > 1:
            for i in range(len(tasks)):
                s = dict(spec)
                s["tasks"] = [dict(t, ops=[]) if j == i else t for j, t in enumerate(tasks)]
                if tasks[i]["ops"]:
                    yield s, trace
        if spec.get("faults"):
            for i in range(len(spec["faults"])):
                s = dict(spec)
                s["faults"] = spec["faults"][:i] + spec["faults"][i + 1:]
                yield s, trace
        if spec.get("before"):
            for part in chop(spec["before"]):
                yield dict(spec, before=part), trace
        if spec.get("after"):
            yield dict(spec, after=[]), trace
            for part in chop(spec["after"]):
                yield dict(spec, after=part), trace
        for i, t in enumerate(tasks):
            for part in chop(t["ops"]):
                s = dict(spec)
                s["tasks"] = [dict(x, ops=part) if j == i else x for j, x in enumerate(tasks)]
                yield s, trace
        for i, t in enumerate(tasks):
            for j, op in enumerate(t["ops"]):
                if op["k"] == "fork":
                    for part in chop(op["ops"]):
                        s = copy.deepcopy(spec)
                        s["tasks"][i]["ops"][j]["ops"] = part
                        yield s, trace
        for i, f in enumerate(spec.get("faults", ())):
            if len(f.get("ops", ())) > 1:
                for part in chop(f["ops"]):
                    s = copy.deepcopy(spec)
                    s["faults"][i]["ops"] = part
                    yield s, trace
        used = {op["d"] for op in planning.all_ops(spec) if "d" in op}
        for d in used:
            chunks = spec["chunks"][d]
            if len(chunks) > 1:
                for part in chop(chunks):
                    if part:
                        s = dict(spec)
                        s["chunks"] = [part if j == d else c for j, c in enumerate(spec["chunks"])]
                        s["docs"] = ["".join(part) if j == d else t for j, t in enumerate(spec["docs"])]
                        yield s, trace

    def minimise(self, spec: dict, trace: list, violation: dict, z, budget: float):
        end = time.monotonic() + budget
        tried = 0

        def fails(s, t):
            nonlocal tried
            tried += 1
            s = copy.deepcopy(s)
            if not self.attach(s, z):
                return None
            rep = self.run(s, z, t)
            v = next((x for x in rep["violations"] if x["kind"] == violation["kind"]), None)
            return (s, rep, v) if v else None
        best = (spec, trace, violation, None)
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for s, t in self.shrinks(best[0], best[1]):
                if time.monotonic() > end:
                    break
                try:
                    hit = fails(s, t)
                except HarnessError:
                    hit = None
                if hit:
                    # decisions that were not taken in this run are dropped
                    made = {(json.dumps(d[:3])) for d in hit[1].get("trace", [])}
                    t2 = [d for d in t if json.dumps(d[:3]) in made]
                    best = (hit[0], t2, hit[2], hit[1])
                    progress = True
                    break
        return best[0], best[1], best[2], tried

    def tidy(self, spec: dict) -> dict:
        """Leave out of a replay file what the run does not use."""
        s = copy.deepcopy(spec)
        s.pop("expect", None)
        s.pop("rundir", None)
        if "chunks" in s and "tasks" in s:
            used = {op["d"] for op in planning.all_ops(s) if "d" in op}
            for i in range(len(s["docs"])):
                if i not in used:
                    s["docs"][i] = ""
                    s["chunks"][i] = []
        for f in s.get("faults", ()):
            f.pop("fired", None)
        return s


def chop(seq: list):
    n = len(seq)
    if n == 0:
        return
    size = n
    while size >= 1:
        for i in range(0, n, size):
            rest = seq[:i] + seq[i + size:]
            yield rest
        size //= 2


def rng_for(check: str, seed: int, idx: int) -> random.Random:
    return random.Random(f"{check}:{seed}:{idx}")


def spec_digest(spec: dict) -> str:
    return hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]
