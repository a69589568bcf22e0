"""C09  Results belong to the caller."""

from sim.check import Check
from sim.plan import Builder


class CHECK(Check):
    id = "C09"
    title = "Results belong to the caller"
    rule = ("1-4 threads keep, modify (clear, pop, overwrite, append, everywhere or in places) and drop their results between and "
            "during calls of other threads and of calls nested in a running one; untouched results are compared with their snapshot, "
            "later outcomes with baselines, and the object graph is searched for mutable objects shared between results or held "
            "by parsers or modules; non-trivial: two results or more; distinct by hash of history and decisions")

    def interesting(self, spec, rep):
        return rep.get("calls", 0) >= 2

    def signature(self, spec, rep):
        return rep["history"]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        big = b.p(0.012)
        b.documents(1, sizes=("large",)) if big else b.documents(rng.randrange(1, 5), sizes=b.pick([("nano",), ("nano", "tiny"), ("tiny", "small"), ("small", "medium"), ("medium",), ("catalog",)]), relatives=0.4,
                    ok=b.p(0.8))
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["P1"], ["U0", "W1"], ["W1"]]))
        tasks = []
        done = []
        multi = 1 if big else b.pick([1, 1, 2, 3, 4])
        for _ in range(multi):
            ops = []
            for _ in range(b.pick([2, 3, 5, 8, 12] if multi == 1 else [1, 2, 3, 4])):
                op = b.call(keep=True, tree=0.05)
                ops.append(op)
                done.append(op["u"])
                if b.p(0.5):
                    ops.append(self.touch(b, done))
            tasks.append(ops)
        if multi > 1:
            tasks.append([self.touch(b, done) for _ in range(rng.randrange(1, 8))])
        for t in list(tasks):
            for op in t:
                if not big and op["k"] in ("parse", "tree") and b.p(0.15):
                    b.faults.append({"op": op["u"], "on": "n", "at": b.at_line(op), "act": "nest", "kind": "result modified inside a call",
                                     "ops": [self.touch(b, done), b.call(keep=True)][: rng.randrange(1, 3)]})
        after = []
        for _ in range(b.pick([1, 2, 3])):
            after += [self.touch(b, done), b.call(keep=True)]
        ops = [o for t in tasks for o in t]
        sched = b.schedule(ops, self.codes) if multi > 1 else {"policy": "none", "coarse": b.coarse, "monitor": bool(b.faults)}
        return b.spec(tasks, sched=sched, after=after, alias=True)

    def touch(self, b, done):
        r = b.pick(done[-6:] if b.p(0.7) else done)
        return {"u": b.uid(), "k": "drop" if b.p(0.12) else "mutate", "r": r, "seed": b.rng.randrange(1 << 30)}
