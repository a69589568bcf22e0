"""C11  Options bind to their own parser only."""

from sim.check import Check
from sim.plan import Builder


class CHECK(Check):
    id = "C11"
    title = "Options bind to their own parser only"
    rule = ("1-4 threads construct and use parsers with and without line numbers in seeded order, overlapping and nested; line numbers "
            "must be in exactly the results of the parsers made with them, and without them the result must be the plain one; parse "
            "and create_tree alternate on one parser; non-trivial: parsers of both kinds or both methods used; distinct by hash of "
            "history and decisions")

    def interesting(self, spec, rep):
        return rep.get("calls", 0) >= 2

    def signature(self, spec, rep):
        return rep["history"]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        b.documents(rng.randrange(1, 4), sizes=b.pick([("nano",), ("nano", "tiny"), ("tiny", "small"), ("small", "medium"), ("nano", "catalog")]))
        if idx % 7 == 3:
            tasks = b.cold(b.pick([1, 2, 2, 3]))
            for t in tasks:
                for op in t:
                    if op["k"] != "new":
                        op["strip"] = True
            ops = [o for t in tasks for o in t]
            after = [b.call(o["p"], strip=True) for o in ops if o["k"] == "new"]
            sched = b.schedule(ops, self.codes) if len(tasks) > 1 else {"policy": "none", "monitor": False}
            return b.spec(tasks, sched=sched, after=after, image="A")
        b.stock(*b.pick([["P0", "P1"], ["W0", "W1"], ["W0", "P1"], ["P0", "W1"], ["U0", "P1"]]))
        shared = sorted(b.ln)
        tasks = []
        n = 0
        for i in range(b.pick([1, 1, 2, 2, 3, 4])):
            ops, mine = [], []
            for _ in range(b.pick([2, 3, 4, 6])):
                if b.p(0.2):
                    pid = f"T{i}x{n}"
                    n += 1
                    b.ln[pid] = b.p(0.5)
                    mine.append(pid)
                    op = {"u": b.uid(), "k": "new", "p": pid, "cache": b.p(0.995)}
                    if b.ln[pid] or b.p(0.5):
                        op["ln"] = b.ln[pid]
                    ops.append(op)
                ops.append(b.call(b.pick(mine) if mine and b.p(0.6) else b.pick(shared), strip=True))
            tasks.append(ops)
        for t in tasks:
            for op in t:
                if op["k"] != "new" and b.p(0.25):
                    other = [p for p in shared if b.ln[p] != b.ln[op["p"]]]
                    b.faults.append({"op": op["u"], "on": "n", "at": b.at_line(op), "act": "nest", "kind": "nested call",
                                     "ops": [b.call(b.pick(other), strip=True)]})
        after = [b.call(p, strip=True) for p in shared]
        ops = [o for t in tasks for o in t]
        sched = b.schedule(ops, self.codes) if len(tasks) > 1 else {"policy": "none", "coarse": b.coarse, "monitor": bool(b.faults)}
        return b.spec(tasks, sched=sched, after=after)
