"""C13  Parsers keep working in forked children."""

from sim import plainfork
from sim.check import Check
from sim.plan import Builder


class CHECK(Check):
    id = "C13"
    title = "Parsers keep working in forked children"
    rule = ("1-4 threads make calls; processes are forked between the calls and at seeded points inside them, while other threads are "
            "in the middle of theirs; children use old parsers, construct new ones, fork again; all outcomes are compared with "
            "baselines in parent and children, a lock that no living thread can release counts as a hang; non-trivial: a child made "
            "a call; distinct by hash of history and decisions")

    def smoke(self, scratch):
        return plainfork.check(scratch, self.seed)

    def interesting(self, spec, rep):
        return rep.get("forks", 0) > 0

    def signature(self, spec, rep):
        return rep["history"]

    def kids(self, b, shared, depth=0):
        ops = []
        for _ in range(b.pick([1, 1, 2, 3])):
            r = b.rng.random()
            if r < 0.15:
                pid = f"C{b.n}"
                ln = b.p(0.5)
                ops.append({"u": b.uid(), "k": "new", "p": pid, "ln": ln, "cache": True})
                b.ln[pid] = ln
                ops.append(b.call(pid))
            elif r < 0.25:
                ops.append(b.file_call("f.bicep", p=b.pick(shared)))
            elif r < 0.32 and depth == 0:
                ops.append({"u": b.uid(), "k": "fork", "ops": self.kids(b, shared, 1)})
            else:
                ops.append(b.call(b.pick(shared)))
        return ops

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        b.documents(rng.randrange(1, 4), sizes=b.pick([("nano",), ("nano", "tiny"), ("nano", "tiny"), ("tiny", "small"), ("nano", "catalog")]))
        if idx % 7 == 3:
            return self.cold(b)
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["P1"], ["P0", "P1"], ["U0", "W1"]]))
        shared = sorted(b.ln)
        fs0 = {"f.bicep": b.blob()}
        tasks = []
        for i in range(b.pick([1, 2, 2, 3, 4, 12])):
            ops = []
            for _ in range(b.pick([1, 1, 2, 3])):
                r = rng.random()
                if r < 0.08:
                    pid = f"T{i}x{b.n}"
                    b.ln[pid] = b.p(0.5)
                    ops.append({"u": b.uid(), "k": "new", "p": pid, "ln": b.ln[pid], "cache": True})
                elif r < 0.18:
                    ops.append({"u": b.uid(), "k": "fork", "ops": self.kids(b, shared)})
                elif r < 0.3:
                    ops.append(b.file_call("f.bicep", p=b.pick(shared)))
                else:
                    ops.append(b.call(b.pick(shared)))
            tasks.append(ops)
        calls = [o for t in tasks for o in t if o["k"] != "fork"]
        for _ in range(b.pick([1, 1, 2, 3])):
            if calls:
                op = b.pick(calls)
                on = "s" if op["k"].endswith("file") and b.p(0.5) else "n"
                b.faults.append({"op": op["u"], "on": on, "at": rng.randrange(1, 6) if on == "s" else b.at_line(op), "act": "fork",
                                 "kind": "forked inside a call", "ops": self.kids(b, shared)})
        after = [b.call(p) for p in shared]
        sched = b.schedule(calls, self.codes)
        return b.spec(tasks, sched=sched, after=after, fs0=fs0)

    def cold(self, b):
        """Forked while the first parsers of the process are being made."""
        tasks = b.cold(b.pick([1, 2, 2, 3]))
        ops = [o for t in tasks for o in t]
        made = [o["p"] for o in ops if o["k"] == "new"]
        after = [b.call(p) for p in made]
        for _ in range(b.pick([1, 1, 2])):
            op = b.pick([o for o in ops if o["k"] == "new"]) if b.p(0.7) else b.pick(ops)
            on = "s" if op["k"] == "new" and b.p(0.3) else "n"
            kids = []
            for _ in range(b.pick([1, 1, 2])):
                p = f"C{b.n}"
                b.ln[p] = b.p(0.5)
                kids += [{"u": b.uid(), "k": "new", "p": p, "ln": b.ln[p], "cache": True}, b.call(p)]
            b.faults.append({"op": op["u"], "on": on, "at": b.rng.randrange(1, 20) if on == "s" else b.at_new() if op["k"] == "new" else b.at_line(op),
                             "act": "fork", "kind": "forked inside a constructor" if op["k"] == "new" else "forked inside a call", "ops": kids})
        return b.spec(tasks, sched=b.schedule(ops, self.codes), after=after, image="A")
