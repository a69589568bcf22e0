"""C01  Overlapping calls on parsers never affect each other."""

from sim.check import Check
from sim.plan import Builder


class CHECK(Check):
    id = "C01"
    title = "Overlapping calls on parsers never affect each other"
    rule = ("2-6 threads (or calls nested in a running one) parse pool documents on shared and own parsers under a seeded "
            "scheduler; non-trivial: at least one preemption or nested call; distinct by hash of the code locations switched at")

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        if idx % 3 == 1:
            return self.collide(b)
        b.documents(rng.randrange(1, 5), sizes=b.pick([("nano",), ("nano", "tiny"), ("nano", "tiny"), ("tiny", "small"), ("nano", "medium")]))
        if idx % 30 == 11:
            b.coarse = True
            b.doc(sizes=("large",), relatives=0)
        if idx % 9 == 3:
            return self.cold(b)
        if idx % 15 == 8:
            return self.crowd(b)
        b.stock(*b.pick([["P0"], ["W1"], ["W0"], ["W0", "W1"], ["P0", "P1"], ["U0", "P1"], ["W0", "P1", "U0"]]))
        shared = sorted(b.ln)
        fs0 = self.files(b) if b.p(0.3) else {}
        tasks = []
        for i in range(b.pick([1, 2, 2, 2, 3, 3, 4, 6])):
            ops = []
            own = None
            if b.p(0.12):
                own = f"T{i}p"
                b.ln[own] = b.p(0.5)
                ops.append({"u": b.uid(), "k": "new", "p": own, "ln": b.ln[own], "cache": True})
            for _ in range(b.pick([1, 1, 2, 3, 4])):
                p = own if own and b.p(0.5) else b.pick(shared)
                ops.append(b.file_call(b.pick(sorted(fs0)), p=p) if fs0 and b.p(0.6) else b.call(p))
            tasks.append(ops)
        for t in tasks:
            for op in t:
                if op["k"] != "new" and b.p(0.5 if len(tasks) == 1 else 0.15):
                    for _ in range(b.pick([1, 1, 2])):
                        b.faults.append({"op": op["u"], "on": "n", "at": b.at_line(op), "act": "nest", "kind": "nested call",
                                         "ops": [b.file_call(b.pick(sorted(fs0)), p=op["p"] if b.p(0.7) else b.pick(shared)) if fs0 and b.p(0.6)
                                                 else b.call(op["p"] if b.p(0.7) else b.pick(shared))
                                                 for _ in range(b.pick([1, 1, 2]))]})
                elif op["k"] != "new" and b.p(0.08):
                    b.faults.append({"op": op["u"], "on": "n", "at": b.at_line(op), "act": "gc", "kind": "garbage collection"})
        before = [b.call(p) for p in shared for _ in range(b.pick([0, 0, 1, 2]))]
        after = [b.call(p) for p in shared]
        ops = [o for t in tasks for o in t]
        return b.spec(tasks, sched=b.schedule(ops, self.codes), before=before, after=after, **({"fs0": fs0} if fs0 else {}))

    def files(self, b):
        """Files that nobody changes; most are no valid document, so that errors say which file they are about."""
        fs0 = {}
        for i in range(b.pick([2, 2, 3])):
            fs0[f"{b.pick(['main', 'net', 'storage', 'x'])}{i}.bicep"] = b.blob() if b.p(0.4) else b.invalid()
        return fs0

    def collide(self, b):
        """Several calls are in the same function of the library at once, again and again."""
        if b.p(0.7):
            b.documents(b.pick([1, 2, 2]), sizes=b.pick([("full",), ("full",), ("full", "catalog"), ("catalog",)]), relatives=0.3, ok=True)
        else:
            b.documents(b.pick([1, 2, 2]), sizes=b.pick([("nano",), ("tiny",), ("small",), ("medium",)]), relatives=0.6)
        b.stock(*b.pick([["W0"], ["W1"], ["W0", "W1"], ["U0"]]))
        shared = sorted(b.ln)
        fs0 = self.files(b) if b.p(0.15) else {}
        tasks = [[b.file_call(b.pick(sorted(fs0)), p=b.pick(shared)) if fs0 and b.p(0.8) else b.call(b.pick(shared), tree=0.03)
                  for _ in range(b.pick([1, 1, 2, 3]))] for _ in range(b.pick([2, 2, 2, 3, 4]))]
        sched = {"seed": b.rng.randrange(1 << 30), "coarse": b.p(0.8), "policy": "meet", "meetp": b.pick([0.003, 0.01, 0.03, 0.1, 0.3])}
        return b.spec(tasks, sched=sched, after=[b.call(p) for p in shared], **({"fs0": fs0} if fs0 else {}))

    def cold(self, b):
        tasks = b.cold(b.pick([2, 2, 3, 4]))
        for t in tasks:
            for op in t:
                if b.p(0.12):
                    p = f"nest{op['u']}"
                    b.ln[p] = b.p(0.5)
                    b.faults.append({"op": op["u"], "on": "n", "at": b.at_new() if op["k"] == "new" else b.at_line(op), "act": "nest",
                                     "kind": "nested constructor", "ops": [{"u": b.uid(), "k": "new", "p": p, "ln": b.ln[p], "cache": True}, b.call(p)]})
        ops = [o for t in tasks for o in t]
        after = [b.call(o["p"]) for o in ops if o["k"] == "new"]
        return b.spec(tasks, sched=b.schedule(ops, self.codes), after=after, image="A")

    def crowd(self, b):
        """Many calls are under way at once, so that nothing of a fixed number is enough for all of them."""
        b.stock(*b.pick([["P0"], ["W1"], ["W0"], ["W0", "W1"], ["U0", "P1"]]))
        shared = sorted(b.ln)
        while len(b.docs) < 6:
            b.doc(sizes=("nano", "tiny"))
        tasks = [[b.call(b.pick(shared)) for _ in range(b.pick([1, 1, 1, 2]))] for _ in range(b.pick([9, 12, 17, 20, 33, 40]))]
        ops = [o for t in tasks for o in t]
        sched = {"seed": b.rng.randrange(1 << 30), "coarse": b.coarse}
        if b.p(0.5):
            sched.update(policy="points", points={str(o["u"]): sorted(b.at_line(o) for _ in range(b.pick([1, 1, 2, 3]))) for o in ops})
        else:
            sched.update(policy="pycep", mean=b.pick([2, 4, 10, 30]))
        return b.spec(tasks, sched=sched, after=[b.call(p) for p in shared])
