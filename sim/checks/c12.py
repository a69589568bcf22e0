"""C12  A stalled or dead call never blocks the others."""

from sim.check import Check
from sim.plan import Builder


class CHECK(Check):
    id = "C12"
    title = "A stalled or dead call never blocks the others"
    rule = ("2-5 threads; one or two stop for good at seeded points inside a constructor, parse, create_tree or file call (stalled at a "
            "line or a file operation, or killed by an exception); every other call must finish within a step bound of many times "
            "its baseline, without waiting; then the stalled ones are resumed and must finish right; non-trivial: a thread was "
            "stalled or killed; distinct by hash of history and decisions")

    def interesting(self, spec, rep):
        return bool(rep.get("fired"))

    def signature(self, spec, rep):
        return rep["history"]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        b.documents(rng.randrange(1, 4), sizes=b.pick([("nano",), ("nano", "tiny"), ("nano", "tiny"), ("tiny", "small")]))
        if idx % 7 == 3:
            return self.cold(b)
        if idx % 11 == 5:
            return self.crowd(b)
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["P1"], ["P0", "P1"], ["U0", "W1"]]))
        shared = sorted(b.ln)
        fs0 = {"f.bicep": b.blob()}
        tasks = []
        n = 0
        sick = b.pick([1, 1, 1, 2])
        for i in range(sick + b.pick([1, 1, 2, 3])):
            ops = []
            for _ in range(b.pick([1, 1, 2, 3])):
                r = rng.random()
                if r < 0.12:
                    pid = f"T{i}x{n}"
                    n += 1
                    b.ln[pid] = b.p(0.5)
                    op = {"u": b.uid(), "k": "new", "p": pid, "ln": b.ln[pid], "cache": True, "limit": 3_000_000}
                elif r < 0.3:
                    op = b.file_call("f.bicep", p=b.pick(shared))
                    op["limit"] = 600_000
                else:
                    op = b.call(b.pick(shared))
                    op["limit"] = 100_000 + 30 * b.size(op["d"])["n"]
                ops.append(op)
            tasks.append(ops)
        die = False
        for i in range(sick):
            op = b.pick(tasks[i])
            if op["k"].endswith("file") and b.p(0.6):
                b.faults.append({"op": op["u"], "on": "s", "at": rng.randrange(1, 7), "act": "stall", "kind": "stalled in a file operation"})
            elif b.p(0.25):
                die = True
                op["die"] = True
                b.coarse = False
                b.faults.append({"op": op["u"], "on": "i", "at": b.at_interrupt(op), "act": "raise", "exc": "SystemExit",
                                 "kind": "thread killed"})
            else:
                b.faults.append({"op": op["u"], "on": "n", "at": b.at_line(op), "act": "stall", "kind": "stalled"})
        after = []
        for p in shared:
            after.append(b.call(p))
        sched = b.schedule([o for t in tasks for o in t], self.codes)
        if die:
            sched["interrupts"] = True
        sched["coarse"] = b.coarse
        return b.spec(tasks, sched=sched, after=after, fs0=fs0)

    def cold(self, b):
        """The first parsers of a process are being made, and one of the threads stops."""
        tasks = b.cold(b.pick([2, 2, 3, 4]), limit=3_000_000)
        for t in tasks:
            for op in t:
                if op["k"] != "new":
                    op["limit"] = 100_000 + 30 * b.size(op["d"])["n"]
        op = b.pick(tasks[0]) if b.p(0.4) else tasks[0][0]
        if op["k"] == "new" and b.p(0.3):
            b.faults.append({"op": op["u"], "on": "s", "at": b.rng.randrange(1, 20), "act": "stall", "kind": "constructor stalled in a file operation"})
        else:
            b.faults.append({"op": op["u"], "on": "n", "at": b.at_new() if op["k"] == "new" else b.at_line(op), "act": "stall",
                             "kind": "constructor stalled" if op["k"] == "new" else "stalled"})
        ops = [o for t in tasks for o in t]
        after = [b.call(o["p"]) for o in ops if o["k"] == "new"]
        return b.spec(tasks, sched=b.schedule(ops, self.codes), after=after, image="A")

    def crowd(self, b):
        """So many calls are stalled that nothing of a fixed number is left for the others."""
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["U0", "W1"]]))
        shared = sorted(b.ln)
        fs0 = {"f.bicep": b.blob()}
        tasks = []
        sick = b.pick([4, 8, 9, 16, 17, 32, 33, 40])
        same = b.p(0.5)                         # all of them stop in the same part of the call
        where = b.rng.random()
        for i in range(sick + b.pick([1, 1, 2, 3])):
            if b.p(0.2):
                op = b.file_call("f.bicep", p=b.pick(shared))
                op["limit"] = 600_000
            else:
                op = b.call(b.pick(shared))
                op["limit"] = 100_000 + 30 * b.size(op["d"])["n"]
            if i < sick:
                if op["k"].endswith("file") and b.p(0.6):
                    b.faults.append({"op": op["u"], "on": "s", "at": b.rng.randrange(1, 7), "act": "stall", "kind": "stalled in a file operation"})
                elif same and "d" in op and (ms := b.size(op["d"], True)["marks"]):
                    m = ms[min(len(ms) - 1, int((where + b.rng.random() * 0.1) * len(ms)))]
                    b.faults.append({"op": op["u"], "on": "n", "at": m[2 if b.coarse else 0], "act": "stall", "kind": "stalled"})
                else:
                    b.faults.append({"op": op["u"], "on": "n", "at": b.at_line(op), "act": "stall", "kind": "stalled"})
            tasks.append([op])
        return b.spec(tasks, sched=b.schedule([o for t in tasks for o in t], self.codes), after=[b.call(p) for p in shared], fs0=fs0)
