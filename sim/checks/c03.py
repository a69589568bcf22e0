"""C03  A call abandoned at any point leaves nothing behind."""

from sim.check import Check
from sim.plan import Builder
from sim.world import EXCS


class CHECK(Check):
    id = "C03"
    title = "A call abandoned at any point leaves nothing behind"
    rule = ("1-2 threads make calls; KeyboardInterrupt, SystemExit, MemoryError, a timeout exception, RecursionError or a foreign "
            "BaseException is thrown into parse, create_tree, file and constructor calls at seeded points where CPython delivers "
            "such exceptions; afterwards the same, other and new parsers must give the baseline outcomes; non-trivial: an exception "
            "was thrown; distinct by hash of history and decisions")

    def interesting(self, spec, rep):
        return bool(rep.get("fired"))

    def signature(self, spec, rep):
        return rep["history"]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        b.coarse = False
        b.documents(rng.randrange(1, 5), sizes=b.pick([("nano",), ("nano", "tiny"), ("nano", "tiny"), ("tiny", "small"), ("small", "medium"), ("nano", "catalog")]))
        if idx % 5 == 2:
            return self.cold(b)
        if idx % 12 == 6:
            return self.storm(b)
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["P1"], ["U0", "W1"], ["P0", "P1"]]))
        stock = sorted(b.ln)
        fs0 = {"f.bicep": b.blob()}
        tasks, after = [], []
        n_new = 0
        multi = b.pick([1, 1, 1, 2])
        for _ in range(multi):
            ops = []
            for _ in range(b.pick([1, 1, 2, 3, 5])):
                hit = b.p(0.75)
                r = rng.random()
                if r < 0.1:
                    pid = f"X{n_new}"
                    n_new += 1
                    b.ln[pid] = b.p(0.5)
                    op = {"u": b.uid(), "k": "new", "p": pid, "ln": b.ln[pid], "cache": not hit or b.p(0.8)}
                elif r < 0.25:
                    op = b.file_call("f.bicep", p=b.pick(stock))
                else:
                    op = b.call(b.pick(stock))
                ops.append(op)
                if hit:
                    b.faults.append({"op": op["u"], "on": "i", "at": rng.randrange(1, b.pick([2000, 20000, 200000])) if not op.get("cache", True) else b.at_interrupt(op), "act": "raise",
                                     "exc": b.pick(sorted(x for x in EXCS if op["k"] != "new" or multi == 1 or not issubclass(EXCS[x], Exception))),
                                     "kind": ""})
                    b.faults[-1]["kind"] = b.faults[-1]["exc"]
                    if b.p(0.7) and op["k"] in ("parse", "tree"):
                        # the same document, or one like it, right after
                        ops.append(b.call(op["p"] if b.p(0.7) else b.pick(stock), op["d"] if b.p(0.5) else None))
            tasks.append(ops)
        for p in stock:
            for _ in range(b.pick([1, 2, 2])):
                after.append(b.call(p))
        if b.p(0.3):
            after.append({"u": b.uid(), "k": "new", "p": "Z0", "ln": False, "cache": True})
            b.ln["Z0"] = False
            after.append(b.call("Z0"))
        ops = [o for t in tasks for o in t]
        sched = b.schedule(ops, self.codes) if len(tasks) > 1 else {"policy": "none"}
        sched["interrupts"] = True
        sched["coarse"] = False
        return b.spec(tasks, sched=sched, after=after, fs0=fs0, check_fds=True)

    def cold(self, b):
        """The first constructors and calls of a process are abandoned."""
        n = b.pick([1, 1, 1, 2])
        tasks = b.cold(n)
        hit = [o for t in tasks for o in t if b.p(0.4)] or [tasks[0][0]]
        for op in hit:
            new = op["k"] == "new"
            b.faults.append({"op": op["u"], "on": "i", "at": b.at_new("i") if new else b.at_interrupt(op), "act": "raise",
                             "exc": b.pick(sorted(x for x in EXCS if not new or n == 1 or not issubclass(EXCS[x], Exception)))})
            b.faults[-1]["kind"] = b.faults[-1]["exc"] + (" in the constructor" if new else "")
        after = []
        for i in range(b.pick([1, 2, 2, 3])):
            after.append({"u": b.uid(), "k": "new", "p": f"Z{i}", "ln": b.p(0.5), "cache": b.p(0.95)})
            b.ln[f"Z{i}"] = after[-1]["ln"]
            after.append(b.call(f"Z{i}"))
        after += [b.call(o["p"]) for t in tasks for o in t if o["k"] == "new"]
        ops = [o for t in tasks for o in t]
        sched = b.schedule(ops, self.codes) if n > 1 else {"policy": "none"}
        sched["interrupts"] = True
        sched["coarse"] = False
        return b.spec(tasks, sched=sched, after=after, check_fds=True, image="A")

    def storm(self, b):
        """Call after call on the same parser is abandoned."""
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["P1"]]))
        stock = sorted(b.ln)
        ops, same = [], b.p(0.5)
        kind = b.pick(["", "", "KeyboardInterrupt", "SystemExit", b.pick(sorted(EXCS))])
        main = b.pick(stock) if b.p(0.6) else None
        for _ in range(b.pick([8, 20, 40, 70, 140, 270])):
            op = b.call(main or b.pick(stock), 0 if same and b.p(0.8) else None, tree=0.1)
            ops.append(op)
            if b.p(0.9):
                b.faults.append({"op": op["u"], "on": "i", "at": b.at_interrupt(op), "act": "raise", "exc": kind or b.pick(sorted(EXCS)), "kind": ""})
                b.faults[-1]["kind"] = b.faults[-1]["exc"]
        after = [b.call(p) for p in stock for _ in range(3)]
        return b.spec([ops], sched={"policy": "none", "interrupts": True, "coarse": False}, after=after, check_fds=True)
