"""C16  Calls leave the process as they found it."""

import errno

from sim import docs
from sim.check import Check
from sim.checks.boots_common import Boots
from sim.plan import Builder
from sim.world import EXCS


class CHECK(Boots):
    id = "C16"
    title = "Calls leave the process as they found it"
    image = "B"
    run_timeout = 240
    kinds = ("state", "fd-leak", "crash", "hang")
    stub = Check.stub + "; in starts: storage of the grammar cache"
    rule = ("1-4 threads (the first one often the main thread) of an application with settings of its own construct parsers and make calls "
            "that succeed, fail, are nested in each other, interrupted or get I/O errors, or new processes import the library and construct "
            "parsers over faulty cache storage; the process-wide state is compared before and after every call, and at every moment another thread "
            "could look; non-trivial: a call was made; distinct by hash of history and decisions")

    def interesting(self, spec, rep):
        return rep.get("calls", 0) > 0

    def signature(self, spec, rep):
        return rep["history"]

    def sample(self, spec, rep):
        if spec["t"] == "boots":
            return Boots.sample(self, spec, rep)
        from sim.worker import sample
        return sample(spec, rep)

    def prepare(self, z):
        self.docs = [docs.text(docs.make(7_100_000 + i, ("tiny", "small")[i % 2])) for i in range(12)]
        self.expect = {}            # what the calls give is not this check's business
        Check.prepare(self, z)

    def attach(self, spec, z):
        return Boots.attach(self, spec, z) if spec["t"] == "boots" else Check.attach(self, spec, z)

    def run(self, spec, z, trace=None):
        self.image = "A" if spec["t"] == "boots" else spec.get("image", "B")
        return Boots.run(self, spec, z, trace)

    def tidy(self, spec):
        return Boots.tidy(self, spec) if spec["t"] == "boots" else Check.tidy(self, spec)

    def shrinks(self, spec, trace):
        return Boots.shrinks(self, spec, trace) if spec["t"] == "boots" else Check.shrinks(self, spec, trace)

    def app(self, rng) -> dict:
        return {"gc": rng.choice([None, [700, 10, 10], [50, 5, 5], [100000, 1, 1]]), "recursion": rng.choice([1000, 1234, 3000]),
                "switch": rng.choice([0.005, 0.001, 0.02]), "umask": rng.choice([0o022, 0o077, 0o000, 0o027]),
                "filters": [rng.choice(["ignore", "default", "always", "module"]) for _ in range(rng.choice([0, 1, 2]))],
                "signals": rng.random() < 0.5, "timer": rng.random() < 0.4, "env": {"SIM_APP": str(rng.randrange(1000))} if rng.random() < 0.5 else {},
                "seed": rng.randrange(1 << 30), "digits": rng.choice([4300, 5000, 0]), "level": rng.choice([30, 10, 50]), "cwd": rng.random() < 0.7, "modules": rng.random() < 0.4}

    def plan(self, rng, z, idx):
        if idx % 6 == 5:
            s = self.history(rng)
            return s
        b = Builder(rng, z, self.seed)
        b.coarse = b.coarse and b.p(0.5)
        b.documents(rng.randrange(1, 4), sizes=b.pick([("nano",), ("nano", "tiny"), ("nano", "tiny"), ("tiny", "small"), ("small", "medium"), ("nano", "catalog")]))
        if idx % 6 == 2:
            return self.cold(b)
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["P1"], ["U0", "W1"]]))
        shared = sorted(b.ln)
        fs0 = {"f.bicep": b.blob()}
        tasks, n = [], 0
        multi = b.pick([1, 1, 2, 2, 3, 4])
        raising = b.p(0.5)
        for i in range(multi):
            ops = []
            for _ in range(b.pick([1, 2, 2, 3])):
                r = rng.random()
                if r < 0.12:
                    pid = f"T{i}x{n}"
                    n += 1
                    b.ln[pid] = b.p(0.5)
                    op = {"u": b.uid(), "k": "new", "p": pid, "ln": b.ln[pid], "cache": True, "may_fail": True}
                elif r < 0.4:
                    op = b.file_call("f.bicep", p=b.pick(shared), tree=0.4)
                elif r < 0.47:
                    op = {"u": b.uid(), "k": "misuse", "how": rng.randrange(7), "p": b.pick(shared)}
                else:
                    op = b.call(b.pick(shared))
                ops.append(op)
                if op["k"] == "misuse":
                    continue
                r = rng.random()
                if r < 0.4 and raising:
                    b.faults.append({"op": op["u"], "on": "i", "at": b.at_interrupt(op), "act": "raise", "exc": b.pick(sorted(EXCS)), "kind": ""})
                    b.faults[-1]["kind"] = b.faults[-1]["exc"]
                elif op["k"].endswith("file") and r < 0.7:
                    b.faults.append({"op": op["u"], "on": "s", "at": rng.randrange(1, 6), "act": "errno", "kind": "io", "may": True,
                                     "errno": b.pick([errno.EIO, errno.EACCES, errno.EMFILE, errno.ENOENT, errno.EINTR])})
                elif op["k"] != "new" and r < 0.6:
                    b.faults.append({"op": op["u"], "on": "n", "at": b.at_line(op), "act": "nest", "kind": "nested call",
                                     "ops": [b.call(b.pick(shared))]})
                elif r < 0.66 and multi > 1 and i == 0:
                    b.faults.append({"op": op["u"], "on": "n", "at": b.at_line(op), "act": "stall", "kind": "stalled"})
            tasks.append(ops)
        after = [b.call(p) for p in shared]
        ops = [o for t in tasks for o in t]
        sched = b.schedule(ops, self.codes) if multi > 1 else {"policy": "none"}
        sched["interrupts"] = raising
        sched["coarse"] = b.coarse and not raising
        return b.spec(tasks, sched=sched, after=after, fs0=fs0, check_fds=True, state=True, app=self.app(rng))

    def cold(self, b):
        """The first constructors and calls of a process."""
        n = b.pick([1, 1, 2, 2, 3])
        tasks = b.cold(n, may_fail=True)
        raising = b.p(0.5)
        for t in tasks:
            for op in t:
                new = op["k"] == "new"
                r = b.rng.random()
                if r < 0.3 and raising:
                    b.faults.append({"op": op["u"], "on": "i", "at": b.at_new("i") if new else b.at_interrupt(op), "act": "raise",
                                     "exc": b.pick(sorted(EXCS)), "kind": "interrupted constructor" if new else "interrupted"})
                elif r < 0.5 and new:
                    p = f"nest{op['u']}"
                    b.ln[p] = b.p(0.5)
                    b.faults.append({"op": op["u"], "on": "n", "at": b.at_new(), "act": "nest", "kind": "nested constructor",
                                     "ops": [{"u": b.uid(), "k": "new", "p": p, "ln": b.ln[p], "cache": True, "may_fail": True}, b.call(p)]})
        ops = [o for t in tasks for o in t]
        sched = b.schedule(ops, self.codes) if n > 1 else {"policy": "none"}
        sched["interrupts"] = raising
        sched["coarse"] = b.coarse and not raising
        return b.spec(tasks, sched=sched, check_fds=True, state=True, app=self.app(b.rng), image="A")

    def history(self, rng):
        h = []
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < 0.5:
                h.append(self.disk(rng, ["unlink", "empty", "truncate", "garbage", "dir", "no-tmp", "text", "wrong-type"]))
            b = self.boot(rng, [self.fault(rng)] if rng.random() < 0.5 else [])
            b["app"] = self.app(rng)
            if rng.random() < 0.4:
                for q in b["parsers"]:
                    q["docs"] = []
                b["parsers"] += [{"ln": rng.random() < 0.5, "cache": rng.random() < 0.8, "docs": []} for _ in range(rng.randrange(1, 3))]
                b["threads"] = True
                b["sched"] = {"seed": rng.randrange(1 << 30), "sysp": rng.choice([0.1, 0.3, 0.7]), "main": rng.random() < 0.5}
            h.append(b)
        return {"t": "boots", "history": h}
