"""C17  An import that met a fault can simply be repeated."""

import errno

from sim import docs
from sim.check import chop
from sim.checks.boots_common import Boots

ERR = [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.ESTALE, errno.ENOENT]
EXC = ["KeyboardInterrupt", "SimTimeout", "MemoryError", "SystemExit", "Abandon"]


class CHECK(Boots):
    id = "C17"
    title = "An import that met a fault can simply be repeated"
    real = "pycep (a copy of /repo's package, imported anew), lark, importlib, CPython file objects"
    stub = "system calls on the package's data files, thread scheduler and import locks, clock; interrupts"
    rule = ("1-3 threads of a new process import the package for the first time, make a parser and parse, 1-4 times in a row, with read errors, short "
            "and interrupted reads of the grammar file, or exceptions thrown in at seeded points; an attempt fails with the injected error or "
            "gives the usual parser, one without faults always does; non-trivial: a fault fired or several threads; distinct by hash of the outcomes "
            "and faults")

    def prepare(self, z):
        self.docs = [docs.text(docs.make(7_200_000 + i, ("tiny", "small", "medium")[i % 3])) for i in range(18)]
        rep = z.request("A", {"t": "fingerprint", "docs": self.docs}, timeout=240)
        if "expect" not in rep:
            from sim.driver import HarnessError
            raise HarnessError(f"fingerprint: {str(rep)[:1500]}")
        self.expect = rep["expect"]

    def interesting(self, spec, rep):
        return bool(rep.get("fired")) or any(len(s["users"]) > 1 for s in spec["history"])

    def sample(self, spec, rep):
        return "; ".join(f"{len(s['users'])} threads, io {[(f['name'], f['act'], errno.errorcode.get(f.get('errno'), '')) for f in s['io']]}, "
                         f"raise {[f['exc'] for f in s['raises']]}" for s in spec["history"])[:400]

    def step(self, rng, faulty, narrow):
        users = [{"ln": rng.random() < 0.4, "docs": rng.sample(range(len(self.docs)), rng.choice([1, 2, 4]))}
                 for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        s = {"users": users, "io": [], "raises": [],
             "sched": {"policy": "walk", "mean": rng.choice([3, 20, 100]), "seed": rng.randrange(1 << 30), "coarse": True, "max": 300, "sysp": 0.5,
                       "main": rng.random() < 0.5}}
        if faulty:
            r = rng.random()
            if r < 0.65:
                for _ in range(rng.choice([1, 1, 2])):
                    f = {"name": rng.choice(["open", "read", "read", "read", "any", "fstat", "lseek", "close", "stat"]), "skip": rng.choice([0, 0, 0, 1, 1, 2, 3])}
                    if rng.random() < 0.3:
                        f.update(name="read", act="short", n=rng.choice([1, 7, 100, 1000, 4096]), sticky=rng.random() < 0.5)
                        if f["n"] < 100:
                            f["sticky"] = False
                    else:
                        f.update(act="errno", errno=rng.choice(ERR), sticky=rng.random() < 0.2)
                        if f["name"] in ("open", "read") and rng.random() < 0.15:
                            f.update(errno=errno.EINTR, sticky=False)       # these two are repeated by CPython, close is not
                    s["io"].append(f)
            if r > 0.5:
                exc = rng.choice(EXC)
                # an ordinary exception in the loading of the cache makes lark build the grammar, which takes too long here
                at = rng.choice([30, 100, 400, 1500]) if narrow else rng.choice([100, 400, 400, 3000, 30000]) if exc not in ("SimTimeout", "MemoryError") else rng.choice([50, 150])
                s["raises"].append({"op": rng.randrange(len(users)), "on": "i", "at": rng.randrange(1, at), "act": "raise", "exc": exc})
                s["raises"][-1]["kind"] = s["raises"][-1]["exc"]
        return s

    def plan(self, rng, z, idx):
        narrow = rng.random() < 0.9
        h = [self.step(rng, True, narrow) for _ in range(rng.choice([1, 1, 2, 3]))]
        h.append(self.step(rng, False, narrow))
        return {"t": "imports", "narrow": narrow, "history": h}

    def shrinks(self, spec, trace):
        for part in chop(spec["history"]):
            if part:
                yield dict(spec, history=part), trace
        for i, s in enumerate(spec["history"]):
            def w(**kw):
                return dict(spec, history=[dict(x, **kw) if j == i else x for j, x in enumerate(spec["history"])])
            for k in ("io", "raises"):
                for part in chop(s[k]):
                    yield w(**{k: part}), trace
            if len(s["users"]) > 1 and not s["raises"]:
                for part in chop(s["users"]):
                    if part:
                        yield w(users=part), trace
            for j, u in enumerate(s["users"]):
                for part in chop(u["docs"]):
                    yield w(users=[dict(x, docs=part) if jj == j else x for jj, x in enumerate(s["users"])]), trace
