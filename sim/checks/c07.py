"""C07  Read errors surface; a file is never half-read."""

import errno

from sim.check import Check
from sim.plan import Builder

HARD = [errno.EIO, errno.EACCES, errno.ESTALE, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.ENXIO, errno.ETIMEDOUT]


class CHECK(Check):
    id = "C07"
    title = "Read errors surface; a file is never half-read"
    rule = ("calls on files while opening, reading, stat, seek and close fail with seeded errno, reads are short or interrupted, "
            "bytes are not UTF-8, the path is a directory, a symlink loop or missing; 1-2 threads; later calls must be right; "
            "non-trivial: a fault fired or the content is unreadable; distinct by hash of history and decisions")

    def interesting(self, spec, rep):
        return bool(rep.get("fired")) or any(v in ("dir", "a.bicep") for v in spec["fs0"].values())

    def signature(self, spec, rep):
        return rep["history"]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        big = b.p(0.03)
        b.documents(1, sizes=("large", "large", "huge")) if big else b.documents(rng.randrange(1, 4), sizes=b.pick([("nano", "tiny"), ("tiny", "small"), ("small", "medium"), ("medium",)]), relatives=0.3, ok=b.p(0.7))
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["P1"], ["U0", "W1"]]))
        names = ["a.bicep", "b.bicep"]
        fs0 = {n: b.blob(broken=0.25) for n in names}
        if b.p(0.15):
            fs0["b.bicep"] = b.pick(["dir", "->b.bicep", "->nowhere"])
        tasks = []
        for _ in range(b.pick([1, 1, 1, 2])):
            ops = []
            for _ in range(b.pick([1, 2, 3, 5])):
                op = b.file_call(b.pick(names))
                ops.append(op)
                r = rng.random()
                if r < 0.35:
                    b.faults.append({"op": op["u"], "on": "s", "at": 1, "act": "errno", "errno": b.pick(HARD), "hard": True,
                                     "names": ["read"], "skip": b.pick([0, 0, 1, 2])})
                elif r < 0.5:
                    b.faults.append({"op": op["u"], "on": "s", "at": 1, "act": "errno", "errno": b.pick(HARD), "hard": True,
                                     "names": ["open"]})
                elif r < 0.58:
                    b.faults.append({"op": op["u"], "on": "s", "at": 1, "act": "errno", "errno": b.pick(HARD[:3]),
                                     "names": [b.pick(["fstat", "lseek", "close", "stat"])]})
                elif r < 0.7:
                    b.faults.append({"op": op["u"], "on": "s", "at": 1, "act": "errno", "errno": errno.EINTR, "times": rng.randrange(1, 4),
                                     "names": [b.pick(["open", "read"])]})
                elif r < 0.9:
                    b.faults.append({"op": op["u"], "on": "s", "at": 1, "act": "short", "n": max(b.pick([1, 1, 2, 3, 7, 64, 100]), max(len(x) for x in b.blobs) // 800), "sticky": True,
                                     "names": ["read"]})
                for f in b.faults:
                    if "kind" not in f:
                        f["kind"] = "short" if f["act"] == "short" else errno.errorcode[f["errno"]]
                if b.p(0.3):
                    ops.append(b.call() if b.p(0.5) else b.fs("rewrite" if len(tasks) == 0 and b.p(0.0) else "replace", b.pick(names)))
            tasks.append(ops)
        sched = b.schedule([o for t in tasks for o in t], self.codes) if len(tasks) > 1 else {"policy": "none", "monitor": False}
        after = [b.file_call(n) for n in names] + [b.call()]
        return b.spec(tasks, sched=sched, after=after, fs0=fs0, check_fds=True)
