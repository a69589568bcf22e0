"""Histories of starts, shared by C04 and C05."""

import errno

from sim import docs
from sim.check import Check, chop

ERR = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EPERM, errno.EDQUOT, errno.ENOMEM, errno.EMFILE, errno.ESTALE,
       errno.ENOENT, errno.ENOTDIR, errno.EISDIR, errno.EINTR, errno.ELOOP, errno.ETXTBSY]
OPS = ["open", "read", "write", "close", "stat", "fstat", "lseek", "rename", "unlink", "mkdir", "truncate", "fsync", "link"]


class Boots(Check):
    image = "A"
    run_timeout = 240
    stub = "file system calls below the cache directory, process starts (fork + fresh import), clock, randomness, user environment"
    real = "pycep (imported anew in every start), lark, pickle, tempfile, CPython file objects"

    def prepare(self, z):
        self.docs = [docs.text(docs.make(7_000_000 + i, ("tiny", "small", "medium")[i % 3])) for i in range(45)]
        rep = z.request("A", {"t": "fingerprint", "docs": self.docs}, timeout=240)
        if "expect" not in rep:
            from sim.driver import HarnessError
            raise HarnessError(f"fingerprint: {str(rep)[:1500]}")
        self.expect = rep["expect"]

    def attach(self, spec, z):
        spec["docs"] = self.docs
        spec["expect"] = self.expect
        return True

    def tidy(self, spec):
        return {k: v for k, v in spec.items() if k not in ("docs", "expect", "rundir", "trace")}

    def interesting(self, spec, rep):
        return bool(rep.get("fired")) or rep.get("steps", 0) > 1

    def signature(self, spec, rep):
        return rep.get("history", "")

    def sample(self, spec, rep):
        return "; ".join(s["k"] + " " + (s["do"] if s["k"] == "disk" else
                         ",".join(f"{'/'.join(f.get('names', ['any']))}+{f.get('skip', 0)} {f['act']} {errno.errorcode.get(f.get('errno'), '')}"
                                  for f in s.get("faults", ())) or "good") for s in spec["history"])[:500] + f"; fired {rep['fired']}"[:200]

    # -- pieces
    def some_docs(self, rng, n=None):
        return rng.sample(range(len(self.docs)), n or rng.choice([3, 6, 12]))

    def boot(self, rng, faults=(), **more):
        ps = [{"ln": rng.random() < 0.4, "cache": True, "docs": self.some_docs(rng)}]
        if rng.random() < 0.25:
            ps.append({"ln": rng.random() < 0.5, "cache": rng.random() < 0.9, "docs": self.some_docs(rng, 3)})
        s = {"k": "boot", "parsers": ps, "faults": list(faults), "seed": rng.randrange(1, 1 << 30),
             "clock": [rng.randrange(1, 4_000_000_000), rng.randrange(1, 10 ** 6)]}
        s.update(more)
        return s

    def off(self, rng):
        return {"k": "boot", "parsers": [{"ln": rng.random() < 0.5, "cache": False, "docs": self.some_docs(rng, 3)}], "faults": [],
                "seed": rng.randrange(1, 1 << 30)}

    def fault(self, rng, crash=True):
        r = rng.random()
        f = {}
        if crash and r < 0.35:
            f = {"act": "crash", "skip": rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, rng.randrange(60)])}
            if rng.random() < 0.6:
                f["names"] = [rng.choice(["write", "write", "open", "close", "rename", "unlink"])]
                f["skip"] = rng.choice([0, 1, 2, 3, rng.randrange(12)])
        elif crash and r < 0.5:
            f = {"act": "short-crash", "names": ["write"], "n": rng.choice([1, 10, 64, 65, 100, 4096, rng.randrange(1, 60000)]),
                 "skip": rng.choice([0, 1, 1, 2, rng.randrange(10)])}
        elif r < 0.6:
            f = {"act": "short", "names": [rng.choice(["read", "write"])], "n": rng.choice([1, 7, 63, 64, 500, 4095]),
                 "skip": rng.choice([0, 1, 2]), "sticky": rng.random() < 0.5}
            if f["n"] < 63 and f["sticky"]:
                f["n"] = 333
        elif r < 0.7:
            # the directory cannot be written, or the disk is full, for the whole start
            f = {"act": "errno", "errno": rng.choice([errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EDQUOT]), "sticky": True,
                 "names": rng.choice([["write"], ["open"], ["write", "open"], ["mkdir", "open"]])}
            if "open" in f["names"]:
                f["writes"] = True
            if rng.random() < 0.5:
                f["where"] = "tmp"
        elif r < 0.78:
            f = {"act": "errno", "errno": rng.choice(ERR[:9]), "sticky": True}      # nothing works
            if rng.random() < 0.5:
                f["where"] = "tmp"
        else:
            f = {"act": "errno", "errno": rng.choice(ERR), "names": [rng.choice(OPS[:6] * 3 + OPS[6:])],
                 "skip": rng.choice([0, 0, 1, 1, 2, 3, 4, rng.randrange(15)])}
            if rng.random() < 0.3:
                f["names"] = [x for x in OPS if rng.random() < 0.5] or ["open"]
        if f.get("errno") == errno.EINTR and f.get("sticky"):
            f["errno"] = errno.EIO
        return f

    def disk(self, rng, kinds):
        return {"k": "disk", "do": rng.choice(kinds), "seed": rng.randrange(1 << 30)}

    def shrinks(self, spec, trace):
        for part in chop(spec["history"]):
            if part:
                yield dict(spec, history=part), trace
        for i, s in enumerate(spec["history"]):
            if s["k"] != "boot":
                continue
            for j in range(len(s.get("faults", ()))):
                h = list(spec["history"])
                h[i] = dict(s, faults=s["faults"][:j] + s["faults"][j + 1:])
                yield dict(spec, history=h), trace
            for k in ("unset", "nobody", "no_cwd"):
                if s.get(k):
                    h = list(spec["history"])
                    h[i] = {a: v for a, v in s.items() if a != k}
                    yield dict(spec, history=h), trace
            if len(s["parsers"]) > 1 and not s.get("threads"):
                for j in range(len(s["parsers"])):
                    h = list(spec["history"])
                    h[i] = dict(s, parsers=[s["parsers"][j]])
                    yield dict(spec, history=h), trace
            for j, q in enumerate(s["parsers"]):
                if len(q["docs"]) > 1:
                    for part in chop(q["docs"]):
                        if part:
                            h = list(spec["history"])
                            h[i] = dict(s, parsers=[dict(x, docs=part) if jj == j else x for jj, x in enumerate(s["parsers"])])
                            yield dict(spec, history=h), trace
