"""C04  Cache-storage faults never change what a parser does."""

from sim import overlap
from sim.checks.boots_common import Boots

KINDS = ["truncate", "truncate", "truncate", "zero-tail", "zero-page", "garbage", "text", "wrong-type", "wrong-type", "other-head", "append",
         "unlink", "dir", "loop", "dangling", "empty", "no-tmp", "tmp-back"]


class CHECK(Boots):
    id = "C04"
    title = "Cache-storage faults never change what a parser does"
    level = "fault_enumeration"
    kinds = ("construct", "outcome", "start", "deadlock", "hang", "crash")
    rule = ("1-7 process starts over one cache directory; starts crash at a seeded storage operation, meet errno, short reads and writes, "
            "full or read-only storage, no usable temporary directory, overlapping constructions, a cache of another package version; "
            "between starts files are torn, zeroed, overwritten, replaced; each surviving start's parsers must equal cache=False ones on "
            "3-12 of 45 fingerprint documents; non-trivial: a fault fired or more than one start; distinct by hash of the storage history")

    def reproduce_finding(self, finding, scratch):
        return overlap.reproduce(finding, scratch)

    def plan(self, rng, z, idx):
        h = []
        if rng.random() < 0.8:
            h.append({"k": "disk", "do": "restore", "seed": 0})
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            r = rng.random()
            if r < 0.42:
                h.append(self.disk(rng, KINDS))
                if rng.random() < 0.7:
                    h.append(self.boot(rng, [self.fault(rng, crash=False)] if rng.random() < 0.3 else []))
            elif r < 0.72:
                if rng.random() < 0.5:
                    h.append(self.disk(rng, ["unlink", "truncate", "empty"]))
                h.append(self.boot(rng, [self.fault(rng) for _ in range(rng.choice([1, 1, 2]))]))
                if rng.random() < 0.4:
                    h.append(self.disk(rng, ["zero-tail", "truncate", "zero-page"]))
            elif r < 0.82:
                h.append(self.boot(rng, [], no_cwd=rng.random() < 0.5, unset=["TMPDIR"] if rng.random() < 0.6 else [],
                                   deny=rng.choice([30, 13, 28, 1])))
            elif r < 0.92:
                b = self.boot(rng, [self.fault(rng, crash=False)] if rng.random() < 0.2 else [], threads=True)
                while len(b["parsers"]) < 2:
                    b["parsers"].append({"ln": rng.random() < 0.5, "cache": True, "docs": self.some_docs(rng, 3)})
                b["sched"] = {"seed": rng.randrange(1 << 30), "sysp": rng.choice([0.1, 0.3, 0.7])}
                if rng.random() < 0.6:
                    h.append(self.disk(rng, ["unlink", "empty"]))
                h.append(b)
            else:
                h.append(self.boot(rng, [self.fault(rng)] if rng.random() < 0.3 else [], other=rng.randrange(4)))
        if h[-1]["k"] != "boot" or h[-1].get("faults") or rng.random() < 0.5:
            h.append(self.boot(rng))
        for b in h:
            if b["k"] == "boot" and rng.random() < 0.12:
                b["unset"] = sorted({*b.get("unset", []), *rng.sample(["HOME", "USER", "LOGNAME", "PATH", "XDG_CACHE_HOME", "LANG"], rng.randrange(1, 5))})
                b["nobody"] = rng.random() < 0.6
        return {"t": "boots", "history": h}
