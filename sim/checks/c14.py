"""C14  A long-lived parser does not accumulate memory."""

import errno

from sim.check import Check, chop
from sim.plan import Builder


class CHECK(Check):
    id = "C14"
    title = "A long-lived parser does not accumulate memory"
    run_timeout = 150
    rule = ("9 rounds of 10-48 calls, each on a text of its own, on one to three parsers: parse, create_tree and file calls that succeed, "
            "fail, get read errors, are interrupted at seeded points or run in overlapping threads; after each round the results are "
            "dropped, garbage is collected, and allocated blocks and bytes are counted (growth in each of the last 5 rounds violates); after "
            "the first the heap is searched for text and results of finished calls; non-trivial: always; distinct by hash of calls and outcomes")

    def interesting(self, spec, rep):
        return True

    def signature(self, spec, rep):
        return rep["history"]

    def sample(self, spec, rep):
        return f"{spec['rounds']} rounds of {len(spec['calls'])} calls, outcomes {rep['counts']}, blocks per round {rep.get('deltas', [[]])[0]}"[:400]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        docs = []
        for _ in range(rng.randrange(2, 7)):
            for _ in range(20):
                d = b.pool_doc(b.pick(["nano", "nano", "tiny", "tiny", "small"]))
                if b.add_doc(d) is not None:
                    docs.append(["".join(d["chunks"]), d["tag"]])
                    break
        parsers = [{"src": x, "ln": x.endswith("1")} for x in b.pick([["W0"], ["W1"], ["P0"], ["W0", "W1"], ["U0", "P1"]])]
        threads = b.p(0.25)
        calls = []
        interrupts = b.p(0.5)
        ios = b.p(0.4)
        tagged = b.pick([0, 0.5, 1])        # documents that use names of every kind
        fresh = 0.25 if b.p(0.15) and not interrupts and not threads else 0     # parsers of their own, dropped after the call
        for _ in range(b.pick([10, 16, 24]) if threads or interrupts else b.pick([16, 32, 48])):
            d = rng.randrange(len(docs))
            c = {"k": b.pick(["parse", "parse", "parse", "parse", "tree", "parsefile", "treefile"] if ios or b.p(0.3) else ["parse", "parse", "parse", "tree"]), "d": d,
                 "p": rng.randrange(len(parsers))}
            if b.p(fresh):
                c["fresh"] = True
            if b.p(tagged):
                c["names"] = True
            if ios and c["k"].endswith("file") and b.p(0.6):
                c["io"] = {"name": b.pick(["open", "read", "read", "fstat", "close"]), "n": rng.randrange(2), "errno": b.pick([errno.EIO, errno.EACCES, errno.EMFILE])}
            elif interrupts and b.p(0.4):
                c["at"] = rng.randrange(1, 3000)
                c["walk"] = rng.randrange(2)
                c["exc"] = b.pick(["KeyboardInterrupt", "MemoryError", "SimTimeout", "Abandon"])
            calls.append(c)
        return {"t": "leak", "docs": docs, "parsers": parsers, "calls": calls, "rounds": 9, "warm": 3, "threads": threads, "names": b.p(0.5),
                "sched": {"policy": "walk", "mean": b.pick([20, 100]), "max": 60, "seed": rng.randrange(1 << 30), "coarse": True}}

    def attach(self, spec, z):
        return True

    def tidy(self, spec):
        return {k: v for k, v in spec.items() if k not in ("rundir", "trace")}

    def shrinks(self, spec, trace):
        for part in chop(spec["calls"]):
            if part:
                yield dict(spec, calls=part), trace
        if spec.get("names"):
            yield dict(spec, names=False), trace
        if spec["threads"]:
            yield dict(spec, threads=False), trace
        for i, c in enumerate(spec["calls"]):
            if "io" in c or "at" in c or "fresh" in c:
                yield dict(spec, calls=[{k: v for k, v in x.items() if k in ("k", "d", "p", "names")} if j == i else x for j, x in enumerate(spec["calls"])]), trace
