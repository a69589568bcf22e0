"""C02  A call's outcome does not depend on any earlier call."""

from sim.check import Check
from sim.plan import Builder


class CHECK(Check):
    id = "C02"
    title = "A call's outcome does not depend on any earlier call"
    rule = ("one thread makes a seeded history of 4-60 (sometimes up to 4200) constructor, parse, create_tree, file and misuse calls "
            "on old and new parsers; results are kept, mutated or dropped, the garbage collector runs, the clock jumps; some documents are 5-80 kB; "
            "every outcome is compared with the same call made first in a new process; non-trivial: at least 3 calls; "
            "distinct by hash of the history")

    def interesting(self, spec, rep):
        return rep.get("calls", 0) >= 3

    def signature(self, spec, rep):
        return rep["history"]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        b.stock(*b.pick([["P0"], ["P1"], ["W0", "W1"], ["U0", "P1"], ["W1"], ["W0", "P0"]]))
        ops = []
        if idx % 40 == 7:
            # many different small documents: tables of bounded size overflow
            n = b.pick([140, 270, 270, 560])
            for j in b.rng.sample(range(700), n):
                b.add_doc(b.pool_doc("nano", j))
            n = len(b.docs)
            p = b.pick(sorted(b.ln))
            order = list(range(n)) + [b.rng.randrange(n) for _ in range(60)]
            for d in order:
                ops.append(b.call(p, d, tree=0))
        elif idx % 40 == 17:
            # very many calls: what happens only at every n-th call, or after n failed ones
            b.documents(rng.randrange(2, 5), sizes=("nano",), relatives=0.5)
            bad = [d for d in range(len(b.docs)) if "ok" not in b.outcomes[d]]
            n = b.pick([130, 300, 600, 1100, 2100, 4200])
            p = b.pick(sorted(b.ln))
            main = b.pick(bad) if bad and b.p(0.5) else b.rng.randrange(len(b.docs))
            for i in range(n):
                ops.append(b.call(p if b.p(0.97) else None, main if b.p(0.8) else None, tree=0.03))
            for _ in range(6):
                ops.append(b.call())
        elif idx % 40 == 27:
            b.documents(rng.randrange(1, 3), sizes=("nano", "small"))
            b.documents(rng.randrange(1, 3), sizes=("large", "huge"), relatives=0.4)
            ops += [b.call(keep=b.p(0.2)) for _ in range(b.pick([4, 8, 12]))]
        else:
            b.documents(rng.randrange(2, 9), sizes=b.pick([("nano",), ("nano", "tiny"), ("tiny", "small"), ("nano", "small", "medium"), ("nano", "catalog")]),
                        relatives=0.45)
            n_new = 0
            for _ in range(b.pick([4, 6, 10, 20, 40, 60])):
                r = rng.random()
                if r < 0.07:
                    pid = f"X{n_new}"
                    n_new += 1
                    b.ln[pid] = b.p(0.5)
                    ops.append({"u": b.uid(), "k": "new", "p": pid, "ln": b.ln[pid], "cache": True})
                elif r < 0.13:
                    ops.append({"u": b.uid(), "k": "misuse", "p": b.pick(sorted(b.ln)), "how": rng.randrange(7)})
                elif r < 0.17:
                    ops.append({"u": b.uid(), "k": "gc"})
                elif r < 0.20:
                    ops.append({"u": b.uid(), "k": "clock", "real": rng.randrange(-10 ** 17, 10 ** 17), "mono": rng.randrange(0, 10 ** 17)})
                elif r < 0.30 and any(o.get("keep") for o in ops):
                    t = b.pick([o for o in ops if o.get("keep")])
                    ops.append({"u": b.uid(), "k": b.pick(["mutate", "mutate", "drop"]), "r": t["u"], "seed": rng.randrange(1 << 30)})
                elif r < 0.42:
                    ops.append(b.file_call("f%d.bicep" % rng.randrange(2)))
                    if b.p(0.5):
                        ops.append(b.fs(b.pick(["replace", "rewrite"]), "f%d.bicep" % rng.randrange(2)))
                else:
                    ops.append(b.call(share=True) if b.p(0.1) else b.call(keep=b.p(0.3)))
        fs0 = {f"f{i}.bicep": b.blob() for i in range(2)}
        return b.spec([ops], sched={"policy": "none", "monitor": False}, fs0=fs0)
