"""C06  Parsing a file reports its content at the time of the call."""

from sim.check import Check
from sim.plan import Builder


NAMES = ["a.bicep", "a b.bicep", "~a.bicep", "~.bicep", "-a.bicep", "\u00e9\u6f22.bicep", "$HOME.bicep", "%41.bicep", "a", ".bicep", "A.BICEP", "a.json",
         "a.bicep ", "a*.bicep", "[a].bicep", "a\\b.bicep", "a.bicepparam", "#a.bicep", "e\u0301.bicep", "a.bicep.bak"]


class CHECK(Check):
    id = "C06"
    title = "Parsing a file reports its content at the time of the call"
    rule = ("1-3 threads parse files while a writer thread atomically replaces, re-points, deletes and creates them at seeded "
            "points inside and between the calls; in-place rewrites happen between calls; time stamps are frozen, sizes equal, the "
            "clock jumps, the working directory changes; oracle: baseline of the decoded content at some instant of the call; "
            "non-trivial: a file changed between two calls or during one; distinct by hash of history and decisions")

    def interesting(self, spec, rep):
        return rep.get("calls", 0) >= 2

    def signature(self, spec, rep):
        return rep["history"]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        b.documents(rng.randrange(2, 5), sizes=b.pick([("nano",), ("nano", "tiny"), ("tiny",), ("tiny", "small")]), relatives=0.5)
        if idx % 25 == 6:
            b.doc(sizes=("large", "huge"), relatives=0)
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["P1"], ["U0", "W1"]]))
        names = [f"{c}.bicep" for c in "abc"[:rng.randrange(1, 4)]] if b.p(0.6) else rng.sample(NAMES, rng.randrange(1, 4))
        deep = b.p(0.2)
        fs0 = {}
        for n in names:
            r = rng.random()
            fs0[n] = b.blob() if r < 0.75 or n == names[0] else b.pick(["missing", "->" + names[0], "dir"])
        fs0 = {k: v for k, v in fs0.items() if v != "missing"}
        if deep:
            # reached by a path on which a symbolic link is followed by ".."
            fs0["deep/" + names[0]] = b.blob()
            b.via = {"deep/" + names[0]: f"lnk/../{names[0]}"}
        places = list(names) + ["deep/" + names[0]] * deep

        def change(kinds):
            f = b.pick(places)
            return b.fs(b.pick([k for k in kinds if k != "symlink"] if "/" in f else kinds), f, names)
        alone = b.p(0.4)
        tasks = []
        if alone:
            ops = []
            rel = b.p(0.3)
            for _ in range(b.pick([3, 5, 8, 12, 20])):
                r = rng.random()
                if r < 0.5:
                    ops.append(b.file_call(b.pick(places), rel=rel))
                elif r < 0.9:
                    ops.append(change(["replace", "rewrite", "rewrite", "unlink", "symlink", "create", "mkdir"]))
                elif r < 0.95:
                    ops.append(b.call())
                else:
                    ops.append({"u": b.uid(), "k": "clock", "real": rng.randrange(-10 ** 18, 10 ** 18), "mono": rng.randrange(0, 10 ** 16)})
            tasks.append(ops)
            sched = {"policy": "none", "monitor": False}
        else:
            for _ in range(b.pick([1, 1, 2, 3])):
                tasks.append([b.file_call(b.pick(places)) if b.p(0.85) else b.call() for _ in range(b.pick([1, 2, 3, 5]))])
            for _ in range(b.pick([1, 1, 2])):
                w = []
                for _ in range(b.pick([1, 2, 4, 8, 12])):
                    w.append({"u": b.uid(), "k": "yield"} if b.p(0.15) else
                             change(["replace", "replace", "replace", "unlink", "symlink", "mkdir"]))
                tasks.append(w)
            sched = b.schedule([o for t in tasks for o in t], self.codes)
            sched["sysp"] = b.pick([0.2, 0.5, 0.8])
            if b.p(0.4):
                sched["policy"] = "points"
                sched["points"] = {}
                sched["monitor"] = b.p(0.5)
        after = [b.file_call(n) for n in places]
        return b.spec(tasks, sched=sched, after=after, fs0=fs0, check_fds=True, deep=deep,
                      stat_freeze=b.pick([0, 0, 1_600_000_000, 1_700_000_001]))
