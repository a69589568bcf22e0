"""C08  A torn document never loses or changes its finished declarations."""

from sim import docs
from sim.check import Check, chop


class CHECK(Check):
    id = "C08"
    title = "A torn document never loses or changes its finished declarations"
    rule = ("the writer of a seeded document crashes after k bytes (seeded, biased to line ends, token boundaries, strings and block "
            "boundaries), its tail may be zero-filled; file and text are parsed; oracle: the declarations of the whole document; "
            "non-trivial: some torn document was parsed; distinct by hash of the cut points and outcomes")
    stub = "the crashing writer"

    def interesting(self, spec, rep):
        return rep.get("calls", 0) > 0

    def signature(self, spec, rep):
        return rep.get("history", "")

    def attach(self, spec, z):
        return True

    def sample(self, spec, rep):
        return f"{len(spec['chunks'])} declarations, {sum(map(len, spec['chunks']))} characters, cuts {[c['at'] for c in spec['cuts']]}"[:400]

    def plan(self, rng, z, idx):
        size = rng.choice(["nano", "tiny", "small", "small", "medium", "medium"])
        if idx % 30 == 12:
            size = rng.choice(["large", "large", "huge"])
        for _ in range(40):
            d = docs.make(self.seed * 1000000 + rng.randrange(10 ** 6), size)
            if d["kind"] == "ok" and sum("targetScope" in c for c in d["chunks"]) < 2 and len(docs.text(d)) < (5000 if size[0] != "l" and size != "huge" else 10 ** 6):
                break
        else:
            return None
        raw = docs.text(d).encode("utf-8")
        n = len(raw)
        marks = [i for i in range(n) if raw[i:i + 1] in b"\n\r{}[]()'= :,@/"] or [0]
        ends, at = [], 0
        for c in d["chunks"]:
            at += len(c.encode("utf-8"))
            ends.append(at)
        cuts = []
        for _ in range(rng.choice([8, 15, 30] if size != "huge" else [4, 8])):
            r = rng.random()
            at = (rng.randrange(n + 1) if r < 0.35 else rng.choice(marks) + rng.randrange(0, 2) if r < 0.7
                  else rng.choice(ends) + rng.randrange(-2, 4))
            zeros = 0
            if rng.random() < 0.12:
                block = rng.choice([16, 64, 512])
                at = at // block * block if rng.random() < 0.6 else at
                zeros = max(1, min(n - at, rng.choice([1, 3, block, n])))
            cuts.append({"at": max(0, min(n, at)), "zeros": zeros, "file": rng.random() < 0.3})
        return {"t": "torn", "chunks": d["chunks"], "cuts": cuts, "ln": rng.random() < 0.4}

    def run(self, spec, z, trace=None):
        self.image = "D" if spec["ln"] else "C"
        rep = super().run(spec, z)
        if rep.get("died") == 14:
            return {"violations": [], "probes": ["too slow"]}
        return rep

    def shrinks(self, spec, trace):
        for part in chop(spec["cuts"]):
            if part:
                yield dict(spec, cuts=part), trace
        for part in chop(spec["chunks"]):
            if part:
                shift = 0
                # keep the distance of the cut from the end of what is left in front of it
                before = sum(len(c.encode()) for c in spec["chunks"]) - sum(len(c.encode()) for c in part)
                for s in (0, before):
                    yield dict(spec, chunks=part, cuts=[dict(c, at=max(0, c["at"] - s)) for c in spec["cuts"]]), trace
                del shift
