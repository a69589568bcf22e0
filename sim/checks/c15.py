"""C15  Exhausted stack or memory never yields a wrong result."""

import hashlib
import signal

from sim.check import Check, chop
from sim.plan import Builder


def deep(rng) -> str:
    n = rng.choice([5, 20, 50, 100, 150, 200, 250, 300, 400, rng.randrange(5, 400)])
    t = f"q{rng.randrange(1 << 20):x}z"
    how = rng.randrange(9)
    if how == 0:
        e = "[\n" * n + f"'{t}'\n" + "]\n" * (n - 1) + "]"
    elif how == 1:
        e = "{\n  a: " * n + f"'{t}'" + "\n}" * n
    elif how == 2:
        e = "(" * n + f"{t}" + ")" * n
    elif how == 3:
        e = "toLower(" * n + f"'{t}'" + ")" * n
    elif how == 4:
        e = "!" * n + t if n < 40 else "-" + str(n)
    elif how == 5:
        e = f"{t}" + "".join(f".p{i}" for i in range(n))
    elif how == 6:
        e = f"'{t}'" + "".join(f" == {i}" for i in range(n))
    elif how == 7:
        e = "".join(f"{t} == {i} ? {i} : " for i in range(n)) + "0"
    else:
        return "".join("  " * 0 + f"resource r{i}_{t} 'Microsoft.X/y{'/z' * i}@2020-01-01' = {{\n  name: 'n{i}'\n" if i == 0 else
                       f"resource r{i}_{t} 'z@2020-01-01' = {{\n  name: 'n{i}'\n" for i in range(n)) + "}\n" * n
    return f"param a_{t} string = 'x'\nvar v_{t} = {e}\noutput o_{t} string = 'y'\n"


class CHECK(Check):
    id = "C15"
    title = "Exhausted stack or memory never yields a wrong result"
    level = "exploration"
    kinds = ("wrong", "outcome", "construct", "hang")
    rule = ("one thread makes 4-40 constructor, parse, create_tree and file calls; most of them run out of stack (a recursion limit a seeded "
            "number of frames away, a deep caller, documents nested up to 400 deep) or of memory (one, some or all allocations from a "
            "seeded one on fail); such a call may raise but not return anything else than the right result, and calls after it must give "
            "the outcomes of a process with stack and memory enough; non-trivial: a resource ran out; distinct by hash of the outcomes")

    def interesting(self, spec, rep):
        return any(k != "not hit" for k in rep.get("fired", {}))

    def signature(self, spec, rep):
        return rep.get("history", "")

    def sample(self, spec, rep):
        return "; ".join(f"{o['k']} {o.get('d', '')} {o.get('x') or ''}" for o in spec["ops"])[:400] + f"; {rep.get('fired')}"[:200]

    def ample(self, z, k, ln, text, count=False):
        key = hashlib.sha256(f"ample|{k}|{int(ln)}|{count}|{text}".encode("utf-8", "surrogatepass")).hexdigest()
        if key not in z.basecache:
            rep = z.request("D" if ln else "C", {"t": "ample", "text": text, "k": k, "count": count, "rundir": z.rundir}, timeout=60)
            z.stats["baselines"] += 1
            z.basecache[key] = rep if "outcome" in rep else None
        return z.basecache[key]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        mode = b.pick(["memory", "memory", "stack", "both"])
        b.documents(rng.randrange(2, 6), sizes=b.pick([("nano",), ("nano", "tiny"), ("tiny", "small"), ("small", "medium"), ("nano", "catalog")]))
        texts = list(b.docs)
        chunks = list(b.chunks)
        if mode != "memory":
            for _ in range(rng.randrange(1, 4)):
                texts.append(deep(rng))
                chunks.append([texts[-1]])
        b.stock(*b.pick([["P0"], ["W0"], ["W0", "W1"], ["P1"], ["U0", "W1"], ["P0", "P1"]]))
        ps = sorted(b.ln)
        ops = []
        hurt = mode
        for _ in range(b.pick([4, 8, 15, 25])):
            d = rng.randrange(len(texts))
            if b.p(0.03):
                op = {"k": "new", "p": f"X{len(ops)}", "ln": b.p(0.5)}
                allocs = 60000
            else:
                op = {"k": b.pick(["parse"] * 5 + ["tree", "parsefile", "treefile"]), "p": b.pick(ps), "d": d}
                allocs = 0
            r = hurt if hurt != "both" else b.pick(["memory", "stack"])
            if b.p(0.75):
                if r == "memory":
                    if not allocs:
                        a = self.ample(z, "parse", False, texts[d], count=True)
                        allocs = a["allocs"] if a else 5000
                    at = rng.randrange(1, allocs) if b.p(0.7) else rng.randrange(1, min(allocs, 400))
                    name = None
                    if op["k"] != "new" and b.p(0.55):
                        # inside a call of one of the library's functions, each of them as likely
                        by = {}
                        for j in range(len(b.docs)):
                            a = self.ample(z, "parse", False, texts[j], count=True)
                            for n in a["names"] if a else ():
                                by.setdefault(n, []).append(j)
                        if by:
                            name = b.pick(sorted(by))
                            op["d"] = b.pick(by[name])
                            at = int(60 ** rng.random())
                    op["x"] = {"how": "memory", "from": at, "to": b.pick([at + 1, at + 1, at + 1, at + 1, at + 1, at + rng.randrange(2, 10), at + rng.randrange(2, 500), at + rng.randrange(500, 5000)])}
                    if name:
                        op["x"].update({"in": name, "nth": b.pick([0, 0, 1, 1, 2, 3, rng.randrange(1, 20)])})
                elif d < len(b.docs) or b.p(0.3):
                    op["x"] = {"how": "limit", "n": rng.randrange(3, b.pick([15, 40, 80, 150]))}
                else:
                    op["x"] = {"how": "deep", "deep": b.pick([0, 0, 100, 500, 800, rng.randrange(900)])}
            ops.append(op)
            if "x" in op and b.p(0.5) and op["k"] != "new":
                ops.append({k: v for k, v in op.items() if k != "x"} if b.p(0.5) else {"k": "parse", "p": b.pick(ps), "d": rng.randrange(len(b.docs))})
        for p in ps:
            ops.append({"k": "parse", "p": p, "d": rng.randrange(len(b.docs))})
        return {"t": "exhaust", "docs": texts, "chunks": chunks, "plain": len(b.docs), "parsers": b.parsers, "ops": ops, "sched": {"policy": mode}}

    def attach(self, spec, z):
        ln = {p["id"]: p["ln"] for p in spec["parsers"]}
        expect = {}
        for op in spec["ops"]:
            if op["k"] == "new":
                ln[op["p"]] = op["ln"]
                continue
            k = op["k"].replace("file", "")
            key = f"{k}|{int(ln[op['p']])}|{op['d']}"
            t = spec["docs"][op["d"]]
            if k + "file" == op["k"] and "\r" in t:
                return False                    # reading a file translates newlines
            if key in expect:
                continue
            b = z.baseline(k, ln[op["p"]], t) if op["d"] < spec["plain"] else self.ample(z, k, ln[op["p"]], t)
            if b is None:
                return False
            expect[key] = b["outcome"]
        for op in spec["ops"]:
            # a document nested so deeply may be too deep for the ordinary stack at any time
            if op["k"] != "new" and op["d"] >= spec["plain"] and "x" not in op:
                op["x"] = {"how": "deep", "deep": 0}
            # CPython 3.12 drops the exception it is unwinding when it cannot allocate a frame object for the caller
            # (take_ownership in Python/frame.c), so a call that ends in an error anyway says nothing when memory runs out
            elif op["k"] != "new" and op.get("x", {}).get("how") == "memory":
                want = expect[f"{op['k'].replace('file', '')}|{int(ln[op['p']])}|{op['d']}"]
                if want is None or "error" in want:
                    del op["x"]
        spec["expect"] = expect
        return True

    def run(self, spec, z, trace=None):
        rep = super().run(spec, z, trace)
        if rep.get("hang") and any(op.get("x", {}).get("how") == "memory" for op in spec["ops"]):
            return {"violations": [], "probes": ["interpreter does not recover"], "fired": {}, "counts": {}, "history": "", "trace": []}
        if "died" in rep:
            s = rep["died"]
            # the interpreter itself does not survive every failed allocation; that says nothing about the library
            name = signal.Signals(s & 127).name if s & 127 else f"exit {s >> 8}"
            return {"violations": [], "probes": [f"interpreter died: {name}"], "fired": {}, "counts": {}, "history": "", "trace": []}
        return rep

    def tidy(self, spec):
        return {k: v for k, v in spec.items() if k not in ("expect", "rundir", "trace")}

    def shrinks(self, spec, trace):
        for part in chop(spec["ops"]):
            if part:
                yield dict(spec, ops=part), trace
