"""Building blocks for plans.  A plan is JSON data drawn from one seed; it says what is done, with which faults, and
how the scheduler decides.  Everything a run needs is in it, so that it doubles as the replay file."""

from __future__ import annotations

import base64
import random

from sim import docs

SIZES = {"nano": 300, "tiny": 220, "small": 220, "medium": 80, "large": 24, "huge": 6, "catalog": 40, "full": 10}


def all_ops(spec: dict):
    """Every operation of a plan, with those of nested calls and forked children."""
    def walk(ops):
        for op in ops:
            yield op
            if op["k"] == "fork":
                yield from walk(op["ops"])
    yield from walk(spec.get("before", ()))
    for t in spec["tasks"]:
        yield from walk(t["ops"])
    for f in spec.get("faults", ()):
        if "ops" in f:
            yield from walk(f["ops"])
    yield from walk(spec.get("after", ()))


def blob_text(data: bytes) -> str | None:
    try:
        return data.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
    except UnicodeDecodeError:
        return None


def attach(spec: dict, z) -> bool:
    """Fill in what every call has to give.  False: a document is of no use (too slow)."""
    ln = {p["id"]: bool(p["ln"]) for p in spec["parsers"]}
    for op in all_ops(spec):
        if op["k"] == "new":
            ln[op["p"]] = bool(op.get("ln"))
    expect = {}
    for op in all_ops(spec):
        k = op["k"]
        if k in ("parse", "tree"):
            key = f"{k}|{int(ln[op['p']])}|{op['d']}"
            if key not in expect:
                b = z.baseline(k, ln[op["p"]], spec["docs"][op["d"]])
                if b is None:
                    return False
                expect[key] = b["outcome"]
            if op.get("strip") and ln[op["p"]] and k == "parse":
                b = z.baseline(k, False, spec["docs"][op["d"]])
                if b is None:
                    return False
                expect[f"plain|{op['d']}"] = b["outcome"]
        elif k == "misuse":
            key = f"misuse|{op['how']}"
            if key not in expect:
                expect[key] = z.baseline("misuse", False, None, how=op["how"])["outcome"]
        elif k in ("parsefile", "treefile"):
            kind = "parse" if k == "parsefile" else "tree"
            for i, b64 in enumerate(spec["blobs"]):
                key = f"{kind}|{int(ln[op['p']])}|b{i}"
                if key not in expect:
                    t = blob_text(base64.b64decode(b64))
                    if t is None:
                        expect[key] = {"error": "UnicodeDecodeError"}
                    else:
                        b = z.baseline(kind, ln[op["p"]], t)
                        if b is None:
                            return False
                        expect[key] = b["outcome"]
    spec["expect"] = expect
    return True


class Builder:
    def __init__(self, rng: random.Random, z, seed: int) -> None:
        self.rng = rng
        self.z = z
        self.seed = seed
        self.docs: list[str] = []
        self.chunks: list[list[str]] = []
        self.outcomes: list = []
        self._sizes: list = []
        self.index: dict = {}
        self.n = 0
        self.parsers: list[dict] = []
        self.ln: dict = {}
        self.faults: list[dict] = []
        self.blobs: list[str] = []
        self.twin: bytes | None = None
        self.via: dict = {}
        self.coarse = rng.random() < 0.6
        self.stateful = rng.random() < 0.35     # documents during whose processing the library keeps something for later

    def uid(self) -> int:
        self.n += 1
        return self.n

    def pick(self, seq):
        return seq[self.rng.randrange(len(seq))]

    def p(self, x: float) -> bool:
        return self.rng.random() < x

    # -- documents ---------------------------------------------------------------------------------
    def pool_doc(self, size: str, j: int | None = None) -> dict:
        if j is None:
            j = self.rng.randrange(SIZES[size])
        d = docs.make(self.seed * 100000 + j, size)
        return d

    def add_doc(self, d: dict) -> int | None:
        t = docs.text(d)
        if t in self.index:
            return self.index[t]
        b = self.z.baseline("parse", False, t)
        if b is None:
            return None
        self.docs.append(t)
        self.chunks.append(d["chunks"])
        self.outcomes.append(b["outcome"])
        self._sizes.append(None)
        self.index[t] = len(self.docs) - 1
        return len(self.docs) - 1

    def doc(self, sizes=("nano", "tiny", "small"), relatives: float = 0.3, ok: bool = False) -> int:
        for _ in range(100):
            d = self.pool_doc(self.pick(sizes))
            if self.stateful and not docs.stateful(docs.text(d)) and self.p(0.8):
                continue
            if self.p(relatives) and self.docs:
                base = {"chunks": self.chunks[self.rng.randrange(len(self.docs))], "tag": d["tag"]}
                d = docs.relative(self.rng, base if self.p(0.7) else d)
            i = self.add_doc(d)
            if i is None or (ok and "ok" not in self.outcomes[i]):
                continue
            return i
        raise RuntimeError("no usable document")

    def size(self, i: int, warm: bool = False) -> dict:
        """How many steps a call on this document takes, and where among them the library's own lines are; by a new parser or by one
        that has built everything it builds on demand."""
        if self._sizes[i] is None:
            self._sizes[i] = self.z.baseline("parse", False, self.docs[i], count=True) or {}
        return self._sizes[i].get("warm" if warm else "cold") or {"n": 2000, "i": 1000, "c": 500, "marks": [], "each": [], "names": []}

    def size_of(self, op: dict) -> dict:
        p = op["p"]
        return self.size(op["d"], self.p(0.95) if p[0] in "WU" else self.p(0.5))

    def mark(self, b: dict):
        """A place in the library's own code: evenly over the call, or over its functions."""
        if self.p(0.5):
            return self.pick(b["marks"])
        name = self.pick(b["names"])
        return self.pick([m for m in b["each"] if m[3] == name])

    def documents(self, n: int, **kw) -> None:
        for _ in range(n):
            self.doc(**kw)

    # -- parsers -----------------------------------------------------------------------------------
    def stock(self, *names: str) -> None:
        for s in names:
            self.parsers.append({"id": s, "src": s, "ln": s.endswith("1")})
            self.ln[s] = s.endswith("1")

    def new_parser(self, ln: bool, cache: bool = True) -> str:
        pid = f"N{len(self.parsers)}"
        self.parsers.append({"id": pid, "src": "new", "ln": ln, "cache": cache})
        self.ln[pid] = ln
        return pid

    # -- operations --------------------------------------------------------------------------------
    def call(self, p=None, d=None, tree: float = 0.15, **more) -> dict:
        op = {"u": self.uid(), "k": "tree" if self.p(tree) else "parse",
              "p": p if p is not None else self.pick(sorted(self.ln)),
              "d": d if d is not None else self.rng.randrange(len(self.docs))}
        op.update(more)
        return op

    def blob(self, broken: float = 0.08) -> int:
        """A file content: a document in some encoding of its line ends, or bytes that are no text."""
        if self.twin is not None and self.p(0.6):
            raw, self.twin = self.twin, None
            b64 = base64.b64encode(raw).decode()
            if b64 not in self.blobs:
                self.blobs.append(b64)
            return self.blobs.index(b64)
        t = self.docs[self.rng.randrange(len(self.docs))]
        r = self.rng.random()
        if r < broken:
            raw = t.encode("utf-8")
            at = self.rng.randrange(len(raw) + 1)
            bad = self.pick([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\x80", b"\xf0\x9f\x98", b"\xfe\xff"])
            if self.p(0.3):
                raw = t.encode("utf-16-le") + bad
            else:
                raw = raw[:at] + bad + raw[at:]
        elif r < broken + 0.15:
            raw = t.replace("\r\n", "\n").replace("\n", self.pick(["\r\n", "\r"])).encode("utf-8")
        elif r < broken + 0.3:
            raw = ("// \u00e9\u6f22\U0001f600\u2028 \u0130\n" + t).encode("utf-8")
        elif r < broken + 0.36:
            raw = b""
        elif r < broken + 0.46:
            raw = t.encode("utf-8")
            x = self.pick([b"\xef\xbb\xbf", b"\xef\xbb\xbf", b"\n", b" ", b"\t", b"\r", b"\x0c", b"\x1a", b"\0", b"\xc2\x85", b"\n\n \n", b"\xc2\xa0"])
            raw = x + raw if self.p(0.5) else raw + x
        elif r < broken + 0.54:
            raw = (t + "\nvar z = '''\nopen\n").encode("utf-8")
        elif r < broken + 0.64:
            # two that differ in one letter far from both ends, or only at the end
            n = self.pick([10, 600, 1100, 4200, 8300]) if self.p(0.9) else 66000
            pad = [b"", b"// " + b"p" * n + b"\n", b"\n//" + b"q" * self.pick([10, 600, 4200])]
            a, b = self.pick([(1, 0), (1, 2), (0, 2)])
            raw, self.twin = (pad[a] + (t + f"\nvar twin{x} = {x}\n").encode("utf-8") + pad[b] for x in (1, 2))
        else:
            raw = t.encode("utf-8")
        if self.twin is None and self.p(0.3) and self.blobs and r >= broken:
            # as long as another one
            n = len(base64.b64decode(self.blobs[self.rng.randrange(len(self.blobs))]))
            if len(raw) + 3 <= n < len(raw) + 300:
                raw = raw + b"\n//" + b"x" * (n - len(raw) - 3)
        b64 = base64.b64encode(raw).decode()
        if b64 not in self.blobs:
            self.blobs.append(b64)
        return self.blobs.index(b64)

    def invalid(self) -> int:
        """A file whose content is no document: a string that is not closed, nonsense, bytes that are no text."""
        t = self.docs[self.rng.randrange(len(self.docs))]
        raw = self.pick([(t + "\nvar z = '''\nopen\n").encode("utf-8"), b"var z = '''\n", b"'''", (t + "\n???\n").encode("utf-8"), b"\xff"])
        b64 = base64.b64encode(raw).decode()
        if b64 not in self.blobs:
            self.blobs.append(b64)
        return self.blobs.index(b64)

    def file_call(self, f: str, p=None, rel: bool = False, tree: float = 0.15) -> dict:
        op = {"u": self.uid(), "k": "treefile" if self.p(tree) else "parsefile",
              "p": p if p is not None else self.pick(sorted(self.ln)), "f": f}
        if f in self.via:
            op["via"] = self.via[f]
        if rel:
            op["rel"] = True
        return op

    def fs(self, do: str, f: str, names: list | None = None) -> dict:
        op = {"u": self.uid(), "k": "fs", "do": do, "f": f}
        if do in ("replace", "rewrite", "create"):
            op["c"] = self.blob()
        elif do == "symlink":
            op["to"] = self.pick(names or [f])
        return op

    def at_line(self, op: dict) -> int:
        """A point inside the call, often where the library itself (and not lark) is at work."""
        i = 2 if self.coarse else 0
        if "d" in op:
            b = self.size_of(op)
            if b["marks"] and self.p(0.65):
                return max(1, self.mark(b)[i] + self.rng.randrange(-2, 3))
            return self.rng.randrange(1, max(2, b["c" if self.coarse else "n"]))
        if self.docs and self.p(0.5):
            b = self.size(self.rng.randrange(len(self.docs)), self.p(0.7))
            if b["marks"]:
                return max(1, self.mark(b)[i] + self.rng.randrange(-2, 12))
        return self.rng.randrange(1, 400 if self.coarse else 3000)

    def at_interrupt(self, op: dict) -> int:
        if "d" in op:
            b = self.size_of(op)
            if b["marks"] and self.p(0.6):
                return max(1, self.mark(b)[1] + self.rng.randrange(-2, 4))
            return self.rng.randrange(1, max(2, b["i"]))
        if self.docs and self.p(0.5):
            b = self.size(self.rng.randrange(len(self.docs)), self.p(0.7))
            if b["marks"]:
                return max(1, self.mark(b)[1] + self.rng.randrange(-2, 20))
        return self.rng.randrange(1, 800 if self.p(0.8) else 4000)

    def cold(self, n: int, **more) -> list[list[dict]]:
        """The beginning of a process that has imported the library and nothing else: every thread makes its own parsers."""
        tasks = []
        for i in range(n):
            ops = []
            for j in range(self.pick([1, 1, 1, 2])):
                pid = f"T{i}c{j}"
                self.ln[pid] = self.p(0.5)
                ops.append(dict({"u": self.uid(), "k": "new", "p": pid, "ln": self.ln[pid], "cache": True}, **more))
                for _ in range(self.pick([0, 1, 1, 2, 3])):
                    ops.append(self.call(pid))
            tasks.append(ops)
        return tasks

    def at_new(self, on: str = "n") -> int:
        """A point inside a constructor call."""
        return self.rng.randrange(1, self.pick([40, 400, 4000, 40000] if on == "n" else [40, 400, 3000, 20000]))

    # -- schedules ---------------------------------------------------------------------------------
    def schedule(self, ops: list[dict], codes: list[str]) -> dict:
        r = self.rng
        s: dict = {"seed": r.randrange(1 << 30), "coarse": self.coarse}
        how = r.randrange(10)
        if how < 3:
            s.update(policy="walk", mean=self.pick([2, 5, 15, 50, 150, 600, 2500]), max=self.pick([100, 400, 1500]))
        elif how < 5:
            s.update(policy="pycep", mean=self.pick([1, 2, 4, 10, 30]))
        elif how == 9 and self.p(0.6):
            s.update(policy="meet", meetp=self.pick([0.01, 0.03, 0.1, 0.3]))
        elif how < 8:
            pts: dict = {}
            calls = [o for o in ops if o["k"] in ("parse", "tree", "parsefile", "treefile", "new")]
            for _ in range(r.randrange(1, 9)):
                if calls:
                    o = self.pick(calls)
                    pts.setdefault(str(o["u"]), []).append(self.at_new() if o["k"] == "new" and self.p(0.6) else self.at_line(o))
            s.update(policy="points", points=pts)
        else:
            if self.p(0.75):                    # functions that several of these calls enter
                count: dict = {}
                for o in ops:
                    for x in self.size(o["d"], True)["names"] if "d" in o else ():
                        count[x] = count.get(x, 0) + 1
                codes = sorted(x for x in count if count[x] > 1) or codes
            s.update(policy="points", points={}, hot=r.sample(codes, min(len(codes), r.randrange(1, 6))),
                     hotp=self.pick([0.05, 0.3, 0.7]))
            if "_create_tree" not in s["hot"] and self.p(0.5):
                s["hot"] += ["_create_tree", "parse", "create_tree"]
            if self.p(0.4):
                s["instructions"] = list(s["hot"])
        return s

    def spec(self, tasks: list[list[dict]], **more) -> dict:
        s = {"t": "concert", "docs": self.docs, "chunks": self.chunks, "parsers": self.parsers,
             "tasks": [{"ops": t} for t in tasks], "faults": self.faults, "blobs": self.blobs,
             "clock": [self.rng.randrange(1, 4_000_000_000), self.rng.randrange(1, 10 ** 6)],
             "seed": self.rng.randrange(1, 1 << 30)}
        s.update(more)
        if "sched" not in s:
            s["sched"] = {"policy": "none", "coarse": self.coarse}
        s["sched"]["main"] = self.p(0.5)
        return s
