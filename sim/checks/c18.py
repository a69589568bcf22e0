"""C18  Results can be copied, stored and handed to other processes."""

import os
import shutil

from sim import canon, execs
from sim.check import Check, chop
from sim.execs import LOCALES, TIMES, ZONES
from sim.plan import Builder

HOW = [0, 1, 2, 3, 4, 5, 4, 5, "json"]


class CHECK(Check):
    id = "C18"
    title = "Results can be copied, stored and handed to other processes"
    rule = ("2-4 starts of a new interpreter, each with its own hash seed, locale, flags and form of installation; in them results are made, "
            "copied (deepcopy, pickle protocols 0-5, JSON), stored, sent through pipes by forked workers, loaded by processes that have not used "
            "the library yet, after parsers are gone and after crashes of the process that stored them, over several generations; every value "
            "that is loaded must be the baseline of its document; non-trivial: a result crossed a process boundary; distinct by hash of plan and outcomes")
    real = "pycep, lark, regex, pickle, copy, json, CPython started by execve, fork"
    stub = "clock of the started interpreters"

    def interesting(self, spec, rep):
        return rep["fired"].get("result loaded in another process", 0) > 0

    def signature(self, spec, rep):
        return rep["history"]

    def sample(self, spec, rep):
        return "; ".join(f"hash seed {s['env'].get('PYTHONHASHSEED')} " + " ".join(c["k"] for c in s["calls"]) for s in spec["starts"])[:400]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        size = b.pick([("nano", "tiny"), ("tiny", "small"), ("small", "medium"), ("medium",), ("tiny", "large")])
        for _ in range(60):
            if len(b.docs) >= 5:
                break
            b.doc(sizes=size, relatives=0.2, ok=True)
        good = [i for i in range(len(b.docs)) if "ok" in (z.baseline("parse", False, b.docs[i]) or {}).get("outcome", {})]
        if not good:
            return None
        starts, slots = [], {}              # slot -> (document, line numbers, went through JSON)
        ns = 0
        for i in range(b.pick([2, 2, 3, 4])):
            ops, kept = [], {}
            nr = 0
            for _ in range(rng.randrange(4, 14)):
                r = rng.random()
                if slots and r < 0.25 or not kept and slots and i and b.p(0.7):
                    s = b.pick(sorted(slots))
                    d, ln, how, js = slots[s]
                    kept[nr] = (d, ln, js)
                    ops.append({"k": "get", "s": s, "how": how, "r": nr, "want": [d, ln, js]})
                    nr += 1
                elif not kept or r < 0.4:
                    d, ln = b.pick(good), b.p(0.4)
                    kept[nr] = (d, ln, False)
                    ops.append({"k": "make", "p": f"p{int(ln)}", "ln": ln, "d": d, "r": nr, "want": [d, ln, False]})
                    nr += 1
                elif r < 0.62:
                    a = b.pick(sorted(kept))
                    d, ln, js = kept[a]
                    how = b.pick(["deepcopy", "deepcopy", "part", *HOW])
                    js = js or how == "json"
                    kept[nr] = (d, ln, js)
                    ops.append({"k": "copy", "r": a, "to": nr, "how": how, "want": [d, ln, js]})
                    nr += 1
                elif r < 0.82:
                    a = b.pick(sorted(kept))
                    d, ln, js = kept[a]
                    how = b.pick(HOW)
                    slots[ns] = (d, ln, how, js or how == "json")
                    ops.append({"k": "put", "r": a, "s": ns, "how": how})
                    ns += 1
                elif r < 0.9:
                    d, ln = b.pick(good), b.p(0.4)
                    inner = {"k": "make", "p": f"p{int(ln)}", "ln": ln, "d": d, "r": nr}
                    if b.p(0.3):
                        a = b.pick(sorted(kept))
                        d, ln, js = kept[a]
                        inner = {"k": "look", "r": a}
                    else:
                        js = False
                    kept[nr] = (d, ln, js)
                    ops.append({"k": "worker", "op": inner, "how": b.pick(HOW[:-1]), "to": nr, "want": [d, ln, js]})
                    nr += 1
                elif r < 0.93:
                    ops.append({"k": "drop"})
                elif r < 0.97:
                    a = b.pick(sorted(kept))
                    ops.append({"k": "look", "r": a, "want": list(kept[a])})
                else:
                    ln = b.p(0.4)
                    ops.append({"k": "call", "p": f"p{int(ln)}", "ln": ln, "d": b.pick(good)})
            if b.p(0.25):
                ops.append({"k": "kill"})
            env = dict(b.pick(LOCALES))
            env["PYTHONHASHSEED"] = str(b.pick([0, 1, rng.randrange(3, 1 << 32)]))
            env["TZ"] = b.pick(ZONES)
            if b.p(0.3):
                env["SIM_CLOCK"] = str(b.pick(TIMES))
            starts.append({"env": env, "flags": list(b.pick([[], [], [], ["-O"], ["-OO"], ["-X", "dev"]])), "calls": ops,
                           "form": b.pick(execs.FORMS) if b.p(0.1) else None})
        return {"docs": b.docs, "chunks": b.chunks, "starts": starts, "sched": {"policy": "none"}}

    def attach(self, spec, z):
        expect = {}
        for s in spec["starts"]:
            for c in s["calls"]:
                if "want" in c:
                    d, ln, js = c["want"]
                    b = z.baseline("parse", ln, spec["docs"][d])
                    if b is None or "ok" not in b["outcome"]:
                        return False
                    expect[f"{d}|{int(ln)}|0"] = b["outcome"]
                    expect[f"{d}|{int(ln)}|1"] = {"ok": plain(b["outcome"]["ok"])}
        spec["expect"] = expect
        return True

    def run(self, spec, z, trace=None):
        z.clean()
        tmp = os.path.join(z.rundir, "tmp")
        warm = os.path.join(z.scratch, "warm", "tmp")
        if not os.path.isdir(warm):
            os.makedirs(warm)
            execs.start(z, [{"k": "new", "p": "p", "ln": False, "cache": True}], spec, {"PYTHONHASHSEED": "0"}, [], "/", warm, 0o022)
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(warm, tmp)
        rep = {"violations": [], "calls": 0, "fired": {}, "probes": [], "counts": {"interpreters_started": 0}, "trace": []}
        bad = rep["violations"].append
        log = []
        wrote = {}

        def fired(x):
            rep["fired"][x] = rep["fired"].get(x, 0) + 1
        for i, s in enumerate(spec["starts"]):
            got, err = execs.start(z, s["calls"], spec, s["env"], s["flags"], "work", tmp, 0o022, form=s.get("form"), script="handover.py")
            rep["counts"]["interpreters_started"] += 1
            if got is None:
                bad({"kind": "start", "op": i, "detail": f"start {i} in {s['env']} ended with {err}"})
                break
            if err:
                fired("process killed after storing results")
            for j, (c, o) in enumerate(zip(s["calls"], got["outcomes"])):
                rep["calls"] += 1
                log.append(canon.digest(o))
                if c["k"] == "put":
                    wrote[c["s"]] = i
                if c["k"] == "get":
                    if wrote.get(c["s"]) != i:
                        fired("result loaded in another process")
                        if not any(x["k"] in ("make", "call") for x in s["calls"][:j]):
                            fired("loaded before the library was used")
                elif c["k"] in ("copy", "worker"):
                    fired(f"{c['k']} {c['how']}")
                    if c["k"] == "worker":
                        fired("result loaded in another process")
                want = {"ok": None}
                if "want" in c:
                    d, ln, js = c["want"]
                    want = spec["expect"][f"{d}|{int(ln)}|{int(js)}"]
                if o != want:
                    bad({"kind": "outcome", "op": f"{i}.{j}", "detail": f"start {i} ({s['env']}, flags {s['flags']}), operation {j} {c}: {canon.diff(o, want)}"})
                    break
            if rep["violations"]:
                break
        rep["history"] = canon.digest([log, [[s["env"], s["flags"], s["calls"]] for s in spec["starts"]]])
        rep["steps"] = rep["calls"]
        return rep

    def shrinks(self, spec, trace):
        for i, s in enumerate(spec["starts"]):
            def w(**kw):
                return closed(dict(spec, starts=[dict(x, **kw) if j == i else x for j, x in enumerate(spec["starts"])]))
            for part in chop(s["calls"]):
                yield w(calls=part), trace
            for k in list(s["env"]):
                if k != "PYTHONHASHSEED":
                    yield w(env={a: v for a, v in s["env"].items() if a != k}), trace
            if s["flags"]:
                yield w(flags=[]), trace
            if s.get("form"):
                yield w(form=None), trace
            if not s["calls"] and len(spec["starts"]) > 1:
                yield dict(spec, starts=spec["starts"][:i] + spec["starts"][i + 1:]), trace
        for d in {c["want"][0] for s in spec["starts"] for c in s["calls"] if "want" in c}:
            if len(spec["chunks"][d]) > 1:
                for part in chop(spec["chunks"][d]):
                    if part:
                        yield dict(spec, chunks=[part if j == d else c for j, c in enumerate(spec["chunks"])],
                                   docs=["".join(part) if j == d else t for j, t in enumerate(spec["docs"])]), trace


def plain(v):
    """The canonical form after a trip through JSON."""
    if isinstance(v, str):
        return "s" + v.removeprefix("<BicepElement>") if v.startswith("<BicepElement>") else v
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict) and "{}" in v:
        return {"{}": [[plain(k), plain(x)] for k, x in v["{}"]]}
    return v


def closed(spec):
    """Without the operations whose result is not there any more."""
    slots = set()
    starts = []
    for s in spec["starts"]:
        kept, calls = set(), []
        for c in s["calls"]:
            if c["k"] in ("copy", "put", "look") and c["r"] not in kept or c["k"] == "get" and c["s"] not in slots \
                    or c["k"] == "worker" and c["op"]["k"] == "look" and c["op"]["r"] not in kept:
                continue
            calls.append(c)
            if c["k"] in ("make", "get"):
                kept.add(c["r"])
            elif c["k"] in ("copy", "worker"):
                kept.add(c["to"])
            elif c["k"] == "put":
                slots.add(c["s"])
        starts.append(dict(s, calls=calls))
    return dict(spec, starts=starts)
