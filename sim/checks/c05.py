"""C05  Caching off touches no storage; caching on heals and is reused."""

import os
import shutil

from sim import canon, execs
from sim.boots import REBUILD
from sim.check import chop
from sim.checks.boots_common import Boots

HEALED = ["truncate", "truncate", "zero-tail", "zero-page", "garbage", "text", "wrong-type", "other-head", "unlink", "empty"]


class CHECK(Boots):
    id = "C05"
    title = "Caching off touches no storage; caching on heals and is reused"
    level = "fault_enumeration"
    kinds = ("touched", "rewritten", "rebuilt", "hang", "start")
    rule = ("after a seeded history of crashed, failing and faulty starts, torn and overwritten cache files, come 2-4 starts without "
            "faults: the second and later ones must load (bounded number of lark calls) and write nothing; starts with cache=False anywhere "
            "in the history must touch nothing; the same for real starts of new interpreters with other hash seeds, locales, clocks, flags; non-trivial: a fault fired or more than one start; distinct by hash of the storage history")

    def plan(self, rng, z, idx):
        if idx % 8 == 6:
            return self.interpreters(rng)
        h = []
        if rng.random() < 0.75:
            h.append({"k": "disk", "do": "restore", "seed": 0})
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.4:
                h.append(self.disk(rng, HEALED))
            elif r < 0.75:
                if rng.random() < 0.5:
                    h.append(self.disk(rng, ["unlink", "truncate", "empty"]))
                h.append(self.boot(rng, [self.fault(rng) for _ in range(rng.choice([1, 1, 2]))]))
            elif r < 0.83:
                h.append(self.boot(rng, [], other=rng.randrange(4)))
            elif r < 0.93:
                b = self.boot(rng, [], threads=True)
                while len(b["parsers"]) < 2:
                    b["parsers"].append({"ln": rng.random() < 0.5, "cache": True, "docs": self.some_docs(rng, 3)})
                b["sched"] = {"seed": rng.randrange(1 << 30), "sysp": rng.choice([0.1, 0.3, 0.7])}
                if rng.random() < 0.6:
                    h.append(self.disk(rng, ["unlink", "empty"]))
                h.append(b)
            if rng.random() < 0.3:
                h.append(self.off(rng))
        for _ in range(rng.choice([2, 2, 3])):
            h.append(self.boot(rng))
        if rng.random() < 0.3:
            h.insert(rng.randrange(len(h) + 1), self.off(rng))
        return {"t": "boots", "history": h}

    # ---- starts of new interpreters, each with hash seed, locale, clock ... of its own, on one storage
    def interpreters(self, rng):
        starts = []
        for i in range(rng.choice([2, 2, 3, 4])):
            env = dict(rng.choice(execs.LOCALES), USER="sim", LOGNAME="sim", TZ=rng.choice(execs.ZONES),
                       PYTHONHASHSEED=str(rng.choice([0, 1, 2, rng.randrange(3, 1 << 32), rng.randrange(3, 1 << 32)])))
            if rng.random() < 0.6:
                env["SIM_CLOCK"] = str(rng.choice(execs.TIMES))
            calls = []
            cache = i == 0 or rng.random() < 0.8
            for j in range(rng.choice([1, 1, 2])):
                calls.append({"k": "new", "p": f"p{j}", "ln": rng.random() < 0.4, "cache": cache})
                calls += [{"k": rng.choice(["parse", "tree"]), "p": f"p{j}", "d": d} for d in self.some_docs(rng, rng.choice([0, 1, 3]))]
            starts.append({"env": env, "flags": rng.choice([[], [], [], ["-O"], ["-OO"], ["-X", "dev"], ["-s"]]), "cwd": rng.choice(["work", "other", "/", "gone"]),
                           "umask": rng.choice([0o022, 0o077]), "calls": calls})
        return {"t": "exec", "starts": starts, "sched": {"policy": "none"}}

    def attach(self, spec, z):
        if spec["t"] == "exec":
            spec["docs"] = self.docs
            return True
        return Boots.attach(self, spec, z)

    def sample(self, spec, rep):
        if spec["t"] != "exec":
            return Boots.sample(self, spec, rep)
        return "; ".join(f"interpreter with hash seed {s['env']['PYTHONHASHSEED']} {' '.join(s['flags'])} {s['env'].get('LC_ALL', '')} clock "
                         f"{s['env'].get('SIM_CLOCK', '')} cache {s['calls'][0]['cache']}" for s in spec["starts"])[:400]

    def run(self, spec, z, trace=None):
        if spec["t"] != "exec":
            return Boots.run(self, spec, z, trace)
        z.clean()
        tmp = os.path.join(z.rundir, "tmp")
        shutil.rmtree(z.rundir, ignore_errors=True)
        os.makedirs(tmp)
        rep = {"violations": [], "calls": 0, "fired": {}, "probes": [], "counts": {"interpreters_started": 0}, "trace": []}
        bad = rep["violations"].append
        log = []
        filled = False
        before = everything(z.rundir)
        for i, s in enumerate(spec["starts"]):
            got, err = execs.start(z, s["calls"], spec, s["env"], s["flags"], s["cwd"], tmp, s["umask"], count=True)
            rep["counts"]["interpreters_started"] += 1
            after = everything(z.rundir)
            cache = any(c.get("cache") for c in s["calls"])
            what = f"start {i} ({s['env']}, flags {s['flags']}, cwd {s['cwd']})"
            if got is None:
                bad({"kind": "hang" if err == "hang" else "start", "op": i, "detail": f"{what} ended with {err}"})
                break
            rep["calls"] += len(s["calls"])
            changed = sorted(p for p in before.keys() | after.keys() if before.get(p) != after.get(p))
            if not cache and changed:
                bad({"kind": "touched", "op": i, "detail": f"{what} with cache=False changed {changed[:5]}"})
            elif cache and filled and changed:
                bad({"kind": "rewritten", "op": i, "detail": f"{what}, after a good start, wrote to the storage: {changed[:5]}"})
            elif cache and filled and max(got["lark_calls"]) > REBUILD:
                bad({"kind": "rebuilt", "op": i, "detail": f"{what}, after a good start, built the grammar again instead of loading it"})
            if cache and filled:
                rep["counts"]["starts_from_a_good_storage"] = rep["counts"].get("starts_from_a_good_storage", 0) + 1
            filled = filled or cache
            before = after
            log.append([changed, [canon.digest(o) for o in got["outcomes"]]])
        rep["history"] = canon.digest([[s["env"], s["flags"], s["cwd"]] for s in spec["starts"]])
        rep["steps"] = len(spec["starts"])
        return rep

    def shrinks(self, spec, trace):
        if spec["t"] != "exec":
            yield from Boots.shrinks(self, spec, trace)
            return
        for part in chop(spec["starts"]):
            if part:
                yield dict(spec, starts=part), trace
        for i, s in enumerate(spec["starts"]):
            def w(**kw):
                return dict(spec, starts=[dict(x, **kw) if j == i else x for j, x in enumerate(spec["starts"])])
            rest = [c for c in s["calls"] if c["k"] == "new"][:1]
            if len(rest) < len(s["calls"]):
                yield w(calls=rest), trace
            for k in list(s["env"]):
                if k not in ("PYTHONHASHSEED", "USER", "LOGNAME"):
                    yield w(env={a: v for a, v in s["env"].items() if a != k}), trace
            if s["flags"]:
                yield w(flags=[]), trace
            if s["cwd"] != "work":
                yield w(cwd="work"), trace


def everything(root):
    """Every file of the storage with its content and time, and every directory's name."""
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), root) + "/"] = 1
        for n in fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = [st.st_ino, st.st_mtime_ns, st.st_mode, hash(f.read())]
    for n in ("work/", "other/", "home/", "gone/"):
        out.pop(n, None)
    return out
