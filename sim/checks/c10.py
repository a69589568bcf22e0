"""C10  Restarts in another environment give the same outcomes."""

import base64
import json
import os
import shutil

from sim import canon, execs
from sim.check import Check, chop
from sim.driver import HarnessError
from sim.execs import LOCALES, NAMES, TIMES, ZONES
from sim.plan import Builder, blob_text



class CHECK(Check):
    id = "C10"
    title = "Restarts in another environment give the same outcomes"
    rule = ("2-5 starts of a new interpreter, each with its own hash seed, locale and encoding settings, time zone, clock, working "
            "directory, user name, optimisation level, flags and form of installation, over a cache written by a process with another hash seed (or none, "
            "or cache=False), make 4-16 parse, create_tree, file and misuse calls in different orders; every outcome incl. key order "
            "must equal the baseline of a process with hash seed 0; non-trivial: at least two starts; distinct by hash of plan and outcomes")
    real = "pycep, lark, regex, CPython started by execve, the file system"
    stub = "clock of the started interpreters"

    def prepare(self, z):
        super().prepare(z)
        self.n_origin = 0

    def interesting(self, spec, rep):
        return len(spec["starts"]) > 1

    def signature(self, spec, rep):
        return rep["history"]

    def sample(self, spec, rep):
        return "; ".join(f"hash seed {s['env'].get('PYTHONHASHSEED')} {' '.join(s['flags'])} {s['env'].get('LC_ALL', '')} clock {s['env'].get('SIM_CLOCK', '')} "
                         f"cache {s['origin']} {len(s['calls'])} calls" for s in spec["starts"])[:400]

    def plan(self, rng, z, idx):
        b = Builder(rng, z, self.seed)
        b.documents(rng.randrange(2, 8), sizes=b.pick([("tiny",), ("tiny", "small"), ("small", "medium"), ("medium",), ("nano", "small", "medium"), ("nano", "catalog")]))
        files = {}
        for n in rng.sample(range(len(NAMES)), rng.randrange(1, 4)):
            files[str(n)] = b.blob()
        starts = []
        for _ in range(b.pick([2, 3, 3, 4, 5])):
            calls = []
            ps = [{"k": "new", "p": f"p{ln}", "ln": bool(ln), "cache": b.p(0.93)} for ln in b.pick([(0,), (1,), (0, 1), (1, 0)])]
            for _ in range(rng.randrange(4, 17)):
                p = b.pick(ps)["p"]
                r = rng.random()
                if r < 0.05:
                    calls.append({"k": "misuse", "p": p, "how": rng.randrange(3)})
                elif r < 0.3:
                    calls.append({"k": b.pick(["parsefile", "parsefile", "treefile"]), "p": p, "f": int(b.pick(sorted(files))), "rel": b.p(0.3)})
                else:
                    calls.append({"k": b.pick(["parse", "parse", "parse", "tree"]), "p": p, "d": rng.randrange(len(b.docs))})
            env = dict(b.pick(LOCALES))
            env["PYTHONHASHSEED"] = b.pick(["0", "1", "random" if b.p(0.02) else "2", str(rng.randrange(3, 1 << 32)), str(rng.randrange(3, 1 << 32))])
            if env["PYTHONHASHSEED"] == "random":
                env["PYTHONHASHSEED"] = str(rng.randrange(1 << 32))     # reproducible all the same
            env["TZ"] = b.pick(ZONES)
            if b.p(0.7):
                env["SIM_CLOCK"] = str(b.pick(TIMES))
            flags = list(b.pick([[], [], ["-O"], ["-O"], ["-OO"], ["-X", "dev"], ["-s"], ["-b"], ["-bb"], ["-W", "error"], ["-I"], ["-B"], ["-v"] if b.p(0.2) else [], ["-X", "utf8=0"], ["-X", "int_max_str_digits=640"], ["-X", "no_debug_ranges"]]))
            if flags == ["-X", "int_max_str_digits=640"]:
                flags = []
            for k in sorted(execs.EXTRA):
                if b.p(0.06):
                    env[k] = b.pick(execs.EXTRA[k])
            if b.p(0.2):
                env["PYTHONMALLOC"] = b.pick(["malloc", "debug"])
            env["USER"] = env["LOGNAME"] = b.pick(["sim", "root", "j\u00fcrgen", "n o b"])
            starts.append({"env": env, "flags": flags, "cwd": b.pick(["work", "other", "/", "gone"]), "calls": ps + calls,
                           "origin": b.pick(["7", "8", "9", "7", "8", "9", "7", "8", "none", "kept", "kept"]),
                           "umask": b.pick([0o022, 0o077, 0o777]),
                           "form": b.pick(execs.FORMS) if b.p(0.25) else None, "quiet": b.p(0.1), "tty": b.p(0.12),
                           "when": b.pick(["at exit", "another thread"]) if b.p(0.15) else None})
        return {"docs": b.docs, "chunks": b.chunks, "files": files, "blobs": b.blobs, "starts": starts, "sched": {"policy": "none"}}

    def attach(self, spec, z):
        expect = {}
        for s in spec["starts"]:
            ln = {c["p"]: c["ln"] for c in s["calls"] if c["k"] == "new"}
            for c in s["calls"]:
                k = key(c, ln, spec)
                if k is None or k in expect:
                    continue
                if c["k"] == "misuse":
                    b = z.baseline("misuse", False, None, how=c["how"])
                elif "d" in c:
                    b = z.baseline(c["k"], ln[c["p"]], spec["docs"][c["d"]])
                else:
                    t = blob_text(base64.b64decode(spec["blobs"][spec["files"][str(c["f"])]]))
                    b = {"outcome": {"error": "UnicodeDecodeError"}} if t is None else z.baseline(c["k"].replace("file", ""), ln[c["p"]], t)
                if b is None:
                    return False
                expect[k] = b["outcome"]
        spec["expect"] = expect
        return True

    def origin(self, z, o, tmp, spec):
        """Put the cache in place that a process with hash seed `o` wrote."""
        d = os.path.join(z.scratch, f"origin{o}", "tmp")
        if not os.path.isdir(d):
            os.makedirs(d)
            rep, err = execs.start(z, [{"k": "new", "p": "p", "ln": False, "cache": True}], spec, {"PYTHONHASHSEED": o, "USER": "sim", "LOGNAME": "sim"},
                                  [], "/", d, 0o022)
            if rep is None:
                raise HarnessError(f"cache origin: {err}")
            self.n_origin += 1
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(d, tmp)

    def run(self, spec, z, trace=None):
        z.clean()
        tmp = os.path.join(z.rundir, "tmp")
        os.makedirs(os.path.join(z.rundir, "work"), exist_ok=True)
        for n, i in spec["files"].items():
            with open(os.path.join(z.rundir, "work", NAMES[int(n)]), "wb") as f:
                f.write(base64.b64decode(spec["blobs"][i]))
        rep = {"violations": [], "calls": 0, "fired": {}, "probes": [], "counts": {"interpreters_started": 0}, "trace": []}
        bad = rep["violations"].append
        log = []
        for i, s in enumerate(spec["starts"]):
            if s["origin"] == "none":
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)
            elif s["origin"] != "kept" or not os.path.isdir(tmp):
                self.origin(z, s["origin"] if s["origin"] != "kept" else "7", tmp, spec)
            calls = [c if not (c.get("rel") and s["cwd"] != "work") else dict(c, rel=False) for c in s["calls"]]
            got, err = execs.start(z, calls, spec, s["env"], s["flags"], s["cwd"], tmp, s["umask"], form=s.get("form"), quiet=s.get("quiet", False), when=s.get("when"), tty=s.get("tty", False))
            rep["counts"]["interpreters_started"] += 1
            for k in ("LC_ALL", "SIM_CLOCK", "PYTHONMALLOC"):
                if k in s["env"]:
                    f = f"{k}={s['env'][k]}" + (" without UTF-8 mode" if k == "LC_ALL" and s["env"].get("PYTHONUTF8") == "0" else "")
                    rep["fired"][f] = rep["fired"].get(f, 0) + 1
            for f in [f"cache {'of hash seed ' + s['origin'] if s['origin'].isdigit() else s['origin']}", f"cwd {s['cwd']}"] + ([" ".join(s["flags"])] if s["flags"] else []) \
                    + ([f"package in a {s['form']}"] if s.get("form") else []) + (["no standard streams"] if s.get("quiet") else []) + (["standard streams are a terminal"] if s.get("tty") else []) + (["calls made " + s["when"].replace("another", "in another")] if s.get("when") else []):
                rep["fired"][f] = rep["fired"].get(f, 0) + 1
            if got is None:
                bad({"kind": "start", "op": i, "detail": f"start {i} in {s['env']} ended with {err}"})
                break
            ln = {c["p"]: c["ln"] for c in s["calls"] if c["k"] == "new"}
            for j, (c, o) in enumerate(zip(s["calls"], got["outcomes"])):
                rep["calls"] += 1
                log.append(canon.digest(o))
                want = {"ok": None} if c["k"] == "new" else spec["expect"][key(c, ln, spec)]
                if o.get("error") == "UnicodeDecodeError":
                    o = {"error": o["error"]}
                if o.get("error") == "ValueError" and want.get("error") == "ValueError" and "f" in c:
                    continue
                if o != want:
                    bad({"kind": "outcome", "op": f"{i}.{j}", "detail": f"start {i} ({s['env']}, flags {s['flags']}, cwd {s['cwd']}, cache {s['origin']}"
                         f"{', package in a ' + s['form'] if s.get('form') else ''}{', no standard streams' if s.get('quiet') else ''}{', standard streams are a terminal' if s.get('tty') else ''}{', calls made: ' + s['when'] if s.get('when') else ''}), "
                         f"call {j} {c}: {canon.diff(o, want)}"})
                    break
        rep["history"] = canon.digest([log, [[s["env"], s["flags"], s["cwd"], s["origin"]] for s in spec["starts"]]])
        rep["steps"] = rep["calls"]
        return rep

    def shrinks(self, spec, trace):
        for part in chop(spec["starts"]):
            if part:
                yield dict(spec, starts=part), trace
        for i, s in enumerate(spec["starts"]):
            def w(**kw):
                return dict(spec, starts=[dict(x, **kw) if j == i else x for j, x in enumerate(spec["starts"])])
            new = [c for c in s["calls"] if c["k"] == "new"]
            rest = [c for c in s["calls"] if c["k"] != "new"]
            for part in chop(rest):
                ps = {c["p"] for c in part}
                if ps:
                    yield w(calls=[c for c in new if c["p"] in ps] + part), trace
            for k in list(s["env"]):
                if k != "PYTHONHASHSEED":
                    yield w(env={a: v for a, v in s["env"].items() if a != k}), trace
            if s["flags"]:
                yield w(flags=[]), trace
            if s.get("form"):
                yield w(form=None), trace
            if s.get("quiet"):
                yield w(quiet=False), trace
            if s.get("tty"):
                yield w(tty=False), trace
            if s.get("when"):
                yield w(when=None), trace
            if s["cwd"] != "work":
                yield w(cwd="work"), trace
        for d in {c["d"] for s in spec["starts"] for c in s["calls"] if "d" in c}:
            if len(spec["chunks"][d]) > 1:
                for part in chop(spec["chunks"][d]):
                    if part:
                        yield dict(spec, chunks=[part if j == d else c for j, c in enumerate(spec["chunks"])],
                                   docs=["".join(part) if j == d else t for j, t in enumerate(spec["docs"])]), trace


def key(c, ln, spec):
    if c["k"] == "new":
        return None
    if c["k"] == "misuse":
        return f"misuse|{c['how']}"
    if "d" in c:
        return f"{c['k']}|{int(ln[c['p']])}|{c['d']}"
    return f"{c['k']}|{int(ln[c['p']])}|b{spec['files'][str(c['f'])]}"
