"""One worker: its own zygote, every n-th run of a check.  Reports JSON lines on stdout."""

from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

from sim import check as C
from sim.driver import HarnessError, Zygote


def load(check: str, seed: int, tier: str):
    mod = importlib.import_module(f"sim.checks.{check.lower()}")
    return mod.CHECK(seed, tier)


def emit(kind: str, **kw) -> None:
    sys.stdout.write(json.dumps({"r": kind, **kw}) + "\n")
    sys.stdout.flush()


def main() -> None:
    sys.setrecursionlimit(20000)                # outcomes of deeply nested documents are compared and copied
    check, seed, tier, w, n, scratch, budget, max_runs, hashseed, first = sys.argv[1:11]
    seed, w, n, budget, max_runs, first = int(seed), int(w), int(n), float(budget), int(max_runs), int(first)
    dump = os.environ.get("SIM_DUMP")           # determinism test: print what each run did
    os.makedirs(scratch, exist_ok=True)
    c = load(check, seed, tier)
    z = None
    start = time.monotonic()
    try:
        z = Zygote(scratch, hashseed)
        c.prepare(z)
        idx = first + w
        failed = 0
        while idx < first + max_runs and time.monotonic() - start < budget:
            try:
                one(c, z, idx, dump)
                failed = 0
            except HarnessError as e:           # this run says nothing; go on with a new zygote
                failed += 1
                if failed > 3:
                    raise
                emit("harness", idx=idx, detail=str(e)[:3000], stderr=z.stderr_tail()[-300:])
                z.restart()
            idx += n
        emit("end", stats=z.stats, wall=time.monotonic() - start)
    except (HarnessError, Exception) as e:  # noqa: BLE001
        emit("harness", detail=f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}",
             stderr=z.stderr_tail() if z else "")
    finally:
        if z:
            z.stop()


def one(c, z, idx: int, dump) -> None:
    rng = C.rng_for(c.id, c.seed, idx)
    spec = c.plan(rng, z, idx)
    if spec is None or not c.attach(spec, z):
        emit("skip", idx=idx)
        return
    t0 = time.monotonic()
    rep = c.run(spec, z)
    dt = time.monotonic() - t0
    v = rep["violations"]
    if not v:
        emit("run", idx=idx, sig=c.signature(spec, rep), nt=c.interesting(spec, rep), fired=rep.get("fired", {}),
             switches=rep.get("switches", 0), calls=rep.get("calls", 0), overlap=rep.get("overlap", 0),
             steps=rep.get("steps", 0), sim_ns=rep.get("sim_ns", 0), probes=rep.get("probes", []), dt=round(dt, 4),
             forks=rep.get("forks", 0), policy=spec.get("sched", {}).get("policy", ""), counts=rep.get("counts", {}),
             sample=c.sample(spec, rep) if hasattr(c, "sample") else sample(spec, rep),
             **({"dump": [rep.get("history"), rep.get("trace"), rep.get("fired")]} if dump else {}))
        return
    # confirm: the same plan with the recorded decisions, then from scratch
    trace = rep.get("trace", [])
    again = c.run(spec, z, trace)
    hit = next((x for x in again["violations"] if x["kind"] == v[0]["kind"]), None)
    tries = 1
    while hit is None and tries < 4:
        tries += 1
        if tries == 3:
            z.restart()
        again = c.run(spec, z) if tries % 2 else c.run(spec, z, trace)
        hit = next((x for x in again["violations"] if x["kind"] == v[0]["kind"]), None)
    if hit is None:
        emit("unconfirmed", idx=idx, violation=v[0])
        return
    if rep.get("hang"):
        small, trace, vio, tried = spec, trace, hit, 0
    else:
        try:
            small, trace, vio, tried = c.minimise(spec, again.get("trace", trace) or trace, hit, z,
                                                  60 if c.tier == "quick" else 300)
        except Exception:  # noqa: BLE001      the violation counts, minimised or not
            traceback.print_exc()
            small, vio, tried = spec, hit, 0
    emit("violation", idx=idx, spec=c.tidy(small), trace=trace, violation=vio, tried=tried,
         original=c.tidy(spec), original_trace=rep.get("trace", []))


def sample(spec: dict, rep: dict) -> str:
    tasks = [" ".join(f"{o['k']}({o.get('p', '')},{o.get('d', o.get('f', ''))})" for o in t["ops"]) for t in spec["tasks"]]
    return (f"tasks {tasks}; sched {spec['sched'].get('policy')}; decisions {len(rep.get('trace', []))}; "
            f"fired {rep.get('fired', {})}")[:400]


if __name__ == "__main__":
    main()
