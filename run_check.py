#!/usr/bin/env python3
"""Run one check:      run_check.py C01 [--tier quick|thorough] [--seed N] [--seconds S] [--workers N] [--runs N]
Replay a violation: run_check.py --replay FILE

Exit 0: the property held in every simulated run.  Exit 1 with a VIOLATION line: it did not.  Exit 2: the check itself
could not work (that says nothing about the property).
"""

from __future__ import annotations

import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from sim import driver  # noqa: E402
from sim.worker import load  # noqa: E402


def build(scratch: str) -> None:
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", os.path.join(scratch, "shim.so"),
                    os.path.join(VERIF, "sim", "shim.c"), "-ldl"], check=True)


def known_findings(prop: str) -> list:
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        return [json.loads(line.split(" ", 2)[2]) for line in f if line.startswith(f"known: property={prop} ")]


class Totals:
    def __init__(self) -> None:
        self.runs = self.nontrivial = self.skips = self.switches = self.calls = self.steps = self.overlap = 0
        self.sim_ns = self.forks = self.baselines = self.process_forks = 0
        self.sigs: set = set()
        self.fired: dict = {}
        self.probes: dict = {}
        self.policies: dict = {}
        self.counts: dict = {}
        self.samples: list = []
        self.unconfirmed: list = []
        self.harness: list = []
        self.violations: list = []
        self.slowest = 0.0
        self.slow_idx = -1

    def take(self, m: dict) -> None:
        r = m["r"]
        if r == "run":
            self.runs += 1
            if m["nt"]:
                self.sigs.add(m["sig"])
                self.nontrivial += 1
            for k, v in m["fired"].items():
                self.fired[k] = self.fired.get(k, 0) + v
            for k in m["probes"]:
                self.probes[k] = self.probes.get(k, 0) + 1
            for k, v in m["counts"].items():
                self.counts[k] = self.counts.get(k, 0) + v
            self.policies[m["policy"]] = self.policies.get(m["policy"], 0) + 1
            self.switches += m["switches"]
            self.calls += m["calls"]
            self.steps += m["steps"]
            self.overlap += m["overlap"]
            self.forks += m["forks"]
            self.sim_ns += max(0, m["sim_ns"])
            if m["dt"] > self.slowest:
                self.slowest, self.slow_idx = m["dt"], m["idx"]
            if m["nt"] and len(self.samples) < 6 and self.runs % 7 == 1:
                self.samples.append({"run": m["idx"], "what": m["sample"]})
        elif r == "skip":
            self.skips += 1
        elif r == "end":
            self.baselines += m["stats"]["baselines"]
            self.process_forks += m["stats"]["forks"]
        elif r == "unconfirmed":
            self.unconfirmed.append(m)
        elif r == "harness":
            self.harness.append(m)
        elif r == "violation":
            self.violations.append(m)


def run(args) -> int:
    tier, seed = args.tier, args.seed
    scratch = tempfile.mkdtemp(prefix="verif-sim.")
    t0 = time.monotonic()
    tot = Totals()
    procs: list = []
    try:
        build(scratch)
        c = load(args.check, seed, tier)
        findings = [f for f in known_findings(c.id) if c.reproduce_finding(f, scratch)]
        bad = c.smoke(scratch)
        if bad and c.smoke(scratch):
            tot.runs = 1
            tot.violations.append({"idx": 0, "spec": {"t": "smoke"}, "trace": [], "violation": bad, "tried": 0, "original": {"t": "smoke"},
                                   "original_trace": []})
            return report(args, c, tot, time.monotonic() - t0, False, "")
        budget = args.seconds or (c.quick_s if tier == "quick" else c.thorough_s)
        runs = args.runs or (c.quick_runs if tier == "quick" else c.thorough_runs)
        n = args.workers
        env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1")
        lock = threading.Lock()
        stop = threading.Event()
        dump = open(os.environ["SIM_DUMP"], "w") if os.environ.get("SIM_DUMP") else None

        def reader(p) -> None:
            for line in p.stdout:
                try:
                    m = json.loads(line)
                except ValueError:
                    m = {"r": "harness", "detail": line}
                with lock:
                    tot.take(m)
                    if dump and m["r"] == "run":
                        dump.write(json.dumps([m["idx"], m["sig"], m["dump"]]) + "\n")
                    if m["r"] == "violation":
                        stop.set()
        threads = []
        for w in range(n):
            p = subprocess.Popen([driver.PYTHON, "-m", "sim.worker", args.check, str(seed), tier, str(w), str(n),
                                  os.path.join(scratch, f"w{w}"), str(budget), str(runs), args.hashseed, str(args.first)],
                                 stdout=subprocess.PIPE, stderr=open(os.path.join(scratch, f"worker{w}.err"), "wb"),
                                 env=env, cwd=VERIF, text=True, start_new_session=True)
            procs.append(p)
            t = threading.Thread(target=reader, args=(p,), daemon=True)
            t.start()
            threads.append(t)
        hard = t0 + budget + (240 if tier == "quick" else 600)
        while any(t.is_alive() for t in threads):
            for t in threads:
                t.join(0.1)
            if stop.is_set() or time.monotonic() > hard:
                break
        late = not stop.is_set() and time.monotonic() > hard
        wall = time.monotonic() - t0
        if dump:
            dump.close()
        err = ""
        for w in range(n):
            with open(os.path.join(scratch, f"worker{w}.err")) as f:
                err += f.read()[-800:]
        for f in findings:
            print(f"KNOWN-FINDING: property={c.id} {f['what']}")
        tot.counts["known_findings_reproduced"] = len(findings)
        return report(args, c, tot, wall, late, err)
    finally:
        for p in procs:
            kill(p)
        subprocess.run(["pkill", "-KILL", "-f", scratch], check=False)
        shutil.rmtree(scratch, ignore_errors=True)


def kill(p) -> None:
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def report(args, c, tot: Totals, wall: float, late: bool, err: str) -> int:
    if tot.violations:
        rc = announce(args, c, tot.violations[0], tot, wall)
    elif late or tot.runs == 0 or len(tot.harness) * 10 > tot.runs:
        for h in tot.harness[:3]:
            print("check error:", h.get("detail"), h.get("stderr", ""))
        if late:
            print("check error: workers did not finish in time")
        if tot.runs == 0:
            print("check error: no run completed", err)
        rc = 2
    else:
        rc = 0
    evidence(args, c, tot, wall, rc)
    if rc == 0:
        print(f"{c.id}: held in {tot.runs} simulated runs, {tot.calls} calls, {len(tot.sigs)} distinct executions, "
              f"{sum(tot.fired.values())} faults fired, {wall:.0f} s")
    if rc == 0 and tot.harness:
        print(f"note: {len(tot.harness)} runs could not be carried out: {json.dumps(tot.harness[0])[:600]}")
    if tot.unconfirmed:
        print(f"note: {len(tot.unconfirmed)} deviations did not repeat and were not counted: "
              f"{json.dumps(tot.unconfirmed[0])[:600]}")
    return rc


def announce(args, c, m: dict, tot: Totals, wall: float) -> int:
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{c.id}-seed{args.seed}-run{m['idx']}.json")
    body = {"check": c.id, "seed": args.seed, "tier": args.tier, "run": m["idx"], "violation": m["violation"],
            "spec": m["spec"], "trace": m["trace"], "minimisation_runs": m["tried"], "hashseed": args.hashseed,
            "unminimised": {"spec": m["original"], "trace": m["original_trace"]}}
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    print(f"violated: {m['violation']['kind']} in op {m['violation']['op']}: {m['violation']['detail'][:900]}")
    print(f"VIOLATION property={c.id} replay={path}")
    return 1


def evidence(args, c, tot: Totals, wall: float, rc: int) -> None:
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    hours = wall / 3600
    cov = {
        "evaluations": tot.runs,
        "distinct_nontrivial": len(tot.sigs),
        "rule": c.rule,
        "samples": tot.samples or [{"run": 0, "what": "no non-trivial run was sampled"}],
        "simulated_runs_per_hour": round(tot.runs / hours),
        "seeds": f"runs {args.first}..{args.first + tot.runs + tot.skips - 1} of VERIF_SEED {args.seed}",
        "simulated_time_s": round(tot.sim_ns / 1e9, 3),
        "code_steps_scheduled": tot.steps,
        "library_calls": tot.calls,
        "calls_overlapping_another": tot.overlap,
        "context_switches": tot.switches,
        "runs_nontrivial": tot.nontrivial,
        "faults_fired": dict(sorted(tot.fired.items())),
        "probes": tot.probes,
        "schedulers": tot.policies,
        "forked_children": tot.forks,
        "baseline_processes": tot.baselines,
        "processes_forked": tot.process_forks,
        "slowest_run": [tot.slow_idx, tot.slowest],
        "plans_dropped": tot.skips,
        "runs_not_carried_out": len(tot.harness),
        "deviations_not_repeated": len(tot.unconfirmed),
        "real_components": c.real,
        "stubbed_components": c.stub,
        "exit": rc,
    }
    cov.update(tot.counts)
    e = {"property": c.id, "tier": args.tier, "seed": args.seed, "level": c.level, "coverage": cov,
         "assumptions": ["CPython 3.12, lark and regex as installed; lines and instructions of pycep, lark and pathlib are "
                         "the preemption points", "exceptions are delivered where CPython delivers asynchronous ones",
                         "a clean run is evidence, not proof: schedules and faults are sampled"],
         "wall_s": round(wall, 1), "violations": len(tot.violations)}
    tmp = os.path.join(VERIF, "evidence", f".{c.id}.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{c.id}.json"))


def replay(path: str) -> int:
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix="verif-sim.")
    try:
        build(scratch)
        c = load(r["check"], r["seed"], r["tier"])
        if r["spec"].get("t") == "smoke":
            bad = c.smoke(scratch)
            if bad:
                print(f"violated: {bad['detail']}\n" + ("exactly as recorded" if bad == r["violation"] else "not exactly as recorded"))
                print(f"VIOLATION property={c.id} replay={path}")
            return 1 if bad else 0
        z = driver.Zygote(os.path.join(scratch, "w0"), r["hashseed"]) if os.makedirs(os.path.join(scratch, "w0")) is None else None
        try:
            c.prepare(z)
            spec = r["spec"]
            if not c.attach(spec, z):
                print("replay error: no expectations")
                return 2
            rep = c.run(spec, z, r["trace"])
            for v in rep["violations"]:
                if v["kind"] == r["violation"]["kind"]:
                    same = v == r["violation"]
                    print(f"violated: {v['kind']} in op {v['op']}: {v['detail'][:900]}")
                    print("exactly as recorded" if same else "same kind; the details differ from the recorded ones: "
                          + r["violation"]["detail"][:400])
                    print(f"VIOLATION property={c.id} replay={path}")
                    return 1
            print("the violation did not occur:", json.dumps(rep)[:600])
            return 0
        finally:
            z.stop()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup() -> int:
    scratch = tempfile.mkdtemp(prefix="verif-sim.")
    try:
        build(scratch)
        z = driver.Zygote(os.path.join(scratch, "w0")) if os.makedirs(os.path.join(scratch, "w0")) is None else None
        z.request("B", {"t": "info"}, timeout=120)
        z.stop()
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main() -> int:
    sys.setrecursionlimit(20000)
    a = argparse.ArgumentParser()
    a.add_argument("check", nargs="?")
    a.add_argument("--replay")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--seconds", type=float, default=0)
    a.add_argument("--runs", type=int, default=0)
    a.add_argument("--first", type=int, default=0)
    a.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 1))
    a.add_argument("--hashseed", default="0")
    a.add_argument("--setup", action="store_true", help="only try whether the shim can be built and a simulated process started")
    args = a.parse_args()
    if args.setup:
        return setup()
    if args.replay:
        return replay(args.replay)
    try:
        return run(args)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        print("check error:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
