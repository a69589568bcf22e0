"""A fork of an ordinary process, without the simulator: parse, fork, parse in the child and its child, parse in the parent.

All runs of the simulator are forks of one prepared process.  Should the library not survive that, this says so.
"""

from __future__ import annotations

import json
import os
import subprocess
import sys
import time

from sim import canon, docs, driver

KIDS = "import sys; from sim import plainfork; plainfork.main(sys.argv[1:])"


def start(args: list, scratch: str, timeout: float) -> list | None:
    env = {"TMPDIR": scratch, "PYTHONHASHSEED": "0", "PYTHONPATH": f"{driver.REPO}:{driver.VERIF}", "USER": "root", "PATH": "/usr/bin:/bin",
           "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONWARNINGS": "ignore"}
    out = os.path.join(scratch, args[0])
    with open(out, "wb") as f:          # not a pipe: a child that hangs would keep it open
        p = subprocess.Popen([driver.PYTHON, "-c", KIDS, *args], env=env, cwd=scratch, stdout=f, stderr=subprocess.DEVNULL,
                             start_new_session=True)
    try:
        p.wait(timeout=timeout)
        with open(out, encoding="utf-8") as f:
            return [json.loads(x) for x in f.read().splitlines()]
    except subprocess.TimeoutExpired:
        return None
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()


def check(scratch: str, seed: int) -> dict | None:
    """None, or the violation."""
    d = os.path.join(scratch, "plainfork")
    os.makedirs(d, exist_ok=True)
    base = start(["base", str(seed)], d, 100)
    if not base or len(base) != 3:
        return None                     # parsing does not work without a fork either: not for this check to say
    got = start(["fork", str(seed)], d, 100)
    detail = None
    if got is None or len(got) != 4:
        detail = f"only {got and [g[0] for g in got]} of the parent before, grandchild, child and parent after the fork finished"
    else:
        for who, outcomes in got:
            for i, o in enumerate(outcomes):
                if o != base[i][1][0]:
                    detail = f"{who}, document {i}: {canon.diff(o, base[i][1][0])}"
    return detail and {"kind": "plain fork", "op": None, "detail": "an ordinary process, a child forked from it and a child of that: " + detail}


def main(args: list) -> None:
    from pycep import BicepParser
    what, seed = args[0], int(args[1])
    texts = [docs.text(docs.make(seed * 100000 + 77_000 + i, ("tiny", "small", "medium")[i])) for i in range(3)]
    if what == "base":
        for t in texts:
            print(json.dumps(["base", [one(BicepParser(), t)]]))
        return
    p = BicepParser()

    def all_of(who: str, parser) -> None:
        o = [one(parser, t) for t in texts]
        os.write(1, (json.dumps([who, o]) + "\n").encode())

    def child(body, limit: float) -> None:
        pid = os.fork()
        if pid == 0:
            try:
                body()
            finally:
                os._exit(0)
        end = time.monotonic() + limit
        while time.monotonic() < end:
            if os.waitpid(pid, os.WNOHANG)[0]:
                return
            time.sleep(0.01)
        os.kill(pid, 9)
        os.waitpid(pid, 0)
    all_of("parent before", p)

    def second() -> None:
        child(lambda: all_of("grandchild", p), 15)
        all_of("child", p)
        BicepParser()
    child(second, 50)
    all_of("parent after", p)
    sys.stdout.flush()


def one(p, t):
    try:
        return canon.outcome(p.parse(text=t))
    except Exception as e:  # noqa: BLE001
        return canon.outcome(None, e)
