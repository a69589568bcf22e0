"""Drives one zygote: asks for baselines, runs plans, reports.  One driver per worker."""

from __future__ import annotations

import hashlib
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
PYTHON = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")


class HarnessError(Exception):
    pass


class Hang(Exception):
    pass


def base_env(scratch: str, hashseed: str = "0") -> dict:
    """The environment of every simulated process; nothing is inherited that could matter."""
    return {
        "PATH": "/usr/bin:/bin", "HOME": scratch, "LANG": "C.UTF-8", "USER": "sim", "LOGNAME": "sim",
        "PYTHONHASHSEED": hashseed, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
        "PYTHONPATH": f"{REPO}:{VERIF}", "TMPDIR": os.path.join(scratch, "tmp"), "LD_PRELOAD": shim_path(scratch),
        "SIM_SHIM": shim_path(scratch), "PYTHONNOUSERSITE": "1", "PYTHONWARNINGS": "ignore",
    }


def shim_path(scratch: str) -> str:
    return os.path.join(os.path.dirname(scratch), "shim.so")


def no_aslr() -> None:
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:  # noqa: BLE001  only makes addresses repeatable; nothing depends on it
        pass


class Zygote:
    def __init__(self, scratch: str, hashseed: str = "0") -> None:
        self.scratch = scratch
        self.hashseed = hashseed
        self.proc = None
        self.basecache: dict = {}
        self.basedir = os.path.join(os.path.dirname(scratch), "base")
        os.makedirs(self.basedir, exist_ok=True)
        self.rundir = os.path.join(scratch, "run")
        self.stats = {"forks": 0, "baselines": 0}
        self.start()

    def start(self) -> None:
        os.makedirs(os.path.join(self.scratch, "tmp"), exist_ok=True)
        pipes = [os.pipe() for _ in range(16)]
        # control, request, reply, status of each image: who reads in the zygote?
        mine, theirs = [], []
        for i, (r, w) in enumerate(pipes):
            zy_reads = i % 4 < 2
            mine.append(w if zy_reads else r)
            theirs.append(r if zy_reads else w)
        high = [os.dup2(fd, 100 + i) for i, fd in enumerate(theirs)]

        def setup() -> None:
            no_aslr()
            for i in range(16):
                os.dup2(100 + i, 3 + i)
            os.closerange(19, 200)
        self.proc = subprocess.Popen(
            [PYTHON, "-m", "sim.zygote", shim_path(self.scratch), self.scratch], env=base_env(self.scratch, self.hashseed),
            preexec_fn=setup, cwd=self.scratch, close_fds=False, stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.scratch, "stderr"), "ab"), start_new_session=True)
        for fd in high:
            os.close(fd)
        for fd in theirs:
            os.close(fd)
        self.fd = {x: mine[4 * i:4 * i + 4] for i, x in enumerate("ABCD")}
        self.ready = False

    def stop(self) -> None:
        if self.proc:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()
            for fds in self.fd.values():
                for fd in fds:
                    os.close(fd)
            self.proc = None

    def stderr_tail(self) -> str:
        try:
            with open(os.path.join(self.scratch, "stderr"), "rb") as f:
                return f.read()[-1500:].decode("utf-8", "replace")
        except OSError:
            return ""

    def _read(self, fd: int, n: int, deadline: float) -> bytes:
        b = b""
        while len(b) < n:
            left = deadline - time.monotonic()
            if left <= 0:
                raise Hang
            ok, _, _ = select.select([fd], [], [], min(left, 5))
            if ok:
                x = os.read(fd, n - len(b))
                if not x:
                    raise HarnessError("the zygote is gone: " + self.stderr_tail())
                b += x
        return b

    def request(self, image: str, spec: dict, timeout: float = 60) -> dict:
        """Fork a child of `image`, let it work on `spec`; the reply, or {"died": wait status} or {"hang": True}."""
        ctl, req, rsp, ack = self.fd[image]
        data = json.dumps(spec).encode("utf-8", "surrogatepass")
        os.write(ctl, b"x")
        self.stats["forks"] += 1
        deadline = time.monotonic() + (timeout if self.ready else timeout + 60)
        pid = int(self._read(ack, 10, deadline))
        self.ready = True
        try:
            buf = b"%10d" % len(data) + data
            os.set_blocking(req, False)
            out = b""
            status = None
            need = None
            while True:
                if time.monotonic() > deadline:
                    raise Hang
                ws = [req] if buf else []
                r, wr, _ = select.select([rsp, ack], ws, [], 5)
                if wr:
                    try:
                        buf = buf[os.write(req, buf[:1 << 16]):]
                    except BlockingIOError:
                        pass
                if rsp in r:
                    out += os.read(rsp, 1 << 20)
                    if need is None and len(out) >= 10:
                        need = int(out[:10])
                elif ack in r:
                    status = int(self._read(ack, 10, deadline))
                    break
            # the child is gone; whatever it wrote is in the pipe
            while select.select([rsp], [], [], 0)[0]:
                out += os.read(rsp, 1 << 20)
            if need is None and len(out) >= 10:
                need = int(out[:10])
            if buf:                     # it died before it had read its request: start over with clean pipes
                self.restart()
                return {"died": status}
            if need is not None and len(out) == need + 10:
                return json.loads(out[10:].decode("utf-8", "surrogatepass"))
            if out:
                self.restart()
            return {"died": status}
        except Hang:
            self.restart(pid)
            return {"hang": True}

    def restart(self, pid: int | None = None) -> None:
        self.stop()
        self.start()

    # ---- baselines -------------------------------------------------------------------------------
    def baseline(self, kind: str, ln: bool, text: str | None, how: int | None = None,
                 count: bool = False) -> dict | None:
        """Outcome (and size, if `count`) of a call made alone by a new parser in a new process; None if it takes too
        long to be of use."""
        k = hashlib.sha256(f"{kind}|{int(ln)}|{how}|{count}|{text}".encode("utf-8", "surrogatepass")).hexdigest()[:32]
        if k in self.basecache:
            return self.basecache[k]
        path = os.path.join(self.basedir, k)
        try:
            with open(path, encoding="utf-8") as f:
                b = json.load(f)
        except (OSError, ValueError):
            op = {"k": kind, "d": 0} if how is None else {"k": "misuse", "how": how}
            rep = self.request("D" if ln else "C", {"t": "base", "op": op, "text": text, "rundir": self.rundir, "count": count},
                               timeout=30)
            self.stats["baselines"] += 1
            if "harness" in rep:
                raise HarnessError(str(rep["harness"]))
            if rep.get("hang") or "died" in rep:
                b = None
            else:
                b = rep
            tmp = f"{path}.{os.getpid()}"
            with open(tmp, "w", encoding="utf-8") as f:
                json.dump(b, f)
            os.replace(tmp, path)
        if len(self.basecache) > 3000:
            self.basecache.clear()
        self.basecache[k] = b
        return b

    def clean(self) -> None:
        shutil.rmtree(self.rundir, ignore_errors=True)
        os.makedirs(self.rundir, exist_ok=True)
