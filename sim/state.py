"""What belongs to the whole process and not to the library: observed before, during and after calls.

`Watch` remembers the state at its creation, keeps every object in it alive (so that identities stay comparable), and
reports what differs later.  The quick part is compared whenever another thread gets its turn, i.e. as often as anybody
else could notice; the rest when a call starts and ends.
"""

from __future__ import annotations

import atexit
import builtins
import csv
import decimal
import faulthandler
import gc
import locale
import logging
import os
import random
import re
import resource
import signal
import socket
import sys
import tempfile
import threading
import time
import tracemalloc
import types
import warnings

try:
    import regex
except ImportError:         # the process that only starts workers has none
    regex = None

from sim import disk

SIGNALS = [s for s in range(1, 32) if s not in (9, 19)]
LIMITS = [getattr(resource, n) for n in dir(resource) if n.startswith("RLIMIT_")]
LIBS = ("lark", "regex", "pathlib", "os", "posixpath", "re", "tempfile", "json", "pickle", "io", "codecs", "copyreg", "logging",
        "functools", "itertools", "collections", "typing", "time", "threading", "signal", "gc", "warnings", "random", "hashlib", "getpass",
        "importlib", "builtins", "sys")
SYS_OK = {"last_exc", "last_type", "last_value", "last_traceback"}


def seq(xs) -> tuple:
    return tuple(id(x) for x in xs)


def names(d) -> dict:
    return {k: id(v) for k, v in d.items()}


def libs() -> list:
    out = []
    for name in sorted(sys.modules):
        if name.split(".")[0] in LIBS and isinstance(sys.modules[name], types.ModuleType):
            out.append(name)
    return out


class Watch:
    def __init__(self, bad) -> None:
        self.bad = bad
        self.keep: list = []
        self.modules = libs()
        self.classes = []
        for m in self.modules:
            if m.split(".")[0] in ("lark", "pathlib"):
                for v in list(vars(sys.modules[m]).values()):
                    if isinstance(v, type) and v.__module__ == m and v not in self.classes:
                        self.classes.append(v)
        self.fds = 0
        self.hits = 0
        self.refresh()

    def refresh(self) -> None:
        for m in self.modules:
            self.keep.append(dict(vars(sys.modules[m])))
        for c in self.classes:
            self.keep.append(dict(vars(c)))
        self.keep += [dict(sys.modules), list(warnings.filters), list(gc.callbacks), list(sys.path_hooks), list(sys.meta_path),
                      list(logging.root.handlers), [signal.getsignal(s) for s in SIGNALS],
                      [h for x in list(logging.root.manager.loggerDict.values()) for h in getattr(x, "handlers", ())]]
        self.a = self.quick()
        self.b = self.full()

    # ---- observations ---------------------------------------------------------------------------
    def quick(self) -> dict:
        disk.L.shim_set_active(0)
        try:
            cwd = os.path.basename(os.getcwd())     # the scratch directory's own name is not the same in a replay
        except OSError as e:
            cwd = e.errno
        finally:
            disk.L.shim_set_active(self.active)
        return {
            "working directory": cwd,
            "environment": dict(os.environ._data),
            "recursion limit": sys.getrecursionlimit(),
            "switch interval": sys.getswitchinterval(),
            "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug(), seq(gc.callbacks)),
            "standard streams": seq((sys.stdin, sys.stdout, sys.stderr)),
            "hooks": seq((sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.gettrace(), sys.getprofile())),
            "signal handlers": seq(signal.getsignal(s) for s in SIGNALS),
            "interval timer": tuple(bool(signal.getitimer(t)[0]) for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)),
            "locale": locale.setlocale(locale.LC_ALL),
            "warning filters": (id(warnings.filters), seq(warnings.filters), id(warnings.showwarning)),
            "module search": (tuple(sys.path), seq(sys.path_hooks), seq(sys.meta_path), sys.dont_write_bytecode),
            "temporary directory": tempfile.tempdir,
            "integer digits limit": sys.get_int_max_str_digits(),
            "logging": (logging.root.level, seq(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions),
            "umask": self.umask(),
            "stack size of new threads": threading.stack_size(),
            "debugging aids": (faulthandler.is_enabled(), tracemalloc.is_tracing(), sys.getdlopenflags(), csv.field_size_limit()),
            "settings of modules": (regex.DEFAULT_VERSION, logging.getLogger("lark").level, tempfile.template,
                                    getattr(sys, "tracebacklimit", None), socket.getdefaulttimeout()),
            "time zone": (time.tzname, time.timezone),
        }

    active = 0
    checks = 0

    @staticmethod
    def own() -> tuple:
        """What belongs to the calling thread: compared around a call, in that thread."""
        return (repr(decimal.getcontext()), repr(sys.get_asyncgen_hooks()), sys.get_coroutine_origin_tracking_depth(),
                tuple(signal.pthread_sigmask(signal.SIG_BLOCK, [])), gc.isenabled())

    @staticmethod
    def umask() -> int:
        m = os.umask(0o022)
        os.umask(m)
        return m

    def full(self) -> dict:
        out = {
            "random state": hash(random.getstate()),
            "exit callbacks": atexit._ncallbacks(),
            "resource limits": tuple(resource.getrlimit(x) for x in LIMITS),
            "priority": os.getpriority(os.PRIO_PROCESS, 0),
            "affinity": tuple(sorted(os.sched_getaffinity(0))),
            "signal mask": tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
            "builtins": names(vars(builtins)),
            "loggers": {n: (x.level, x.propagate, x.disabled, seq(x.handlers), seq(x.filters)) for n, x in
                        logging.root.manager.loggerDict.items() if isinstance(x, logging.Logger) and n.split(".")[0] != "pycep"},
            "written to standard output or error": self.written(),
        }
        for m in self.modules:
            out[f"attributes of module {m}"] = names({k: v for k, v in vars(sys.modules[m]).items() if m != "sys" or k not in SYS_OK})
        for c in self.classes:
            out[f"attributes of {c.__module__}.{c.__qualname__}"] = names(vars(c))
        return out

    def written(self) -> int:
        n = 0
        for s in (sys.stdout, sys.stderr):
            try:
                s.flush()
            except Exception:  # noqa: BLE001
                pass
        for fd in (1, 2):
            n += os.fstat(fd).st_size
        return n

    # ---- comparing ------------------------------------------------------------------------------
    def diff(self, old: dict, new: dict, grown: bool = False) -> list:
        out = []
        for k, v in new.items():
            w = old.get(k)
            if w == v:
                continue
            if k == "temporary directory" and w is None and v == self.usual_tempdir():
                old[k] = v              # tempfile keeps its choice
                continue
            if isinstance(v, dict) and isinstance(w, dict):
                gone = sorted(x for x in w if x not in v)
                new_ = sorted(x for x in v if x not in w)
                other = sorted(x for x in v if x in w and v[x] != w[x])
                if k.startswith("attributes of module"):
                    # a module may be loaded, or set up, on first use
                    new_ = [x for x in new_ if not isinstance(vars(sys.modules[k.rsplit(" ", 1)[1]])[x], types.ModuleType)
                            and not x.startswith("__")]
                    if k.endswith((" tempfile", " sys")):
                        other = [x for x in other if x not in ("tempdir", "_name_sequence", "path", "modules", "unraisablehook")]
                elif k.startswith("attributes of "):
                    new_ = [x for x in new_ if not x.startswith("__")]
                if k == "loggers":
                    new_ = []
                if gone or new_ or other:
                    out.append(f"{k}: removed {gone[:5]}, added {new_[:5]}, replaced {other[:5]}")
            else:
                w, v = (re.sub(r"\d{12,}", "@", str(x))[:120] for x in (w, v))       # addresses
                out.append(f"{k}: {w} became {v}")
                if k.startswith("written"):
                    out[-1] += ": " + repr(b"".join(os.pread(fd, 200, max(0, os.fstat(fd).st_size - 200)) for fd in (1, 2)))
        return out

    @staticmethod
    def usual_tempdir() -> str | None:
        return tempfile.tempdir

    def check(self, full: bool, uid, where: str) -> None:
        self.checks += 1
        full = full or self.checks % 19 == 0 and self.checks < 800
        new = self.quick()
        ds = []
        if new != self.a:
            ds = self.diff(self.a, new)
        if full:
            b = self.full()
            if b != self.b:
                ds += self.diff(self.b, b)
        if ds:
            self.hits += 1
            if self.hits < 4:
                self.bad("state", uid, f"{where}: process-wide state changed: " + "; ".join(ds))
            self.refresh()
        elif full:
            self.a, self.b = new, b

    def accept(self) -> None:
        self.a = self.quick()
        self.b = self.full()


def capture_output() -> None:
    """From here on standard output and error are files that nothing is ever written to."""
    sys.stdout.flush()
    sys.stderr.flush()
    for fd, n in ((1, "out"), (2, "err")):
        m = os.memfd_create(n)
        os.dup2(m, fd)
        os.close(m)


def handler(*_a) -> None:
    pass


def application(app: dict) -> None:
    """Settings an application may have made before it uses the library, none of them the interpreter's defaults."""
    capture_output()
    if app.get("gc"):
        gc.enable()
        gc.set_threshold(*app["gc"])
    sys.setrecursionlimit(app["recursion"])
    sys.setswitchinterval(app["switch"])
    os.umask(app["umask"])
    # CPython warns of a file that an exception kept from being closed in time: not the library's doing
    warnings.filters[:0] = [("ignore", None, ResourceWarning, None, 0)] + [(a, None, Warning, None, 0) for a in app["filters"]]
    warnings._filters_mutated()
    if app["signals"]:
        for s in (signal.SIGALRM, signal.SIGUSR1, signal.SIGTERM, signal.SIGINT, signal.SIGPROF):
            signal.signal(s, handler)
    if app["timer"]:
        signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, 86400)
    os.environ.update(app["env"])
    if app.get("modules"):
        # settings that modules used by the library have for everybody
        for m in [m for n, m in sys.modules.items() if n.split(".")[0] == "regex" and hasattr(m, "DEFAULT_VERSION")]:
            m.DEFAULT_VERSION = regex.VERSION1
        logging.raiseExceptions = False
        logging.getLogger("lark").setLevel(55)
        tempfile.template = "app"
        sys.tracebacklimit = 40
        threading.excepthook = handler
        sys.set_coroutine_origin_tracking_depth(1)
        decimal.getcontext().prec = 9
        csv.field_size_limit(99999)
        socket.setdefaulttimeout(77)
    random.seed(app["seed"])
    sys.set_int_max_str_digits(app["digits"])
    logging.root.setLevel(app["level"])
