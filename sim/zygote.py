"""A pristine process from which every baseline and every simulated run is forked.

usage: python -m sim.zygote <shim.so> <scratch dir>     (file descriptors 3.. are set up by the driver)

The process does nothing but fork, so that each child starts from the same memory image.  Four images are kept:
A has imported the library but never built a parser, B holds a few new and a few used parsers, C holds one new parser
and D one new parser with line numbers (baselines: a call made alone by a new parser in a new process).
"""

from __future__ import annotations

import gc
import json
import os
import resource
import signal
import sys
import types

IMAGES = "ABCD"
FDS = {x: tuple(range(3 + 4 * i, 7 + 4 * i)) for i, x in enumerate(IMAGES)}       # control, request, reply, status


def read_exact(fd: int, n: int) -> bytes:
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def write_all(fd: int, b: bytes) -> None:
    while b:
        b = b[os.write(fd, b):]


def purge() -> None:
    for m in list(sys.modules):
        if m == "pycep" or m.startswith("pycep."):
            del sys.modules[m]


class Env:
    pass


def pycep_codes() -> list:
    out, seen = [], set()

    def add(code) -> None:
        if code in seen:
            return
        seen.add(code)
        out.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    for name in sorted(sys.modules):
        if name == "pycep" or name.startswith("pycep."):
            for k in sorted(vars(sys.modules[name])):
                v = vars(sys.modules[name])[k]
                v = getattr(v, "__func__", v)
                if isinstance(v, types.FunctionType) and v.__module__ == name:
                    add(v.__code__)
                elif isinstance(v, type) and v.__module__ == name:
                    for kk in sorted(vars(v)):
                        f = vars(v)[kk]
                        for _ in range(4):
                            f = getattr(f, "__func__", getattr(f, "__wrapped__", getattr(f, "base_func", f)))
                        if isinstance(f, types.FunctionType):
                            add(f.__code__)
    return out


def serve(env: Env, ctl: int, req: int, rsp: int, ack: int) -> None:
    while True:
        if not os.read(ctl, 1):
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            handle(env, req, rsp)
            os._exit(0)
        write_all(ack, b"%10d" % pid)
        _, status = os.waitpid(pid, 0)
        write_all(ack, b"%10d" % status)


def handle(env: Env, req: int, rsp: int) -> None:
    n = int(read_exact(req, 10))
    spec = json.loads(read_exact(req, n))
    env.rundir = spec.get("rundir") or env.rundir
    try:
        os.umask(0o022)
        fn = env.handlers[spec["t"]]
        rep = fn(spec, env)
    except BaseException as e:  # noqa: BLE001
        import traceback
        rep = {"harness": ["request " + spec["t"] + ": " + traceback.format_exc()[-2500:]], "violations": []}
        if type(e).__name__ == "Deadlock":
            rep = {"violations": [{"kind": "hang", "op": None, "detail": f"a call {e}"}]}
    b = json.dumps(rep).encode("utf-8", "surrogatepass")
    write_all(rsp, b"%10d" % len(b))
    write_all(rsp, b)


def main() -> None:
    shim, scratch = sys.argv[1:3]
    import contextlib, copy, ctypes, functools, getpass, inspect, io, itertools, logging, pathlib, pickle  # noqa: F401,E401
    import concurrent.futures, queue, random, re, select, shutil, string, tempfile, threading, time, traceback  # noqa: F401,E401
    import warnings, weakref, hashlib, asyncio, collections, importlib.resources, contextvars, codecs, locale  # noqa: F401,E401
    warnings.simplefilter("ignore")
    logging.raiseExceptions = False
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from sim import boots, calls, canon, concert, disk, docs, world  # noqa: F401

    disk.load(shim)
    world.patch()
    import lark
    import regex  # noqa: F401
    logging.getLogger("lark").setLevel(logging.CRITICAL + 1)
    from pycep import BicepParser

    # compile the lexer's regular expressions once: the regex module keeps them
    p = BicepParser(cache=True)
    for t in ("param a string = 'x'\n", "resource r 'a/b@1' = {\n  a: [\n    1\n  ]\n}\n"):
        p.parse(text=t)
    import pycep
    world.ROOT_PYCEP = os.path.dirname(os.path.abspath(pycep.__file__)) + "/"
    world.ROOT_LARK = os.path.dirname(os.path.abspath(lark.__file__)) + "/"
    del p, BicepParser, pycep
    purge()
    import pycep

    env = Env()
    env.rundir = os.path.join(scratch, "run")
    env.scratch = scratch
    env.pycep = pycep
    env.BicepParser = pycep.BicepParser
    env.codes = pycep_codes()
    env.stock = {}
    env.handlers = {"concert": concert.execute, "base": calls.base, "ping": lambda s, e: {"ok": 1},
                    "info": calls.info, "boots": boots.execute}
    calls.register(env.handlers)
    world.monitor(True, True)
    world.monitor_off()
    gc.collect()
    gc.disable()
    gc.freeze()
    for image in IMAGES[1:]:
        if os.fork() == 0:
            if image == "B":
                stock_up(env, docs)
            else:
                env.stock = {"N": env.BicepParser() if image == "C" else env.BicepParser(add_line_numbers=True)}
            gc.collect()
            gc.freeze()
            keep(image)
            serve(env, *FDS[image])
    keep("A")
    serve(env, *FDS["A"])


def keep(image: str) -> None:
    for x in IMAGES:
        if x != image:
            for fd in FDS[x]:
                os.close(fd)


def stock_up(env: Env, docs) -> None:
    env.stock = {"P0": env.BicepParser(), "P1": env.BicepParser(add_line_numbers=True),
                 "U0": env.BicepParser(cache=False), "W0": env.BicepParser(), "W1": env.BicepParser(add_line_numbers=True)}
    # W0 and W1 are parsers in use: their lazily built lexers exist already
    for size, n in (("medium", 40), ("small", 60)):
        for i in range(n):
            for k in ("W0", "W1"):
                try:
                    env.stock[k].parse(text=docs.text(docs.make(900000 + i, size)))
                except Exception:  # noqa: BLE001
                    pass


if __name__ == "__main__":
    main()
