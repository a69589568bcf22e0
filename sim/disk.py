"""The simulator's side of the system call seam (shim.c): files, clock, randomness."""

from __future__ import annotations

import ctypes
import os

OPS = {1: "open", 2: "read", 3: "write", 4: "close", 5: "stat", 6: "fstat", 7: "rename", 8: "unlink", 9: "mkdir",
       10: "truncate", 11: "fsync", 12: "lseek", 13: "link", 14: "readdir", 20: "sleep"}
CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_long)

L = None
_keep = None
handler = None          # fn(name, path, fd, n, flags) -> int   (see shim.c)
failure: str | None = None
clock_is_simulated = False


def load(path: str) -> None:
    """The preloaded library; dlopen of the same file gives the instance that interposes the calls."""
    global L, _keep
    L = ctypes.CDLL(path)
    L.shim_mono.restype = ctypes.c_int64
    L.shim_clock.argtypes = [ctypes.c_int, ctypes.c_int64, ctypes.c_int64]
    L.shim_clock_jump.argtypes = [ctypes.c_int64, ctypes.c_int64]
    L.shim_random.argtypes = [ctypes.c_int, ctypes.c_uint64]
    L.shim_stat_freeze.argtypes = [ctypes.c_long]
    L.shim_fd_path.restype = ctypes.c_char_p

    def cb(op, path, fd, n, flags):
        global failure
        try:
            return handler(OPS[op], path.decode("utf-8", "surrogateescape") if path else "", fd, n, flags) if handler else 0
        except BaseException as e:  # noqa: BLE001  nothing may escape into C
            failure = f"shim callback: {type(e).__name__}: {e}"
            return 0
    _keep = CB(cb)
    L.shim_set_callback(_keep)


def watch(*prefixes: str) -> None:
    L.shim_reset()
    for p in prefixes:
        L.shim_add_prefix(p.encode())


def on(fn=None) -> None:
    global handler
    handler = fn
    L.shim_set_active(1)


def off() -> None:
    L.shim_set_active(0)


def clock(real_s: int, mono_s: int = 1000) -> None:
    global clock_is_simulated
    clock_is_simulated = True
    L.shim_clock(1, real_s * 10 ** 9, mono_s * 10 ** 9)


def real_clock() -> None:
    global clock_is_simulated
    clock_is_simulated = False
    L.shim_clock(0, 0, 0)


def jump(real_ns: int, mono_ns: int) -> None:
    L.shim_clock_jump(int(real_ns), int(mono_ns))


def mono() -> int:
    return L.shim_mono()


def advance_to(t: int) -> None:
    d = t - mono()
    if d > 0:
        L.shim_clock_jump(d, d)


def open_fds() -> list[int]:
    """Descriptors of watched files that are open now."""
    return [fd for fd in range(256) if L.shim_fd_path(fd)]


def real_fds() -> set[int]:
    return {int(x) for x in os.listdir("/proc/self/fd")}
