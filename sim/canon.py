"""Canonical, comparable and JSON-able form of the outcome of a call.

Keeps what a caller can observe of a result - types (BicepElement or str), values, key order - and what a caller can
rely on in an error: its type, and position and token of a syntax error.  The order of the "Expected one of" list of
lark's messages depends on the hash seed, so those messages are compared as a set of lines.
"""

from __future__ import annotations

import hashlib
import json


def canon(v, depth: int = 0):
    t = type(v)
    if t is str:
        return "s" + v
    if v is None:
        return None
    if t is bool:
        return v
    if t is int:
        return v if abs(v) < 2 ** 53 else {"int": str(v)}
    if t is list:
        return [canon(x, depth + 1) for x in v]
    if t is dict:
        return {"{}": [[canon(k), canon(x, depth + 1)] for k, x in v.items()]}
    if isinstance(v, str):
        s = str.__str__(v)
        return f"<{t.__name__}>{s}" + ("" if v == s and hash(v) == hash(s) else " (which is not found under its text)")
    if t is tuple:
        return {"()": [canon(x, depth + 1) for x in v]}
    if isinstance(v, dict):
        return {t.__name__: [[canon(k), canon(x)] for k, x in v.items()]}
    if isinstance(v, (list, set, frozenset)):
        return {t.__name__: [canon(x) for x in v]}
    return {"obj": t.__name__, "repr": repr(v) if t.__repr__ is not object.__repr__ else ""}


def message(s: str) -> str:
    head, *rest = s.split("Expected one of:")
    if not rest:
        return s
    lines = [x.strip() for x in "".join(rest).splitlines()]
    tail = [x for x in lines if not x.startswith("*")]
    return head + "|" + "|".join(sorted(x for x in lines if x.startswith("*"))) + "|" + "|".join(tail)


def error(e: BaseException) -> dict:
    d = {"error": type(e).__name__, "msg": message(str(e))}
    if isinstance(e, OSError):
        d = {"error": type(e).__name__, "errno": e.errno}
    for a in ("line", "column", "pos_in_stream"):
        x = getattr(e, a, None)
        if isinstance(x, int):
            d[a] = x
    tok = getattr(e, "token", None)
    if tok is not None:
        d["token"] = [getattr(tok, "type", ""), str(tok)]
    rule = getattr(e, "rule", None)
    if type(e).__name__ == "VisitError":
        d["msg"] = f"rule {rule}"
        d["orig"] = error(e.orig_exc) if hasattr(e, "orig_exc") else None
    return d


def outcome(value=None, exc: BaseException | None = None):
    return error(exc) if exc is not None else {"ok": canon(value)}


def digest(o) -> str:
    return hashlib.sha256(json.dumps(o, ensure_ascii=True).encode("utf-8", "surrogatepass")).hexdigest()[:20]


def short(o, n: int = 220) -> str:
    s = json.dumps(o, ensure_ascii=True)
    return s if len(s) <= n else s[: n - 3] + "..."


def diff(a, b, path="") -> str:
    """Where two canonical outcomes differ first."""
    if type(a) is not type(b):
        return f"{path}: {short(a)} instead of {short(b)}"
    if isinstance(a, dict):
        for k in b:
            if k not in a:
                return f"{path}: {k} is missing: {short(a)}"
            if a[k] != b[k]:
                return diff(a[k], b[k], f"{path}/{k}")
        return f"{path}: extra {[k for k in a if k not in b]}"
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}[{i}]")
        return f"{path}: {len(a)} items instead of {len(b)}: {short(a[len(b):] or b[len(a):])}"
    return f"{path}: {short(a)} instead of {short(b)}"
