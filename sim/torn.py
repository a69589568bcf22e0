"""Documents whose writer crashed: what is left of them is parsed and compared with the whole document."""

from __future__ import annotations

import os
import signal
from pathlib import Path

from sim import canon

SEP = "__"


def entries(result: dict) -> dict:
    out = {}
    for section, items in result.items():
        for name, attrs in items.items():
            out[f"{section}/{name}"] = canon.canon(attrs)
    return out


def execute(spec: dict, env) -> dict:
    p = env.stock["N"]
    os.makedirs(env.rundir, exist_ok=True)
    path = Path(env.rundir) / "doc.bicep"
    chunks = spec["chunks"]
    rep = {"violations": [], "calls": 0, "fired": {}, "probes": [], "counts": {}}
    signal.alarm(30)        # ends the process: some malformed documents take exponential time (N09)
    try:
        whole = entries(p.parse(text="".join(chunks)))
        as_file = entries(p.parse(text="".join(chunks).replace("\r\n", "\n")))      # files have universal newlines
    except Exception:  # noqa: BLE001
        return {"violations": [], "probes": ["unusable document"]}
    keys = []
    for c in chunks:
        try:
            keys.append({k for k in entries(p.parse(text=c)) if k != "globals/scope" or "targetScope" in c})
        except Exception:  # noqa: BLE001
            return {"violations": [], "probes": ["unusable document"]}
    if sum(map(len, keys)) != len(set().union(*keys)) or set().union(*keys) | {"globals/scope"} != set(whole):
        return {"violations": [], "probes": ["unusable document"]}
    default = entries(p.parse(text=""))["globals/scope"]
    raw = "".join(chunks).encode("utf-8")
    ends, n = [], 0
    for c in chunks:
        n += len(c.encode("utf-8"))
        ends.append(n)
    log = []
    for i, cut in enumerate(spec["cuts"]):
        at = cut["at"] % (len(raw) + 1)
        left = raw[:at] + b"\0" * cut.get("zeros", 0)
        kind = "torn, tail zeroed" if cut.get("zeros") else "torn"
        got, text = None, None
        try:
            if cut["file"]:
                with open(path, "wb") as f:
                    f.write(left)
            else:
                text = left.decode("utf-8")
        except UnicodeDecodeError:
            continue
        rep["calls"] += 1
        try:
            got = entries(p.parse(file_path=path) if cut["file"] else p.parse(text=text))
        except Exception as e:  # noqa: BLE001
            rep["fired"][kind] = rep["fired"].get(kind, 0) + 1
            log.append([at, type(e).__name__])
            continue
        rep["fired"][kind] = rep["fired"].get(kind, 0) + 1
        log.append([at, canon.digest(got)])
        rep["counts"]["torn_documents_accepted"] = rep["counts"].get("torn_documents_accepted", 0) + 1
        k = sum(1 for e in ends if e <= at)             # declarations that were complete
        cut_text = chunks[k] if k < len(chunks) else ""
        try:
            again = entries(p.parse(text=left[ends[k - 1] if k else 0:].decode("utf-8"))).keys() & set().union(*keys[:k]) - {"globals/scope"}
        except Exception:  # noqa: BLE001
            again = ()
        if again:
            # what is left of its name happens to be the name of another declaration (`x1` of `x10`), which it replaces
            rep["counts"]["cuts_that_leave_another_name"] = rep["counts"].get("cuts_that_leave_another_name", 0) + 1
            continue
        bad = judge(got, as_file if cut["file"] else whole, keys[:k], cut_text, default)
        if bad:
            rep["violations"].append({"kind": bad[0], "op": i, "detail": f"cut at byte {at} of {len(raw)}{' (zeros follow)' if cut.get('zeros') else ''}, "
                                      f"in {cut_text[:80]!r}: {bad[1]}"[:1500]})
    rep["history"] = canon.digest(log)
    rep["steps"] = len(log)
    return rep


def judge(got: dict, whole: dict, complete: list, cut_text: str, default):
    done = set().union(*complete) if complete else set()
    for k in sorted(done):
        if k not in got:
            return "lost", f"{k} was complete and is missing"
        if got[k] != whole[k]:
            return "changed", f"{k} was complete: {canon.diff(got[k], whole[k])}"
    extra = {k: v for k, v in got.items() if k not in done}
    scope = extra.pop("globals/scope", None)
    if scope is not None and scope != default and "targetScope" not in cut_text:
        return "invented", f"the target scope {canon.short(scope)}"
    names = sorted(extra)
    roots = [k for k in names if not any(k != r and k.startswith(r + SEP) for r in names)]
    if len(roots) > 1 and not ("import" in cut_text and all(r.startswith("imports/") for r in roots)):
        return "invented", f"more than one declaration too many: {roots}"
    for k in names:
        if k.split("/", 1)[1].split(SEP)[-1] not in cut_text:
            return "invented", f"{k} is not in the declaration that was cut"
    return None
