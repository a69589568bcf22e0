"""The recorded finding of C04: two processes that write the grammar cache at the same time.

lark writes the cache in place, in several writes, without checksum over the body.  Two overlapping cold starts with
different hash seeds can leave a mixture of both files that loads without an error.  What two such processes wrote is
recorded in data/ (it depends on the hash seed and on the heap layout); here their writes are put together in the
recorded order, as the page cache would, and a real process starts on the outcome.
"""

from __future__ import annotations

import io
import json
import lzma
import os
import pickle
import shutil
import subprocess
import sys

from sim import canon, docs, driver


def writes(b: bytes) -> list:
    """(from, to) of every write lark's two pickle.dump calls make."""
    f = io.BytesIO(b)
    f.readline()
    pickle.load(f)
    out = [(0, f.tell())]
    start = f.tell()
    at = start + 2
    while at < len(b):
        if b[at] != 0x95:
            raise ValueError("no frame")
        at += 9 + int.from_bytes(b[at + 1:at + 9], "little")
        out.append((start, at))
        start = at
    return out


def compose(files: list, order: list) -> bytes:
    """What is in the file after both have opened (truncated) and written it in this order of steps."""
    w = [writes(b) for b in files]
    done = [-1, -1]
    buf = bytearray()
    for o in order:
        if done[o] == -1:
            buf = bytearray()
        elif done[o] < len(w[o]):
            x, y = w[o][done[o]]
            if len(buf) < y:
                buf.extend(b"\0" * (y - len(buf)))
            buf[x:y] = files[o][x:y]
        done[o] += 1
    return bytes(buf)


def start(scratch: str, code: str, *args) -> subprocess.Popen:
    env = {"TMPDIR": scratch, "PYTHONHASHSEED": "0", "PYTHONPATH": f"{driver.REPO}:{driver.VERIF}", "USER": "root",
           "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1"}
    return subprocess.Popen([driver.PYTHON, "-c", code, *args], env=env, cwd=scratch, stdout=subprocess.PIPE,
                            stderr=subprocess.DEVNULL)


def reproduce(finding: dict, scratch: str) -> bool:
    """Does this history still give a parser that is wrong?"""
    scratch = os.path.join(scratch, "overlap")
    os.makedirs(scratch)
    try:
        p = start(scratch, "import pycep; pycep.BicepParser()")
        p.communicate(timeout=60)
        names = [f for f in os.listdir(scratch) if f.startswith(".lark")]
        if len(names) != 1:
            return False
        p = start(scratch, "from sim import overlap; overlap.judge()", os.path.join(scratch, names[0]), json.dumps(finding))
        out, _ = p.communicate(timeout=120)
        return p.returncode == 0 and json.loads(out)["wrong"] > 0
    except (OSError, ValueError, KeyError, subprocess.SubprocessError):
        return False
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def judge() -> None:
    from pycep import BicepParser
    path, finding = sys.argv[1], json.loads(sys.argv[2])
    files = []
    for h in finding["hash_seeds"]:
        with lzma.open(os.path.join(os.path.dirname(__file__), "data", f"cache-hashseed{h}.xz")) as f:
            files.append(f.read())
    with open(path, "wb") as f:
        f.write(compose(files, finding["order"]))
    sys.setrecursionlimit(5000)
    good, got = BicepParser(cache=False), BicepParser()
    wrong = 0
    for i in range(12):
        t = docs.text(docs.make(7_000_000 + i, "small"))
        a, b = (outcome(p, t) for p in (good, got))
        wrong += a != b
    print(json.dumps({"wrong": wrong}))


def outcome(p, t: str):
    try:
        return canon.outcome(p.parse(text=t))
    except Exception as e:  # noqa: BLE001
        try:
            return canon.outcome(None, e)
        except Exception:  # noqa: BLE001   not even the error message can be made
            return {"error": "broken"}
