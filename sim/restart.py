"""One start of a new interpreter: makes the calls it is told on standard input, reports on standard output.

Run as a script, in whatever environment the plan asks for, so nothing here may depend on that environment.
"""

import json
import os
import sys


def main():
    out = os.dup(1)
    spec = json.loads(sys.stdin.buffer.read().decode("utf-8", "surrogatepass"))
    spec["path"] = [os.fsdecode(p.encode("utf-8")) for p in spec["path"]]
    sys.path[:0] = spec["path"]
    if spec.get("when") == "at exit":
        import atexit
        atexit.register(work, spec, out)    # before the import, hence after anything that the library registers
        load(spec)
    elif spec.get("when") == "another thread":
        import threading
        t = threading.Thread(target=lambda: (load(spec), work(spec, out)))
        t.start()
        t.join()
    else:
        load(spec)
        work(spec, out)


def load(spec):
    if spec.get("quiet"):
        sys.stdin = sys.stdout = None       # as in a process without a terminal
    if spec.get("tty") is not None:
        for fd in range(3):
            os.dup2(spec["tty"], fd)            # as in a process started by hand
    import pycep
    if not pycep.__file__.startswith(spec["path"][0]):
        raise SystemExit(f"imported {pycep.__file__} instead of what is below {spec['path'][0]}")


def work(spec, out):
    from pathlib import Path

    import pycep
    from sim import canon

    rep = {"outcomes": [], "env": [sys.flags.hash_randomization, sys.flags.optimize, sys.getfilesystemencoding()]}
    parsers = {}
    calls = count_calls() if spec.get("count") else None
    for op in spec["calls"]:
        v, e = None, None
        try:
            if op["k"] == "new":
                if calls:
                    calls[0] = 0
                parsers[op["p"]] = pycep.BicepParser(add_line_numbers=op["ln"], cache=op["cache"])
            else:
                p = parsers[op["p"]]
                fn = p.parse if op["k"] in ("parse", "parsefile") else p.create_tree
                if op["k"] == "misuse":
                    v = misuse(p, op["how"], Path)
                elif "d" in op:
                    v = fn(text=spec["docs"][op["d"]])
                else:
                    f = os.fsdecode(spec["files"][op["f"]].encode("utf-8"))
                    v = fn(file_path=Path(f if op.get("rel") else os.path.join(spec["dir"], f)))
        except Exception as x:  # noqa: BLE001
            e = x
        if calls and op["k"] == "new":
            rep.setdefault("lark_calls", []).append(calls[0])
        rep["outcomes"].append({"ok": None} if op["k"] == "new" and e is None else canon.outcome(v, e))
    data = json.dumps(rep).encode("utf-8", "surrogatepass")
    while data:
        data = data[os.write(out, data):]


def count_calls():
    """Counts the functions of lark that are entered."""
    import lark
    m = sys.monitoring
    m.use_tool_id(4, "simcount")
    root = os.path.dirname(lark.__file__)
    n = [0]

    def started(code, offset):
        if not code.co_filename.startswith(root):
            return m.DISABLE
        n[0] += 1
        return None
    m.register_callback(4, m.events.PY_START, started)
    m.set_events(4, m.events.PY_START)
    return n


def misuse(p, how, Path):
    if how == 0:
        return p.parse(text="param a string", file_path=Path("x.bicep"))
    if how == 1:
        return p.parse()
    return p.create_tree(text="param a string", file_path=Path("x.bicep"))


if __name__ == "__main__":
    main()
