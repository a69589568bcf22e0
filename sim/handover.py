"""One start of a new interpreter that makes, copies, stores and loads results (C18).  Run as a script; reports on
standard output.

Nothing of pycep is imported before an operation needs it: a result may be loaded by a process that has not used the
library yet.
"""

import copy
import json
import os
import pickle
import signal
import sys


class World:
    def __init__(self, spec):
        self.spec = spec
        self.parsers = {}
        self.kept = {}
        self.out = []

    def parser(self, op):
        import pycep
        p = op["p"]
        if p not in self.parsers:
            self.parsers[p] = pycep.BicepParser(add_line_numbers=op["ln"])
        return self.parsers[p]

    def slot(self, n):
        return os.path.join(self.spec["dir"], f"slot{n}")

    def do(self, op):
        """The value whose canonical form is the operation's outcome."""
        k = op["k"]
        if k == "make":
            self.kept[op["r"]] = v = self.parser(op).parse(text=self.spec["docs"][op["d"]])
            return v
        if k == "call":
            self.parser(op).parse(text=self.spec["docs"][op["d"]])
            return None
        if k == "copy":
            v = self.kept[op["r"]]
            h = op["how"]
            if h == "deepcopy":
                v = copy.deepcopy(v)
            elif h == "json":
                v = json.loads(json.dumps(v))
            elif h == "part":
                # piece by piece, as an application does that keeps only some of it
                v = {k: {n: copy.deepcopy(x) for n, x in s.items()} for k, s in v.items()}
            else:
                v = pickle.loads(pickle.dumps(v, protocol=h))
            self.kept[op["to"]] = v
            return v
        if k == "put":
            v = self.kept[op["r"]]
            with open(self.slot(op["s"]), "wb") as f:
                f.write(json.dumps(v).encode("ascii") if op["how"] == "json" else pickle.dumps(v, protocol=op["how"]))
            return None
        if k == "get":
            with open(self.slot(op["s"]), "rb") as f:
                data = f.read()
            self.kept[op["r"]] = v = json.loads(data) if op["how"] == "json" else pickle.loads(data)
            return v
        if k == "look":
            return self.kept[op["r"]]
        if k == "drop":
            self.parsers.clear()
            import gc
            gc.collect()
            return None
        if k == "worker":
            return self.worker(op)
        if k == "kill":
            self.report()
            os.kill(os.getpid(), signal.SIGKILL)
        raise AssertionError(k)

    def worker(self, op):
        """A forked worker does the operation and sends the value through a pipe, as multiprocessing does."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                os.close(r)
                v = self.do(op["op"])
                data = pickle.dumps(v, protocol=op["how"])
                while data:
                    data = data[os.write(w, data):]
            except BaseException:  # noqa: BLE001
                import traceback
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(1)
            os._exit(0)
        os.close(w)
        data = b""
        while b := os.read(r, 1 << 16):
            data += b
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if status:
            raise RuntimeError(f"the worker ended with wait status {status}")
        self.kept[op["to"]] = v = pickle.loads(data)
        return v

    def report(self):
        data = json.dumps({"outcomes": self.out}).encode("utf-8", "surrogatepass")
        while data:
            data = data[os.write(self.fd, data):]

    def run(self):
        self.fd = os.dup(1)
        for op in self.spec["calls"]:
            v, e = None, None
            try:
                v = self.do(op)
            except Exception as x:  # noqa: BLE001
                e = x
            from sim import canon
            self.out.append(canon.outcome(v, e))
        self.report()


def main():
    spec = json.loads(sys.stdin.buffer.read().decode("utf-8", "surrogatepass"))
    spec["path"] = [os.fsdecode(p.encode("utf-8")) for p in spec["path"]]
    sys.path[:0] = spec["path"]
    World(spec).run()


if __name__ == "__main__":
    main()
