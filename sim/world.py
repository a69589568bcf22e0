"""The scheduler: real threads, exactly one of which runs at any time, decided by the simulator.

Tasks are parked and released one at a time with raw locks.  While a task runs, `sys.monitoring` reports every line
(or every instruction of chosen functions) of the code under test, and the system call shim reports every file
operation; at each of these points the simulator may

    switch    park this task and let another one run
    raise     throw an exception into the running call (only where CPython itself delivers asynchronous exceptions:
              at function entry, after a call into C returned, and at a backward jump)
    nest      run another call to its end inside this one, as a signal handler would
    stall     park this task until the scenario says otherwise
    fork      fork the process here

All indices are counted from the start of the operation (op) a task is executing, so that a recorded decision keeps
its meaning when other operations are removed while a failure is minimised.
"""

from __future__ import annotations

import _thread
import os
import random
import select
import sys

real_allocate_lock = _thread.allocate_lock
real_start_new_thread = _thread.start_new_thread
real_get_ident = _thread.get_ident
real_RLock = _thread.RLock

HERE = _thread._local()             # of each thread
GUARD = real_allocate_lock()
ALIVE = [0]                         # threads that run outside a world
real_wait = select.select

TOOL = 3
EV = sys.monitoring.events
DISABLE = sys.monitoring.DISABLE
FAR = 1 << 60

W: "World | None" = None            # the world that is running in this process, if any
SCOPE: dict = {}
ROOT_PYCEP = ""
ROOT_LARK = ""
CHILD_IDENT = 0                     # ... whose only thread has this identity
FORKED = False                      # this process is a child forked out of a running world


class SimTimeout(Exception):
    """What the SIGALRM handler of a typical application raises."""


class Abandon(BaseException):
    """A cancellation that is not a KeyboardInterrupt (GreenletExit, trio.Cancelled ...)."""


class Deadlock(BaseException):
    pass


class Over(BaseException):
    """The run has ended while the main thread was parked inside a call."""


EXCS = {"KeyboardInterrupt": KeyboardInterrupt, "SimTimeout": SimTimeout, "MemoryError": MemoryError,
        "SystemExit": SystemExit, "Abandon": Abandon, "RecursionError": RecursionError}


def scope_of(code) -> int:
    f = code.co_filename
    if f.startswith(ROOT_PYCEP):
        s = 2
    elif f.startswith(ROOT_LARK) or f.endswith("/pathlib.py"):
        s = 1
    else:
        s = 0
    SCOPE[code] = s
    return s


class Task:
    def __init__(self, tid: int, name: str) -> None:
        self.id = tid
        self.name = name
        self.sem = real_allocate_lock()
        self.sem.acquire()
        self.state = "ready"        # ready | blocked | stalled | done
        self.primary = True
        self.op = None              # uid of the running operation
        self.n = self.pn = self.i = self.s = self.c = 0
        self.next_n = self.next_pn = self.next_i = FAR
        self.sched_n = FAR
        self.faults_n: list = []
        self.faults_i: list = []
        self.faults_s: list = []
        self.total = 0
        self.forced = 0
        self.meet = None            # the function in which it waits for, or takes turns with, another thread
        self.meet_to = None
        self.wake_at = None
        self.waiting = None
        self.timed_out = False
        self.ident = 0
        self.nested = 0
        self.limit = FAR


class World:
    def __init__(self, sched: dict, faults: list, trace: list | None = None) -> None:
        self.sched = sched
        self.rng = random.Random(f"sched:{sched.get('seed', 0)}")
        self.tasks: list[Task] = []
        self.current: Task | None = None
        self.done = real_allocate_lock()
        self.done.acquire()
        self.seq = 0
        self.decisions: list = []           # what was decided, replayable
        self.fired: dict[str, int] = {}     # fault kind -> how often it really happened
        self.switches = 0
        self.sig = 2166136261               # rolling hash of the interleaving at the level of code lines
        self.faults: dict = {}
        for f in faults:
            self.faults.setdefault(f["op"], []).append(f)
        self.replay: dict | None = None
        if trace is not None:
            self.replay = {}
            for op, kind, idx, to in trace:
                self.replay.setdefault((op, kind), {})[idx] = to
        self.policy = sched.get("policy", "none")
        self.hot = set(sched.get("hot", ()))
        self.meetp = sched.get("meetp", 0) if len(trace or ()) < 1 else 0
        self.coarse = bool(sched.get("coarse"))
        self.max_decisions = sched.get("max", 1500)
        self.deadlock: str | None = None
        self.overrun: str | None = None
        self.on_nest = None
        self.on_fork = None
        self.timeouts = 0
        self.release_stalled = bool(sched.get("release_stalled", True))
        self.released = False
        self.time_jumps = 0
        self.harness_error: str | None = None
        self.free_idents: list[int] = []
        self.next_ident = 1000
        self.unraisable: list = []
        self.log: list = []
        self.marks = None                   # (line index, interrupt point) at each line of pycep, when wanted
        self.blocked_at_release: list = []
        self.always = bool(sched.get("always"))
        self.main = bool(sched.get("main"))     # the first task runs in the main thread of the process
        self.ended = False
        self.watch = None                       # called whenever another thread gets its turn

    # ---- tasks ---------------------------------------------------------------------------------
    def add(self, name: str, fn) -> Task:
        t = Task(len(self.tasks), name)
        self.tasks.append(t)

        def body() -> None:
            t.sem.acquire()
            if self.ended:
                return
            HERE.sentinels = []
            try:
                fn(t)
            except BaseException as e:  # noqa: BLE001  the task functions catch everything that belongs to a call
                if self.harness_error is None and not isinstance(e, (Deadlock, Over, SystemExit)):
                    import traceback
                    self.harness_error = f"task {name}: {traceback.format_exc()[-1500:]}"
            ended()
            if not self.ended:
                self.finish(t)
        if self.main and t.id == 0:
            self.main_body = body
            t.ident = real_get_ident()
        else:
            real_start_new_thread(body, ())
        return t

    def spawn(self, fn, args, kwargs) -> int:
        """A thread started by the code under test."""
        t = self.add(f"spawned{len(self.tasks)}", lambda _t: fn(*args, **kwargs))
        t.primary = False
        t.op = f"spawn{t.id}"
        self.arm(t)
        self.fired["thread spawned by the code"] = self.fired.get("thread spawned by the code", 0) + 1
        return self.ident(t)

    def ident(self, t: Task) -> int:
        if not t.ident:
            if self.free_idents:
                t.ident = self.free_idents.pop()        # the kernel hands a dead thread's id to the next one
            else:
                self.next_ident += 1
                t.ident = self.next_ident
        return t.ident

    def run(self) -> None:
        """Called by the main thread: let the tasks run until no primary one can go on."""
        global W
        W = self
        first = self.pick(None)
        if first is not None:
            self.current = first
            first.sem.release()
            if self.main:
                self.main_body()
            if not self.ended:
                self.done.acquire()
        self.current = None
        W = None

    def over(self) -> None:
        """The run has ended: back to the main thread."""
        global W
        self.current = None
        if self.main and self.tasks[0].state != "done":
            self.ended = True
            W = None
            self.tasks[0].sem.release()
        else:
            self.done.release()

    def park(self, t: Task) -> None:
        """Wait for this task's turn."""
        t.sem.acquire()
        if self.ended:
            raise Over

    def runnable(self) -> list[Task]:
        return [t for t in self.tasks if t.state == "ready"]

    def pick(self, me: Task | None) -> Task | None:
        """Who runs next when the running task cannot go on."""
        r = self.runnable()
        if not r:
            self.wake_sleepers()
            r = self.runnable()
        if not r and self.release_stalled and any(t.state == "stalled" for t in self.tasks):
            self.released = True
            self.blocked_at_release += [f"{t.name} waits for {t.waiting!r} in op {t.op}" for t in self.tasks
                                        if t.primary and t.state == "blocked"]
            for t in self.tasks:
                if t.state == "stalled":
                    t.state = "ready"
            r = self.runnable()
        if not any(t.primary for t in r) and not any(t.primary and t.state in ("blocked", "stalled") for t in self.tasks):
            return None         # only threads the code started itself are left
        if not r:
            b = [t for t in self.tasks if t.state == "blocked" and t.primary]
            if b:
                self.deadlock = "; ".join(f"{t.name} waits for {t.waiting!r} in op {t.op}" for t in b)
            return None
        if len(r) == 1:
            return r[0]
        key = me.id if me else -1
        k = me.forced if me else 0
        if me:
            me.forced += 1
        if self.replay is not None:
            to = self.replay.get((key, "end"), {}).get(k)
            t = next((x for x in r if x.id == to), r[0])
        else:
            t = r[self.rng.randrange(len(r))]
        self.decisions.append([key, "end", k, t.id])
        return t

    def wake_sleepers(self) -> None:
        s = [t for t in self.tasks if t.state == "blocked" and t.wake_at is not None]
        if s:
            t = min(s, key=lambda x: (x.wake_at, x.id))
            self.timeouts += 1
            if self.timeouts > 3000:
                return                  # it waits again and again for what nobody is there to do
            if t.primary and self.release_stalled and any(x.state == "stalled" for x in self.tasks):
                self.blocked_at_release.append(f"{t.name} waits for {t.waiting!r} in op {t.op}, with a time limit that "
                                               f"runs out")
            t.timed_out = True
            t.state = "ready"

    def finish(self, t: Task) -> None:
        t.state = "done"
        if t.ident and not (self.main and t.id == 0):
            self.free_idents.append(t.ident)
            t.ident = 0
        nxt = self.pick(t)
        if nxt is None:
            self.over()
        else:
            self.current = nxt
            self.switches += 1
            nxt.sem.release()

    def switch(self, me: Task, to: Task) -> None:
        self.switches += 1
        if self.watch is not None:
            self.watch(me)
        self.current = to
        to.sem.release()
        self.park(me)

    def give_up(self, me: Task) -> None:
        """`me` cannot go on now (state set by the caller); returns once somebody has made it ready again."""
        nxt = self.pick(me)
        if nxt is me:
            return
        if nxt is None:
            self.over()
            while True:
                self.park(me)           # for ever: the run is over, the process will exit
        self.switch(me, nxt)

    # ---- operations ----------------------------------------------------------------------------
    sprinting = False

    def begin(self, t: Task, uid) -> None:
        if self.ended:
            raise Over
        t.op = uid
        t.n = t.pn = t.i = t.s = t.c = 0
        self.seq += 1
        self.arm(t)
        # the start of an operation is a schedule point of its own
        if self.replay is not None:
            to = self.replay.get((uid, "b"), {}).get(0)
            if to is not None:
                self.preempt(t, "b", 0, to)
        elif self.policy != "none" and len(self.tasks) > 1 and self.rng.random() < 0.3:
            self.preempt(t, "b", 0, None)

    def sprint(self, t: Task) -> bool:
        """A call that takes this long builds the grammar: from here on to its end lark is not watched."""
        if t.limit < FAR or self.marks is not None or self.always:
            return False
        self.sprinting = True
        return True

    def end(self, t: Task) -> None:
        self.seq += 1
        if self.sprinting:
            self.sprinting = False
            sys.monitoring.restart_events()
        t.total += t.n
        t.op = None
        t.next_n = t.next_pn = t.next_i = FAR
        t.faults_n = t.faults_i = t.faults_s = []

    def arm(self, t: Task) -> None:
        fs = self.faults.get(t.op, ())
        t.faults_n = sorted((f for f in fs if f["on"] == "n"), key=lambda f: f["at"])
        t.faults_i = sorted((f for f in fs if f["on"] == "i"), key=lambda f: f["at"])
        t.faults_s = sorted((f for f in fs if f["on"] == "s"), key=lambda f: f["at"])
        self.rearm(t)
        if len(self.tasks) == 1 and MONITOR is not None:
            monitor_pause(not (t.faults_n or t.faults_i or t.limit < FAR or self.marks is not None or self.always))

    def rearm(self, t: Task) -> None:
        """Decide at which event of this task the simulator acts next."""
        t.sched_n = FAR
        t.next_pn = FAR
        if self.replay is not None:
            later = [i for i in self.replay.get((t.op, "n"), ()) if i > t.n]
            t.sched_n = min(later, default=FAR)
        elif len(self.tasks) > 1 and len(self.decisions) < self.max_decisions:
            p = self.policy
            if p == "walk":
                t.sched_n = t.n + 1 + int(self.rng.expovariate(1 / self.sched["mean"]))
            elif p == "pycep":
                t.next_pn = t.pn + 1 + int(self.rng.expovariate(1 / self.sched["mean"]))
            elif p == "points":
                later = [i for i in self.sched["points"].get(str(t.op), ()) if i > t.n]
                t.sched_n = min(later, default=FAR)
        if t.sched_n == FAR and self.policy != "none" and len(self.tasks) > 1 and self.replay is None:
            t.sched_n = t.n + 100_000                   # it may be waiting, busily, for what another one has to do
        t.next_n = min(t.sched_n, t.faults_n[0]["at"] if t.faults_n else FAR, t.limit)
        t.next_i = t.faults_i[0]["at"] if t.faults_i else FAR

    def preempt(self, t: Task, kind: str, idx: int, to) -> None:
        r = [x for x in self.tasks if x.state == "ready" and x is not t]
        if not r:
            return
        if to is None:
            x = r[self.rng.randrange(len(r))]
        else:
            x = next((y for y in r if y.id == to), None)
            if x is None:
                return
        self.decisions.append([t.op, kind, idx, x.id])
        self.switch(t, x)

    # ---- events --------------------------------------------------------------------------------
    def act(self, t: Task, f: dict, on: str):
        """Carry out one fault.  Returns an exception to raise, or None."""
        a = f["act"]
        self.fired[f.get("kind", a)] = self.fired.get(f.get("kind", a), 0) + 1
        f["fired"] = True
        self.log.append([t.op, on, f["at"], f.get("kind", a)])
        if a == "raise":
            return EXCS[f["exc"]]("injected by the simulator") if f["exc"] != "SystemExit" else SystemExit(3)
        if a == "nest":
            t.nested += 1
            limit = t.limit
            t.limit = min(limit, t.n + 3_000_000)   # it cannot wait for the call it is nested in
            try:
                self.on_nest(t, f)
            finally:
                t.nested -= 1
                t.limit = limit
        elif a == "stall":
            t.state = "stalled"
            self.give_up(t)
        elif a == "fork":
            self.on_fork(t, f)
        elif a == "clock":
            from sim import disk
            disk.jump(f.get("real", 0), f.get("mono", 0))
        elif a == "gc":
            import gc
            gc.collect()
        elif a == "limit":
            sys.setrecursionlimit(f["n"])
        return None

    def spent(self, t: Task) -> None:
        """Nothing more is to be done in this operation of the only task: let it run at full speed."""
        if len(self.tasks) == 1 and not (t.faults_n or t.faults_i or t.nested or t.limit < FAR or self.marks is not None or self.always):
            monitor_pause(True)

    def slow(self, t: Task, code, where: int):
        """A line event at which something may be due."""
        exc = None
        if t.n >= t.limit:
            self.overrun = f"op {t.op} of {t.name} made {t.n} steps"
            self.over()
            while True:
                self.park(t)
        while t.faults_n and t.faults_n[0]["at"] <= t.n:
            f = t.faults_n.pop(0)
            exc = self.act(t, f, "n") or exc
        if exc is None:
            if t.n >= t.sched_n or t.pn >= t.next_pn:
                to = None
                if self.replay is not None:
                    to = self.replay[(t.op, "n")].get(t.n)
                elif t.meet_to is not None:
                    to, t.meet_to = t.meet_to, None
                self.sig = (self.sig ^ hash_loc(code, where)) * 16777619 % (1 << 61)
                self.preempt(t, "n", t.n, to)
        self.rearm(t)
        self.spent(t)
        if exc is not None:
            raise exc

    def syscall(self, t: Task, name: str):
        """A file operation of the code under test.  Returns a fault for it, or None."""
        t.s += 1
        if self.replay is not None:
            to = self.replay.get((t.op, "s"), {}).get(t.s)
            if to is not None:
                self.preempt(t, "s", t.s, to)
        elif self.policy != "none" and (name == "sleep" or self.rng.random() < self.sched.get("sysp", 0.3)):
            self.preempt(t, "s", t.s, None)
        hit = None
        while t.faults_s and t.faults_s[0]["at"] <= t.s:
            f = t.faults_s.pop(0)
            if f["act"] in ("errno", "short"):
                hit = f
            else:
                self.act(t, f, "s")
        return hit

    # ---- blocking ------------------------------------------------------------------------------
    def block(self, t: Task, what, timeout: float | None) -> bool:
        """Wait until made ready; False if the timeout came first."""
        from sim import disk
        t.waiting = what
        t.timed_out = False
        t.wake_at = None if timeout is None else disk.mono() + int(timeout * 1e9)
        if t.nested:
            # this call runs inside another one of the same thread: nobody else's progress can help if the
            # lock belongs to the outer call; let the others run, then report
            pass
        t.state = "blocked"
        self.give_up(t)
        if t.timed_out and t.wake_at is not None:
            disk.advance_to(t.wake_at)
        t.wake_at = t.waiting = None
        return not t.timed_out


def hash_loc(code, where: int) -> int:
    h = 0
    for c in code.co_name:
        h = (h * 31 + ord(c)) & 0xFFFFFFF
    return h * 8191 + where


# ---- monitoring callbacks ------------------------------------------------------------------------------------

LONG = 1_500_000


def on_line(code, line):
    s = SCOPE.get(code)
    if s is None:
        s = scope_of(code)
    if s == 0:
        return DISABLE
    w = W
    if w is None:
        return None
    if s == 1 and w.coarse:
        return DISABLE
    t = w.current
    if t is None or t.op is None:
        return None
    t.n += 1
    if s == 1 and t.n > LONG and w.sprint(t):
        return DISABLE
    if s == 2:
        t.pn += 1
        if w.marks is not None:
            t.c += 1
            w.marks.append((t.n, t.i, t.c, code.co_name))
        if w.meetp and w.replay is None:
            meet(w, t, code)
        elif w.hot and w.replay is None and code.co_name in w.hot and w.rng.random() < w.sched.get("hotp", 0.3):
            t.sched_n = t.next_n = t.n
    if t.n >= t.next_n or t.pn >= t.next_pn:
        w.slow(t, code, line)
    return None


def meet(w, t, code) -> None:
    """Wait inside a function for another thread to enter it, then let the two take turns in it."""
    if len(w.decisions) > 20000:
        return
    for x in w.tasks:
        if x is not t and x.meet is code and x.state == "ready":
            if w.rng.random() < 0.7:
                t.meet = code
                t.meet_to = x.id
                t.sched_n = t.next_n = t.n
            return
    if t.meet is not code:
        t.meet = None
        if w.rng.random() < w.meetp:
            others = [x for x in w.tasks if x is not t and x.state == "ready"]
            if others:
                t.meet = code
                t.meet_to = others[w.rng.randrange(len(others))].id
                t.sched_n = t.next_n = t.n


def interrupt_point(t, code):
    w = W
    t.i += 1
    if t.i >= t.next_i:
        exc = None
        while t.faults_i and t.faults_i[0]["at"] <= t.i:
            exc = w.act(t, t.faults_i.pop(0), "i") or exc
        t.next_i = t.faults_i[0]["at"] if t.faults_i else FAR
        w.spent(t)
        if exc is not None:
            raise exc


def on_start(code, offset):
    s = SCOPE.get(code)
    if s is None:
        s = scope_of(code)
    if s == 0:
        return DISABLE
    w = W
    if w is not None:
        t = w.current
        if t is not None and t.op is not None:
            if s == 1:
                if t.n > LONG and w.sprint(t):
                    return DISABLE
                t.c += 1
                if w.coarse:
                    t.n += 1
                    if t.n >= t.next_n or t.pn >= t.next_pn:
                        w.slow(t, code, 0)
            interrupt_point(t, code)
    return None


def on_enter(code, offset):
    """Entry of a function: the schedule points inside lark in the coarse mode."""
    s = SCOPE.get(code)
    if s is None:
        s = scope_of(code)
    if s != 1:
        return DISABLE
    w = W
    if w is not None:
        t = w.current
        if t is not None and t.op is not None:
            t.n += 1
            if t.n >= t.next_n or t.pn >= t.next_pn:
                w.slow(t, code, 0)
    return None


def on_jump(code, offset, dest):
    s = SCOPE.get(code)
    if s is None:
        s = scope_of(code)
    if s == 0 or dest > offset:
        return DISABLE
    w = W
    if w is not None:
        t = w.current
        if t is not None and t.op is not None:
            if s == 1 and t.n > LONG and w.sprint(t):
                return DISABLE
            interrupt_point(t, code)
    return None


def on_call(code, offset, fn, arg0):
    s = SCOPE.get(code)
    if s is None:
        s = scope_of(code)
    if s == 0:
        return DISABLE
    w = W
    if s == 1 and w is not None:
        t = w.current
        if t is not None and t.op is not None and t.n > LONG and w.sprint(t):
            return DISABLE
    return None


def on_c_return(code, offset, fn, arg0):
    if SCOPE.get(code):
        w = W
        if w is not None:
            t = w.current
            if t is not None and t.op is not None:
                interrupt_point(t, code)
    return None


def monitor(lines: bool = True, interrupts: bool = False, instructions=(), coarse: bool = False) -> None:
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, "sim")
    ev = 0
    if lines:
        m.register_callback(TOOL, EV.LINE, on_line)
        ev |= EV.LINE
    if coarse and not interrupts:
        m.register_callback(TOOL, EV.PY_START, on_enter)
        m.register_callback(TOOL, EV.PY_RESUME, on_enter)
        ev |= EV.PY_START | EV.PY_RESUME
    if interrupts:
        m.register_callback(TOOL, EV.PY_START, on_start)
        m.register_callback(TOOL, EV.PY_RESUME, on_start)
        m.register_callback(TOOL, EV.JUMP, on_jump)
        m.register_callback(TOOL, EV.CALL, on_call)
        m.register_callback(TOOL, EV.C_RETURN, on_c_return)
        ev |= EV.PY_START | EV.PY_RESUME | EV.JUMP | EV.CALL
    global MONITOR, PAUSED
    MONITOR, PAUSED = ev, False
    m.set_events(TOOL, ev)
    if instructions:
        m.register_callback(TOOL, EV.INSTRUCTION, on_line)
        for code in instructions:
            m.set_local_events(TOOL, code, EV.INSTRUCTION)


MONITOR = None
PAUSED = False


def monitor_pause(off: bool) -> None:
    global PAUSED
    if MONITOR is not None and off != PAUSED:
        PAUSED = off
        sys.monitoring.set_events(TOOL, 0 if off else MONITOR)


def monitor_off() -> None:
    global MONITOR
    MONITOR = None
    sys.monitoring.set_events(TOOL, 0)


# ---- locks, threads and identities as the code under test sees them --------------------------------------------

def me() -> "Task | None":
    w = W
    return w.current if w is not None else None


class SimLock:
    def __init__(self) -> None:
        self._owner = None
        self._held = False
        self._waiters: list = []

    def acquire(self, blocking=True, timeout=-1):
        t = me()
        if t is None:
            with GUARD:
                if not self._held:
                    self._held, self._owner = True, None
                    return True
        elif not self._held:
            self._held, self._owner = True, t
            return True
        if not blocking:
            return False
        if t is None:
            return self._acquire_unscheduled(timeout)
        w = W
        limit = None if timeout is None or timeout < 0 else timeout
        w.fired["waited for a lock"] = w.fired.get("waited for a lock", 0) + 1
        while self._held:
            self._waiters.append(t)
            ok = w.block(t, self, limit)
            if t in self._waiters:
                self._waiters.remove(t)
            if not ok:
                return False
        self._held, self._owner = True, t
        return True

    def _acquire_unscheduled(self, timeout):
        """Outside a run (baselines, preparations) threads of the library's own run freely."""
        tries = (20 if timeout is None or timeout < 0 else timeout) / 0.0005
        while ALIVE[0]:
            with GUARD:
                if not self._held:
                    self._held, self._owner = True, None
                    return True
            tries -= 1
            if tries < 0:
                break
            real_wait([], [], [], 0.0005)           # the clock may be a simulated one
        if timeout is not None and timeout >= 0:
            return False
        if not self._held:
            self._held, self._owner = True, None
            return True
        raise Deadlock("waits for a lock that nobody alive can release")

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held, self._owner = False, None
        for t in self._waiters:
            if t.state == "blocked":
                t.state = "ready"
        self._waiters = []

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __repr__(self):
        return f"lock(held by {self._owner.name if self._owner else 'a finished task'})"


class SimRLock:
    def __init__(self) -> None:
        self._lock = SimLock()
        self._who = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        i = get_ident()
        if self._count and self._who == i:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._who, self._count = i, 1
            return True
        return False

    def release(self):
        if not self._count or self._who != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._who = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return bool(self._count) and self._who == get_ident()

    def _release_save(self):
        s = (self._count, self._who)
        self._count, self._who = 0, None
        self._lock.release()
        return s

    def _acquire_restore(self, s):
        self._lock.acquire()
        self._count, self._who = s

    def _recursion_count(self):
        return self._count if self._who == get_ident() else 0

    def _at_fork_reinit(self):
        self.__init__()

    def __repr__(self):
        return repr(self._lock)


def allocate_lock():
    return SimLock()


def make_rlock(*a, **k):
    return SimRLock()


def get_ident():
    w = W
    if w is not None and w.current is not None:
        return w.ident(w.current)
    if CHILD_IDENT and not getattr(HERE, "own", False):
        return CHILD_IDENT
    return real_get_ident()


def set_sentinel():
    """The lock that is released when the calling thread has ended."""
    lock = SimLock()
    getattr(HERE, "sentinels", []).append(lock)
    return lock


def ended() -> None:
    for lock in getattr(HERE, "sentinels", ()):
        if lock._held:
            lock.release()


def start_new_thread(fn, args, kwargs=None, **more):
    w = W
    if w is None or w.current is None:
        def body():
            HERE.sentinels = []
            HERE.own = True
            try:
                fn(*args, **(kwargs or {}))
            finally:
                ended()
                ALIVE[0] -= 1
        ALIVE[0] += 1
        return real_start_new_thread(body, ())
    return w.spawn(fn, args, kwargs or {})


def patch() -> None:
    """Put the simulator's locks, threads and identities in place of the interpreter's.  Before pycep is imported."""
    import threading

    os.register_at_fork(after_in_child=lambda: ALIVE.__setitem__(0, 0))
    _thread.allocate_lock = _thread.allocate = allocate_lock
    _thread.RLock = make_rlock
    _thread.get_ident = get_ident
    _thread.start_new_thread = start_new_thread
    threading._allocate_lock = threading.Lock = allocate_lock
    threading._CRLock = make_rlock
    threading.RLock = make_rlock
    threading.get_ident = get_ident
    threading._start_new_thread = start_new_thread
    _thread._set_sentinel = threading._set_sentinel = set_sentinel
    # the queue implemented in C blocks in a way that cannot be seen
    import queue
    queue.SimpleQueue = queue._PySimpleQueue
