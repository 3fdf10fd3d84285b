"""The simulator: tasks, scheduler, interruption points, faults, event log.

Tasks are real threads of which exactly one runs at any time; who runs is decided
here.  Inside repository code the places where CPython itself looks for
pending interrupts and thread switches - function entry, return from a C call,
backward jumps - and the places just before a call are reported by
sys.monitoring.  Each is a numbered point of the operation in progress.  At a
point the scenario may say: raise (a fault), or hand over to another task.
Nothing here reads a clock or draws a random number: a run is a pure function
of scenario and code.
"""
import _thread
import dis
import hashlib
import sys

from . import loader

E = sys.monitoring.events
TOOL = 4
MAIN = "main"


class StepBudget(BaseException):
    """more points than any legitimate run needs"""


class Killed(BaseException):
    """the simulated process no longer exists"""


class Deadlock(BaseException):
    """no task can run"""


FAULT_EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
             "TimeoutError": TimeoutError}

_LIBS = ("numpy", "scipy", "numexpr")


def _can_fail(fn):
    """may a call to fn plausibly fail for want of memory?  Lock, exit and container methods do not."""
    if getattr(fn, "__name__", "") in ("__exit__", "__enter__", "release", "acquire", "append", "pop"):
        return False
    if hasattr(fn, "__code__"):
        return True
    mod = getattr(fn, "__module__", None) or type(fn).__module__ or ""
    if mod.split(".")[0] in _LIBS or type(fn).__module__.split(".")[0] in _LIBS:
        return True
    slf = getattr(fn, "__self__", None)
    if slf is not None and type(slf).__module__.split(".")[0] in _LIBS:
        return True
    return isinstance(fn, type)


class Task:
    def __init__(self, tid, body):
        self.tid = tid
        self.body = body
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = "new"          # new, ready, blocked, done
        self.blocked_on = None
        self.op = -1
        self.point = 0
        self.io = 0
        self.special = {}           # point -> [actions], for the current op
        self.next_special = None
        self.pending = []           # faults waiting for an eligible point
        self.fired = []             # faults that struck the current op
        self.dead = False           # the simulated process has been killed
        self.io_special = {}        # number of the file operation -> [actions]
        self.sticky = None          # errno every later write fails with
        self.on_switch_in = None


class Sim:
    cur = None      # the Sim of this process (one at a time)

    def __init__(self, budget=400000):
        self.tasks = []
        self.current = None
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.total_points = 0
        self.budget = budget
        self.log = []               # what happened, in order
        self.hash = hashlib.sha256()
        self.profile = None         # (fingerprint function, {(tid, op): [points]})
        self.prof_hot = {}
        self.prof_n = {}
        self._last_fp = None
        self.switches = 0
        self.fault_counts = {}
        self.at_switch = None       # invariant hook
        self.failure = None
        self.violations = []
        self.by_ident = {}
        self.clock = 0

    # -- recording -------------------------------------------------------
    def note(self, *ev):
        self.log.append(ev)
        self.hash.update(repr(ev).encode())

    def violation(self, kind, **what):
        if len(self.violations) < 20:
            self.violations.append(dict(kind=kind, **what))

    def count(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    # -- scheduling ------------------------------------------------------
    def add(self, body):
        t = Task(len(self.tasks), body)
        self.tasks.append(t)
        return t

    def _thread_main(self, t):
        t.lock.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if self.failure is None:
                t.body(t)
        except (Killed, StepBudget, Deadlock):
            pass
        except BaseException as e:      # bodies catch everything: this is ours
            self.failure = e
        t.state = "done"
        self.note("done", t.tid)
        nxt = self._pick(None)
        if nxt is None:
            self.current = None
            self.main_lock.release()
        else:
            self._enter(nxt)
            nxt.lock.release()

    def _pick(self, want):
        if want is not None and 0 <= want < len(self.tasks) and self.tasks[want].state == "ready":
            return self.tasks[want]
        for t in self.tasks:
            if t.state == "ready" and t is not self.current:
                return t
        for t in self.tasks:
            if t.state == "ready":
                return t
        blocked = [t for t in self.tasks if t.state == "blocked"]
        if blocked:
            self.violation("deadlock", tasks=[t.tid for t in blocked])
            self.failure = self.failure or Deadlock()
            blocked[0].state = "ready"
            return blocked[0]
        return None

    def _enter(self, t):
        self.current = t
        if t.on_switch_in:
            t.on_switch_in()

    def switch(self, me, want):
        """hand over from the running task to another; returns when it is our turn again"""
        nxt = self._pick(want)
        if nxt is None or nxt is me:
            return False
        self.switches += 1
        self.note("switch", me.tid, me.op, me.point, me.io, nxt.tid)
        if self.at_switch:
            self.at_switch()
        self._enter(nxt)
        nxt.lock.release()
        me.lock.acquire()
        if self.failure is not None:
            raise type(self.failure)()
        return True

    def block(self, me, on):
        me.state = "blocked"
        me.blocked_on = on
        self.note("block", me.tid)
        self.switch(me, None)
        me.state = "ready"
        if self.failure is not None:
            raise type(self.failure)()

    def unblock(self, on):
        for t in self.tasks:
            if t.state == "blocked" and t.blocked_on is on:
                t.state = "ready"

    def run(self, first=0):
        Sim.cur = self
        for t in self.tasks:
            t.state = "ready"
            _thread.start_new_thread(self._thread_main, (t,))
        if self.tasks:
            t = self.tasks[first if first < len(self.tasks) else 0]
            self._enter(t)
            t.lock.release()
            self.main_lock.acquire()
        Sim.cur = None
        if isinstance(self.failure, BaseException) and not isinstance(self.failure, (StepBudget, Deadlock, Killed)):
            raise self.failure

    def task(self):
        """the task whose thread is executing, or None"""
        t = self.current
        if t is not None and self.by_ident.get(_thread.get_ident()) is t:
            return t
        return None

    # -- points ----------------------------------------------------------
    def begin_op(self, t, op, special):
        t.op = op
        t.point = 0
        t.special = special
        t.fired = []
        t.pending = []
        t.next_special = min(special) if special else None
        self._last_fp = None

    def end_op(self, t):
        if self.profile is not None:
            self.prof_n[(t.tid, t.op)] = t.point
        t.next_special = None
        t.pending = []

    def at_point(self, t, kind, fn=None):
        if t.dead:
            if kind == "ex":
                return
            raise Killed()
        t.point += 1
        self.total_points += 1
        if self.total_points > self.budget and kind != "ex":
            self.violation("no_progress", task=t.tid, op=t.op)
            self.failure = StepBudget()
            raise StepBudget()
        if self.profile is not None:
            fp = self.profile()
            last = self._last_fp
            if fp != last:
                if last is not None:
                    self.prof_hot.setdefault((t.tid, t.op), []).append(t.point)
                self._last_fp = fp
        if t.point == t.next_special:
            acts = t.special.pop(t.point)
            t.next_special = min(t.special) if t.special else None
            for a in acts:
                if "to" in a:
                    self.switch(t, a["to"])
                else:
                    t.pending.append(a)
        if t.pending and kind != "ex":
            for a in t.pending:
                mem = a["exc"] == "MemoryError"
                if (kind == "call" and mem and _can_fail(fn)) or (kind != "call" and not mem):
                    t.pending.remove(a)
                    t.fired.append(a["exc"])
                    self.count(a["exc"])
                    self.note("fault", t.tid, t.op, t.point, a["exc"])
                    if a["exc"] == "kill":
                        t.dead = True
                        raise Killed()
                    raise FAULT_EXC[a["exc"]]("injected")


def _cb_start(code, off):
    s = Sim.cur
    if s is not None:
        t = s.task()
        if t is not None:
            s.at_point(t, "start")


def _cb_jump(code, off, dest):
    if dest < off:
        s = Sim.cur
        if s is not None:
            t = s.task()
            if t is not None:
                s.at_point(t, "jump")


def _cb_call(code, off, fn, arg0):
    s = Sim.cur
    if s is not None:
        t = s.task()
        if t is not None:
            s.at_point(t, "ex" if (id(code), off) in EX else "call", fn)


def _cb_creturn(code, off, fn, arg0):
    s = Sim.cur
    if s is not None:
        t = s.task()
        if t is not None:
            s.at_point(t, "ex" if (id(code), off) in EX else "creturn", fn)


EX = set()      # (id of code, offset) of calls f(*a, **k): CPython 3.12 crashes when an exception is raised from these events


def install_monitoring():
    sys.monitoring.use_tool_id(TOOL, "cassim")
    for ev, cb in ((E.PY_START, _cb_start), (E.JUMP, _cb_jump), (E.CALL, _cb_call), (E.C_RETURN, _cb_creturn)):
        sys.monitoring.register_callback(TOOL, ev, cb)
    for code in loader.REPO_CODES:
        for ins in dis.get_instructions(code):
            if ins.opname == "CALL_FUNCTION_EX":
                EX.add((id(code), ins.offset))
        sys.monitoring.set_local_events(TOOL, code, E.PY_START | E.CALL | E.JUMP)


class SimLock:
    """threading.Lock / RLock as seen by repository code: blocking hands over to the scheduler"""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def _me(self):
        s = Sim.cur
        t = s.task() if s is not None else None
        return s, t, (t if t is not None else _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        s, t, me = self._me()
        if self.reentrant and self.owner is me and self.depth:
            self.depth += 1
            return True
        while self.depth:
            if not blocking or t is None:
                return False
            s.block(t, self)
        self.owner, self.depth = me, 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
            s = Sim.cur
            if s is not None:
                s.unblock(self)

    def locked(self):
        return bool(self.depth)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


def install_locks():
    """repository code that makes locks gets ones the scheduler knows about"""
    import threading
    real_lock, real_rlock = threading.Lock, threading.RLock

    def _mine():
        f = sys._getframe(2)
        return f.f_code.co_filename.startswith(loader.env.SRC)

    def Lock():
        return SimLock() if _mine() else real_lock()

    def RLock():
        return SimLock(True) if _mine() else real_rlock()
    threading.Lock, threading.RLock = Lock, RLock
