"""Deterministic simulator for caller threads of the library under test.

Real OS threads execute the real library code, but exactly one of them runs at any moment: the baton.  A thread
reaches a *scheduling point* at every line (optionally every bytecode) of library code, at every operation boundary,
at every simulated-lock operation and at every barrier.  At each scheduling point a seeded chooser decides who runs
next and whether a fault fires, so that one program + one seed is one exactly repeatable execution.

Nothing in here reads a clock or draws from a PRNG except through the chooser object handed in.
"""
import _thread
import hashlib
import os
import sys
import threading
import traceback

_alloc = _thread.allocate_lock


class SimCancel(BaseException):
    """The cancellation / interrupt fault (what KeyboardInterrupt is to a real caller)."""


class StepLimit(BaseException):
    """The progress bound of an operation was exceeded."""


class Deadlock(BaseException):
    """Every simulated thread waits for a lock."""


class _Abort(BaseException):
    """Internal: the run is over, unwind this thread."""


class Violation(Exception):
    def __init__(self, cls, detail):
        super().__init__("%s: %s" % (cls, detail))
        self.cls = cls
        self.detail = detail


class HarnessError(Exception):
    pass


def as_violation(e):
    """The library failed outside a checked call, or gave back something the oracle cannot even read.  None: this is a
    failure of the sandbox or the harness itself."""
    if isinstance(e, (HarnessError, MemoryError, OSError, KeyboardInterrupt, SystemExit, _Abort)):
        return None
    fr = traceback.extract_tb(e.__traceback__)
    lib = [f for f in fr if f.filename.startswith(SRC_PREFIX or "?")]
    at = lib[-1] if lib else fr[-1]
    return Violation("library-error" if lib else "malformed-result", "%s: %s (at %s:%d in %s)" % (
        type(e).__name__, str(e)[:300], os.path.basename(at.filename), at.lineno, at.name))


# ------------------------------------------------------------------------------------------------------------------
# library location / simulated locks
# ------------------------------------------------------------------------------------------------------------------
SRC_PREFIX = None      # directory of the library under test, with trailing separator
CURRENT = None         # the active Sim
_is_src = {}


def set_src(path):
    global SRC_PREFIX
    SRC_PREFIX = os.path.abspath(path) + os.sep
    _is_src.clear()


def is_src(code):
    r = _is_src.get(code)
    if r is None:
        r = code.co_filename.startswith(SRC_PREFIX)
        _is_src[code] = r
    return r


class SimLock:
    """Lock under the simulator: contention parks the simulated thread and hands the baton on."""
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT
        me = sim.current_tid() if sim is not None else "main"
        if self._owner is not None and not (self._reentrant and self._owner == me):
            if not blocking:
                return False
            if sim is None or me == "main":
                raise Deadlock("lock already held outside the simulation")
            sim.block_on(me, self)
            if timeout is not None and timeout >= 0 and self._owner is not None:
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    _reentrant = True


_real_Lock, _real_RLock = threading.Lock, threading.RLock


def _from_src():
    f = sys._getframe(2)
    return SRC_PREFIX is not None and f.f_code.co_filename.startswith(SRC_PREFIX)


def _Lock(*a, **k):
    return SimLock() if _from_src() else _real_Lock(*a, **k)


def _RLock(*a, **k):
    return SimRLock() if _from_src() else _real_RLock(*a, **k)


def install_lock_seam():
    """Must run before the library is imported: locks created by library code become simulated."""
    threading.Lock = _Lock
    threading.RLock = _RLock


# ------------------------------------------------------------------------------------------------------------------
# choosers
# ------------------------------------------------------------------------------------------------------------------
class Chooser:
    """Decides preemptions.  decide() -> tid to switch to, or None.  pick() -> one of runnable (forced)."""

    def decide(self, sim, tid, op, ls, code, runnable):
        return None

    def pick(self, sim, tid, where, runnable):
        return runnable[0]


class RandomChooser(Chooser):
    """Swarm of preemption strategies, all driven by one PRNG."""

    def __init__(self, rng, nthreads):
        self.rng = rng
        self.strategy = rng.choice(["rand", "rand", "pct", "focus", "boundary", "burst", "rand_hi"])
        self.p = 10 ** rng.uniform(-3.0, -1.0)
        if self.strategy == "rand_hi":
            self.p = rng.uniform(0.2, 0.6)
        self.prio = {t: rng.random() for t in range(nthreads)}
        self.change_left = rng.randint(1, 6)
        self.change_p = 10 ** rng.uniform(-3.5, -1.5)
        self.focus_mod = rng.randint(3, 12)
        self.focus_sel = rng.randrange(self.focus_mod)
        self.burst_left = 0

    def decide(self, sim, tid, op, ls, code, runnable):
        r = self.rng
        s = self.strategy
        if ls == 0:  # operation boundary
            return r.choice(runnable) if r.random() < 0.6 else None
        if s == "rand" or s == "rand_hi":
            if r.random() < self.p:
                return r.choice(runnable)
            return None
        if s == "pct":
            if self.change_left and r.random() < self.change_p:
                self.change_left -= 1
                self.prio[tid] = -self.rng.random()
                return max(runnable, key=lambda t: self.prio[t])
            return None
        if s == "focus":
            # preempt often inside a pseudo-random subset of functions, rarely elsewhere
            h = (code.co_firstlineno * 2654435761 + len(code.co_name)) % self.focus_mod
            if r.random() < (0.35 if h == self.focus_sel else 0.002):
                return r.choice(runnable)
            return None
        if s == "burst":
            if self.burst_left:
                self.burst_left -= 1
                return r.choice(runnable)
            if r.random() < 0.01:
                self.burst_left = r.randint(5, 60)
            return None
        return None

    def pick(self, sim, tid, where, runnable):
        return self.rng.choice(runnable)


class ReplayChooser(Chooser):
    def __init__(self, switches):
        self.switches = switches

    def decide(self, sim, tid, op, ls, code, runnable):
        t = self.switches.get("%d:%s:%d" % (tid, op, ls))
        return t if t in runnable else None

    def pick(self, sim, tid, where, runnable):
        t = self.switches.get("%d:%s" % (tid, where))
        return t if t in runnable else runnable[0]


# ------------------------------------------------------------------------------------------------------------------
# the simulator
# ------------------------------------------------------------------------------------------------------------------
RUN, BARRIER, BLOCKED, DONE = 0, 1, 2, 3


class Sim:
    def __init__(self, phases, nthreads, exec_op, chooser, max_op_steps=400000, opcodes=False):
        self.phases = phases
        self.n = nthreads
        self.exec_op = exec_op
        self.chooser = chooser
        self.max_op_steps = max_op_steps
        self.opcodes = opcodes
        self.state = [RUN] * nthreads
        self.wait_lock = [None] * nthreads
        self.baton = [_alloc() for _ in range(nthreads)]
        for b in self.baton:
            b.acquire()
        self.main_baton = _alloc()
        self.main_baton.acquire()
        self.cur = -1
        self.phase = 0
        self.gstep = 0
        self.local = [0] * nthreads
        self.opid = ["-"] * nthreads
        self.fault = [None] * nthreads
        self.fired = []
        self.switches = {}
        self.n_preempt = 0
        self.pairs = set()
        self.trace_hash = hashlib.sha1()
        self.abort = False
        self.violation = None
        self.error = None
        self.forced = 0
        self.tidmap = {}
        self._tracer_l = self._local_trace_op if opcodes else self._local_trace

    # -- identity ---------------------------------------------------------------------------------------------
    def current_tid(self):
        return self.tidmap.get(_thread.get_ident(), "main")

    # -- running ----------------------------------------------------------------------------------------------
    def run(self):
        global CURRENT
        CURRENT = self
        ths = [threading.Thread(target=self._main, args=(t,), name="sim-%d" % t, daemon=True) for t in range(self.n)]
        for t in ths:
            t.start()
        try:
            self.cur = self.chooser.pick(self, -1, "start", list(range(self.n)))
            self.switches["-1:start"] = self.cur
            self.baton[self.cur].release()
            self.main_baton.acquire()
            for t in ths:
                t.join()
        finally:
            CURRENT = None
        if self.error is not None:
            raise HarnessError(self.error)

    def _main(self, tid):
        self.tidmap[_thread.get_ident()] = tid
        self.baton[tid].acquire()
        try:
            if self.abort:
                raise _Abort()
            for ph in range(len(self.phases)):
                ops = self.phases[ph][tid] if tid < len(self.phases[ph]) else []
                for op in ops:
                    self.opid[tid] = str(op["id"])
                    self.local[tid] = 0
                    self._maybe_switch(tid, None)
                    self.local[tid] = 0
                    self.exec_op(tid, op, self)
                self._barrier(tid, ph)
        except _Abort:
            pass
        except Violation as v:
            self._stop(violation=v)
        except Deadlock as e:
            self._stop(violation=Violation("deadlock", str(e)))
        except BaseException as e:
            v = as_violation(e)
            self._stop(violation=v, error=traceback.format_exc() if v is None else None)
        finally:
            sys.settrace(None)
            self.state[tid] = DONE
            self._leave(tid)

    def _stop(self, violation=None, error=None):
        if not self.abort:
            self.abort = True
            self.violation = violation
            self.error = error

    def _leave(self, tid):
        """This thread is finished: pass the baton on (or wake main)."""
        if self.abort:
            for t in range(self.n):
                if self.state[t] != DONE:
                    self.cur = t
                    self.baton[t].release()
                    return
            self.main_baton.release()
            return
        r = self._runnable()
        if r:
            self._force(tid, "end", r)
            return
        if any(s == BLOCKED for s in self.state):
            self._stop(violation=Violation("deadlock", "threads wait for locks that nobody will release"))
            self._leave(tid)
            return
        if all(s == DONE for s in self.state):
            self.main_baton.release()
            return
        # the rest sit at the barrier: release it
        self._open_barrier()
        self._force(tid, "end", self._runnable())

    def _force(self, tid, where, runnable):
        self.forced += 1
        nxt = self.chooser.pick(self, tid, where, runnable) if len(runnable) > 1 else runnable[0]
        if len(runnable) > 1:
            self.switches["%d:%s" % (tid, where)] = nxt
        self.cur = nxt
        self.baton[nxt].release()

    def _runnable(self):
        out = []
        for t in range(self.n):
            s = self.state[t]
            if s == RUN or (s == BLOCKED and self.wait_lock[t]._owner is None):
                out.append(t)
        return out

    def _park(self, tid):
        self.baton[tid].acquire()
        if self.abort:
            self._untrace(sys._getframe(1))
            raise _Abort()

    def _untrace(self, frame):
        """An exception out of a trace function ends tracing; CPython 3.12 then crashes on frames that still ask for
        opcode events, so withdraw that request first."""
        if self.opcodes:
            while frame is not None:
                if is_src(frame.f_code):
                    frame.f_trace_opcodes = False
                frame = frame.f_back

    # -- barriers ---------------------------------------------------------------------------------------------
    def _open_barrier(self):
        self.phase += 1
        for t in range(self.n):
            if self.state[t] == BARRIER:
                self.state[t] = RUN

    def _barrier(self, tid, ph):
        if ph == len(self.phases) - 1:
            return
        self.state[tid] = BARRIER
        r = self._runnable()
        if not r:
            if any(s == BLOCKED for s in self.state):
                raise Violation("deadlock", "threads wait for locks that nobody will release")
            self._open_barrier()
            r = self._runnable()
        where = "ph%d" % ph
        nxt = self.chooser.pick(self, tid, where, r) if len(r) > 1 else r[0]
        if len(r) > 1:
            self.switches["%d:%s" % (tid, where)] = nxt
        if nxt == tid:
            return
        self.cur = nxt
        self.baton[nxt].release()
        self._park(tid)

    # -- locks ------------------------------------------------------------------------------------------------
    def block_on(self, tid, lock):
        old = sys.gettrace()
        sys.settrace(None)
        k = 0
        try:
            while lock._owner is not None:
                self.state[tid] = BLOCKED
                self.wait_lock[tid] = lock
                r = [t for t in self._runnable() if t != tid]
                if not r:
                    self.state[tid] = RUN
                    raise Deadlock("thread %d waits for a lock held by %r and nobody can run" % (tid, lock._owner))
                k += 1
                where = "%s:L%d:%d" % (self.opid[tid], self.local[tid], k)
                nxt = self.chooser.pick(self, tid, where, r) if len(r) > 1 else r[0]
                if len(r) > 1:
                    self.switches["%d:%s" % (tid, where)] = nxt
                self.cur = nxt
                self.baton[nxt].release()
                self._park(tid)
                self.state[tid] = RUN
                self.wait_lock[tid] = None
        finally:
            self.state[tid] = RUN if self.state[tid] == BLOCKED else self.state[tid]
            sys.settrace(old)

    # -- tracing ----------------------------------------------------------------------------------------------
    def _global_trace(self, frame, event, arg):
        if is_src(frame.f_code):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._tracer_l
        return None

    def _local_trace(self, frame, event, arg):
        if event == "line":
            self._step(frame)
        return self._tracer_l

    def _local_trace_op(self, frame, event, arg):
        if event == "opcode":
            self._step(frame)
        return self._tracer_l

    def _step(self, frame):
        tid = self.cur
        ls = self.local[tid] + 1
        self.local[tid] = ls
        self.gstep += 1
        f = self.fault[tid]
        if f is not None and f["at"] == ls:
            self.fault[tid] = None
            f["fired"] = True
            self.fired.append((f["kind"], "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)))
            self._untrace(frame)
            raise f["make"]()
        if ls > self.max_op_steps:
            self._untrace(frame)
            raise StepLimit("operation exceeded %d steps at %s:%d" % (
                self.max_op_steps, frame.f_code.co_filename, frame.f_lineno))
        if self.n > 1:
            self._maybe_switch(tid, frame)

    def _maybe_switch(self, tid, frame):
        r = self._runnable()
        if len(r) < 2:
            return
        ls = self.local[tid]
        nxt = self.chooser.decide(self, tid, self.opid[tid], ls, frame.f_code if frame is not None else None, r)
        if nxt is None or nxt == tid:
            return
        self.switches["%d:%s:%d" % (tid, self.opid[tid], ls)] = nxt
        if frame is not None:
            self.n_preempt += 1
            loc = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
            self.pairs.add((loc, nxt))
            self.trace_hash.update(("%d>%d@%s;" % (tid, nxt, loc)).encode())
        else:
            self.trace_hash.update(("%d>%d;" % (tid, nxt)).encode())
        self.cur = nxt
        self.baton[nxt].release()
        self._park(tid)

    # -- what worlds use --------------------------------------------------------------------------------------
    def call(self, fn, fault=None):
        """Run fn() with library lines as scheduling points.  fault: dict(kind, at, make) on line steps."""
        tid = self.cur
        self.fault[tid] = fault
        sys.settrace(self._global_trace)
        try:
            return fn()
        finally:
            sys.settrace(None)
            self.fault[self.current_tid()] = None

    def quiet(self, fn):
        return fn()
