"""A controlled scheduler for the threads of modbus_tk.

The modules of modbus_tk are imported (vp.boot, mode "sched") with the `threading` and `time` of this file. While a
`Run` is active its threads are real threads of which only one executes at a time. Control may pass to another one at
every line (or every bytecode instruction) of modbus_tk, and at every operation on a lock, an event, a condition, a
semaphore, a sleep or a join. Which thread comes next is drawn from a seeded generator, so that a schedule can be
replayed. Time is virtual. When no thread can go on, there is a deadlock and Run.execute says so.

Threads which are not managed by a Run use the same objects as they would use those of the threading module.
"""
import _thread
import gc
import sys
import threading as _t
import time as _time
import types

from vp import boot

_local = _t.local()
_current = None      # the active Run


class SchedAbort(BaseException):
    """raised in the managed threads in order to end them"""


class Deadlock(Exception):
    """no thread can make progress"""


class StepLimit(Exception):
    """the run is too long"""


class _Task(object):
    def __init__(self, run, name, fct):
        self.run, self.name, self.fct = run, name, fct
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.blocked = None       # None when runnable, else a function telling if it may go on
        self.deadline = None      # virtual time at which a blocked task goes on anyway
        self.timed_out = False
        self.done = False
        self.error = None
        self.prio = 0
        self.ident = None
        self.daemon = False
        self.what = ""
        self.result = None
        self.root = False         # one of the functions given to execute, not a thread of the library


class Run(object):
    """one controlled execution"""

    def __init__(self, rng, switch=0.1, opcodes=False, policy="random", depth=3, max_steps=400000, horizon=3000):
        self.rng = rng
        self.switch = switch
        self.opcodes = opcodes
        self.policy = policy
        self.tasks = []
        self.now = 1000.0
        self.steps = 0
        self.switches = 0
        self.waits = 0            # times a thread has met a lock of another one
        self.max_steps = max_steps
        self.aborting = False
        self.deadlock = None
        self.failure = None
        self.over = _t.Event()
        self.sched_hash = 0
        self.points = sorted(rng.randrange(horizon) for _ in range(depth)) if policy == "pct" else []
        self.next_prio = -1
        self.stacks = None
        self.current = None
        self.all_done = False

    # -- the tasks

    def spawn(self, fct, name="task", daemon=False):
        task = _Task(self, name, fct)
        task.daemon = daemon
        task.prio = self.rng.random() + 1
        self.tasks.append(task)
        _thread.start_new_thread(self._main, (task,))
        return task

    def _main(self, task):
        task.ident = _thread.get_ident()
        _local.task = task
        task.gate.acquire()
        try:
            if not self.aborting:
                sys.settrace(self._trace)
                task.result = task.fct()
        except SchedAbort:
            pass
        except BaseException as exc:  # noqa
            task.error = exc
        finally:
            sys.settrace(None)
            task.done = True
            _local.task = None
            if task.error is not None and task.root:
                # the judge has spoken
                self._abort()
            self._leave(task)

    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(boot.PKG):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return self._trace_opcode
            return self._trace_line
        return None

    def _trace_line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self._trace_line

    def _trace_opcode(self, frame, event, arg):
        if event == "opcode":
            self.point()
        return self._trace_opcode

    # -- scheduling

    def _ready(self):
        out = []
        for task in self.tasks:
            if task.done:
                continue
            if task.blocked is None:
                out.append(task)
            elif task.blocked():
                out.append(task)
        return out

    def _pick(self, ready):
        if self.policy == "pct":
            return max(ready, key=lambda t: t.prio)
        return ready[self.rng.randrange(len(ready))] if len(ready) > 1 else ready[0]

    def point(self):
        """a place where another thread may be scheduled"""
        task = _local.task
        if self.aborting:
            raise SchedAbort()
        self.steps += 1
        if self.steps > self.max_steps:
            self.stacks = self._format_stacks()
            self.failure = StepLimit("more than %d steps" % self.max_steps)
            self._abort()
            raise SchedAbort()
        if self.policy == "pct":
            if not (self.points and self.steps >= self.points[0]):
                return
            self.points.pop(0)
            task.prio = self.next_prio
            self.next_prio -= 1
        elif self.rng.random() >= self.switch:
            return
        ready = self._ready()
        nxt = self._pick(ready)
        if nxt is not task:
            self._switch(task, nxt)

    def _switch(self, task, nxt):
        self.switches += 1
        self.sched_hash = hash((self.sched_hash, self.tasks.index(nxt), self.steps))
        if nxt.blocked is not None:
            nxt.blocked, nxt.deadline, nxt.timed_out = None, None, False
        self.current = nxt
        nxt.gate.release()
        if task is not None:
            task.gate.acquire()
            if self.aborting:
                raise SchedAbort()

    def _next(self, task):
        """choose who goes on when task can not. Returns None if task itself can go on again"""
        while True:
            ready = self._ready()
            if ready:
                return self._pick(ready)
            timed = [t for t in self.tasks if not t.done and t.deadline is not None]
            if not timed:
                return False
            first = min(timed, key=lambda t: t.deadline)
            self.now = max(self.now, first.deadline)
            first.blocked, first.deadline, first.timed_out = None, None, True

    def block(self, cond, timeout=None, what=""):
        """wait until cond() is true. Returns False if the (virtual) timeout has expired"""
        task = _local.task
        if self.aborting:
            raise SchedAbort()
        task.timed_out = False
        task.blocked = cond
        task.what = what
        task.deadline = None if timeout is None else self.now + max(0.0, timeout)
        nxt = self._next(task)
        if nxt is False:
            self._deadlock()
            raise SchedAbort()
        if nxt is not task:
            expired_before = task.timed_out
            self._switch(task, nxt)
            del expired_before
        timed_out, task.timed_out = task.timed_out, False
        task.blocked, task.deadline = None, None
        return not timed_out

    def _deadlock(self):
        self.deadlock = "; ".join("%s waits for %s" % (t.name, t.what) for t in self.tasks if not t.done)
        self.stacks = self._format_stacks()
        self._abort()

    def _format_stacks(self):
        import traceback
        frames = sys._current_frames()
        out = []
        for task in self.tasks:
            if not task.done and task.ident in frames:
                stack = [s for s in traceback.extract_stack(frames[task.ident])
                         if "/vp/sched.py" not in s.filename]
                out.append("%s: %s" % (task.name, " < ".join(
                    "%s:%d %s" % (s.filename.rsplit("/", 1)[-1], s.lineno, s.name) for s in reversed(stack[-7:]))))
        return out

    def _abort(self):
        self.aborting = True
        for task in self.tasks:
            if not task.done and task is not getattr(_local, "task", None):
                try:
                    task.gate.release()
                except RuntimeError:
                    pass
        self.over.set()

    def _leave(self, task):
        """the task ends: another one goes on"""
        if self.aborting:
            return
        alive = [t for t in self.tasks if not t.done]
        if not alive:
            self.all_done = True
            self.over.set()
            return
        if all(t.daemon for t in alive):
            self._abort()
            return
        nxt = self._next(task)
        if nxt is False:
            self._deadlock()
            return
        self._switch(None, nxt)

    def execute(self, fcts, wall=30):
        """run the functions as concurrent threads until they (and the threads they start) have ended"""
        global _current
        _current = self
        # the destructors of the library use locks: they must not run in the middle of a switch
        enabled = gc.isenabled()
        gc.disable()
        try:
            for k, item in enumerate(fcts):
                name, fct = item if isinstance(item, tuple) else ("t%d" % k, item)
                self.spawn(fct, name).root = True
            first = self._pick(self.tasks)
            self.current = first
            first.gate.release()
            if not self.over.wait(wall):
                self.failure = RuntimeError("the scheduled threads are stuck: %s" % self._format_stacks())
                self.stacks = self._format_stacks()
                self._abort()
                raise self.failure
            limit = _time.monotonic() + 10
            while not all(t.done for t in self.tasks) and _time.monotonic() < limit:
                _time.sleep(0.0005)
        finally:
            _current = None
            if enabled:
                gc.enable()
        if self.failure is not None:
            raise self.failure
        return self

    def errors(self):
        return [(t.name, t.error) for t in self.tasks if t.error is not None]


def managed():
    """the active Run if the calling thread is one of its threads"""
    task = getattr(_local, "task", None)
    return task.run if task is not None else None


def yield_point():
    run = managed()
    if run is not None:
        run.point()


# ---------------------------------------------------------------------------------- the threading module

class RLock(object):
    """works for managed threads and (as a spinning lock of the real world) for the others"""
    _reentrant = True

    def __init__(self):
        self._owner, self._count = None, 0
        self._real = _t.Condition()

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        run = managed()
        ident = _thread.get_ident()
        if run is not None:
            run.point()
            if self._owner == ident and self._reentrant:
                self._count += 1
                return True
            while self._owner is not None:
                if not blocking:
                    return False
                run.waits += 1
                if not run.block(self._free, None if timeout is None or timeout < 0 else timeout,
                                 "a lock owned by %s" % self._who(run)):
                    return False
            self._owner, self._count = ident, 1
            return True
        with self._real:
            if self._owner == ident and self._reentrant:
                self._count += 1
                return True
            end = None if timeout is None or timeout < 0 else _time.monotonic() + timeout
            while self._owner is not None:
                if not blocking or (end is not None and _time.monotonic() > end):
                    return False
                self._real.wait(0.01)
            self._owner, self._count = ident, 1
            return True

    def _who(self, run):
        for task in run.tasks:
            if task.ident == self._owner:
                return task.name
        return "?"

    def release(self):
        run = managed()
        if self._reentrant and self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        if run is not None:
            if not run.aborting:
                run.point()
        else:
            with self._real:
                self._real.notify_all()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._owner, self._count)
        self._count = 0
        self._owner = None
        if managed() is None:
            with self._real:
                self._real.notify_all()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._owner, self._count = state


class Lock(RLock):
    _reentrant = False

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner, self._count = None, 0
        run = managed()
        if run is not None:
            if not run.aborting:
                run.point()
        else:
            with self._real:
                self._real.notify_all()


class Condition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else RLock()
        self._waiters = []
        self.acquire, self.release = self._lock.acquire, self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *args):
        return self._lock.__exit__(*args)

    def wait(self, timeout=None):
        run = managed()
        cell = [False]
        self._waiters.append(cell)
        state = self._lock._release_save()
        try:
            if run is not None:
                run.block(lambda: cell[0], timeout, "a condition")
            else:
                end = None if timeout is None else _time.monotonic() + timeout
                while not cell[0] and (end is None or _time.monotonic() < end):
                    _time.sleep(0.0005)
        finally:
            if run is None or not run.aborting:
                self._lock._acquire_restore(state)
            if cell in self._waiters:
                self._waiters.remove(cell)
        return cell[0]

    def wait_for(self, predicate, timeout=None):
        run = managed()
        now = (lambda: run.now) if run is not None else _time.monotonic
        end = None if timeout is None else now() + timeout
        while not predicate():
            left = None if end is None else end - now()
            if left is not None and left <= 0:
                return predicate()
            self.wait(left)
        return True

    def notify(self, n=1):
        for cell in self._waiters[:n]:
            cell[0] = True
            self._waiters.remove(cell)

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event(object):
    def __init__(self):
        self._flag = False
        self._real = _t.Condition()

    def is_set(self):
        yield_point()
        return self._flag

    isSet = is_set

    def set(self):
        with self._real:
            self._flag = True
            self._real.notify_all()
        yield_point()

    def clear(self):
        self._flag = False
        yield_point()

    def wait(self, timeout=None):
        run = managed()
        if run is not None:
            run.point()
            if not self._flag:
                run.block(lambda: self._flag, timeout, "an event")
            return self._flag
        with self._real:
            self._real.wait_for(lambda: self._flag, timeout)
        return self._flag


class Semaphore(object):
    def __init__(self, value=1):
        self._value = value
        self._cond = Condition(Lock())

    def acquire(self, blocking=True, timeout=None):
        with self._cond:
            if self._value == 0 and not blocking:
                return False
            if not self._cond.wait_for(lambda: self._value > 0, timeout):
                return False
            self._value -= 1
            return True

    def release(self, n=1):
        with self._cond:
            self._value += n
            self._cond.notify(n)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


BoundedSemaphore = Semaphore


class Thread(object):
    _counter = [0]

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        Thread._counter[0] += 1
        self.name = name or "Thread-%d" % Thread._counter[0]
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = bool(daemon)
        self._started = False
        self._task = None
        self._thread = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._started:
            raise RuntimeError("threads can only be started once")
        self._started = True
        run = managed()
        if run is not None:
            self._task = run.spawn(self.run, self.name, self.daemon)
            run.point()
        else:
            self._thread = _t.Thread(target=self.run, name=self.name, daemon=True)
            self._thread.start()

    def is_alive(self):
        yield_point()
        if self._task is not None:
            return not self._task.done
        return self._thread is not None and self._thread.is_alive()

    isAlive = is_alive

    def join(self, timeout=None):
        if not self._started:
            raise RuntimeError("cannot join thread before it is started")
        if self._task is not None:
            run = managed()
            if run is not None:
                if getattr(_local, "task", None) is self._task:
                    raise RuntimeError("cannot join current thread")
                run.point()
                task = self._task
                if not task.done:
                    run.block(lambda: task.done, timeout, "the end of %s" % self.name)
            return
        if self._thread is _t.current_thread():
            raise RuntimeError("cannot join current thread")
        self._thread.join(timeout)

    @property
    def ident(self):
        return self._task.ident if self._task is not None else (self._thread.ident if self._thread else None)

    def setDaemon(self, daemon):
        self.daemon = daemon

    def getName(self):
        return self.name


_SHIM = None


def threading_shim():
    global _SHIM
    if _SHIM is None:
        mod = types.ModuleType("threading")
        mod.__dict__.update({k: v for k, v in _t.__dict__.items() if not k.startswith("__")})
        for cls in (Lock, RLock, Condition, Event, Semaphore, BoundedSemaphore, Thread):
            setattr(mod, cls.__name__, cls)
        mod.BoundedSemaphore = Semaphore
        _SHIM = mod
    return _SHIM


def sleep(delay):
    run = managed()
    if run is not None:
        run.block(lambda: False, delay, "a sleep")
    else:
        _time.sleep(delay)


def now():
    run = managed()
    return run.now if run is not None else _time.time()


def monotonic():
    run = managed()
    return run.now if run is not None else _time.monotonic()


_TSHIM = None


def time_shim():
    global _TSHIM
    if _TSHIM is None:
        mod = types.ModuleType("time")
        mod.__dict__.update({k: v for k, v in _time.__dict__.items() if not k.startswith("__")})
        mod.sleep, mod.time, mod.monotonic, mod.perf_counter = sleep, now, monotonic, monotonic
        _TSHIM = mod
    return _TSHIM


OPCODES = True       # may the instructions be traced? (CPython 3.12 may crash then, see core.run_jobs)

POLICIES = (
    dict(switch=0.03), dict(switch=0.1), dict(switch=0.3), dict(switch=0.6),
    dict(policy="pct", depth=2), dict(policy="pct", depth=4), dict(policy="pct", depth=8),
)


def make_run(rng, opcodes=None, horizon=600, max_steps=400000):
    """a Run with a policy drawn from rng"""
    kwargs = dict(rng.choice(POLICIES))
    if opcodes is None:
        opcodes = rng.random() < 0.4
    opcodes = opcodes and OPCODES
    if opcodes and "switch" in kwargs:
        kwargs["switch"] /= 3
    return Run(rng, opcodes=opcodes, horizon=horizon * (6 if opcodes else 1), max_steps=max_steps, **kwargs)
