"""C23: a worker thread runs init, then its loop until stop, then exit, once each"""
import sys
import threading
import time

from vp import sched
from vp.core import Violation

LEVEL = "exploration"
RULE = ("a case starts 1 to 3 workers whose functions return anything, last, or fail at a chosen call, and stops each of "
        "them from one or several threads at a chosen moment (before it is started, at once, in the middle, after it has "
        "failed): an automaton reads the calls (thread, arguments, nesting), the returns of stop and the life of the "
        "thread; under a controlled scheduler with virtual time, and on free threads; distinct by (schedule, scenario)")
ASSUMPTIONS = ["main calls made before stop() returns are judged only once stop() waits for the thread (or for 1 s)",
               "the threads are switched between lines, not instructions (CPython 3.12 crashes when those of WorkerThread._run are traced)",
               "a worker is started once, and is not stopped from its own functions"]


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="sched", n=9000 * k, budget=22 * k, min=100, mode="sched", opcodes=False, name="sched-%d" % p) for p in range(5)] +
            [dict(kind="free", n=700 * k, budget=22 * k, min=20, name="free-%d" % p) for p in range(2)] +
            [dict(kind="prompt", n=300 * k, budget=22 * k, min=20)])


def need(tier):
    return {"workers": 1500, "calls": 5000, "failed init": 60, "failed main": 200, "failed exit": 60, "stopped in main": 200,
            "stopped at once": 100, "stopped before": 100, "stops by several": 200, "stopped after its end": 100,
            "long calls": 100, "free workers": 100,
            "stopped during init": 20, "stopped during main": 20}


class Failure(Exception):
    pass


class Fatal(BaseException):
    pass


ERRORS = (Failure, ValueError, KeyError, OSError, UnicodeError, StopIteration, GeneratorExit, SystemExit, KeyboardInterrupt, Fatal)


class Monitor(object):
    """the automaton of one worker"""

    def __init__(self, ctx, rng, k, free):
        self.ctx, self.k, self.free = ctx, k, free
        self.args = tuple(rng.choice([(), (1,), ([], "x"), (None, (), {})]))
        self.has_init = rng.random() < 0.8
        self.has_exit = rng.random() < 0.85
        self.fail = rng.choice([None, None, "init", "main", "main", "exit"])
        self.fail_at = rng.choice([1, 1, 2, 3, 6])
        self.error = rng.choice(ERRORS)
        self.long = rng.choice([0, 0, 0, 0.5, 3, 40, 2000]) if not free else rng.choice([0, 0, 0.002, 0.02])
        self.long_in = rng.choice(["init", "main", "exit"])
        self.result = rng.choice([None, 0, False, True, "", 1, object()])
        self.log = []
        self.n = {"init": 0, "main": 0, "exit": 0}
        self.inside = None
        self.failed = None
        self.thread = None
        self.task = None
        self.started = False        # start() has returned
        self.stop_called = False
        self.stop_returned = False
        self.bad = None

    def say(self, message):
        if self.bad is None:
            self.bad = message
            self.log.append("!!! " + message)

    def called(self, what, args):
        self.log.append(what)
        self.ctx.count("calls")
        me = threading.get_ident()
        if self.stop_returned:
            self.say("%s is called after stop() has returned" % what)
        if self.inside:
            self.say("%s is called during %s" % (what, self.inside))
        if self.thread is None:
            self.thread = me
            self.task = getattr(sched._local, "task", None) or threading.current_thread()
            if me == self.caller:
                self.say("%s is called in the thread which has called start()" % what)
        elif self.thread != me:
            self.say("%s is called in another thread than the calls before" % what)
        if len(args) != len(self.args) or any(a is not b for a, b in zip(args, self.args)):
            self.say("%s is called with %r instead of %r" % (what, args, self.args))
        self.n[what] += 1
        if self.n["exit"] and what != "exit":
            self.say("%s is called after exit" % what)
        if what != "main" and self.n[what] > 1:
            self.say("%s is called twice" % what)
        if what == "init" and self.n["main"]:
            self.say("init is called after main")
        if what == "main" and self.has_init and not self.n["init"]:
            self.say("main is called before init")
        if what == "main" and self.failed:
            self.say("main is called although %s has failed" % self.failed)
        if what == "exit" and not self.failed and not self.stop_called:
            self.say("exit is called although nothing has failed and stop() was not called")
        if what == "exit" and self.has_init and not self.n["init"]:
            self.say("exit is called and init was not")
        self.inside = what

    def make(self, what):
        def fct(*args):
            self.called(what, args)
            try:
                if self.long and self.long_in == what and self.n[what] <= 2:
                    self.ctx.count("long calls")
                    sched.sleep(self.long)
                elif what == "main":
                    if self.n["main"] % 4 == 0 or self.free:
                        sched.sleep(0.01 if not self.free else 0.0005)
                    else:
                        sched.yield_point()
                else:
                    sched.yield_point()
                if self.fail == what and self.n[what] >= (self.fail_at if what == "main" else 1):
                    self.failed = what
                    self.log.append("%s fails" % what)
                    self.ctx.count("failed " + what)
                    raise self.error("as asked")
                return self.result
            finally:
                self.inside = None
        return fct

    def worker(self, lib, rng):
        kwargs = {}
        init = self.make("init") if self.has_init else None
        ext = self.make("exit") if self.has_exit else None
        if rng.random() < 0.3:
            return lib.utils.WorkerThread(self.make("main"), self.args, init, ext)
        if self.args or rng.random() < 0.5:
            kwargs["args"] = self.args
        if init or rng.random() < 0.5:
            kwargs["init_fct"] = init
        if ext or rng.random() < 0.5:
            kwargs["exit_fct"] = ext
        return lib.utils.WorkerThread(self.make("main"), **kwargs)

    def alive(self):
        if self.task is None:
            return False
        if isinstance(self.task, threading.Thread):
            return self.task.is_alive()
        return not self.task.done

    def stopped(self, started):
        """a call of stop() made after start() had returned is over"""
        self.log.append("stop has returned")
        if not started:
            return
        self.stop_returned = True
        if self.inside:
            self.say("stop() returns during %s" % self.inside)
        self.judge()

    def judge(self):
        if self.alive():
            self.say("the thread is alive after stop()")
        if self.has_init and self.n["init"] != 1:
            self.say("init was called %d times" % self.n["init"])
        if self.has_exit and self.n["exit"] != 1:
            self.say("exit was called %d times" % self.n["exit"])

    def witness(self):
        return dict(log=self.log[-80:], fail=self.fail, at=self.fail_at, error=self.error.__name__, long=[self.long_in, self.long],
                    init=self.has_init, exit=self.has_exit)


def scenario(ctx, rng, monitor, worker, sleep):
    """the threads which use a worker"""
    when = rng.choice(["before", "at once", "main", "main", "later", "after"])
    stoppers = rng.choice([1, 1, 2, 3])
    calls = rng.choice([1, 1, 2])
    delays = [rng.choice([0, 0, 0.001, 0.01]) for _ in range(stoppers)]
    wanted = rng.randint(1, 5)
    unordered = rng.random() < 0.2      # a thread calls stop() whether start() was called or not

    def wait(cond):
        pause = 0.0005
        for _ in range(20000):
            if cond() or monitor.bad:
                return True
            sleep(pause)
            if not monitor.free:
                pause = min(pause * 1.5, 5)
        return False

    def main():
        monitor.caller = threading.get_ident()
        if when == "before":
            worker.stop()
            monitor.log.append("stop before start")
            ctx.count("stopped before")
        monitor.log.append("start")
        worker.start()
        monitor.started = True

    def stopper(k):
        def fct():
            if not unordered or k == 0:
                wait(lambda: monitor.started)
            if when in ("main", "before") and not unordered:
                # the loop must go on as long as nothing fails and nobody calls stop
                ok = wait(lambda: monitor.n["main"] >= wanted or monitor.failed or monitor.stop_called)
                if not ok:
                    monitor.say("main was called %d times in a very long time" % monitor.n["main"])
                if k == 0 and not monitor.failed:
                    ctx.count("stopped in main")
            elif when == "after" and monitor.fail in ("init", "main"):
                wait(lambda: (monitor.failed and not monitor.alive()) or monitor.stop_called)
                if monitor.failed and not monitor.alive() and k == 0:
                    ctx.count("stopped after its end")
            elif when == "at once" and k == 0:
                ctx.count("stopped at once")
            if delays[k]:
                sleep(delays[k])
            for _ in range(calls):
                started = monitor.started
                monitor.stop_called = True
                monitor.log.append("stop")
                worker.stop()
                monitor.stopped(started)
        return fct
    if stoppers > 1:
        ctx.count("stops by several")
    ctx.count("workers")
    return [main] + [stopper(k) for k in range(stoppers)], (when, stoppers, calls, unordered, wanted)


def case(ctx, rng, i):
    if ctx.kind == "prompt":
        return prompt(ctx, rng)
    free = ctx.kind == "free"
    count = rng.choice([1, 1, 1, 2, 3])
    monitors = [Monitor(ctx, rng, k, free) for k in range(count)]
    threads, keys = [], []
    for mon in monitors:
        worker = mon.worker(ctx.lib, rng)
        fcts, key = scenario(ctx, rng, mon, worker, time.sleep if free else sched.sleep)
        threads.extend(("w%d-%d" % (mon.k, k), fct) for k, fct in enumerate(fcts))
        keys.append(key + (mon.fail, mon.fail_at, mon.long, mon.long_in, mon.has_init, mon.has_exit))
    if free:
        run_free(ctx, monitors, threads)
    else:
        run = sched.make_run(rng, horizon=300)
        try:
            run.execute(threads)
        except sched.StepLimit:
            ctx.count("too long")
            return
        if run.deadlock:
            raise Violation("the threads wait for ever: " + run.deadlock, stacks=run.stacks,
                            workers=[m.witness() for m in monitors])
        for name, error in run.errors():
            # what the functions raise may come out of the thread of the worker, not out of start() or stop()
            if name.startswith("w"):
                raise Violation("start() or stop() raises %r" % (error,), workers=[m.witness() for m in monitors])
        ctx.count("switches", run.switches)
        ctx.key(run.sched_hash, *keys)
        ctx.state("schedules", run.sched_hash)
    for mon in monitors:
        if not mon.bad:
            mon.judge()
        if mon.bad:
            raise Violation("worker: " + mon.bad, workers=[m.witness() for m in monitors])
        ctx.state("traces", tuple(mon.log))
    ctx.sample(dict(log=monitors[0].log[:40]))


def run_free(ctx, monitors, threads):
    errors = []

    def wrap(fct):
        def main():
            try:
                fct()
            except BaseException as exc:  # noqa
                errors.append(exc)
        return main
    hook, interval = threading.excepthook, sys.getswitchinterval()
    threading.excepthook = lambda args: None
    sys.setswitchinterval(2e-6)
    try:
        users = [threading.Thread(target=wrap(fct), daemon=True) for _, fct in threads]
        for one in users:
            one.start()
        for one in users:
            one.join(40)
            if one.is_alive():
                raise Violation("a call of start() or stop() doesn't return", timing=True,
                                workers=[m.witness() for m in monitors])
    finally:
        sys.setswitchinterval(interval)
        threading.excepthook = hook
    if errors:
        raise Violation("start() or stop() raises %r" % (errors[0],), workers=[m.witness() for m in monitors])
    ctx.count("free workers", len(monitors))
    ctx.key("free", tuple(tuple(m.log) for m in monitors))


def prompt(ctx, rng):
    """stop() is called during a function: once it waits for the thread, nothing but exit is called"""
    where = rng.choice(("init", "main", "main"))
    at = 1 if where == "init" else rng.choice((1, 1, 2, 5))
    log, stopping = [], []
    n = {"main": 0}
    inside = threading.Event()
    timed = []
    result = rng.choice((None, True, 0))

    def hold():
        inside.set()
        start = None
        end = time.monotonic() + 30
        while time.monotonic() < end:
            if stopping:
                start = start or time.monotonic()
                frame = sys._current_frames().get(stopping[0])
                if frame is not None and frame.f_code.co_filename == threading.__file__ and frame.f_code.co_name != "_bootstrap_inner":
                    stack = []
                    while frame is not None:
                        stack.append(frame.f_code)
                        frame = frame.f_back
                    if any(code.co_name == "join" for code in stack):
                        break
                if time.monotonic() > start + 1:
                    timed.append(True)
                    break
            time.sleep(0.0005)
        log.append("released")

    def init(*args):
        log.append("init")
        if where == "init":
            hold()

    def main(*args):
        log.append("main")
        n["main"] += 1
        if where == "main" and n["main"] == at:
            hold()
        return result

    def ext(*args):
        log.append("exit")
    worker = ctx.lib.utils.WorkerThread(main, init_fct=init, exit_fct=ext)

    def stopper():
        inside.wait(30)
        stopping.append(threading.get_ident())
        worker.stop()
        log.append("stopped")
    thread = threading.Thread(target=stopper, daemon=True)
    thread.start()
    worker.start()
    thread.join(60)
    if thread.is_alive():
        raise Violation("stop() does not return", timing=True, log=log)
    want = ["init"] + ["main"] * (at if where == "main" else 0) + ["released", "exit", "stopped"]
    if log != want:
        raise Violation("stop() waits for the thread during %s, and the calls are %s instead of %s" % (where, log, want),
                        timing=bool(timed), waited=timed)
    ctx.count("stopped during " + where)
    ctx.key("prompt", where, at, result)
