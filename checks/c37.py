"""C37: masters used with threadsafe=False do not wait for each other"""
import struct
import threading

from vp import masters, net, sched, wire
from vp.core import Violation

LEVEL = "exploration"
RULE = ("a case is a set of 2 to 6 masters (TCP, RTU, RTU over TCP), one thread each, which call execute with threadsafe=False "
        "(one of them may lock): the slave of each one but the last holds one of its answers until the following threads have "
        "ended, and answers rightly, with an exception or with a corrupted frame otherwise; gateways which forward requests, in "
        "a hook of a server, with another master of the same process; RTU masters under a controlled scheduler; distinct by "
        "(masters, calls, schedule)")
ASSUMPTIONS = ["a master is used by one thread at a time"]
FCTS = (1, 2, 3, 4, 5, 6, 15, 16, 22, 23)
FATES = ("good",) * 6 + ("exception", "exception", "corrupted", "foreign")
LIMIT = 40.0


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="held", n=400 * k, budget=20 * k, min=10, stall=150, name="held-%d" % p) for p in range(3)] +
            [dict(kind="gateway", n=300 * k, budget=20 * k, min=5, stall=150, name="gateway-%d" % p) for p in range(2)] +
            [dict(kind="sched", n=3000 * k, budget=20 * k, min=100, mode="sched", name="sched-%d" % p) for p in range(3)])


def need(tier):
    return {"exchanges": 2000, "held exchanges": 60, "failed exchanges": 400, "forwarded": 60, "scheduled exchanges": 1500,
            "switches": 5000}


def case(ctx, rng, i):
    {"held": held, "gateway": gateway, "sched": scheduled}[ctx.kind](ctx, rng)


class Work(object):
    """a master, its slave and its calls"""

    def __init__(self, ctx, rng, link, count, held=None):
        self.link, self.rng = link, rng
        self.calls = []
        self.held = held            # the index of the call whose answer waits, or None
        self.release = threading.Event()
        self.waits = threading.Event()
        self.safe = False
        self.current = None
        self.error = None
        self.counts = []
        for _ in range(count):
            self.calls.append((masters.random_call(rng, FCTS, small=True), rng.choice(FATES), rng.choice((1, 2, 3, 4, 6))))
        link.reply = self.reply

    def reply(self, link, tid, slave, pdu):
        k, (call, fate, code) = self.current
        if slave != call.slave or bytes(pdu) != bytes(call.pdu):
            link.problem = "%r sends the slave %d and the pdu %s" % (call, slave, bytes(pdu).hex())
        if k == self.held:
            self.waits.set()
            self.release.wait(3 * LIMIT)
        if fate == "good":
            return [link.frame(tid, call.slave, call.answer)]
        if fate == "exception":
            return [link.frame(tid, call.slave, bytes([call.pdu[0] | 0x80, code]))]
        if fate == "foreign":
            return [link.frame(tid, call.slave ^ 1, call.answer)]
        if link.name == "tcp":
            return [link.frame(tid ^ 1, call.slave, call.answer)]
        frame = link.frame(tid, call.slave, call.answer)
        return [frame[:-1] + bytes([frame[-1] ^ 4])]

    def run(self):
        for k, (call, fate, code) in enumerate(self.calls):
            self.current = (k, (call, fate, code))
            # (the frame of an exception is shorter than the expected one: a RTU master waits for its timeout)
            self.one(call, fate, code)
            self.counts.append(fate)

    def one(self, call, fate, code):
        error = result = None
        try:
            result = call.run(self.link.master) if self.safe else call.run(self.link.master, threadsafe=False)
        except Exception as exc:  # noqa
            error = exc
        what = "%s: %r (%s)" % (self.link.name, call, fate)
        if self.link.problem:
            raise Violation("%s: %s" % (what, self.link.problem))
        if fate == "good":
            if error is not None:
                raise Violation("%s raises %s: %s" % (what, type(error).__name__, error))
            if result != call.result:
                raise Violation("%s returns %r instead of %r" % (what, result, call.result))
        elif fate == "exception":
            if type(error).__name__ != "ModbusError" or error.get_exception_code() != code:
                raise Violation("%s must raise the exception %d: %r" % (what, code, error or result))
        elif error is None:
            raise Violation("%s returns %r" % (what, result))
        elif type(error).__name__ == "ModbusError":
            raise Violation("%s raises the exception of another exchange: %s" % (what, error))


def held(ctx, rng):
    lib = ctx.lib
    links, works, threads = [], [], []
    count = rng.randint(2, 6)
    try:
        for k in range(count):
            kind = rng.choice(sorted(masters.LINKS))
            link = masters.LINKS[kind](lib) if kind == "rtu" else masters.LINKS[kind](lib, LIMIT * 4)
            links.append(link)
            if kind == "rtu":
                link.master.set_timeout(5.0)
            todo = rng.randint(2, 6)
            works.append(Work(ctx, rng, link, todo, held=rng.randrange(todo) if k < count - 1 else None))
        safe = rng.choice(works) if rng.random() < 0.5 else None
        if safe is not None:
            safe.safe = True
        order = list(works)

        def target(work):
            try:
                work.run()
            except BaseException as exc:  # noqa
                work.error = exc
        names = [w.link.name for w in works]
        witness = dict(masters=names, locking=safe and works.index(safe), held=[w.held for w in works])
        for work in order:
            thread = threading.Thread(target=target, args=(work,), daemon=True)
            threads.append(thread)
            thread.start()
            if work.held is not None and not work.waits.wait(LIMIT):
                if work.error is not None:
                    raise work.error
                raise Violation("the master %d (%s) makes no progress while %d other ones wait for their slaves" % (
                    works.index(work), work.link.name, works.index(work)), timing=True, **witness)
        # all of them but the last wait for their slaves: they end one after the other, from the last
        for k in reversed(range(count)):
            works[k].release.set()
            threads[k].join(LIMIT)
            if threads[k].is_alive():
                raise Violation("the master %d (%s) does not end while the %d first ones wait for their slaves" % (
                    k, works[k].link.name, k), timing=True, **witness)
        for work in works:
            if work.error is not None:
                raise work.error
            if len(work.counts) != len(work.calls):
                raise Violation("%d exchanges of %d" % (len(work.counts), len(work.calls)), **witness)
            ctx.count("exchanges", len(work.calls))
            ctx.count("held exchanges", work.held is not None)
            ctx.count("failed exchanges", sum(1 for f in work.counts if f != "good"))
        # everybody can lock, afterwards
        work = works[0]
        work.held, work.safe = None, True
        work.calls = work.calls[:1]
        thread = threading.Thread(target=target, args=(work,), daemon=True)
        thread.start()
        thread.join(LIMIT)
        if thread.is_alive():
            raise Violation("afterwards an exchange with the default arguments does not end", timing=True, **witness)
        if work.error is not None:
            raise work.error
        ctx.key(tuple(names), tuple(tuple((c.fct, f) for c, f, _ in w.calls) for w in works))
        ctx.sample(dict(witness))
    finally:
        for work in works:
            work.release.set()
        for thread in threads:
            thread.join(10)
        for link in links:
            link.close()


def gateway(ctx, rng):
    """a server which asks another slave, with a master, for what it answers"""
    lib = ctx.lib
    server, port = net.tcp_server(lib)
    slave = server.add_slave(1)
    size = rng.randint(1, 20)
    slave.add_block("h", 3, 0, size)
    kind = rng.choice(sorted(masters.LINKS))
    link = masters.LINKS[kind](lib) if kind == "rtu" else masters.LINKS[kind](lib, 30.0)
    values, asked = [], []

    def reply(link, tid, sid, pdu):
        fct, start, qty = struct.unpack(">BHH", bytes(pdu))
        asked.append((sid, fct, start, qty))
        if values:
            data = wire.regs(values[start:start + qty])
            return [link.frame(tid, sid, bytes([fct, len(data)]) + data)]
        return [link.frame(tid, sid, bytes([fct | 0x80, 4]))]
    link.reply = reply
    refusals = []

    def forward(args):
        try:
            slave.set_values("h", 0, link.master.execute(9, 3, 0, size, threadsafe=False))
        except lib.modbus.ModbusError as exc:
            refusals.append(exc.get_exception_code())
    where = rng.choice(("modbus.Server.before_handle_request", "modbus_tcp.TcpServer.after_recv", "modbus.Slave.handle_request"))
    master = lib.modbus_tcp.TcpMaster("127.0.0.1", port, LIMIT / 2)
    lib.hooks.install_hook(where, forward)
    try:
        for _ in range(rng.randint(2, 6)):
            new = [rng.randrange(65536) for _ in range(size)]
            last = list(slave.get_values("h", 0, size))
            fails = rng.random() < 0.2
            values[:] = [] if fails else new
            del refusals[:]
            before = len(asked)
            try:
                got = master.execute(1, 3, 0, size)
            except Exception as exc:  # noqa
                raise Violation("a request to a server which forwards it with another master (%s, in %s) raises %s: %s" % (
                    kind, where, type(exc).__name__, exc), timing=True)
            if got != tuple(last if fails else new):
                raise Violation("the gateway (%s, in %s) gives %r instead of %r" % (kind, where, got, last if fails else new))
            if asked[before:] != [(9, 3, 0, size)] or refusals != ([4] if fails else []):
                raise Violation("the gateway (%s, in %s) asks %r, gets the refusals %r" % (kind, where, asked[before:], refusals))
            ctx.count("forwarded")
            ctx.key("gateway", kind, where, size, fails)
        ctx.sample(dict(gateway=kind, hook=where, size=size))
    finally:
        lib.hooks.uninstall_hook(where, forward)
        master.close()
        net.stop_server(server)
        link.close()


def scheduled(ctx, rng):
    """RTU masters, one thread each"""
    works, threads, ends = [], [], {}
    shim = sched.time_shim()
    slow = rng.choice((0, 0, 1, 8, 45))
    for k in range(rng.randint(2, 4)):
        link = masters.RtuLink(ctx.lib, threading=sched.threading_shim())
        link.master.set_timeout(5.0)
        work = Work(ctx, rng, link, rng.randint(1, 3))
        if slow and k % 2:
            def late(link, tid, slave, pdu, reply=work.reply):
                sched.sleep(slow)
                return reply(link, tid, slave, pdu)
            link.reply = late
        works.append(work)

        def main(k=k, work=work):
            began = shim.monotonic()
            work.run()
            ends[k] = shim.monotonic() - began
        threads.append(("t%d" % k, main))
    if rng.random() < 0.4:
        rng.choice(works).safe = True
    run = sched.make_run(rng, horizon=900)
    run.execute(threads)
    if run.deadlock:
        raise Violation("deadlock: " + run.deadlock, stacks=run.stacks)
    for _, error in run.errors():
        raise error
    for k, work in enumerate(works):
        if slow and not k % 2 and not work.safe and ends[k] >= slow:
            raise Violation("the exchanges of a master which does not lock end %.1f s later, other ones last %d s each" % (
                ends[k], slow))
    for work in works:
        ctx.count("scheduled exchanges", len(work.calls))
        ctx.count("failed exchanges", sum(1 for f in work.counts if f != "good"))
    ctx.count("switches", run.switches)
    ctx.key(run.sched_hash, tuple(tuple((c.fct, f) for c, f, _ in w.calls) for w in works))
    ctx.state("schedules", run.sched_hash)
