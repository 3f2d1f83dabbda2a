"""C21: observing the traffic does not change it"""
import io
import logging
import random
import socket
import struct
import sys
import threading

from vp import masters, model, wire
from vp.core import Violation
from vp.fakeserial import FakeSerial, GAP, SerialException
from vp.net import RawClient, tcp_server, stop_server
from vp.world import random_layout, random_values, valid_read, valid_write, random_word

LEVEL = "exploration"
RULE = ("a case is a session (requests to a RTU or TCP server, to a databank, or calls of a master with a scripted slave: "
        "valid, refused, corrupted, broadcast, to missing slaves, failing in a hook, with texts which are not ASCII or very "
        "long) executed twice on identical slaves: once without observation, once with a random combination of verbose "
        "mode, provided loggers, levels and hooks which only look; the bytes, results, errors and memories of both runs "
        "must be equal; distinct by (session, observation)")
ASSUMPTIONS = ["the transaction ids, which are unique, are not compared",
               "a logger may lose a record which it can not write"]


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="rtu", n=400 * k, budget=25 * k, min=10)] +
            [dict(kind="tcp", n=60 * k, budget=25 * k, min=3, name="tcp-%d" % p) for p in range(2)] +
            [dict(kind="db", n=2500 * k, budget=20 * k, min=30)] +
            [dict(kind="master rtu", n=800 * k, budget=20 * k, min=10)] +
            [dict(kind="master tcp", n=400 * k, budget=20 * k, min=5)] +
            [dict(kind="master rtu over tcp", n=400 * k, budget=20 * k, min=5)])


def need(tier):
    return {"steps": 8000, "records": 8000, "looks": 8000, "verbose": 200, "failing hooks": 200, "handlers": 200,
            "broadcasts": 300}


TEXTS = ("failing", "échec à l'esclave", "100% %s %d", "\U0001f4a9", "x" * 70000, "", "\0", "\udc80", "a\nb")


class Observation(object):
    """what looks at the traffic"""

    def __init__(self, ctx, rng, hook_names):
        lib = ctx.lib
        self.ctx, self.lib = ctx, lib
        self.verbose = rng.random() < 0.8
        self.level = rng.choice((logging.DEBUG, logging.DEBUG, logging.DEBUG, logging.INFO, logging.WARNING,
                                 logging.ERROR, 1))
        self.handlers = [rng.choice(("console", "udp", "dummy")) for _ in range(rng.randint(0, 2))]
        self.format = rng.choice((None, None, "%(message)s", "%(asctime)s %(process)d %(pathname)s %(lineno)d %(message)s"))
        self.stdout = rng.choice(("text", "text", "ascii", "closed"))
        self.hooks = [n for n in hook_names if rng.random() < 0.7] if rng.random() < 0.7 else []
        self.looks = [0]
        self.count = [0]

    def __repr__(self):
        return "verbose=%s level=%s handlers=%s stdout=%s hooks=%d" % (self.verbose, self.level, self.handlers, self.stdout,
                                                                       len(self.hooks))

    def look(self, args):
        # reads everything, keeps nothing
        for arg in args:
            if isinstance(arg, (bytes, bytearray)):
                sum(arg)
            elif not isinstance(arg, socket.socket):
                str(arg)
        self.looks[0] += 1

    def __enter__(self):
        lib = self.lib
        log = lib.logger
        self.saved = (sys.stdout, sys.stderr, list(log.handlers), log.level, log.propagate)
        if self.stdout == "ascii":
            sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding="ascii")
        elif self.stdout == "closed":
            sys.stdout = io.StringIO()
            sys.stdout.close()
        else:
            sys.stdout = io.StringIO()
        sys.stderr = io.StringIO()
        counter = Counter(self.count)
        log.addHandler(counter)
        for name in self.handlers:
            lib.utils.create_logger(name=name, level=self.level, record_format=self.format)
        log.setLevel(self.level)
        for name in self.hooks:
            lib.hooks.install_hook(name, self.look)
        return self

    def __exit__(self, *exc):
        lib = self.lib
        log = lib.logger
        for name in self.hooks:
            lib.hooks.uninstall_hook(name, self.look)
        for handler in list(log.handlers):
            if handler not in self.saved[2]:
                log.removeHandler(handler)
                handler.close()
                sock = getattr(handler, "_sock", None)
                if sock is not None:
                    sock.close()
        sys.stdout, sys.stderr = self.saved[:2]
        log.setLevel(self.saved[3])
        self.ctx.count("looks", self.looks[0])
        self.ctx.count("records", self.count[0])
        self.ctx.count("verbose", int(self.verbose))
        self.ctx.count("handlers", len(self.handlers))


class Counter(logging.Handler):
    def __init__(self, count):
        logging.Handler.__init__(self)
        self.seen = count

    def emit(self, record):
        self.seen[0] += 1


class Nothing(object):
    verbose = None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def __repr__(self):
        return "nothing"


def hook_names(lib):
    from checks import c20
    return c20.MASTER + c20.SERVER + c20.RTU + c20.TCP + c20.OVER


# ------------------------------------------------------------------------------------------------ the slaves

class Setup(object):
    """a description of slaves, and what is asked to them"""

    def __init__(self, rng, steps):
        self.slaves = []
        ids = rng.sample(range(1, 256), rng.randint(1, 3))
        models = {}
        for sid in ids:
            unsigned = rng.random() < 0.6
            layout = random_layout(rng, 5, big=rng.random() < 0.3)
            mod = model.SlaveModel(unsigned)
            for blk in layout:
                mod.add(*blk)
            models[sid] = mod
            self.slaves.append((sid, unsigned, layout,
                                {b[0]: random_values(rng, b[1], b[3], unsigned) for b in layout}))
        self.error_on_missing = rng.random() < 0.5
        self.steps = []
        for _ in range(steps):
            sid = rng.choice(ids)
            mod = models[sid]
            what = rng.random()
            if what < 0.3:
                pdu = valid_read(rng, mod)
            elif what < 0.7:
                pdu = valid_write(rng, mod)
            elif what < 0.85:
                pdu = bytearray(valid_write(rng, mod) if rng.random() < 0.5 else valid_read(rng, mod))
                for _ in range(rng.randint(1, 3)):
                    pdu[rng.randrange(len(pdu))] = rng.choice((0, 255, rng.randrange(256)))
                pdu = bytes(pdu)
                if rng.random() < 0.4:
                    pdu = pdu[:rng.randint(1, len(pdu))]
            else:
                pdu = bytes(rng.randrange(256) for _ in range(rng.randint(1, 20)))
            target = rng.choice((sid, sid, sid, sid, 0, rng.randrange(256)))
            failing = None
            if rng.random() < 0.15:
                kind = rng.choice(("ModbusError", "RuntimeError", "ValueError", "OSError", "UnicodeError"))
                failing = (kind, rng.randint(1, 11) if kind == "ModbusError" else rng.choice(TEXTS))
            self.steps.append((target, pdu, failing))

    def build(self, lib, server):
        out = {}
        db = server.get_db() if hasattr(server, "get_db") else server
        db.error_on_missing_slave = self.error_on_missing
        for sid, unsigned, layout, values in self.slaves:
            out[sid] = db.add_slave(sid, unsigned)
            for blk in layout:
                out[sid].add_block(*blk)
                out[sid].set_values(blk[0], blk[2], values[blk[0]])
        return out

    def image(self, slaves):
        return [(sid, b[0], list(slaves[sid].get_values(b[0], b[2], b[3])))
                for sid, _, layout, _ in self.slaves for b in layout]


class Events(object):
    """counts the events, in both runs"""

    def __init__(self, lib):
        self.lib, self.seen = lib, {}
        self.fcts = []
        for name in hook_names(lib):
            fct = self.make(name)
            lib.hooks.install_hook(name, fct)
            self.fcts.append((name, fct))

    def make(self, name):
        def fct(args):
            self.seen[name] = self.seen.get(name, 0) + 1
        return fct

    def take(self):
        seen, self.seen = self.seen, {}
        return sorted(seen.items())

    def close(self):
        for name, fct in self.fcts:
            self.lib.hooks.uninstall_hook(name, fct)


class Fail(object):
    """the hook of the application, present in both runs, which fails when it is told to"""

    def __init__(self, lib):
        self.lib, self.what, self.count = lib, None, 0

    def __call__(self, args):
        if self.what is None:
            return None
        self.count += 1
        kind, text = self.what
        if kind == "ModbusError":
            raise self.lib.exceptions.ModbusError(text, "é%s")
        raise {"RuntimeError": RuntimeError, "ValueError": ValueError, "OSError": OSError,
               "UnicodeError": UnicodeError}[kind](text)


def case(ctx, rng, i):
    lib = ctx.lib
    kind = ctx.kind
    if kind.startswith("master"):
        seed = rng.random()
        session = lambda obs: master_session(ctx, random.Random(seed), kind[7:], obs)
        setup = None
    else:
        setup = Setup(rng, 25)
        seed = rng.random()
        session = lambda obs: SESSIONS[kind](ctx, random.Random(seed), setup, obs)
    traces = []
    observation = Observation(ctx, rng, hook_names(lib))
    for obs in (Nothing(), observation) if rng.random() < 0.5 else (observation, Nothing()):
        with obs:
            traces.append((obs, session(obs)))
    (first, one), (second, two) = traces
    for step, (a, b) in enumerate(zip(one, two)):
        if a != b:
            raise Violation("step %d differs: %s with %r, %s with %r" % (
                step, short(a), first, short(b), second), observation=repr(observation),
                script=setup.steps[step] if setup and step < len(setup.steps) else None)
    if len(one) != len(two):
        raise Violation("%d steps with %r, %d with %r" % (len(one), first, len(two), second))
    ctx.count("steps", len(one))
    ctx.key(kind, seed, repr(observation))
    ctx.sample(dict(observation=repr(observation), steps=[short(s) for s in one[:3]]))


def short(thing):
    text = repr(thing)
    return text if len(text) < 300 else text[:300] + "..."


def observe(obs, *things):
    if obs.verbose is not None:
        for thing in things:
            thing.set_verbose(obs.verbose)


# --------------------------------------------------------------------------------------------------- sessions

def rtu_session(ctx, rng, setup, obs):
    lib = ctx.lib
    port = FakeSerial()
    server = lib.modbus_rtu.RtuServer(port, interframe_multiplier=0.02)
    slaves = setup.build(lib, server)
    observe(obs, server)
    fail = Fail(lib)
    events = Events(lib)
    lib.hooks.install_hook("modbus.Slave.handle_request", fail)
    trace = []
    server.start()
    try:
        for target, pdu, failing in setup.steps:
            before = len(port.writes)
            fail.what = failing
            ctx.count("failing hooks", int(failing is not None))
            ctx.count("broadcasts", int(target == 0))
            frame = wire.rtu(target, pdu)
            what = rng.random()
            if what < 0.1:
                frame = bytes([frame[0] ^ 1]) + frame[1:]
            elif what < 0.15:
                port.feed([SerialException("é")])
            elif what < 0.2:
                port.fault("write", SerialException("é" if rng.random() < 0.5 else "x"))
            port.feed([frame])
            if not port.wait_idle(60):
                raise Violation("the RTU server is stuck with %r" % obs, timing=True)
            del port.faults[:]
            trace.append((port.writes[before:], events.take(), setup.image(slaves)))
    finally:
        events.close()
        lib.hooks.uninstall_hook("modbus.Slave.handle_request", fail)
        stop_server(server)
    trace.append(port.log[-1:])
    return trace


def tcp_session(ctx, rng, setup, obs):
    lib = ctx.lib
    server, port = tcp_server(lib, start=False)
    slaves = setup.build(lib, server)
    observe(obs, server)
    fail = Fail(lib)
    events = Events(lib)
    lib.hooks.install_hook("modbus.Slave.handle_request", fail)
    trace = []
    server.start()
    try:
        from vp.net import wait_listening
        if not wait_listening(port):
            raise Violation("the server does not start with %r" % obs, timing=True)
        for step, (target, pdu, failing) in enumerate(setup.steps):
            fail.what = failing
            ctx.count("failing hooks", int(failing is not None))
            ctx.count("broadcasts", int(target == 0))
            frame = wire.mbap(step, target, pdu)
            what = rng.random()
            if what < 0.1:
                frame = frame[:rng.randint(1, len(frame))]
            elif what < 0.15:
                frame = wire.mbap(step, target, pdu + b"\x55" * rng.choice((1, 300, 22000, 60000)))
            elif what < 0.2:
                frame = wire.mbap(step, target, pdu, protocol=rng.choice((0, 1)), length=rng.choice((0, 1, 2, len(pdu))))
            client = RawClient(port)
            try:
                client.send(frame)
                client.sock.shutdown(socket.SHUT_WR)
                answer = client.closed(60)
            except (BrokenPipeError, ConnectionResetError):
                answer = "reset"
            client.close()
            if answer is None:
                raise Violation("the server does not close the connection with %r" % obs, timing=True)
            # the disconnection of the client which waited for the server may be seen now or before
            trace.append((answer, [e for e in events.take() if "connect" not in e[0]], setup.image(slaves)))
    finally:
        events.close()
        lib.hooks.uninstall_hook("modbus.Slave.handle_request", fail)
        stop_server(server)
    return trace


def db_session(ctx, rng, setup, obs):
    """local operations and requests, without any line"""
    lib = ctx.lib
    db = lib.modbus.Databank()
    slaves = setup.build(lib, db)
    fail = Fail(lib)
    events = Events(lib)
    lib.hooks.install_hook("modbus.Slave.handle_request", fail)
    trace = []
    try:
        for target, pdu, failing in setup.steps:
            fail.what = failing
            ctx.count("failing hooks", int(failing is not None))
            ctx.count("broadcasts", int(target == 0))
            what = rng.random()
            sid, _, layout, values = setup.slaves[rng.randrange(len(setup.slaves))]
            blk = rng.choice(layout)
            try:
                if what < 0.6:
                    if rng.random() < 0.5:
                        res = db.handle_request(lib.modbus_tcp.TcpQuery(), wire.mbap(1, target, pdu))
                    else:
                        res = db.handle_request(lib.modbus_rtu.RtuQuery(), wire.rtu(target, pdu))
                    res = bytes(res) if res else b""
                elif what < 0.7:
                    res = slaves[sid].set_values(blk[0], blk[2] + rng.choice((-1, 0, 0, blk[3])), values[blk[0]][:1])
                elif what < 0.8:
                    res = slaves[sid].add_block(rng.choice(("new", "é%d", blk[0])), rng.choice((1, 3, 9)),
                                                rng.choice((-1, 0, 500, 60000)), rng.choice((-1, 0, 3)))
                elif what < 0.9:
                    res = slaves[sid].remove_block(rng.choice(("new", "é%d", "none")))
                else:
                    res = db.add_slave(rng.choice((-1, 0, sid, 256)))
            except Exception as exc:  # noqa
                res = (type(exc).__name__, str(exc))
            trace.append((res, events.take(), setup.image(slaves)))
    finally:
        events.close()
        lib.hooks.uninstall_hook("modbus.Slave.handle_request", fail)
    return trace


SESSIONS = {"rtu": rtu_session, "tcp": tcp_session, "db": db_session}


def master_session(ctx, rng, name, obs):
    lib = ctx.lib
    link = masters.LINKS[name](lib)
    observe(obs, link.master)
    trace = []
    events = Events(lib)
    fcts = [f for f in masters.FCTS if f != 43] if name == "rtu over tcp" else masters.FCTS
    try:
        for _ in range(15):
            call = masters.random_call(rng, fcts, small=rng.random() < 0.7)
            answer = call.answer
            what = rng.choice(("valid",) * 5 + ("exception", "count", "function", "frame", "invalid"))
            if what == "exception":
                answer = bytes([call.pdu[0] | 0x80, rng.choice((1, 2, 3, 4, 11, 0, 200))])
            elif what == "count" and call.fct in masters.READS:
                answer = bytes([answer[0], (answer[1] + 1) & 0xFF]) + answer[2:]
            elif what == "function":
                answer = bytes([answer[0] ^ 1]) + answer[1:]
            noise = rng.randrange(1, 255)

            def reply(lnk, tid, slave, pdu):
                frame = bytearray(lnk.frame(tid, slave, answer))
                if what == "frame":
                    frame[-1 if name != "tcp" else 6] ^= noise
                return [bytes(frame)]
            link.reply = reply
            before = len(link.requests)
            slave, kwargs = call.slave, {}
            if what == "invalid":
                slave = rng.choice((-1, 256, 1000))
            try:
                if what == "invalid":
                    res = link.master.execute(slave, call.fct, *call.args, **call.kwargs)
                else:
                    res = call.run(link.master, **kwargs)
            except Exception as exc:  # noqa
                code = exc.get_exception_code() if hasattr(exc, "get_exception_code") else None
                res = (type(exc).__name__, code)
            sent = [bytes(r)[2:] if name == "tcp" else bytes(r) for r in link.requests[before:]]
            trace.append((sent, res, events.take()))
            if link.problem:
                raise Violation(link.problem)
        link.master.close()
        try:
            trace.append(link.master.get_timeout())
        except Exception as exc:  # noqa
            trace.append(type(exc).__name__)
    finally:
        events.close()
        link.close()
    return trace
