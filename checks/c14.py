"""C14: the RTU server executes and answers intact frames only, once each"""
from vp import model, wire
from vp.core import Violation, Inconclusive
from vp.fakeserial import FakeSerial, GAP, SerialException
from vp.world import World, valid_write, valid_read, unframe

LEVEL = "exploration"
RULE = ("a case is a session of 25 steps with a running RtuServer on a scripted serial port: intact frames in any pieces, "
        "corrupted, truncated, glued, oversized, foreign frames, noise, several frames at once, a new request arriving while "
        "one is handled, errors of read, write and open, a port unplugged for some time; after each step what was written on the port, how many times the "
        "slaves have handled a request and the memory are compared with the model; distinct by (step, pieces, pdu)")
ASSUMPTIONS = ["the port is a stand-in for pyserial which gives the bytes and the silences of a script: the duration of "
               "the silences on a real line is not covered",
               "the executions are counted by the documented hook modbus.Slave.handle_request"]
KINDS = ("good", "good", "good", "good", "broadcast", "foreign", "corrupted", "corrupted", "truncated", "glued", "junk after",
         "junk before", "noise", "oversized", "silence inside", "several", "several", "during", "during", "read error before",
         "read error inside", "read error after", "write error", "open error", "flush error", "dead error", "dead error", "response of another")


def plan(tier):
    k = 1 if tier == "quick" else 15
    return [dict(kind="session", n=400 * k, budget=25 * k, min=8, stall=90, name="session-%d" % p) for p in range(5)] + [
        dict(kind="enduring", n=3 * k, budget=25 * k, min=1, stall=90)]


def need(tier):
    return {"answered": 1500, "executed": 2000, "rejected": 1000, "faults": 300, "pending": 200, "most faults": 100}


def pieces(rng, frame):
    style = rng.choice(("one", "bytes", "first", "random", "random"))
    if style == "one":
        return [frame]
    if style == "bytes":
        return [frame[k:k + 1] for k in range(len(frame))]
    if style == "first":
        return [frame[:1], frame[1:]]
    out = []
    while frame:
        size = rng.choice((1, 2, 3, 7, 50, 127, 128, 129))
        out.append(frame[:size])
        frame = frame[size:]
    return out


def intact(data):
    return len(data) >= 3 and wire.crc16(data[:-2]) == data[-2:]


class Session(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        lib = ctx.lib
        self.world = World(ctx, rng, slaves=rng.randint(1, 3), paths=(), max_blocks=6)
        self.world.db.error_on_missing_slave = rng.random() < 0.5
        self.port = FakeSerial(baudrate=rng.choice((9600, 19200, 38400, 115200)), is_open=rng.random() < 0.7)
        self.server = lib.modbus_rtu.RtuServer(
            self.port, databank=self.world.db, interframe_multiplier=rng.choice((0.01, 0.02, 0.5)))
        if rng.random() < 0.3:
            self.server.set_verbose(True)
        self.count = 0
        self.handled = {}
        self.during = self.dying = None
        for sid in self.world.models:
            self.world.fill(sid)
        self.spies = [("modbus.Slave.handle_request", self.spy)]
        for name, fct in self.spies:
            lib.hooks.install_hook(name, fct)
        self.server.start()
        self.settle()

    def spy(self, args):
        for sid, slave in self.world.slaves.items():
            if slave is args[0]:
                self.handled[sid] = self.handled.get(sid, 0) + 1
        if self.dying is not None:
            dying, self.dying = self.dying, None
            self.port.kill(dying)
        if self.during:
            todo, self.during = self.during, None
            self.port.feed(todo)

    def close(self):
        for name, fct in self.spies:
            self.ctx.lib.hooks.uninstall_hook(name, fct)
        self.server.stop()

    def settle(self):
        if not self.port.wait_idle(30):
            raise Violation("the RTU server does not wait for the next frame", timing=True)

    # -- frames

    def good(self):
        rng, world = self.rng, self.world
        sid = rng.choice(sorted(world.models))
        mod = world.models[sid]
        what = rng.random()
        if what < 0.5:
            pdu = valid_write(rng, mod)
        elif what < 0.85:
            pdu = valid_read(rng, mod)
        else:
            pdu = rng.choice((b"\x08\0\0\0\0", wire.read_pdu(3, rng.randrange(65536), rng.randrange(200)), b"\x07",
                              wire.write_coil_pdu(rng.randrange(65536), 1), valid_write(rng, mod)[:-1] or b"\x07"))
        return sid, pdu

    def missing(self):
        return next(s for s in self.rng.sample(range(1, 256), 10) if s not in self.world.models)

    # -- judge

    def expect(self, requests, writes, answered, what, **witness):
        """requests: the (slave, pdu) which must have been executed; answered: for each of them if it is answered (True,
        False, None when both are fine)"""
        ctx, world = self.ctx, self.world
        witness = dict(witness, step=what, requests=[(s, p) for s, p in requests], writes=list(writes))
        counts = {}
        writes = list(writes)
        for (sid, pdu), ans in zip(requests, answered):
            for one in ([sid] if sid else sorted(world.models)):
                counts[one] = counts.get(one, 0) + 1
                outs = world.models[one].request(pdu)
                if sid == 0:
                    for out in outs:
                        if out.writes:
                            out.apply()
                            break
                    continue
                if ans or (ans is None and writes and writes[0][:1] == bytes([sid])):
                    if not writes:
                        raise Violation("%s: no response to the request %s of slave %d" % (what, pdu.hex(), sid), **witness)
                    resp = unframe(writes.pop(0), "rtu", sid)
                    out = model.match(outs, resp)
                    if out is None:
                        raise Violation("%s: the response %s to %s, acceptable: %s" % (what, resp.hex(), pdu.hex(), outs[:3]),
                                        **witness)
                    ctx.count("answered")
                else:
                    out = outs[0]
                out.apply()
            ctx.count("executed")
        if writes:
            raise Violation("%s: a response nobody expects: %s" % (what, writes[0].hex()), **witness)
        if self.handled != counts:
            raise Violation("%s: the requests handled by each slave are %r instead of %r" % (what, self.handled, counts),
                            **witness)
        for sid in world.models:
            world.check_image(sid, what, **witness)

    def step(self, kinds=KINDS):
        rng, ctx, port = self.rng, self.ctx, self.port
        kind = rng.choice(kinds)
        before = len(port.writes)
        self.handled.clear()
        sid, pdu = self.good()
        frame = wire.rtu(sid, pdu)
        done, answered = [], []
        feed = None
        if kind == "good":
            feed = pieces(rng, frame)
            if rng.random() < 0.3:
                feed = [GAP] * rng.randint(1, 3) + feed + [GAP] * rng.randint(1, 3)
            done, answered = [(sid, pdu)], [True]
        elif kind == "broadcast":
            pdu = valid_write(rng, self.world.models[sid])
            feed = pieces(rng, wire.rtu(0, pdu))
            done, answered = [(0, pdu)], [False]
        elif kind == "foreign":
            feed = pieces(rng, wire.rtu(self.missing(), pdu))
        elif kind == "response of another":
            # on a shared line the server also sees the answers of the others
            other = self.missing()
            feed = pieces(rng, wire.rtu(other, bytes([3, 4, 0, 1, 2, 3]))) + [GAP] + pieces(rng, frame)
            done, answered = [(sid, pdu)], [True]
        elif kind == "corrupted":
            data = bytearray(frame)
            for bit in rng.sample(range(8 * len(data)), rng.choice((1, 1, 2, 3, 5))):
                data[bit // 8] ^= 1 << (bit % 8)
            feed = pieces(rng, bytes(data))
        elif kind == "truncated":
            data = frame[:rng.randrange(1, len(frame))] if rng.random() < 0.6 else frame[rng.randrange(1, len(frame)):]
            feed = pieces(rng, data)
        elif kind == "glued":
            feed = pieces(rng, frame + rng.choice((frame, wire.rtu(*self.good()))))
        elif kind == "junk after":
            feed = pieces(rng, frame + bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 3, 100)))))
        elif kind == "junk before":
            if rng.random() < 0.5:
                feed = pieces(rng, bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 3, 100)))) + frame)
            else:
                # the frame begins where a reader which stops at some length would go on
                size = rng.choice((1 + 128 * rng.randint(1, 6), 128 * rng.randint(1, 6), 256 + rng.randint(-2, 8)))
                junk = bytes(rng.randrange(256) for _ in range(size))
                feed = [junk + frame] if rng.random() < 0.7 else [junk[:1], junk[1:] + frame] if rng.random() < 0.5 else [junk, frame]
        elif kind == "noise":
            feed = [bytes(rng.randrange(256) for _ in range(rng.choice((1, 1, 2, 3, 4, 20)))) for _ in range(rng.randint(1, 4))]
            feed = [x for item in feed for x in (item, GAP)]
        elif kind == "oversized":
            feed = pieces(rng, frame + bytes(rng.randrange(256) for _ in range(rng.choice((256, 300, 1000, 5000)))))
        elif kind == "silence inside":
            cut = rng.randrange(1, len(frame))
            feed = pieces(rng, frame[:cut]) + [GAP] + pieces(rng, frame[cut:])
        elif kind == "several":
            # a frame which is followed by another one is executed but not answered
            feed = []
            for k in range(rng.randint(2, 4)):
                sid, pdu = self.good()
                feed += pieces(rng, wire.rtu(sid, pdu)) + [GAP] * rng.randint(1, 2)
                done.append((sid, pdu))
            if rng.random() < 0.3:
                feed += [b"\x55"]
                answered = [False] * len(done)
            else:
                answered = [False] * (len(done) - 1) + [True]
            ctx.count("pending", len(done) - 1)
        elif kind == "during":
            # a new request begins while the first one is handled
            other, pdu2 = self.good()
            feed = pieces(rng, frame)
            more = rng.random()
            done = [(sid, pdu)]
            if more < 0.4:
                self.during = [GAP] + pieces(rng, wire.rtu(other, pdu2))
                done, answered = done + [(other, pdu2)], [False, True]
            elif more < 0.6:
                self.during = [b"\x01"]
                answered = [False]
            elif more < 0.8:
                self.during = [GAP, GAP]
                answered = [True]
            else:
                # other bytes, one of a frame which nobody will execute
                self.during = [wire.rtu(self.missing(), pdu2)]
                answered = [False]
            ctx.count("pending")
        elif kind == "read error before":
            feed = [self.error()] + pieces(rng, frame)
            done, answered = [(sid, pdu)], [True]
        elif kind == "read error inside":
            cut = rng.randrange(1, len(frame))
            if intact(frame[:cut]):
                return kind
            feed = pieces(rng, frame[:cut]) + [self.error(), GAP] + pieces(rng, wire.rtu(sid, pdu))
            done, answered = [(sid, pdu)], [True]
        elif kind == "read error after":
            feed = pieces(rng, frame) + [self.error()]
        elif kind == "write error":
            port.fault("write", self.error())
            feed = pieces(rng, frame)
            done, answered = [(sid, pdu)], [False]
        elif kind == "flush error":
            feed = pieces(rng, frame)
            done, answered = [(sid, pdu)], [True]
            flush = port.flush

            def bad():
                port.flush = flush
                raise SerialException("flush")
            port.flush = bad
        elif kind == "open error":
            # the port can not be opened again at once
            for _ in range(rng.randint(1, 3)):
                port.fault("open", self.error())
            feed = [self.error(), GAP] + pieces(rng, frame)
            done, answered = [(sid, pdu)], [True]
        elif kind == "dead error":
            # unplugged: every call fails until the port is closed and opened again (not always at once)
            for _ in range(rng.choice((0, 0, 1, 2))):
                port.fault("open", self.error())
            opened = port.opened
            if rng.random() < 0.5:
                feed = pieces(rng, frame)
                done, answered = [(sid, pdu)], [True]
                port.kill(self.error())
            else:
                # while the request is handled
                port.feed(pieces(rng, frame))
                self.dying = self.error()
                done, answered = [(sid, pdu)], [False]
                feed = []
            with port.cond:
                if not port.cond.wait_for(lambda: port.opened > opened, 30):
                    raise Violation("the port is not opened again after an error which lasts until it is", timing=True,
                                    step=kind, log=port.log[-20:])
        witness = dict(feed=[x if isinstance(x, bytes) else "gap" if x is GAP else repr(x) for x in feed])
        # a corruption which leaves an intact frame is not one
        if not done and kind not in ("foreign", "read error after"):
            bursts, burst = [], b""
            for item in feed + [GAP]:
                if isinstance(item, bytes):
                    burst += item
                else:
                    bursts.append(burst)
                    burst = b""
            if any(intact(b) for b in bursts):
                return kind
            ctx.count("rejected")
        elif kind == "foreign":
            ctx.count("foreign")
        if "error" in kind:
            ctx.count("faults")
        port.feed(feed)
        self.settle()
        if kind == "read error after":
            # executed and answered, or neither
            if self.handled:
                done, answered = [(sid, pdu)], [True]
        if kind == "during" and self.during:
            self.during = None
            raise Violation("the request is not handled", **witness)
        self.expect(done, port.writes[before:], answered, kind, **witness)
        del port.faults[:]
        ctx.state("steps", kind, pdu[0])
        ctx.key(kind, len(feed), pdu)
        return kind

    def error(self):
        return self.rng.choice((SerialException("failure"), OSError(5, "Input/output error"),
                                TypeError("object of type 'NoneType' has no len()")))


def case(ctx, rng, i):
    session = Session(ctx, rng)
    if ctx.kind == "enduring":
        return enduring(ctx, rng, session)
    try:
        trail = [session.step() for _ in range(25)]
        if rng.random() < 0.3:
            # stopped and started again: the same data are served
            session.server.stop()
            session.port.feed([])
            session.server.start()
            session.settle()
            trail += [session.step() for _ in range(5)]
        ctx.sample(dict(steps=trail))
    finally:
        session.close()
    if session.port.is_open:
        raise Violation("the port is not closed by stop()")


def enduring(ctx, rng, session):
    """the same server for a long time, with every kind of error again and again"""
    faults = 0
    try:
        kinds = [k for k in KINDS if "error" in k]
        for kind in kinds:
            for _ in range(40):
                session.step([kind])
                faults += 1
            session.step(["good"])
        for kind in ("corrupted", "noise", "foreign", "oversized", "truncated", "several", "broadcast", "good"):
            for _ in range(150):
                session.step([kind])
            session.step(["good"])
        ctx.count("most faults", faults)
    finally:
        session.close()
    if session.port.is_open:
        raise Violation("the port is not closed by stop()")
