"""C31: RTU masters and servers keep the silences of the line as they are set"""
import threading
import time

from vp import masters, wire
from vp.core import Violation, Inconclusive
from vp.fakeserial import FakeSerial, GAP

LEVEL = "exploration"
RULE = ("a case is a RtuMaster or a RtuServer on a scripted serial port with a random baud rate, multipliers and t0 (or the "
        "default ones), and a series of exchanges, silences, errors of the port, set_timeout, stops and starts: the timeouts "
        "of the port are compared with an independent computation after the construction, and at each read which may end a "
        "frame; distinct by (settings, operations)")
ASSUMPTIONS = ["the port is a stand-in for pyserial: what the driver does with the timeouts is not covered",
               "set_timeout of a running server applies to the frames which begin after it"]
BAUDS = (50, 110, 300, 1200, 2400, 4800, 9600, 14400, 19199, 19200, 19201, 28800, 38400, 57600, 115200, 230400, 921600)


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="master", n=4000 * k, budget=15 * k, min=200, name="master-%d" % p) for p in range(2)] +
            [dict(kind="server", n=600 * k, budget=20 * k, min=40, stall=90, name="server-%d" % p) for p in range(4)])


def need(tier):
    return {"slow lines": 500, "fast lines": 500, "reads judged": 5000, "first bytes": 1000, "settings": 500, "errors": 300,
            "restarts": 100, "given t0": 200, "given multipliers": 500,
            "long requests": 100}


class Port(FakeSerial):
    """notes the timeout in force at each read, and when the read may end a frame"""

    def __init__(self, **kwargs):
        FakeSerial.__init__(self, **kwargs)
        self.noted = []
        self.sending = 0        # how long the line takes to send what is written
        self.sent_at = 0
        self.early = None

    def write(self, data):
        self.sent_at = time.monotonic() + self.sending
        return FakeSerial.write(self, data)

    def flush(self):
        FakeSerial.flush(self)
        while time.monotonic() < self.sent_at:
            time.sleep(0.0005)

    @property
    def out_waiting(self):
        return 8 if time.monotonic() < self.sent_at else 0

    def reset_output_buffer(self):
        FakeSerial.reset_output_buffer(self)
        self.sent_at = 0

    def read(self, size=1):
        if self.sending and time.monotonic() < self.sent_at and self.early is None:
            self.early = self.sent_at - time.monotonic()
        mark = len(self.noted)
        self.noted.append([self.timeout, self.inter_byte_timeout, None])
        data = FakeSerial.read(self, size)
        self.noted[mark][2] = data
        return data


def close_to(a, b):
    return a is not None and abs(a - b) <= 1e-9 + 1e-6 * abs(b)


def settings(ctx, rng):
    """(baud rate, keyword arguments, t0, interchar, interframe)"""
    baud = rng.choice(BAUDS) if rng.random() < 0.8 else rng.randint(50, 200000)
    t0 = 11.0 / baud if baud <= 19200 else 0.0005
    kwargs, chars, frames = {}, 1.5, 3.5
    if rng.random() < 0.4:
        chars = kwargs["interchar_multiplier"] = rng.choice((0.5, 1, 1.5, 2.25, 10))
        ctx.count("given multipliers")
    if rng.random() < 0.4:
        frames = kwargs["interframe_multiplier"] = rng.choice((1, 2, 3.5, 5.75, 20))
        ctx.count("given multipliers")
    ctx.count("slow lines" if baud <= 19200 else "fast lines")
    return baud, kwargs, t0, chars, frames


def judge_settings(what, port, t0, chars, frames):
    if not close_to(port.inter_byte_timeout, chars * t0):
        raise Violation("the inter-byte timeout of the %s is %r" % (what, port.inter_byte_timeout), baudrate=port.baudrate,
                        expected=chars * t0)
    if not close_to(port.timeout, frames * t0):
        raise Violation("the timeout of the %s is %r" % (what, port.timeout), baudrate=port.baudrate, expected=frames * t0)


def case(ctx, rng, i):
    baud, kwargs, t0, chars, frames = settings(ctx, rng)
    port = Port(baudrate=baud, timeout=rng.choice((None, 0, 1.0)), is_open=rng.random() < 0.6)
    done = []
    try:
        if ctx.kind == "master":
            master_case(ctx, rng, port, kwargs, t0, chars, frames, done)
        else:
            server_case(ctx, rng, port, kwargs, t0, chars, frames, done)
    except Violation as exc:
        exc.witness.update(operations=done, baudrate=baud, settings=repr(kwargs))
        raise
    ctx.key(ctx.kind, baud, sorted(kwargs.items()), tuple(done))


def master_case(ctx, rng, port, kwargs, t0, chars, frames, done):
    if rng.random() < 0.3:
        t0 = kwargs["t0"] = rng.choice((0.0001, 0.0005, 0.003, 0.5))
        ctx.count("given t0")
    master = ctx.lib.modbus_rtu.RtuMaster(port, **kwargs)
    judge_settings("master", port, t0, chars, frames)
    if not close_to(master.get_timeout(), frames * t0):
        raise Violation("get_timeout() of the master is %r" % master.get_timeout(), expected=frames * t0)
    timeout = frames * t0
    for _ in range(8):
        what = rng.choice(("good", "good", "pieces", "silent", "short", "error", "set", "set", "close"))
        done.append(what)
        if what == "set":
            timeout = rng.choice((0.001, 0.0035, 0.02, 0.5, 3.0))
            master.set_timeout(timeout)
            ctx.count("settings")
            continue
        if what == "close":
            master.close()
            continue
        call = masters.random_call(rng, fcts=(1, 3, 4, 5, 6, 15, 16, 22, 23))
        frame = wire.rtu(call.slave, call.answer)
        items = {"good": [frame], "silent": [], "short": [frame[:-2]], "error": [frame[:1], IOError("noise")],
                 "pieces": [frame[k:k + 3] for k in range(0, len(frame), 3)]}[what]
        port.on_write = lambda data: list(items)
        del port.noted[:]
        port.early = None
        port.sending = 0.008 if rng.random() < 0.02 else 0
        error = None
        try:
            call.run(master)
        except Exception as exc:
            error = exc
        if port.early is not None:
            raise Violation("the answer is waited for while the request is still being sent (%.1f ms more)" % (1000 * port.early))
        if port.sending:
            ctx.count("long requests")
        if (error is None) != (what in ("good", "pieces")):
            raise Violation("an exchange (%s) ends with %r" % (what, error))
        error = None
        if what == "error":
            ctx.count("errors")
        if not port.noted:
            raise Violation("nothing is read in an exchange")
        for got, inter, _ in port.noted:
            ctx.count("reads judged")
            if not close_to(got, timeout):
                raise Violation("the response is read with a timeout of %r instead of %r" % (got, timeout))
            if not close_to(inter, chars * t0):
                raise Violation("the response is read with an inter-byte timeout of %r instead of %r" % (inter, chars * t0))


def server_case(ctx, rng, port, kwargs, t0, chars, frames, done):
    server = ctx.lib.modbus_rtu.RtuServer(port, **kwargs)
    judge_settings("server", port, t0, chars, frames)
    if not close_to(server.get_timeout(), frames * t0):
        raise Violation("get_timeout() of the server is %r" % server.get_timeout(), expected=frames * t0)
    server.add_slave(1).add_block("h", 3, 0, 50)
    timeout = frames * t0
    slow = timeout > 0.05
    if slow or rng.random() < 0.3:
        timeout = rng.choice((0.001, 0.004, 0.01))
        server.set_timeout(timeout)
        ctx.count("settings")
    running = False
    marks = 0
    try:
        for _ in range(10):
            what = rng.choice(("good",) * 4 + ("pieces", "noise", "set", "read error", "first error", "stop"))
            if not running:
                server.start()
                running = True
                if not port.wait_idle(30):
                    raise Inconclusive("the server does not read")
            done.append(what)
            if what == "stop":
                stop(server)
                running = False
                ctx.count("restarts")
                if rng.random() < 0.4:
                    timeout = rng.choice((0.001, 0.002, 0.007))
                    server.set_timeout(timeout)
                    ctx.count("settings")
                continue
            if what == "set":
                timeout = rng.choice((0.001, 0.003, 0.008))
                server.set_timeout(timeout)
                ctx.count("settings")
                # the wait which is going on ends with a frame
                marks = len(port.noted)
                send(port, [wire.rtu(1, wire.read_pdu(3, 0, 1)), GAP])
                marks = len(port.noted)
                continue
            marks = len(port.noted)
            frame = wire.rtu(1, wire.read_pdu(3, rng.randrange(40), rng.randint(1, 10)))
            if what == "good":
                items = [frame, GAP]
            elif what == "pieces":
                items = [frame[k:k + 2] for k in range(0, len(frame), 2)] + [GAP]
            elif what == "noise":
                items = [bytes(rng.randrange(256) for _ in range(rng.randint(1, 20))), GAP]
            elif what == "read error":
                items = [frame[:rng.randint(1, 7)], IOError("framing"), GAP]
                ctx.count("errors")
            else:
                items = [IOError("unplugged"), GAP]
                ctx.count("errors")
            del port.writes[:]
            send(port, items)
            judge_reads(ctx, port.noted[marks:], timeout, chars * t0)
            if what in ("good", "pieces"):
                # (the frame in which the port fails is lost; the next one is not)
                if not port.writes:
                    raise Violation("an intact request is not answered")
    finally:
        if running:
            stop(server)


def send(port, items):
    port.feed(items)
    if not port.wait_idle(30):
        raise Violation("the server does not come back to the wait of the first byte", timing=True)
    # the silence which ends the frame is consumed, what follows is the wait of the next one
    end = time.monotonic() + 30
    while port.waiting == 0:
        if time.monotonic() > end:
            raise Violation("the server does not come back to the wait of the first byte", timing=True)
        time.sleep(0.0005)


def judge_reads(ctx, reads, timeout, inter):
    """a read which follows bytes of a frame has the timeout of the frames; the others may be without limit"""
    inside = False
    for got, between, data in list(reads):
        if got is None:
            if inside:
                raise Violation("the rest of a request is waited for without limit")
            ctx.count("first bytes")
        else:
            ctx.count("reads judged")
            if not close_to(got, timeout):
                raise Violation("the end of a request is read with a timeout of %r instead of %r" % (got, timeout))
        if not close_to(between, inter):
            raise Violation("a request is read with an inter-byte timeout of %r instead of %r" % (between, inter))
        inside = bool(data)


def stop(server):
    thread = threading.Thread(target=server.stop, daemon=True)
    thread.start()
    thread.join(60)
    if thread.is_alive():
        raise Violation("stop() does not return", timing=True)
