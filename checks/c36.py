"""C36: the RTU master and server on the serial ports of pyserial"""
import gc
import os
import struct
import threading
import time

from vp import masters, wire
from vp.core import Inconclusive, Violation
from vp.net import nfds
from vp.ptyline import Cable, Socket
from vp.world import Path, World, unframe, valid_read, valid_write

LEVEL = "exploration"
RULE = ("a case is a session with real ports of pyserial on ptys: a RtuServer and raw frames (requests against the model, "
        "broadcasts, foreign, corrupted, cut and glued frames, noise), a RtuMaster and a scripted slave (all the functions, "
        "exception responses, silence, corrupted answers), both joined by a cable which corrupts some frames, cycles of start and "
        "stop in the middle of anything, ports which are unplugged and plugged again; distinct by (kind, step, request)")
ASSUMPTIONS = ["a pty has no baud rate: what is written at once arrives at once (or nearly)",
               "a frame which gets no answer may have been cut by the system: it is sent again, twice, before it is a violation"]
GAP = 0.02          # the silence which ends a frame, for the servers under test


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="server", n=40 * k, budget=25 * k, min=3, stall=120, name="server-%d" % p) for p in range(3)] +
            [dict(kind="master", n=200 * k, budget=25 * k, min=5, stall=120, name="master-%d" % p) for p in range(2)] +
            [dict(kind="both", n=40 * k, budget=25 * k, min=3, stall=120),
             dict(kind="lifecycle", n=40 * k, budget=25 * k, min=3, stall=120),
             dict(kind="unplug", n=30 * k, budget=25 * k, min=3, stall=120)])


def need(tier):
    return {"requests": 60, "ignored": 15, "exchanges": 150, "errors": 15, "late": 10, "superseded": 3, "both exchanges": 30, "stops": 12, "unplugged": 3,
            "unplugged masters": 2}


def case(ctx, rng, i):
    {"server": server, "master": master, "both": both, "lifecycle": lifecycle, "unplug": unplug}[ctx.kind](ctx, rng)


class SerialPath(Path):
    """a running RtuServer on a port of pyserial"""
    name = "pyserial-server"

    def __init__(self, lib, db, socket):
        self.socket = socket
        self.port = socket.port(timeout=None)
        self.server = lib.modbus_rtu.RtuServer(self.port, databank=db, interchar_multiplier=4, interframe_multiplier=4)
        self.server.set_timeout(GAP)
        self.repeated = 0
        self.server.start()

    def drain(self):
        while self.socket.read(0):
            pass

    def frame(self, limit):
        """a complete frame, or None"""
        data, end = b"", time.monotonic() + limit
        while time.monotonic() < end:
            data += self.socket.read(0.05)
            if len(data) >= 4 and wire.crc16(data[:-2]) == data[-2:]:
                return data
            if len(data) > 600:
                break
        if data:
            raise Violation("the server writes %s" % data.hex(), timing=True)
        return None

    def send(self, slave_id, pdu, kind=None):
        pdu = bytes(pdu)
        frame = wire.rtu(slave_id, pdu)
        for attempt in range(3):
            self.socket.write(frame)
            response = self.frame(2.0 + 4 * attempt)
            if response is not None:
                # the server is silent for a while after it has answered
                return unframe(response, "rtu", slave_id)
            self.repeated += 1
        return None

    def quiet(self, limit):
        data = self.socket.read(limit)
        if data:
            raise Violation("the server writes %s without request" % data.hex())

    def close(self):
        stop(self.server)
        self.socket.close()


def stop(server, limit=20.0):
    """stop() in a bounded time"""
    errors = []

    def main():
        try:
            server.stop()
        except BaseException as exc:  # noqa
            errors.append(exc)
    thread = threading.Thread(target=main, daemon=True)
    began = time.monotonic()
    thread.start()
    thread.join(limit)
    if thread.is_alive():
        raise Violation("stop() of the server does not return", timing=True)
    if errors:
        raise Violation("stop() of the server raises %r" % errors[0])
    return time.monotonic() - began


def model_image(mod):
    return {name: list(block.data) for name, block in mod.blocks.items()}


def server(ctx, rng):
    path = None
    world = World(ctx, rng, slaves=rng.randint(1, 2), paths=(), max_blocks=4)
    try:
        path = world.paths["serial"] = SerialPath(ctx.lib, world.db, Socket())
        for sid in world.models:
            world.fill(sid)
        sids = sorted(world.models)
        for _ in range(20):
            what = rng.choice(("request",) * 8 + ("read", "broadcast", "superseded", "foreign", "corrupted", "cut", "glued", "noise", "nothing"))
            sid = rng.choice(sids)
            mod = world.models[sid]
            ctx.key("server", what, sid, len(mod.blocks))
            if what in ("request", "read"):
                pdu = valid_read(rng, mod) if what == "read" or rng.random() < 0.3 else valid_write(rng, mod)
                world.step(sid, pdu, "serial")
                continue
            pdu = valid_write(rng, mod)
            frame = wire.rtu(sid, pdu)
            if what == "superseded":
                # the next request comes while this one is handled: only the next one is answered
                second = valid_read(rng, mod)
                later = [wire.rtu(sid, second)]

                def come(args):
                    if later and args[1] == frame:
                        path.socket.write(later.pop())
                        time.sleep(0.01)
                ctx.lib.hooks.install_hook("modbus_rtu.RtuServer.after_read", come)
                try:
                    mod.request(pdu)[0].apply()
                    outs = mod.request(second)
                    path.socket.write(frame)
                    got = path.frame(5)
                finally:
                    ctx.lib.hooks.uninstall_hook("modbus_rtu.RtuServer.after_read", come)
                world.check_image(sid, "after two requests", frame=frame)
                if later or got != wire.rtu(sid, outs[0].response):
                    raise Violation("a request which comes while another one is handled gives %s" % (got and got.hex()), timing=True,
                                    first=frame, second=wire.rtu(sid, second), expected=outs[0].response)
                path.quiet(3 * GAP)
                ctx.count("superseded")
                continue
            if what == "broadcast":
                # executed by all the slaves (or refused by some), not answered
                pdu = wire.write_reg_pdu(65535, 1)
                frame = wire.rtu(0, pdu)
                for other in sids:
                    outs = world.models[other].request(pdu)
                    outs[0].apply()
            elif what == "foreign":
                other = rng.choice([k for k in range(1, 256) if k not in sids])
                frame = wire.rtu(other, pdu)
                response = None
            elif what == "corrupted":
                frame = bytearray(frame)
                frame[rng.randrange(len(frame))] ^= 1 << rng.randrange(8)
            elif what == "cut":
                frame = frame[:rng.randrange(1, len(frame))]
                if len(frame) >= 4 and wire.crc16(frame[:-2]) == frame[-2:]:
                    continue
            elif what == "glued":
                frame = frame + wire.rtu(sid, wire.read_pdu(3, 0, 1))
            elif what == "noise":
                frame = bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 5, 50, 300))))
            else:
                frame = b""
            if frame and what != "broadcast" and what != "foreign" and len(frame) >= 4 and wire.crc16(frame[:-2]) == frame[-2:]:
                continue
            path.socket.write(frame)
            if what == "broadcast":
                # it may have been cut by the system, or take time
                path.quiet(3 * GAP)
                for attempt in range(3):
                    end = time.monotonic() + 0.5 + attempt
                    while any(world.image(other) != model_image(world.models[other]) for other in sids) and time.monotonic() < end:
                        time.sleep(0.01)
                    if time.monotonic() < end:
                        break
                    path.repeated += 1
                    path.socket.write(frame)
                    path.quiet(3 * GAP)
                time.sleep(3 * GAP)
            elif what == "foreign":
                # refused with an exception response, or ignored
                time.sleep(3 * GAP)
                path.drain()
            else:
                path.quiet(3 * GAP)
            ctx.count("ignored")
            time.sleep(2 * GAP)
            for other in sids:
                world.check_image(other, "after a %s frame" % what, frame=bytes(frame))
        ctx.count("repeated", path.repeated)
        if path.repeated > 4:
            raise Inconclusive("the system is too slow")
        ctx.sample(dict(layout=world.layout(sids[0])))
    finally:
        if path is not None:
            world.close()


class Script(object):
    """the slave of a RtuMaster, at the end of a pty"""

    def __init__(self):
        self.socket = Socket()
        self.answer = None
        self.echo = False           # what is sent is received first, as some RS-485 adapters do
        self.requests = []
        self.over = False
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()

    def _run(self):
        data = b""
        while not self.over:
            try:
                more = self.socket.read(0.2)
            except (OSError, TypeError, ValueError):
                time.sleep(0.01)
                data = b""
                continue
            data += more
            for start in range(max(0, len(data) - 3)):
                if wire.crc16(data[start:-2]) == data[-2:]:
                    frame, data = data[start:], b""
                    self.requests.append(frame)
                    reply = bytes((self.answer(frame) if self.answer else None) or b"")
                    if self.echo:
                        reply = frame + reply
                    if reply:
                        try:
                            self.socket.write(reply)
                        except (OSError, TypeError):
                            pass
                    break

    def close(self):
        self.over = True
        self.thread.join(5)
        self.socket.close()


def master(ctx, rng):
    script = Script()
    port = script.socket.port(timeout=5.0)
    kwargs = rng.choice(({}, {}, dict(interchar_multiplier=2, interframe_multiplier=4), dict(t0=0.01)))
    mast = ctx.lib.modbus_rtu.RtuMaster(port, **kwargs)
    try:
        mast.set_timeout(10.0)
        sw = rng.random() < 0.2
        if sw:
            mast.set_timeout(10.0, use_sw_timeout=True)
        script.echo = mast.handle_local_echo = rng.random() < 0.25
        for _ in range(25):
            call = masters.random_call(rng, [f for f in masters.FCTS if f not in (8, 43)])
            what = rng.choice(("good",) * 10 + ("exception", "silence", "corrupted", "foreign", "reopened", "late", "late"))
            frame = wire.rtu(call.slave, call.answer)
            code = rng.choice((1, 2, 3, 4, 6))
            if what == "exception":
                frame = wire.rtu(call.slave, bytes([call.pdu[0] | 0x80, code]))
            elif what == "corrupted":
                frame = bytearray(frame)
                frame[rng.randrange(len(frame))] ^= 1 << rng.randrange(8)
            elif what == "foreign":
                frame = wire.rtu(call.slave ^ 1, call.answer)
            elif what == "silence":
                frame = None
            elif what == "late" and port.is_open:
                # the answer of a former request, with other values
                late = bytearray(call.answer)
                late[-1] ^= 1 << rng.randrange(8)
                late = wire.rtu(call.slave, late)
                script.socket.write(late[:rng.choice((len(late), len(late), 3))])
                time.sleep(0.01)
                ctx.count("late")
            if what == "reopened":
                mast.open()
                mast.close()
                if port.is_open:
                    raise Violation("the port is open after close()")
                if rng.random() < 0.5:
                    mast.open()
            expected = []
            script.answer = lambda data: frame if data == wire.rtu(call.slave, call.pdu) else expected.append(data)
            if what in ("exception", "silence", "corrupted", "foreign"):
                mast.set_timeout(rng.choice((0.05, 0.1, 0.3)))
            began = time.monotonic()
            error = result = None
            try:
                result = call.run(mast)
            except Exception as exc:  # noqa
                error = exc
            lasted = time.monotonic() - began
            mast.set_timeout(10.0, use_sw_timeout=sw)
            witness = dict(call=repr(call), what=what, answer=frame, requests=[r.hex() for r in script.requests[-3:]])
            ctx.key("master", what, call.fct, call.slave)
            if expected:
                raise Violation("%r sends %s instead of %s" % (call, expected[0].hex(), wire.rtu(call.slave, call.pdu).hex()),
                                **witness)
            ctx.count("exchanges")
            if what in ("good", "reopened", "late"):
                if error is not None:
                    raise Violation("%r raises %s: %s" % (call, type(error).__name__, error), timing=True, **witness)
                if result != call.result:
                    raise Violation("%r returns %r instead of %r" % (call, result, call.result), **witness)
                if lasted > 8 and len(frame) == len(wire.rtu(call.slave, call.answer)) and call.fct not in ("raw", 20):
                    raise Violation("%r lasts %.1f s" % (call, lasted), timing=True, **witness)
                continue
            ctx.count("errors")
            if error is None:
                raise Violation("%r returns %r with a %s answer" % (call, result, what), **witness)
            if what == "exception":
                if type(error).__name__ != "ModbusError" or error.get_exception_code() != code:
                    raise Violation("%r raises %s: %s instead of the exception %d" % (call, type(error).__name__, error, code),
                                    timing=True, **witness)
            if lasted > 8:
                raise Violation("%r with a timeout of at most 0.3 s lasts %.1f s" % (call, lasted), timing=True, **witness)
            # what comes late is for nobody
            time.sleep(0.02)
        mast.close()
        if port.is_open:
            raise Violation("the port is open after close()")
        ctx.sample(dict(last=repr(call)))
    finally:
        mast.close()
        script.close()


def execute(mast, sid, pdu):
    """the call of the master which sends this pdu: (result, exception)"""
    fct = pdu[0]
    try:
        if fct <= 4:
            addr, qty = struct.unpack(">HH", pdu[1:5])
            return mast.execute(sid, fct, addr, qty), None
        return mast.execute(sid, 0, 0, pdu=pdu, data_format=">%dB" % (len(pdu[1:5]) if fct != 22 else 6),
                            expected_length=8 if fct != 22 else 10), None
    except Exception as exc:  # noqa
        return None, exc


def both(ctx, rng):
    """a master and a server joined by a cable"""
    cable = Cable()
    world = World(ctx, rng, slaves=1, paths=(), max_blocks=4)
    sid = list(world.models)[0]
    world.fill(sid)
    mod = world.models[sid]
    sport = cable.ends[1].port(timeout=None)
    serv = ctx.lib.modbus_rtu.RtuServer(sport, databank=world.db, interchar_multiplier=4, interframe_multiplier=4)
    serv.set_timeout(GAP)
    mast = ctx.lib.modbus_rtu.RtuMaster(cable.ends[0].port(timeout=5.0))
    serv.start()
    try:
        for _ in range(25):
            spoil = rng.random() < 0.15
            pdu = valid_read(rng, mod) if rng.random() < 0.5 else valid_write(rng, mod)
            if pdu[0] == 23:
                continue
            side = rng.randrange(2)
            bit = rng.randrange(1 << 16)

            def mangle(direction, data):
                if direction == side and data:
                    data = bytearray(data)
                    data[(bit >> 3) % len(data)] ^= 1 << (bit & 7)
                return bytes(data)
            cable.mangle = mangle if spoil else None
            witness = dict(pdu=pdu, slave=sid, layout=world.layout(sid))
            outs = mod.request(pdu)
            for attempt in range(3):
                mast.set_timeout(0.3 if spoil else 2.0 + 4 * attempt)
                result, error = execute(mast, sid, pdu)
                if spoil or error is None:
                    break
                ctx.count("repeated")
                time.sleep(0.1)
            ctx.key("both", pdu[0], spoil, len(pdu))
            ctx.count("both exchanges")
            if spoil:
                if error is None:
                    raise Violation("a corrupted frame gives %r" % (result,), **witness)
                if side == 1:
                    outs[0].apply()
                cable.mangle = None
                time.sleep(3 * GAP)
                # (the request may have been executed once, or not at all when it was cut)
                now = world.image(sid)
                if now != model_image(mod):
                    if side == 1:
                        raise Violation("a request whose answer is corrupted is not executed", timing=True, **witness)
                    raise Violation("a corrupted request is executed", **witness)
                continue
            if error is not None:
                raise Violation("the exchange fails three times: %r" % error, timing=True, **witness)
            response = outs[0].response
            if pdu[0] in (1, 2):
                want = tuple(wire.unpack_bits(response[2:], len(result)))
                if len(result) != struct.unpack(">H", pdu[3:5])[0]:
                    raise Violation("%d values" % len(result), **witness)
            elif pdu[0] in (3, 4):
                want = struct.unpack(">%dH" % ((len(response) - 2) // 2), response[2:])
            else:
                want = tuple(response[1:])
            if result != want:
                raise Violation("the master gets %r instead of %r" % (result, want), **witness)
            outs[0].apply()
            world.check_image(sid, "after an exchange", **witness)
        ctx.sample(dict(frames=[[c.hex() for c in side[-4:]] for side in cable.carried]))
    finally:
        mast.close()
        stop(serv)
        cable.close()


def lifecycle(ctx, rng):
    """start and stop in the middle of anything"""
    lib = ctx.lib
    gc.collect()
    before = nfds()
    db = lib.modbus.Databank()
    slave = db.add_slave(1)
    slave.add_block("h", 3, 0, 10)
    socket = Socket()
    path = SerialPath(lib, db, socket)
    serv, port = path.server, path.port
    started = True
    for _ in range(10):
        if not started:
            serv.start()
            started = True
        when = rng.choice(("idle", "at once", "in a frame", "after a request", "after an answer", "noise"))
        value = rng.randrange(65536)
        slave.set_values("h", 0, [value])
        request = wire.rtu(1, wire.read_pdu(3, 0, 1))
        if when != "at once":
            # it works
            end = time.monotonic() + 5
            while not port.is_open:
                if time.monotonic() > end:
                    raise Violation("the port is not opened by start()", timing=True)
                time.sleep(0.001)
            time.sleep(rng.choice((0, 0.001, GAP)))
            got = path.send(1, wire.read_pdu(3, 0, 1))
            if got != b"\x03\x02" + struct.pack(">H", value):
                raise Violation("after a start, the answer is %r" % got, timing=got is None)
        if when == "in a frame":
            socket.write(request[:rng.randint(1, 7)])
            time.sleep(rng.choice((0, 0.001, 0.005)))
        elif when in ("after a request", "after an answer"):
            socket.write(request)
            time.sleep(rng.choice((0, 0.0005, 0.001, GAP)))
            if when == "after an answer":
                path.frame(2)
        elif when == "noise":
            socket.write(bytes(rng.randrange(256) for _ in range(rng.choice((1, 300)))))
        elif when == "idle":
            time.sleep(rng.choice((0, 0.001, 0.01)))
        lasted = stop(serv)
        started = False
        ctx.count("stops")
        ctx.key("lifecycle", when)
        if lasted > 8:
            raise Violation("stop() lasts %.1f s (%s)" % (lasted, when), timing=True)
        if port.is_open and when != "at once":
            raise Violation("the port is open after stop() (%s)" % when)
        path.drain()
        # nobody answers
        socket.write(request)
        time.sleep(0.002)
        if socket.read(2 * GAP if rng.random() < 0.3 else 0):
            raise Violation("the server answers after stop() (%s)" % when)
        if port.is_open and when != "at once":
            raise Violation("the port is open after stop() (%s)" % when)
    if port.is_open:
        port.close()
    socket.close()
    del path, serv, port
    gc.collect()
    for _ in range(50):
        if nfds() <= before:
            break
        time.sleep(0.1)
    else:
        raise Violation("%d file descriptors before, %d after the cycles of start and stop" % (before, nfds()), timing=True)
    ctx.sample(dict(descriptors=before))


def unplug(ctx, rng):
    """the device disappears and comes back"""
    lib = ctx.lib
    # -- the server
    db = lib.modbus.Databank()
    slave = db.add_slave(1)
    slave.add_block("h", 3, 0, 10)
    socket = Socket()
    path = SerialPath(lib, db, socket)
    pdu = wire.read_pdu(3, 0, 2)
    try:
        for _ in range(rng.randint(1, 3)):
            values = [rng.randrange(65536) for _ in range(2)]
            slave.set_values("h", 0, values)
            want = b"\x03\x04" + wire.regs(values)
            got = path.send(1, pdu)
            if got != want:
                raise Violation("before the port is unplugged, the answer is %r" % got, timing=got is None)
            when = rng.choice(("idle", "in a frame", "during the silence", "after a request"))
            if when == "in a frame":
                socket.write(wire.rtu(1, pdu)[:4])
            elif when == "after a request":
                socket.write(wire.rtu(1, pdu))
            if when != "during the silence":
                time.sleep(rng.choice((0, 0.001, GAP)))
            socket.unplug()
            time.sleep(rng.choice((0, 0.001, 0.02, 0.1)))
            ctx.count("unplugged")
            ctx.key("unplug", when)
            if rng.random() < 0.2:
                lasted = stop(path.server)
                if lasted > 8:
                    raise Violation("stop() lasts %.1f s with an unplugged port" % lasted, timing=True)
                socket.plug()
                path.server.start()
                ctx.count("stopped unplugged")
            else:
                socket.plug()
            got, end = None, time.monotonic() + 20
            while got is None and time.monotonic() < end:
                try:
                    socket.write(wire.rtu(1, pdu))
                    got = path.frame(0.3)
                except OSError:
                    time.sleep(0.01)
            # (an answer may come after the limit)
            time.sleep(3 * GAP)
            path.drain()
            if got != wire.rtu(1, want):
                raise Violation("once the port is plugged again, the answer is %r" % got, timing=True)
        lasted = stop(path.server)
        if lasted > 8:
            raise Violation("stop() lasts %.1f s" % lasted, timing=True)
    finally:
        path.server.stop()
        socket.close()
    # -- the master
    script = Script()
    try:
        port = script.socket.port(timeout=5.0)
        mast = lib.modbus_rtu.RtuMaster(port)
        mast.set_timeout(10.0)
        call = None

        def good():
            call = masters.random_call(rng, (1, 3, 6, 16), small=True)
            script.answer = lambda data: wire.rtu(call.slave, call.answer) if data == wire.rtu(call.slave, call.pdu) else None
            return call, call.run(mast)
        call, result = good()
        if result != call.result:
            raise Violation("%r returns %r" % (call, result))
        during = rng.random() < 0.5
        if during:
            script.answer = lambda data: script.socket.unplug()
        else:
            script.socket.unplug()
        call = masters.random_call(rng, (1, 3, 6, 16), small=True)
        began = time.monotonic()
        try:
            result = call.run(mast)
        except Exception as exc:  # noqa
            error = exc
        else:
            raise Violation("%r returns %r without any device" % (call, result))
        if time.monotonic() - began > 15:
            raise Violation("%r lasts %.1f s without any device" % (call, time.monotonic() - began), timing=True)
        mast.close()
        script.socket.plug()
        for attempt in range(3):
            try:
                call, result = good()
                break
            except Exception as exc:  # noqa
                if attempt == 2:
                    raise Violation("after close() and with the device plugged again, an exchange raises %r" % exc, timing=True,
                                    first=repr(error))
        if result != call.result:
            raise Violation("%r returns %r" % (call, result))
        ctx.count("unplugged masters")
        ctx.sample(dict(error=repr(error), during=during))
        mast.close()
    finally:
        script.close()
