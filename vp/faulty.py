"""A slave which misbehaves in front of the masters over TCP (TcpMaster, RtuOverTcpMaster)"""
import random
import struct
import threading
import time

from vp import masters, wire
from vp.core import Violation, Inconclusive
from vp.net import Peer, delivered, free_port

FCTS = (1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 3, 3, 4)
# with a header which gives the length, answers of any length can be expected
TCP_FCTS = FCTS + (7, 8, 20, 43, 43, "raw")
SHORT = 0.08       # timeout of the exchanges which are expected to end by it
LONG = 20.0        # timeout of the others
SLACK = 8.0        # what an exchange may last over its timeout


class Slave(object):
    """plays the slave: behave(conn, tid, unit, pdu) is called for each request"""

    def __init__(self, framing):
        self.framing = framing
        self.behave = None
        self.requests = []
        self.finished = 0
        self.problem = None
        self.current = None
        self.peer = Peer(self._serve)
        self.port = self.peer.port

    def _serve(self, conn):
        self.current = conn
        data = b""
        while True:
            if self.framing == "tcp":
                (tid, proto, length, unit), pdu = conn.request()
                self.requests.append((tid, unit, pdu))
                if proto != 0 or not 2 <= length <= 254:
                    self.problem = "a request with protocol %d and length %d" % (proto, length)
            else:
                more = conn.sock.recv(1024)
                if not more:
                    return
                data += more
                if len(data) < 4 or wire.crc16(data[:-2]) != data[-2:]:
                    continue
                tid, unit, pdu, data = None, data[0], data[1:-2], b""
                self.requests.append((tid, unit, pdu))
            try:
                self.behave(conn, tid, unit, pdu)
            finally:
                self.finished += 1

    def settle(self, count, all_done=True, limit=5.0):
        """wait that the slave has got a request (it had count of them) and has done what it does with it: an exchange
        which ends by its timeout may be over before, when the machine is busy"""
        end = time.monotonic() + limit
        while time.monotonic() < end:
            got = len(self.requests)
            if got > count and (self.finished >= got or not all_done):
                if self.current is not None:
                    delivered(self.current.sock)
                return
            time.sleep(0.001)

    def frame(self, tid, unit, pdu, **kwargs):
        return wire.mbap(tid, unit, pdu, **kwargs) if self.framing == "tcp" else wire.rtu(unit, pdu)

    def restart(self):
        """stop accepting connections, until resume()"""
        self.peer.close()

    def resume(self):
        for _ in range(200):
            try:
                self.peer = FixedPeer(self._serve, self.port)
                return
            except OSError:
                time.sleep(0.02)
        raise Inconclusive("the port is taken")

    def close(self):
        self.peer.close()


class FixedPeer(Peer):
    def __init__(self, handler, port):
        import socket
        self.handler = handler
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", port))
        self.port = port
        self.sock.listen(20)
        self.conns, self.errors, self.over = [], [], False
        self.thread = threading.Thread(target=self._run, daemon=True)
        self.thread.start()


def poison(rng, call):
    """another answer to the same request: never the right one"""
    for _ in range(50):
        pdu = bytearray(call.answer)
        where = rng.randrange(2 if call.fct in (1, 2, 3, 4, 23) else 1, len(pdu))
        if call.fct not in FCTS:
            pdu[where] ^= 1 << rng.randrange(8)
            return bytes(pdu)
        pdu[where] ^= 1 << rng.randrange(8)
        if decode(call, bytes(pdu)) != call.result:
            return bytes(pdu)
    pdu[-1] ^= 1
    return bytes(pdu)


def decode(call, pdu):
    if call.fct in (1, 2):
        return tuple(wire.unpack_bits(pdu[2:], len(call.result)))
    if call.fct in (3, 4, 23):
        return struct.unpack(call.kwargs.get("data_format") or ">%dH" % len(call.result), pdu[2:])
    return struct.unpack(">%dH" % len(call.result), pdu[1:])


def chunks(rng, data):
    out = []
    while data:
        size = rng.choice((1, 1, 2, 3, 7, 50, 300))
        out.append(data[:size])
        data = data[size:]
    return out


TCP_FAULTS = ("wrong tid", "previous tid", "wrong proto", "wrong unit", "length more", "length less", "length with junk",
              "length zero", "length huge", "length more and close", "length more and close")
RTU_FAULTS = ("bad crc", "bad crc", "wrong address", "corrupted", "short with crc", "crc swapped")
FAULTS = ("wrong function", "truncated and close", "truncated", "silence", "close", "reset", "garbage", "late", "empty",
          "bad count")


def choose(rng, framing):
    what = rng.random()
    if what < 0.30:
        return "good"
    if what < 0.36:
        return "good in pieces"
    if what < 0.42:
        return "exception"
    if what < 0.48:
        return "good and more"
    return rng.choice(FAULTS + (TCP_FAULTS if framing == "tcp" else RTU_FAULTS))


def behaviour(rng, slave, call, what, ctl):
    """the function which answers, and what is expected: "value", "error" or an exception code"""
    seed = rng.random()
    code = rng.choice((1, 2, 3, 4, 5, 6, 10, 11))
    bad = poison(rng, call)
    expect = {"good": "value", "good in pieces": "value", "good and more": "value", "exception": code}.get(what, "error")

    def behave(conn, tid, unit, pdu):
        rnd = random.Random(seed)
        good = slave.frame(tid, unit, call.answer)
        if what == "good":
            conn.send(good)
        elif what == "good in pieces":
            for piece in chunks(rnd, good):
                conn.send(piece)
                if rnd.random() < 0.2:
                    time.sleep(0.001)
        elif what == "good and more":
            # the answer, and things nobody has asked for
            conn.send(good + rnd.choice((good, slave.frame((tid or 0) + 1 & 0xFFFF, unit, bad), b"\0\1\2",
                                         good[:-1], good * 40)))
        elif what == "exception":
            conn.send(slave.frame(tid, unit, bytes([pdu[0] | 0x80, code])))
        elif what == "wrong function":
            conn.send(slave.frame(tid, unit, bytes([rnd.choice([f for f in (1, 2, 3, 4, 5, 6, 15, 16, 22, 23)
                                                                if f != pdu[0]])]) + call.answer[1:]))
        elif what == "bad count":
            if call.fct in (1, 2, 3, 4, 23):
                conn.send(slave.frame(tid, unit, bytes([call.answer[0], call.answer[1] ^ rnd.choice((1, 2, 4, 128))])
                                      + call.answer[2:]))
            else:
                conn.close()
        elif what in ("truncated and close", "truncated"):
            conn.send(good[:rnd.randrange(1, len(good))])
            if what == "truncated and close":
                conn.close()
        elif what == "close":
            conn.close()
        elif what == "reset":
            conn.reset()
        elif what == "garbage":
            junk = bytes(rnd.randrange(256) for _ in range(rnd.choice((1, 5, 9, 30, 400))))
            conn.send(junk)
        elif what == "empty":
            conn.send(slave.frame(tid, unit, b""))
        elif what == "late":
            ctl.wait(60)
            conn.send(good if rnd.random() < 0.5 else slave.frame(tid, unit, bad))
            ctl.done.set()
        elif what == "wrong tid":
            conn.send(slave.frame((tid + rnd.choice((1, 2, 256, 0x8000, 0xFFFF))) & 0xFFFF, unit, bad))
        elif what == "previous tid":
            conn.send(slave.frame((tid - 1) & 0xFFFF, unit, bad) + (good if rnd.random() < 0.5 else b""))
        elif what == "wrong proto":
            conn.send(wire.mbap(tid, unit, bad, protocol=rnd.choice((1, 256, 0xFFFF))))
        elif what == "wrong unit":
            conn.send(wire.mbap(tid, unit ^ rnd.choice((1, 2, 128, 255)), bad))
        elif what == "length more":
            conn.send(wire.mbap(tid, unit, call.answer, length=len(call.answer) + 1 + rnd.randint(1, 20)))
        elif what == "length more and close":
            # it misses some bytes, at the end
            missing = rnd.choice((1, 1, 2, rnd.randint(1, 250)))
            conn.send(wire.mbap(tid, unit, call.answer, length=len(call.answer) + 1 + missing))
            conn.close()
        elif what == "length less":
            conn.send(wire.mbap(tid, unit, call.answer, length=len(call.answer) + 1 - rnd.randint(1, len(call.answer))))
        elif what == "length with junk":
            conn.send(wire.mbap(tid, unit, call.answer + bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 20)))))
        elif what == "length zero":
            conn.send(wire.mbap(tid, unit, call.answer, length=0))
        elif what == "length huge":
            conn.send(wire.mbap(tid, unit, call.answer, length=0xFFFF))
        elif what == "bad crc":
            frame = bytearray(good)
            frame[-rnd.randint(1, 2)] ^= 1 << rnd.randrange(8)
            conn.send(frame)
        elif what == "corrupted":
            frame = bytearray(good)
            frame[rnd.randrange(len(frame))] ^= 1 << rnd.randrange(8)
            conn.send(frame)
        elif what == "crc swapped":
            crc = good[-2:]
            if crc[0] == crc[1]:
                crc = bytes([crc[0] ^ 1, crc[1]])
                conn.send(good[:-2] + crc)
            else:
                conn.send(good[:-2] + crc[::-1])
        elif what == "wrong address":
            conn.send(wire.rtu(unit ^ rnd.choice((1, 2, 128, 255)), bad))
        elif what == "short with crc":
            conn.send(wire.rtu(unit, call.answer[:rnd.randrange(1, len(call.answer))]))
    return behave, expect


class Ctl(object):
    def __init__(self):
        self.event, self.done = threading.Event(), threading.Event()

    def wait(self, limit):
        self.event.wait(limit)


# those which end by the timeout
SLOW = ("truncated", "silence", "garbage", "late", "empty", "length more", "length huge", "corrupted", "short with crc",
        "bad crc", "wrong address", "wrong function", "bad count", "wrong tid", "previous tid", "length less",
        "length with junk", "length zero", "wrong proto", "wrong unit", "crc swapped")


def session(ctx, rng, framing, make_master):
    """a series of exchanges of one master with a slave which behaves or not"""
    slave = Slave(framing)
    master = make_master(slave.port)
    trail = []
    down = False
    try:
        for step in range(rng.randint(6, 14)):
            call = masters.random_call(rng, TCP_FCTS if framing == "tcp" else FCTS, small=rng.random() < 0.7)
            raw = framing == "tcp" and rng.random() < 0.2
            what = choose(rng, framing)
            if trail and trail[-1][1] == "error" and rng.random() < 0.6:
                what = "good"
            if what in ("length less", "length with junk") and (call.fct in (43, 0) or raw):
                # the length is the only thing which tells that it is not the answer
                what = "length more and close"
            ctl = Ctl()
            slave.behave, expect = behaviour(rng, slave, call, what, ctl)
            timeout = SHORT if what in SLOW else LONG
            # what an earlier exchange, or nobody, has left
            stale = None
            if rng.random() < 0.25 and slave.current is not None and slave.requests:
                tid = slave.requests[-1][0]
                left = slave.frame(((tid or 0) + 1) & 0xFFFF, call.slave, poison(rng, call))
                stale = rng.choice((left, left, left[:5], left * 3, b"\xff" * rng.choice((1, 7, 1024, 3000, 5000)),
                                    slave.frame(tid, call.slave, call.answer)))
                try:
                    slave.current.send(stale)
                    delivered(slave.current.sock)
                    time.sleep(0.002)
                except OSError:
                    stale = None
            if rng.random() < 0.04:
                master.close()
            if rng.random() < 0.05:
                # the slave is switched off
                slave.restart()
                down = True
                expect, timeout = "error", LONG
            master.set_timeout(timeout)
            count = len(slave.requests)
            error = result = None
            start = time.monotonic()
            try:
                if raw:
                    result = call.run(master, returns_raw=True)
                    result = call.result if result == call.data else result
                else:
                    result = call.run(master)
            except Exception as exc:  # noqa
                error = exc
            took = time.monotonic() - start
            if timeout == SHORT:
                slave.settle(count, what != "late")
            name = "off" if down else what
            trail.append((name, "ok" if error is None else "error"))
            witness = dict(trail=trail[-6:], call=repr(call)[:400], stale=stale, error=repr(error), result=repr(result)[:200],
                           framing=framing)
            if slave.problem:
                raise Violation(slave.problem, **witness)
            if took > timeout + SLACK and timeout == SHORT:
                raise Violation("the exchange (%s) lasts %.1f s with a timeout of %.2f s" % (name, took, timeout),
                                timing=True, **witness)
            if timeout == SHORT:
                ctx.excess("exchanges which end by their timeout", took - timeout, n=4, **witness)
            if expect == "value":
                if error is not None:
                    raise Violation("the exchange with a well-behaved slave (%s) raises %s: %s" % (
                        name, type(error).__name__, error), timing="timed out" in str(error), **witness)
                if result != call.result:
                    raise Violation("the result is %r instead of %r" % (result, call.result), **witness)
                ctx.count("values")
                if len(trail) > 1 and trail[-2][1] == "error":
                    ctx.count("recoveries")
                if stale:
                    ctx.count("stale data ignored")
                if took > LONG - SLACK:
                    raise Violation("a response which is complete is waited for %.1f s" % took, timing=True, **witness)
            elif expect == "error":
                if error is None:
                    raise Violation("the exchange (%s) returns %r" % (name, result), **witness)
                ctx.count("errors")
                if what == "length more and close" and not down:
                    ctx.count("answers cut by the end of the connection")
            else:
                if type(error).__name__ != "ModbusError" or error.get_exception_code() != expect:
                    raise Violation("the exception response %d gives %r" % (
                        expect, error if error is not None else result), timing="timed out" in str(error), **witness)
                if took > LONG - SLACK:
                    raise Violation("an exception response is waited for %.1f s" % took, timing=True, **witness)
                ctx.count("exceptions")
            if expect == "value" and len(slave.requests) != count + 1:
                raise Violation("%d requests are sent for one exchange" % (len(slave.requests) - count), **witness)
            if expect == "value" and slave.requests[-1][1:] != (call.slave, call.pdu):
                raise Violation("the request %r is sent instead of %s" % (slave.requests[-1], call.pdu.hex()), **witness)
            if what == "late" and not down:
                # it comes before the next request
                ctl.event.set()
                ctl.done.wait(10)
                delivered(slave.current.sock)
                time.sleep(0.002)
            if down:
                slave.resume()
                down = False
            ctx.state("behaviours", name, call.fct)
            ctx.key(name, call.pdu, bool(stale))
        ctx.count("exchanges", len(trail))
        ctx.sample(dict(trail=trail))
    finally:
        ctl.event.set()
        master.close()
        slave.close()
