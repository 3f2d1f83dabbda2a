"""C30: a master opens, keeps, releases and opens again its connection, with the timeout it was told"""
import gc
import os
import resource
import socket
import threading
import time

from vp import masters, net, wire
from vp.core import Inconclusive, Violation
from vp.fakeserial import FakeSerial

LEVEL = "exploration"
RULE = ("a case is a session of 12 operations of one master (open, close, exchanges which are answered at once, late or not at "
        "all, connections cut by the slave, a slave which is down, set_timeout at any time, destruction) on real sockets with "
        "a scripted slave or on a scripted serial port: number and life of the connections (seen by the slave), openings of "
        "the port, duration of the failing exchanges, timeout of each read of the port, descriptors; distinct by the list of "
        "operations")
ASSUMPTIONS = ["an exchange may last 10 s over its timeout (a loaded machine), not 1.5 s several times running", "answers given 1 s before the timeout or "
               "sooner are in time"]
SLACK = 10.0


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="socket", n=300 * k, budget=22 * k, min=15, stall=120, name="socket-%d" % p) for p in range(5)] +
            [dict(kind="serial", n=2500 * k, budget=18 * k, min=100, name="serial-%d" % p) for p in range(2)] +
            [dict(kind="down", n=60 * k, budget=18 * k, min=3, stall=120)] +
            [dict(kind="defaults", n=8 * k, budget=18 * k, min=1, stall=120)] +
            [dict(kind="high", n=3 * k, budget=18 * k, min=1, stall=120)] +
            [dict(kind="idle", n=1, budget=25 * k, min=1, stall=400)])


def need(tier):
    return {"good": 2000, "silent": 150, "late answers": 60, "closed": 300, "opened": 300, "kept": 800, "reopened": 200,
            "timeouts set": 300, "destroyed": 100, "cut": 60, "refused connections": 50, "port opened": 200, "idle": 12, "high descriptors": 10}


def case(ctx, rng, i):
    if ctx.kind == "serial":
        return serial_session(ctx, rng)
    if ctx.kind == "down":
        return down(ctx, rng)
    if ctx.kind == "defaults":
        return defaults(ctx, rng)
    if ctx.kind == "idle":
        return idle(ctx, rng)
    if ctx.kind == "high":
        return high(ctx, rng)
    return socket_session(ctx, rng)


class Played(object):
    """the slave: each connection is (thread, ended)"""

    def __init__(self, framing):
        self.framing, self.how, self.seen = framing, None, []
        self.ended = []                   # one event for each connection
        self.peer = net.Peer(self._serve)
        self.port = self.peer.port

    def _serve(self, conn):
        ended = threading.Event()
        self.ended.append(ended)
        conn.ended = ended
        try:
            while True:
                if self.framing == "tcp":
                    (tid, _, _, unit), pdu = conn.request()
                else:
                    data = b""
                    while len(data) < 4 or wire.crc16(data[:-2]) != data[-2:]:
                        more = conn.sock.recv(1024)
                        if not more:
                            raise EOFError()
                        data += more
                    tid, unit, pdu = None, data[0], data[1:-2]
                self.seen.append((conn.num, unit, pdu))
                delay, answer = self.how(pdu)
                if delay:
                    time.sleep(delay)
                if answer is not None:
                    conn.send(wire.mbap(tid, unit, answer) if self.framing == "tcp" else wire.rtu(unit, answer))
        finally:
            ended.set()

    def live(self):
        return [k for k, e in enumerate(self.ended) if not e.is_set()]


def make(ctx, framing, port, timeout):
    lib = ctx.lib
    cls = lib.modbus_tcp.TcpMaster if framing == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
    return cls("127.0.0.1", port, timeout)


def socket_session(ctx, rng):
    framing = rng.choice(("tcp", "tcp", "rtu"))
    slave = Played(framing)
    done = []
    try:
        _socket_session(ctx, rng, framing, slave, done)
        if slave.peer.errors:
            raise slave.peer.errors[0]
    except Violation as exc:
        exc.witness["operations"] = [repr(d) for d in done]
        raise
    finally:
        slave.peer.close()
    ctx.key("socket", framing, tuple(d[0] for d in done))


def wait(cond, limit=SLACK):
    end = time.monotonic() + limit
    while not cond():
        if time.monotonic() > end:
            return False
        time.sleep(0.002)
    return True


def high(ctx, rng):
    """masters of a process which has more than 1024 open files"""
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    if hard != resource.RLIM_INFINITY and hard < 2000:
        raise Inconclusive("not enough descriptors")
    eaten, todo = [], []
    try:
        resource.setrlimit(resource.RLIMIT_NOFILE, (2000, hard))
        while not eaten or eaten[-1] < 1030:
            eaten.append(os.open("/dev/null", os.O_RDONLY))
        for framing in ("tcp", "rtu", "tcp"):
            slave = Played(framing)
            master = make(ctx, framing, slave.port, 20.0)
            todo.append((framing, slave, master))
        for step in range(rng.randint(4, 8)):
            for framing, slave, master in todo:
                call = masters.random_call(rng, fcts=(1, 3, 5, 6, 15, 16, 22, 23))
                slave.how = lambda pdu, call=call: (0, call.answer)
                exchange(call, master, framing, 0)
                if len(slave.ended) != 1 or len(slave.seen) != step + 1:
                    raise Violation("%s master with a descriptor above 1024: %d connections and %d requests for %d exchanges" % (
                        framing, len(slave.ended), len(slave.seen), step + 1))
                ctx.count("high descriptors")
        ctx.key("high", ctx.i)
    finally:
        for fil in eaten:
            os.close(fil)
        for _, slave, master in todo:
            master.close()
            slave.peer.close()
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))


def idle(ctx, rng):
    """masters which do nothing for a long time between two exchanges keep what they have opened"""
    pauses = [1, 2, 4, 7, 11, 16, 20] if ctx.tier == "quick" else [10, 31, 61, 125, 200, 301]
    todo = []
    start = time.monotonic()
    try:
        for pause in pauses:
            for framing in ("tcp", "rtu", "serial"):
                call = masters.random_call(rng, fcts=(1, 3, 5, 6, 15, 16, 22, 23))
                if framing == "serial":
                    slave = FakeSerial(is_open=False)
                    slave.seen = []
                    master = ctx.lib.modbus_rtu.RtuMaster(slave)
                    master.set_timeout(5.0)

                    def written(data, slave=slave, call=call):
                        slave.seen.append(bytes(data))
                        return [wire.rtu(data[0], call.answer)]
                    slave.on_write = written
                else:
                    slave = Played(framing)
                    slave.how = lambda pdu, call=call: (0, call.answer)
                    master = make(ctx, framing, slave.port, rng.choice((2.0, 5.0, 30.0)) if pause > 2 else 20.0)
                todo.append((pause, framing, slave, master, call))
                exchange(call, master, framing, 0)
        for pause, framing, slave, master, call in todo:
            time.sleep(max(0, start + pause - time.monotonic()))
            # with these timeouts the failures are the ones of a loaded machine
            if framing != "serial":
                master.set_timeout(20.0)
            exchange(call, master, framing, pause)
            made = slave.opened if framing == "serial" else len(slave.ended)
            if made != 1 or len(slave.seen) != 2:
                raise Violation("%s master: %d connections or openings and %d requests on the line for two exchanges "
                                "separated by %d s" % (framing, made, len(slave.seen), pause))
            ctx.count("idle")
            ctx.key("idle", framing, pause)
    finally:
        for _, framing, slave, master, _ in todo:
            master.close()
            if framing != "serial":
                slave.peer.close()


def defaults(ctx, rng):
    """masters and servers of TCP made without arguments: this computer, port 502, 5 seconds"""
    lib = ctx.lib
    for cls in (lib.modbus_tcp.TcpMaster, lib.modbus_rtu_over_tcp.RtuOverTcpMaster):
        for args in ((), ("127.0.0.1",), ("127.0.0.1", 503)):
            if cls(*args).get_timeout() != 5:
                raise Violation("a %s made without timeout has a timeout of %r s instead of 5" % (
                    cls.__name__, cls(*args).get_timeout()))
    probe = socket.socket()
    try:
        probe.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        probe.bind(("", 502))
    except OSError:
        # not allowed here, or used by somebody else
        ctx.count("no port 502")
        return
    finally:
        probe.close()
    cls = rng.choice((lib.modbus_tcp.TcpMaster, lib.modbus_tcp.TcpMaster, lib.modbus_rtu_over_tcp.RtuOverTcpMaster))
    what = rng.choice(("server", "server", "silent"))
    ctx.key("defaults", cls.__name__, what)
    if what == "server" and cls is lib.modbus_tcp.TcpMaster:
        databank = lib.modbus.Databank()
        databank.add_slave(1).add_block("h", 3, 0, 10)
        values = tuple(rng.randrange(65536) for _ in range(10))
        databank.get_slave(1).set_values("h", 0, values)
        given = dict(databank=databank)
        if rng.random() < 0.5:
            given["address"] = rng.choice(("", "127.0.0.1"))
        server = lib.modbus_tcp.TcpServer(**given)
        server.start()
        try:
            place = "127.0.0.1" if given.get("address") else "127.0.0.9" if rng.random() < 0.7 else "127.0.0.1"
            if not net.wait_listening(502, place):
                raise Violation("a TcpServer without port%s does not listen to the port 502 of %s" % (
                    "" if "address" in given else " and address", place), timing=True)
            master = cls() if place == "127.0.0.1" else cls(place)
            try:
                got = master.execute(1, 3, 0, 10)
            except Exception as exc:  # noqa
                raise Violation("a master without arguments (%r) can not ask a server without arguments: %s: %s" % (
                    cls.__name__, type(exc).__name__, exc), timing=True)
            finally:
                master.close()
            if got != values:
                raise Violation("the exchange gives %r instead of %r" % (got, values))
        finally:
            net.stop_server(server)
        ctx.count("defaults")
        return
    # a slave which says nothing
    listener = socket.socket()
    try:
        listener.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        listener.bind(("127.0.0.1", 502))
        listener.listen(5)
        master = cls(**rng.choice(({}, dict(host="127.0.0.1"), dict(port=502))))
        began = time.monotonic()
        try:
            got = master.execute(1, 3, 0, 1)
        except Exception as exc:  # noqa
            lasted = time.monotonic() - began
            if not 4.9 <= lasted <= 5 + SLACK or isinstance(exc, ConnectionError):
                raise Violation("a %s without timeout fails after %.1f s instead of 5: %r" % (cls.__name__, lasted, exc),
                                timing=True)
        else:
            raise Violation("a silent slave gives %r" % (got,))
        finally:
            master.close()
        ctx.count("defaults")
    finally:
        listener.close()


def exchange(call, master, framing, pause):
    try:
        got = call.run(master)
    except Exception as exc:
        raise Violation("%s master: the exchange fails after %d s of silence: %r" % (framing, pause, exc), timing=True)
    if tuple(got) != tuple(call.result):
        raise Violation("%s master: %r returns %r after %d s of silence" % (framing, call, got, pause), expected=call.result)


def _socket_session(ctx, rng, framing, slave, done):
    timeout = rng.choice((5.0, 20, 30.0))
    master = make(ctx, framing, slave.port, timeout)
    ctx.check(master.get_timeout() == timeout, "get_timeout() is not the timeout given at construction")
    closed = True                # the master has no connection
    fresh = True                 # a new connection may be made by the next exchange
    for _ in range(12):
        op = rng.choice(("good",) * 5 + ("late", "silent", "close", "close", "open", "set", "set", "cut", "new"))
        done.append((op, master.get_timeout()))
        before = len(slave.ended)
        if op in ("good", "late"):
            if timeout < 1.5:
                timeout = rng.choice((5.0, 12.0, 60))
                master.set_timeout(timeout)
                done.append(("set", timeout))
                ctx.count("timeouts set")
            delay = rng.choice((0.05, 0.25, 0.4)) if op == "late" else 0
            call = masters.random_call(rng, fcts=(1, 3, 5, 6, 15, 16, 22, 23))
            slave.how = lambda pdu: (delay, call.answer)
            try:
                got = call.run(master)
            except Exception as exc:
                raise Violation("an exchange answered after %.2f s fails with a timeout of %r: %r" % (delay, timeout, exc), timing=True)
            if tuple(got) != tuple(call.result):
                raise Violation("%r returns %r" % (call, got), expected=call.result)
            made = len(slave.ended) - before
            if made > (1 if fresh else 0):
                raise Violation("%d connections are made by an exchange although %s" % (
                    made, "one is enough" if fresh else "the connection of the master is open"))
            ctx.count("good")
            if op == "late":
                ctx.count("late answers")
            if not made:
                ctx.count("kept")
            elif before:
                ctx.count("reopened")
            fresh = closed = False
        elif op == "silent":
            if timeout > 1.0:
                timeout = rng.choice((0.1, 0.15, 0.3))
                master.set_timeout(timeout)
                done.append(("set", timeout))
                ctx.count("timeouts set")
            slave.how = lambda pdu: (0, None)
            heard = len(slave.seen)
            start = time.monotonic()
            try:
                got = master.execute(1, 3, 0, 2)
            except Exception:
                pass
            else:
                raise Violation("an exchange without answer returns %r" % (got,))
            # (a busy machine: the slave may have got it later, it must not answer it in the next exchange)
            wait(lambda: len(slave.seen) > heard, 5)
            took = time.monotonic() - start
            if took > timeout + SLACK:
                raise Violation("an exchange without answer lasts %.1f s with a timeout of %r" % (took, timeout), timing=True)
            ctx.excess("exchanges without answer", took - timeout, n=4)
            if took < timeout * 0.8:
                raise Violation("the master waits %.3f s for the answer, with a timeout of %r" % (took, timeout))
            ctx.count("silent")
            fresh, closed = True, False
        elif op == "close":
            for _ in range(rng.choice((1, 1, 2))):
                master.close()
            if not wait(lambda: not slave.live()):
                raise Violation("the connection is still there %d s after close()" % SLACK, timing=True)
            ctx.count("closed")
            fresh = closed = True
        elif op == "open":
            opened = bool(slave.live())
            for _ in range(rng.choice((1, 1, 2))):
                master.open()
            if closed and not wait(lambda: slave.live()):
                raise Violation("there is no connection after open()", timing=True)
            if len(slave.ended) - before > 1 or (opened and not fresh and len(slave.ended) != before):
                raise Violation("open() makes another connection")
            ctx.count("opened")
            if closed:
                # the next exchange uses the connection which was made
                fresh = closed = False
        elif op == "set":
            timeout = rng.choice((0.1, 0.25, 2.0, 10, 30.0))
            master.set_timeout(timeout)
            if master.get_timeout() != timeout:
                raise Violation("get_timeout() is %r after set_timeout(%r)" % (master.get_timeout(), timeout))
            ctx.count("timeouts set")
        elif op == "cut":
            for conn in list(slave.peer.conns):
                conn.close()
            wait(lambda: not slave.live())
            ctx.count("cut")
            fresh = True
        else:
            how = rng.choice(("close", "drop", "drop"))
            if how == "close":
                master.close()
            del master
            gc.collect()
            if not wait(lambda: not slave.live()):
                raise Violation("the connection is still there %d s after the end of the master" % SLACK, timing=True)
            master = make(ctx, framing, slave.port, timeout)
            ctx.count("destroyed")
            fresh = closed = True
        if len(slave.live()) > 1:
            # the end of a former connection may not have been seen yet
            if not wait(lambda: len(slave.live()) <= 1):
                raise Violation("the master keeps %d connections" % len(slave.live()), timing=True)
    master.close()
    if not wait(lambda: not slave.live()):
        raise Violation("connections are still there %d s after close()" % SLACK, timing=True)


def down(ctx, rng):
    """the slave is not there: errors in time, nothing left, and the connection when it comes back"""
    framing = rng.choice(("tcp", "rtu"))
    port = net.free_port()
    gc.collect()
    base = net.nfds()
    master = make(ctx, framing, port, 5.0)
    for k in range(rng.choice((3, 30))):
        try:
            if rng.random() < 0.3:
                master.open()
            else:
                master.execute(1, 3, 0, 1)
        except Exception:
            ctx.count("refused connections")
        else:
            raise Violation("an exchange with nobody does not fail")
        if rng.random() < 0.2:
            master.close()
    grown = net.nfds() - base
    if grown > 1:
        raise Violation("%d descriptors are left by connections which were refused" % grown)
    server = ctx.lib.modbus_tcp.TcpServer(port=port, address="127.0.0.1") if framing == "tcp" else None
    if server is not None:
        server.add_slave(1).add_block("h", 3, 0, 4)
        server.get_slave(1).set_values("h", 0, [4, 3, 2, 1])
        server.start()
        try:
            if net.wait_listening(port):
                got = master.execute(1, 3, 0, 4)
                if tuple(got) != (4, 3, 2, 1):
                    raise Violation("the master returns %r" % (got,))
                ctx.count("good")
        finally:
            net.stop_server(server)
    master.close()
    master = server = None
    gc.collect()
    if not wait(lambda: net.nfds() <= base):
        raise Violation("%d descriptors are left by a master which has ended" % (net.nfds() - base), timing=True)
    ctx.key("down", framing, k)


class Port(FakeSerial):
    """notes the timeout of each read"""

    def read(self, size=1):
        self.timeouts.add(self.timeout)
        return FakeSerial.read(self, size)


def serial_session(ctx, rng):
    port = Port(is_open=rng.random() < 0.5, timeout=rng.choice((None, 0, 0.5)), baudrate=rng.choice((1200, 9600, 115200)))
    port.timeouts = set()
    port.max_reads = 10 ** 9
    answer = [None]
    port.on_write = lambda data: answer[0]
    master = ctx.lib.modbus_rtu.RtuMaster(port)
    timeout = None
    done = []
    try:
        for _ in range(14):
            op = rng.choice(("good",) * 5 + ("silent", "close", "close", "open", "set", "set", "fault", "new"))
            done.append(op)
            was, opened, closings = port.is_open, port.opened, sum(1 for e in port.log if e == ("close",))
            port.timeouts.clear()
            if op in ("good", "silent"):
                call = masters.random_call(rng, fcts=(1, 3, 5, 6, 15, 16, 22, 23))
                answer[0] = [wire.rtu(call.slave, call.answer)] if op == "good" else None
                port.max_reads = port.reads + 2000
                error = got = None
                try:
                    got = call.run(master)
                except Exception as exc:
                    error = exc
                if op == "good" and error is not None:
                    raise Violation("an exchange which is answered fails: %r" % error)
                if op == "good" and tuple(got) != tuple(call.result):
                    raise Violation("%r returns %r" % (call, got), expected=call.result)
                if op == "silent" and error is None:
                    raise Violation("an exchange without answer returns %r" % (got,))
                error = None          # (its traceback holds the master)
                if not port.is_open:
                    raise Violation("the port is closed after an exchange")
                if port.opened != opened + (0 if was else 1):
                    raise Violation("the port is opened %d times by an exchange" % (port.opened - opened))
                if sum(1 for e in port.log if e == ("close",)) != closings:
                    raise Violation("the port is closed by an exchange")
                if timeout is not None and port.timeouts - {timeout}:
                    raise Violation("the answers are read with a timeout of %r instead of %r" % (port.timeouts, timeout))
                ctx.count("good" if op == "good" else "silent")
                ctx.count("kept" if was else "port opened")
            elif op == "close":
                used = any(d in ("good", "silent", "open", "fault") for d in done[since(done):-1])
                for _ in range(rng.choice((1, 1, 2))):
                    master.close()
                if used and port.is_open:
                    raise Violation("the port is open after close()")
                ctx.count("closed")
            elif op == "open":
                for _ in range(rng.choice((1, 2))):
                    master.open()
                if not port.is_open or port.opened != opened + (0 if was else 1):
                    raise Violation("open() %s" % ("opens the port %d times" % (port.opened - opened) if port.is_open
                                                   else "does not open the port"))
                ctx.count("opened")
            elif op == "set":
                timeout = rng.choice((0.003, 0.05, 1.0, 2))
                if rng.random() < 0.3:
                    master.set_timeout(timeout, use_sw_timeout=False)
                else:
                    master.set_timeout(timeout)
                if master.get_timeout() != timeout or port.timeout != timeout:
                    raise Violation("the timeout is %r for the master and %r for the port after set_timeout(%r)" % (
                        master.get_timeout(), port.timeout, timeout))
                ctx.count("timeouts set")
            elif op == "fault":
                # an error of the port: it is given to the caller, the next exchanges go on
                port.fault(rng.choice(("write", "read")), IOError("broken"))
                answer[0] = [wire.rtu(1, b"\x03\x02\x00\x01")]
                try:
                    master.execute(1, 3, 0, 1)
                except Exception:
                    pass
                else:
                    raise Violation("an exchange returns although the port fails")
                del port.faults[:]
                ctx.count("cut")
            else:
                used = any(d in ("good", "silent", "open", "fault") for d in done[since(done):-1])
                del master
                gc.collect()
                if used and port.is_open:
                    raise Violation("the port is open after the end of the master")
                master = ctx.lib.modbus_rtu.RtuMaster(port)
                timeout = None
                ctx.count("destroyed")
    except Violation as exc:
        exc.witness["operations"] = done
        raise
    ctx.key("serial", tuple(done))


def since(done):
    """the operations since the master was created or closed"""
    for k in range(len(done) - 2, -1, -1):
        if done[k] in ("close", "new"):
            return k + 1
    return 0
