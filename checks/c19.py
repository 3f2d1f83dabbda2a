"""C19: a server can be started, stopped and restarted at any time"""
import errno
import random
import socket
import threading
import time

from vp import sched, wire
from vp.core import Violation, Inconclusive
from vp.fakeserial import FakeSerial, GAP, SerialException
from vp.net import RawClient, tcp_server, wait_listening, nfds

LEVEL = "exploration"
RULE = ("a case is a sequence of start and stop of a server with traffic: a RtuServer on a scripted port under a controlled "
        "scheduler, or with free threads; a TcpServer with clients which send bursts, connect or disappear. After stop(): the "
        "thread of the library has ended, port and sockets are released, nothing is executed any more; after start(): "
        "requests are served with the data kept; distinct by (sequence, schedule)")
ASSUMPTIONS = ["start and stop of a server are called by one thread at a time",
               "stop() may last 30 s of wall clock at most (1000 s of virtual time under the scheduler)"]


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="sched", n=3000 * k, budget=25 * k, min=60, mode="sched", stall=90, name="sched-%d" % p)
             for p in range(4)] +
            [dict(kind="crash", n=60 * k, budget=25 * k, min=8, stall=120)] +
            [dict(kind="address", n=150 * k, budget=20 * k, min=8, stall=90)] +
            [dict(kind="rtu", n=300 * k, budget=25 * k, min=10, stall=90)] +
            [dict(kind="tcp", n=200 * k, budget=30 * k, min=3, stall=120, name="tcp-%d" % p) for p in range(3)])


def need(tier):
    return {"stops": 1000, "restarts": 500, "stops in traffic": 300, "idle stops": 50, "tcp stops": 30, "immediate stops": 100, "lost ports": 100, "stops in long requests": 40, "crashes": 20,
            "served addresses": 20, "refused addresses": 12}


def case(ctx, rng, i):
    if ctx.kind == "tcp":
        return tcp(ctx, rng)
    if ctx.kind == "crash":
        return crash(ctx, rng)
    if ctx.kind == "address":
        return address(ctx, rng)
    return rtu(ctx, rng, ctx.kind == "sched")


class Broken(BaseException):
    pass


def crash(ctx, rng):
    """the thread of the server is ended by a function of the application: stop() and start() work as usual"""
    lib = ctx.lib
    rtu = ctx.i % 2
    before = set(threading.enumerate())
    value = [0]
    trail = []
    hook = None
    if rtu:
        port = FakeSerial()
        server = lib.modbus_rtu.RtuServer(port, interframe_multiplier=0.05)
    else:
        server, port = tcp_server(lib, start=False)
    slave = server.add_slave(1)
    slave.add_block("h", 3, 0, 4)
    errors = (ValueError, OSError, KeyError, SystemExit, Broken)

    def fail(args):
        raise what("of the application")

    def exchange(answered=True):
        value[0] += 1
        pdu = wire.write_reg_pdu(value[0] % 4, value[0])
        if rtu:
            done = len(port.writes)
            port.feed([wire.rtu(1, pdu), GAP])
            if answered:
                end = time.monotonic() + 30
                while len(port.writes) == done and time.monotonic() < end:
                    time.sleep(0.002)
                if port.writes[done:] != [wire.rtu(1, pdu)]:
                    raise Violation("the request is answered by %r" % (port.writes[done:],), timing=not port.writes[done:],
                                    trail=trail)
            return None
        client = RawClient(port)
        client.send(wire.mbap(value[0], 1, pdu))
        if not answered:
            return client
        frame = client.frame()
        client.close()
        if frame != wire.mbap(value[0], 1, pdu):
            raise Violation("the request is answered by %s" % frame.hex(), trail=trail)
        return None

    def quiet(args):
        pass
    silent, threading.excepthook = threading.excepthook, quiet
    client = None
    try:
        for _ in range(rng.randint(1, 3)):
            what = rng.choice(errors)
            trail.append("start")
            server.start()
            if not rtu and not wait_listening(port):
                raise Violation("the server does not listen after start()", timing=True, trail=trail)
            if rng.random() < 0.7:
                exchange()
            # -- the end of the thread
            fatal = issubclass(what, (SystemExit, Broken))
            names = ["modbus_rtu.RtuServer.on_error" if rtu else "modbus_tcp.TcpServer.on_error"]
            if not fatal:
                # an error which is not one of the request: of the functions themselves
                names.append("modbus_rtu.RtuServer.after_read" if rtu else "modbus_tcp.TcpServer.after_recv")
            else:
                names = [rng.choice(("modbus.Slave.handle_request", "modbus.Server.before_handle_request"))]
            if rng.random() < 0.3:
                names.append("modbus.Server.on_exception")
            trail.append((what.__name__, names))
            thread = server._thread if hasattr(server, "_thread") else None
            for name in names:
                lib.hooks.install_hook(name, fail)
            hook = names
            client = exchange(False)
            if thread is not None:
                thread.join(5)
            else:
                time.sleep(0.5)
            for name in names:
                lib.hooks.uninstall_hook(name, fail)
            hook = None
            trail.append("stop")
            bounded(server.stop, trail)
            ctx.count("crashes")
            ctx.count("stops")
            left = [t for t in threading.enumerate() if t not in before]
            if left:
                raise Violation("a thread of the server is alive after stop(): %r" % (left,), trail=trail)
            if rtu:
                if port.is_open:
                    raise Violation("the port is open after stop()", trail=trail)
            else:
                sock = socket.socket()
                sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    sock.bind(("127.0.0.1", port))
                    sock.listen(1)
                except OSError as exc:
                    raise Violation("the port is not released by stop(): %s" % exc, trail=trail)
                finally:
                    sock.close()
                if client.closed(10) is None:
                    raise Violation("a connection is not closed by stop()", timing=True, trail=trail)
                client.close()
            ctx.key("crash", rtu, what.__name__, tuple(names))
        trail.append("start")
        try:
            server.start()
        except RuntimeError as exc:
            raise Violation("the server can not be started again: %s" % exc, trail=trail)
        if not rtu and not wait_listening(port):
            raise Violation("the server does not listen after start()", timing=True, trail=trail)
        exchange()
        bounded(server.stop, trail)
    finally:
        threading.excepthook = silent
        for name in hook or ():
            lib.hooks.uninstall_hook(name, fail)
        if client:
            client.close()
        threading.Thread(target=server.stop, daemon=True).start()


# ------------------------------------------------------------------------------------------------------ RTU

class Rtu(object):
    """a RtuServer and what happens to it"""

    def __init__(self, ctx, rng, managed):
        lib = ctx.lib
        self.ctx, self.rng, self.managed, self.lib = ctx, rng, managed, lib
        self.time = sched.time_shim() if managed else time
        self.port = FakeSerial(threading=sched.threading_shim() if managed else None, is_open=rng.random() < 0.3)
        self.port.flush_on_open = True
        self.server = lib.modbus_rtu.RtuServer(self.port, interframe_multiplier=0.5)
        self.slave = self.server.add_slave(1)
        self.slave.add_block("h", 3, 0, 10)
        self.executed = []
        self.running = False
        self.value = 0
        self.trail = []
        self.lasting, self.inside = [], False

    def spy(self, args):
        self.executed.append(bytes(args[1]))
        if self.lasting:
            # a long operation of the application
            self.inside = True
            self.time.sleep(self.lasting.pop())
            self.inside = False

    def next(self):
        self.value += 1
        return wire.write_reg_pdu(self.rng.randrange(10), self.value)

    def exchange(self):
        """a request which must be served"""
        pdu = self.next()
        port = self.port
        limit = 0
        while not port.is_open:
            self.time.sleep(0.01)
            limit += 1
            if limit > 3000:
                raise Violation("the port is not opened by start()", timing=not self.managed, trail=self.trail)
        before = len(port.writes)
        limit = 0
        opened = None
        while wire.rtu(1, pdu) not in port.writes[before:]:
            if port.opened != opened and port.is_open:
                # what was waiting in the port is lost when it is opened again. The line is silent first
                opened = port.opened
                port.feed([GAP, GAP, wire.rtu(1, pdu), GAP])
            self.time.sleep(0.01)
            limit += 1
            if limit > 3000:
                raise Violation("the request %s is not answered after start(): executed %d, written %s" % (
                    pdu.hex(), self.executed.count(pdu), [w.hex() for w in port.writes[before:]]),
                    timing=not self.managed, trail=self.trail)
        self.ctx.count("served")

    def stop(self):
        self.server.stop()
        # -- it is over
        self.running = False
        del self.lasting[:]
        if self.inside:
            raise Violation("a request is being executed after stop()", trail=self.trail)
        del self.port.faults[:]
        ops, done = len(self.port.log), len(self.executed)
        reads = self.port.reads
        if self.managed:
            alive = [t.name for t in sched._current.tasks if not t.done and t.name not in ("control", "traffic")]
            # the target of the thread has ended: no more of its code is executed
            if alive:
                raise Violation("the thread %s is alive after stop()" % alive, trail=self.trail)
        if self.port.is_open and "start" in self.trail:
            raise Violation("the port is open after stop()", trail=self.trail)
        for _ in range(3):
            self.time.sleep(0.001 if not self.managed else 0.2)
        if len(self.executed) != done or [x for x in self.port.log[ops:] if x[0] == "write"] or self.port.reads != reads:
            raise Violation("the server works after stop()", trail=self.trail)


def address(ctx, rng):
    """servers of one port on several addresses of the loopback: each one is reached by its own address only"""
    lib = ctx.lib
    holder = socket.socket()
    holder.bind(("", 0))
    port = holder.getsockname()[1]
    holder.close()
    wild = rng.random() < 0.2
    hosts = ["127.0.%d.%d" % (rng.randint(1, 250), k) for k in rng.sample(range(2, 250), 4)]
    mine = [""] if wild else hosts[:3]
    servers, running, trail = {}, set(), []
    for num, host in enumerate(mine):
        given = ((port, host) if rng.random() < 0.5 else (port,))
        server = lib.modbus_tcp.TcpServer(*given, **(dict(address=host) if len(given) == 1 and host else {}))
        server.add_slave(1).add_block("h", 3, 0, 4)
        server.get_slave(1).set_values("h", 0, 100 + num)
        servers[host] = server

    def ask(host):
        """the value which is served there, or None"""
        try:
            client = RawClient(port, host)
        except ConnectionRefusedError:
            return None
        try:
            client.send(wire.mbap(7, 1, wire.read_pdu(3, 0, 1)))
            frame = client.frame(what="an answer of the server of %s" % host)
        except ConnectionError:
            return None
        finally:
            client.close()
        if len(frame) != 11 or frame[:9] != wire.mbap(7, 1, b"\3\2\0\0")[:9]:
            raise Violation("the answer is %s" % frame.hex(), trail=trail)
        return frame[9] * 256 + frame[10]

    try:
        for _ in range(rng.randint(2, 4)):
            host = rng.choice(mine)
            server = servers[host]
            if host in running:
                bounded(server.stop, trail)
                running.discard(host)
                trail.append(("stop", host))
            else:
                server.start()
                trail.append(("start", host))
                if not wait_listening(port, host or rng.choice(hosts)):
                    for other in ["127.0.0.1"] + [h for h in hosts if h not in running]:
                        if ask(other) == 100 + mine.index(host):
                            raise Violation("the server of the address %r is reached at %s instead" % (host, other),
                                            trail=trail)
                    # the port may have been taken meanwhile
                    probe = socket.socket()
                    probe.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                    try:
                        probe.bind((host, port))
                        probe.listen(1)
                    except OSError:
                        ctx.count("ports taken")
                        return
                    finally:
                        probe.close()
                    raise Violation("the server is not reached at its address %r" % host, trail=trail, timing=True)
                running.add(host)
            for other in hosts:
                want = (100 if running else None) if wild else 100 + mine.index(other) if other in running else None
                got = ask(other)
                if got != want:
                    raise Violation("%s is reached at the address %s instead of %s" % (
                        "the server %d" % (got - 100) if got is not None else "nothing", other,
                        "the server %d" % (want - 100) if want is not None else "nothing"),
                        trail=trail, servers=mine)
                ctx.count("refused addresses" if want is None else "served addresses")
        ctx.key("address", wild, len(trail), tuple(sorted(running)))
    finally:
        for host in running:
            bounded(servers[host].stop, trail)


def rtu(ctx, rng, managed):
    lib = ctx.lib
    box = Rtu(ctx, rng, managed)
    over = []
    steps = [rng.choice(("start", "stop", "stop", "exchange", "wait", "noise", "error", "lost", "lost", "long")) for _ in range(rng.randint(4, 9))]
    if rng.random() < 0.4:
        # quickly
        steps = [x for _ in range(rng.randint(2, 5)) for x in ("start", "stop")] + steps[:3]
    delays = [rng.choice((0, 0, 0.001, 0.01, 0.3)) for _ in steps]
    traffic_plan = [(rng.choice((0, 0.001, 0.01, 0.05)), rng.randint(1, 3), rng.random() < 0.5) for _ in range(
        rng.choice((0, 3, 10)))]
    refused = [rng.choice((0, 0, 1, 2, 5)) for _ in steps]
    before = set(threading.enumerate())

    def control():
        try:
            for step, delay in zip(steps, delays):
                if step == "start" and not box.running:
                    box.trail.append("start")
                    restart = box.trail.count("start") > 1
                    box.server.start()
                    box.running = True
                    ctx.count("restarts" if restart else "starts")
                elif step == "stop":
                    box.trail.append("stop")
                    ctx.count("stops")
                    ctx.count("immediate stops" if box.trail[-2:-1] == ["start"] else
                              "stops of a stopped server" if not box.running else "stops in traffic" if traffic_plan
                              else "idle stops")
                    box.stop()
                elif step == "exchange" and box.running and not traffic_plan:
                    box.trail.append("exchange")
                    box.exchange()
                elif step == "noise":
                    box.trail.append("noise")
                    box.port.feed([bytes([box.rng.randrange(256)]), GAP])
                elif step == "error" and box.running:
                    box.trail.append("error")
                    box.port.feed([SerialException("failure"), GAP])
                elif step == "lost" and box.running and box.port.is_open:
                    # until it is closed and opened again, which may fail too
                    box.trail.append("lost")
                    for _ in range(refused.pop() if refused else 0):
                        box.port.fault("open", SerialException("not there"))
                    box.port.kill(SerialException("lost"))
                    ctx.count("lost ports")
                elif step == "long" and box.running and box.port.is_open:
                    box.lasting[:] = [rng.choice((0.5, 3, 12, 70)) if managed else 0.05]
                    box.trail.append("a request of %r s" % box.lasting[0])
                    box.port.feed([wire.rtu(1, box.next()), GAP])
                    box.time.sleep(delay or 0.1)
                    del box.lasting[:]
                    if box.inside:
                        ctx.count("stops in long requests")
                        ctx.count("stops")
                        box.trail.append("stop")
                        box.stop()
                else:
                    box.trail.append("wait %s" % delay)
                    box.time.sleep(delay)
            over.append(True)
            if not box.running:
                box.trail.append("start")
                box.server.start()
                box.running = True
            box.trail.append("last exchange")
            while not traffic_done:
                box.time.sleep(0.01)
            box.exchange()
            box.trail.append("stop")
            box.stop()
        finally:
            over.append(True)

    traffic_done = [] if traffic_plan else [True]

    def traffic():
        try:
            for delay, count, split in traffic_plan:
                if delay:
                    box.time.sleep(delay)
                for _ in range(count):
                    frame = wire.rtu(1, box.next())
                    if box.port.is_open:
                        box.port.feed([frame[:3], frame[3:], GAP] if split else [frame, GAP])
        finally:
            traffic_done.append(True)

    lib.hooks.install_hook("modbus.Slave.handle_request", box.spy)
    try:
        if managed:
            run = sched.make_run(rng, horizon=1500)
            try:
                run.execute([("control", control)] + ([("traffic", traffic)] if traffic_plan else []))
            except sched.StepLimit as exc:
                raise Violation("no end: %s" % exc, trail=box.trail, stacks=run.stacks, now=run.now, log=box.port.log[-10:],
                                state=repr((box.port.rx, box.port.is_open, box.port.timeout, box.port.reads)))
            if run.deadlock:
                raise Violation("deadlock: " + run.deadlock, stacks=run.stacks, trail=box.trail)
            for _, error in run.errors():
                raise error
            ctx.count("switches", run.switches)
            ctx.key(run.sched_hash, tuple(steps))
            ctx.state("schedules", run.sched_hash)
        else:
            thread = threading.Thread(target=traffic, daemon=True)
            errors = []

            def guarded():
                try:
                    control()
                except BaseException as exc:  # noqa
                    errors.append(exc)
            master = threading.Thread(target=guarded, daemon=True)
            thread.start()
            master.start()
            master.join(60)
            if master.is_alive():
                raise Violation("stop() or start() does not return", timing=True, trail=box.trail)
            thread.join()
            if errors:
                raise errors[0]
            left = [t for t in threading.enumerate() if t not in before]
            if left:
                time.sleep(0.2)
                left = [t for t in threading.enumerate() if t not in before]
            if left:
                raise Violation("threads are left: %r" % (left,), trail=box.trail)
            ctx.key(tuple(steps), tuple(delays))
    finally:
        lib.hooks.uninstall_hook("modbus.Slave.handle_request", box.spy)
    # -- each request at most once, the data are the ones of the executed requests
    if len(set(box.executed)) != len(box.executed):
        raise Violation("a request is executed twice", trail=box.trail)
    image = [0] * 10
    for pdu in box.executed:
        image[pdu[2]] = pdu[3] * 256 + pdu[4]
    if list(box.slave.get_values("h", 0, 10)) != image:
        raise Violation("the data are not the ones of the executed requests", trail=box.trail)
    ctx.sample(dict(steps=box.trail, executed=len(box.executed)))


# ------------------------------------------------------------------------------------------------------ TCP

def tcp(ctx, rng):
    lib = ctx.lib
    fds, before = nfds(), set(threading.enumerate())
    timeout = rng.choice((0.2, 0.2, 0.2, 1, 5))
    server, port = tcp_server(lib, start=False, timeout_in_sec=timeout)
    slave = server.add_slave(1)
    slave.add_block("h", 3, 0, 10)
    executed, trail, clients = [], [], []
    value = 0
    busy = []

    def spy(args):
        executed.append(bytes(args[1]))
        if busy:
            time.sleep(busy[0])

    def exchange():
        client = RawClient(port)
        clients.append(client)
        pdu = wire.write_reg_pdu(rng.randrange(10), next_value())
        client.send(wire.mbap(77, 1, pdu))
        frame = client.frame()
        if frame != wire.mbap(77, 1, pdu):
            raise Violation("the request after start() gets %s" % frame.hex(), trail=trail)
        ctx.count("served")

    def next_value():
        nonlocal value
        value += 1
        return value

    # an application which keeps the sockets of the clients
    kept = []

    def keep(args):
        kept.append(args[1])
    keeping = rng.random() < 0.5
    if keeping:
        lib.hooks.install_hook("modbus_tcp.TcpServer.on_connect", keep)
        ctx.count("keeping")
    running = False
    lib.hooks.install_hook("modbus.Slave.handle_request", spy)
    try:
        for step in range(rng.randint(3, 6)):
            what = rng.random()
            if not running and what < 0.15:
                trail.append("stop while stopped")
                bounded(server.stop, trail)
                ctx.count("stops of a stopped server")
                continue
            if not running and what < 0.35:
                # the port is taken by somebody else
                other = socket.socket()
                other.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try:
                    other.bind(("127.0.0.1", port))
                    other.listen(1)
                except OSError as exc:
                    other.close()
                    raise Violation("the port is not released by stop(): %s" % exc, trail=trail)
                trail.append("start on a port in use")
                server.start()
                if rng.random() < 0.5:
                    time.sleep(0.005)
                bounded(server.stop, trail)
                other.close()
                ctx.count("port in use")
                continue
            if not running:
                trail.append("start")
                server.start()
                running = True
                ctx.count("starts" if trail.count("start") == 1 else "restarts")
                if rng.random() < 0.3:
                    # at once
                    pass
                else:
                    if not wait_listening(port):
                        raise Violation("the server does not listen after start()", timing=True, trail=trail)
                    exchange()
                continue
            # -- something is going on, and the server is stopped
            style = rng.choice(("idle", "burst", "partial", "connect", "gone", "slow", "clients", "nothing"))
            trail.append("stop during " + style)
            if style in ("burst", "slow", "partial", "clients", "gone"):
                if not wait_listening(port):
                    raise Violation("the server does not listen after start()", timing=True, trail=trail)
                for _ in range({"clients": 20}.get(style, rng.randint(1, 3))):
                    client = RawClient(port)
                    clients.append(client)
                    data = b"".join(wire.mbap(k, 1, wire.write_reg_pdu(rng.randrange(10), next_value()))
                                    for k in range({"burst": 30, "slow": 3}.get(style, 1)))
                    if style == "slow":
                        busy[:] = [0.02]
                    client.send(data[:-3] if style == "partial" else data)
                    if style == "gone":
                        client.reset()
            elif style == "connect":
                for _ in range(5):
                    sock = socket.socket()
                    sock.settimeout(5)
                    try:
                        sock.connect(("127.0.0.1", port))
                    except OSError:
                        pass
                    sock.close()
            if rng.random() < 0.6:
                time.sleep(rng.choice((0, 0.001, 0.003, 0.02)))
            ctx.count("tcp stops")
            ctx.count("stops")
            ctx.count("idle stops" if style in ("idle", "nothing") else "stops in traffic")
            bounded(server.stop, trail)
            running = False
            del busy[:]
            done = len(executed)
            left = [t for t in threading.enumerate() if t not in before]
            if left:
                raise Violation("the thread of the server is alive after stop(): %r" % (left,), trail=trail)
            # -- the port is free
            sock = socket.socket()
            sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                sock.bind(("127.0.0.1", port))
                sock.listen(1)
            except OSError as exc:
                raise Violation("the port is not released by stop(): %s" % exc, trail=trail)
            finally:
                sock.close()
            # -- the connections are closed
            for client in clients:
                if client.sock.fileno() >= 0 and client.closed(10) is None:
                    raise Violation("a connection is not closed by stop()", timing=True, trail=trail)
                client.close()
            del clients[:]
            if nfds() > fds + 1:
                raise Violation("%d file descriptors are left by stop()" % (nfds() - fds), trail=trail)
            if len(executed) != done:
                raise Violation("requests are executed after stop()", trail=trail)
            ctx.state("stops", style)
        if not running:
            trail.append("start")
            server.start()
        if not wait_listening(port):
            raise Violation("the server does not listen after start()", timing=True, trail=trail)
        exchange()
        trail.append("stop")
        bounded(server.stop, trail)
    finally:
        for client in clients:
            client.close()
        lib.hooks.uninstall_hook("modbus.Slave.handle_request", spy)
        if keeping:
            lib.hooks.uninstall_hook("modbus_tcp.TcpServer.on_connect", keep)
        threading.Thread(target=server.stop, daemon=True).start()
    image = [0] * 10
    for pdu in executed:
        image[pdu[2]] = pdu[3] * 256 + pdu[4]
    if list(slave.get_values("h", 0, 10)) != image:
        raise Violation("the data are not the ones of the executed requests", trail=trail)
    if len(set(executed)) != len(executed):
        raise Violation("a request is executed twice", trail=trail)
    ctx.key("tcp", tuple(trail))
    ctx.sample(dict(trail=trail, executed=len(executed)))


def bounded(stop, trail):
    errors = []

    def main():
        try:
            stop()
        except BaseException as exc:  # noqa
            errors.append(exc)
    thread = threading.Thread(target=main, daemon=True)
    thread.start()
    thread.join(30)
    if thread.is_alive():
        raise Violation("stop() does not return", timing=True, trail=trail)
    if errors:
        raise errors[0]
