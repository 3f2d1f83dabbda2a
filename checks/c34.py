"""C34: long use does not consume more and more resources"""
import gc
import os
import socket
import struct
import threading
import time
import tracemalloc

from vp import simu, wire
from vp.core import Violation, Inconclusive
from vp.fakeserial import FakeSerial, GAP, SerialException
from vp.net import Peer, RawClient, nfds, stop_server, tcp_server, wait_listening
from vp.pair import rtu_pair

LEVEL = "exploration"
RULE = ("a case repeats the operations of one kind of use (exchanges of each master and server, failing exchanges, connections "
        "which come and go, noise and errors of ports, restarts, hooks, slaves and blocks, worker threads, commands of the "
        "simulator), each time with other addresses and values; after each round the objects, the traced memory, the threads "
        "and the file descriptors of the process are counted; distinct by (use, operation)")
ASSUMPTIONS = ["what grows by less than 0.02 object or 1 byte per operation is not seen",
               "create_logger adds a handler each time it is called, as documented by logging"]
USES = ("tcp", "tcp faults", "connections", "bad clients", "rtu", "rtu faults", "rtu over tcp", "tcp restart", "rtu restart",
        "hooks", "databank", "threads", "simulator", "verbose")
ROUNDS = 7
WHATS = ("", "silent", "wrong", "closed", "reset", "fine", "exception")     # by unit id: what the bad slave does


def plan(tier):
    k = 1 if tier == "quick" else 8
    return [dict(kind=use, n=1 if use == "simulator" else k if use == "tcp restart" else 2 * k, budget=(40 if k == 1 else 200), min=1, stall=200,
                 simulator=use == "simulator") for use in USES]


def need(tier):
    return {"operations": 10000, "measures": 80, "uses": len(USES)}


class Use(object):
    """a use of the library: op(k) is done again and again"""
    per_round = 150
    kinds = ()

    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.lib = ctx, rng, ctx.lib
        self.open()

    def open(self):
        pass

    def tidy(self):
        """forget what the harness keeps"""

    def close(self):
        pass

    def op(self, k):
        kind = self.kinds[k % len(self.kinds)]
        self.ctx.key(self.ctx.kind, kind)
        getattr(self, kind)()

    # -- helpers

    def database(self, databank):
        """slaves 1 (unsigned) and 2 (signed) with blocks everywhere"""
        for sid in (1, 2):
            slave = databank.add_slave(sid, unsigned=sid == 1)
            for typ in (1, 2, 3, 4):
                slave.add_block("block%d" % typ, typ, 0, 20000)

    def addr(self):
        return self.rng.randrange(19000)

    def word(self):
        return self.rng.randrange(256)      # (the numbers kept by the memory are not new objects)

    def good(self, master, sid=None):
        rng = self.rng
        sid = sid or rng.choice((1, 2))
        kind = rng.randrange(10)
        if kind < 4:
            master.execute(sid, 1 + kind, self.addr(), rng.choice((1, 8, 16)))
        elif kind == 4:
            master.execute(sid, 5, self.addr(), output_value=rng.randrange(2))
        elif kind == 5:
            master.execute(sid, 6, self.addr(), output_value=self.word())
        elif kind == 6:
            master.execute(sid, 15, self.addr(), output_value=[rng.randrange(2) for _ in range(10)])
        elif kind == 7:
            master.execute(sid, 16, self.addr(), output_value=[self.word() for _ in range(3)])
        elif kind == 8:
            master.execute(sid, 22, self.addr(), and_mask=self.word(), or_mask=self.word())
        else:
            master.execute(sid, 23, self.addr(), 2, write_starting_address_fc23=self.addr(),
                           output_value=[self.word(), self.word()])

    def fails(self, fct, *args, **kwargs):
        try:
            fct(*args, **kwargs)
        except Exception:  # noqa
            return
        raise Violation("%r does not fail" % (args,))

    def pdu(self):
        return self.rng.choice((wire.read_pdu(3, self.addr(), 5), wire.write_reg_pdu(self.addr(), self.word()),
                                wire.read_pdu(1, self.addr(), 9), wire.write_regs_pdu(self.addr(), [self.word()] * 2)))


class Tcp(Use):
    kinds = ("exchange", "refused", "invalid", "broadcast", "missing", "exchange")

    def open(self):
        self.server, port = tcp_server(self.lib)
        self.database(self.server.get_db())
        self.master = self.lib.modbus_tcp.TcpMaster("127.0.0.1", port, 30.0)
        self.raw = RawClient(port)

    def close(self):
        self.master.close()
        self.raw.close()
        stop_server(self.server)

    def exchange(self):
        self.good(self.master)

    def refused(self):
        self.fails(self.master.execute, 1, 3, 20000 + self.addr(), 1)

    def invalid(self):
        self.fails(self.master.execute, 1, 16, self.addr(), output_value=[-100000])
        self.fails(self.master.execute, 300, 3, self.addr(), 1)
        self.fails(self.master.execute, 1, 99, self.addr(), 1)

    def sync(self):
        self.raw.send(wire.mbap(9, 1, b"\x07"))
        self.raw.frame()

    def broadcast(self):
        self.raw.send(wire.mbap(self.word(), 0, self.rng.choice((wire.write_reg_pdu(self.addr(), 5), wire.read_pdu(3, 1, 1)))))
        self.sync()

    def missing(self):
        self.raw.send(wire.mbap(self.word(), self.rng.randint(3, 255), self.pdu()))
        self.sync()


class TcpFaults(Use):
    """a master and a bad slave"""
    kinds = ("silent", "wrong", "closed", "reset", "fine", "slaveless")
    per_round = 90

    def open(self):
        self.peer = Peer(self.serve)
        self.master = self.lib.modbus_tcp.TcpMaster("127.0.0.1", self.peer.port, 30.0)
        self.nobody = socket.socket()
        self.nobody.bind(("127.0.0.1", 0))      # not listening

    def serve(self, conn):
        while True:
            (tid, _, _, unit), pdu = conn.request()
            what = WHATS[unit]
            if what == "closed":
                return
            if what == "reset":
                return conn.reset()
            if what == "silent":
                continue
            answer = bytes([3, 2]) + pdu[1:3]
            conn.send(wire.mbap(tid ^ 0x4000 if what == "wrong" else tid, unit, answer))

    def tidy(self):
        del self.peer.conns[:-1]

    def close(self):
        self.master.close()
        self.peer.close()
        self.nobody.close()

    def ask(self, what):
        return self.master.execute(WHATS.index(what), 3, self.addr(), 1)

    def silent(self):
        self.master.set_timeout(0.005)
        self.fails(self.ask, "silent")
        self.master.set_timeout(30.0)

    def wrong(self):
        self.fails(self.ask, "wrong")

    def closed(self):
        self.fails(self.ask, "closed")

    def reset(self):
        self.fails(self.ask, "reset")

    def fine(self):
        self.master.set_timeout(30.0)
        self.ask("fine")

    def slaveless(self):
        master = self.lib.modbus_tcp.TcpMaster("127.0.0.1", self.nobody.getsockname()[1], 30.0)
        self.fails(master.execute, 1, 3, self.addr(), 1)


class RtuOverTcp(TcpFaults):
    kinds = ("silent", "wrong", "closed", "fine", "exception")

    def open(self):
        TcpFaults.open(self)
        self.master = self.lib.modbus_rtu_over_tcp.RtuOverTcpMaster("127.0.0.1", self.peer.port, 30.0)

    def serve(self, conn):
        while True:
            frame = conn.read(8)
            what = WHATS[frame[0]]
            if what == "closed":
                return
            if what == "silent":
                continue
            if what == "exception":
                conn.send(wire.rtu(frame[0], b"\x83\x02"))
                continue
            answer = bytearray(wire.rtu(frame[0], bytes([3, 2]) + frame[2:4]))
            if what == "wrong":
                answer[-1] ^= 1
            conn.send(answer)

    def exception(self):
        self.fails(self.ask, "exception")


class Connections(Use):
    """masters which come and go"""
    kinds = ("closed", "dropped", "again", "twice")
    per_round = 80

    def open(self):
        self.server, self.port = tcp_server(self.lib)
        self.database(self.server.get_db())
        self.kept = self.lib.modbus_tcp.TcpMaster("127.0.0.1", self.port, 30.0)

    def close(self):
        self.kept.close()
        stop_server(self.server)

    def master(self):
        return self.lib.modbus_tcp.TcpMaster("127.0.0.1", self.port, 30.0)

    def closed(self):
        master = self.master()
        self.good(master)
        master.close()

    def dropped(self):
        self.good(self.master())

    def again(self):
        self.kept.close()
        self.good(self.kept)

    def twice(self):
        self.kept.open()
        self.kept.open()
        self.good(self.kept)


class BadClients(Use):
    kinds = ("closed", "reset", "header", "garbage", "many", "short")
    per_round = 60

    def open(self):
        self.server, self.port = tcp_server(self.lib)
        self.database(self.server.get_db())
        self.raw = RawClient(self.port)

    def close(self):
        self.raw.close()
        stop_server(self.server)

    def sync(self):
        self.raw.send(wire.mbap(9, 1, b"\x07"))
        if not self.raw.frame():
            raise Violation("the connection of a good client is closed")

    def done(self, client, reset=False):
        if reset:
            client.reset()
        else:
            client.close()
        self.sync()

    def closed(self):
        self.done(RawClient(self.port))

    def reset(self):
        client = RawClient(self.port)
        client.send(wire.mbap(1, 1, self.pdu()))
        self.done(client, True)

    def header(self):
        client = RawClient(self.port)
        client.send(struct.pack(">HHHB", self.word(), 0, 200, 1)[:self.rng.randint(1, 7)])
        self.done(client)

    def garbage(self):
        client = RawClient(self.port)
        client.send(struct.pack(">HHHB", self.word(), 0, 6, 1) + struct.pack(">HHB", self.word(), self.word(), 255))
        self.done(client)

    def many(self):
        clients = [RawClient(self.port) for _ in range(4)]
        for client in clients:
            client.send(wire.mbap(self.word(), 2, self.pdu()))
        for client in clients:
            self.done(client)

    def short(self):
        client = RawClient(self.port)
        client.send(struct.pack(">HHHB", self.word(), 0, 0, 1))
        self.done(client)


class Rtu(Use):
    kinds = ("exchange", "refused", "exchange", "closed", "invalid")

    def open(self):
        databank = self.lib.modbus.Databank()
        self.database(databank)
        self.line, self.server, self.master = rtu_pair(self.lib, databank)

    def tidy(self):
        for port in (self.line.master, self.line.server):
            with port.cond:
                del port.log[:], port.writes[:]

    def close(self):
        self.master.close()
        self.server.stop()

    def exchange(self):
        self.good(self.master)

    def refused(self):
        self.fails(self.master.execute, 1, 3, 20000 + self.addr(), 1)

    def closed(self):
        self.master.close()
        self.good(self.master)

    def invalid(self):
        self.fails(self.master.execute, 1, 6, self.addr(), output_value=100000 + self.word())


class RtuFaults(Use):
    """the server and the master on bad ports"""
    kinds = ("noise", "corrupted", "error", "good_one", "reopened", "foreign", "write_error", "master_noise", "master_error",
             "master_silence")

    def open(self):
        databank = self.lib.modbus.Databank()
        self.database(databank)
        self.port = FakeSerial(name="server")
        self.server = self.lib.modbus_rtu.RtuServer(self.port, databank=databank, interframe_multiplier=0.02)
        self.server.start()
        self.mport = FakeSerial(name="master")
        self.master = self.lib.modbus_rtu.RtuMaster(self.mport)

    def tidy(self):
        for port in (self.port, self.mport):
            with port.cond:
                del port.log[:], port.writes[:], port.faults[:]

    def close(self):
        self.master.close()
        self.server.stop()

    def feed(self, *items):
        self.port.feed(items)
        if not self.port.wait_idle(30):
            raise Violation("the RTU server is stuck", timing=True)

    def noise(self):
        self.feed(bytes(self.rng.randrange(256) for _ in range(20)), GAP)

    def corrupted(self):
        frame = bytearray(wire.rtu(1, self.pdu()))
        frame[2] ^= 1
        self.feed(frame, GAP)

    def error(self):
        self.feed(SerialException("broken %d" % self.word()), GAP)

    def reopened(self):
        self.port.kill(SerialException("unplugged %d" % self.word()))
        with self.port.cond:
            if not self.port.cond.wait_for(lambda: self.port.dead is None, 30):
                raise Violation("the port is not opened again", timing=True)
        self.good_one()

    def good_one(self):
        before = len(self.port.writes)
        self.feed(wire.rtu(1, self.pdu()), GAP)
        if len(self.port.writes) != before + 1:
            raise Violation("%d answers to one request" % (len(self.port.writes) - before))

    def foreign(self):
        self.feed(wire.rtu(self.rng.randint(3, 255), self.pdu()), GAP)

    def write_error(self):
        self.port.fault("write", SerialException("broken"))
        self.feed(wire.rtu(1, self.pdu()), GAP)

    def master_noise(self):
        self.mport.on_write = lambda data: [bytes(self.rng.randrange(256) for _ in range(7)), GAP]
        self.fails(self.master.execute, 1, 3, self.addr(), 1)

    def master_error(self):
        self.mport.on_write = lambda data: [SerialException("broken")]
        self.fails(self.master.execute, 1, 3, self.addr(), 1)

    def master_silence(self):
        self.mport.on_write = None
        self.fails(self.master.execute, 1, 3, self.addr(), 1)


class TcpRestart(Use):
    kinds = ("restart", "failed")
    per_round = 6

    def open(self):
        self.server, self.port = tcp_server(self.lib)
        self.database(self.server.get_db())

    def close(self):
        stop_server(self.server)

    def restart(self):
        client = RawClient(self.port)
        client.send(wire.mbap(1, 1, self.pdu()))
        client.frame()
        waker = threading.Timer(0.01, client.close)     # the server looks every second
        waker.start()
        stop_server(self.server)
        waker.join()
        self.server.start()
        if not wait_listening(self.port):
            raise Violation("the server is not started again", timing=True)

    def failed(self):
        other = self.lib.modbus_tcp.TcpServer(port=self.port, address="127.0.0.1")
        told = threading.Event()

        def ended(args):
            told.set()
        self.lib.hooks.install_hook("modbus.Server.on_exception", ended)
        other.start()
        if not told.wait(30):
            raise Violation("a server on a port in use does not end", timing=True)
        self.lib.hooks.uninstall_hook("modbus.Server.on_exception", ended)
        other.stop()


class RtuRestart(RtuFaults):
    kinds = ("restart", "restart", "failed")
    per_round = 60

    def restart(self):
        self.good_one()
        self.server.stop()
        self.server.start()
        self.good_one()

    def failed(self):
        self.server.stop()
        self.port.fault("open", SerialException("no port"))
        self.server.start()
        self.server.stop()
        del self.port.faults[:]
        self.server.start()
        self.good_one()


class Hooks(Use):
    kinds = ("installed", "failing", "twice", "unknown", "modify")
    per_round = 400

    def open(self):
        self.slave = self.lib.modbus.Slave(1)
        self.slave.add_block("b", 3, 0, 100)

    def request(self):
        return self.slave.handle_request(wire.write_reg_pdu(self.rng.randrange(100), self.word()))

    def installed(self):
        seen = []
        value = self.word()

        def hook(args):
            seen.append(value)
        for name in ("modbus.Slave.handle_request", "modbus.Slave.handle_write_single_register_request"):
            self.lib.hooks.install_hook(name, hook)
        self.request()
        for name in ("modbus.Slave.handle_request", "modbus.Slave.handle_write_single_register_request"):
            self.lib.hooks.uninstall_hook(name, hook)

    def failing(self):
        value = self.word()

        def hook(args):
            raise ValueError(value)
        self.lib.hooks.install_hook("modbus.Slave.handle_request", hook)
        self.fails(self.request)
        self.lib.hooks.uninstall_hook("modbus.Slave.handle_request", hook)

    def twice(self):
        hooks = [lambda args: None for _ in range(3)]
        for hook in hooks + hooks:
            self.lib.hooks.install_hook("modbus.Slave.handle_request", hook)
        self.request()
        self.lib.hooks.uninstall_hook("modbus.Slave.handle_request", hooks[0])
        self.lib.hooks.uninstall_hook("modbus.Slave.handle_request")

    def unknown(self):
        try:
            self.lib.hooks.uninstall_hook("modbus.Slave.handle_request", lambda args: None)
        except Exception:  # noqa
            pass
        self.lib.hooks.call_hooks("modbus.Slave.handle_request", (self.slave, b"\x07"))

    def modify(self):
        def hook(args):
            return struct.pack(">BH", 99, self.word())
        self.lib.hooks.install_hook("modbus.Slave.handle_request", hook)
        self.request()
        self.lib.hooks.uninstall_hook("modbus.Slave.handle_request", hook)


class Databank(Use):
    kinds = ("blocks", "slaves", "refused", "values", "requests", "everything", "shared")
    per_round = 210

    def open(self):
        self.db = self.lib.modbus.Databank()
        self.database(self.db)

    def name(self):
        return "name%d" % self.rng.randrange(10 ** 9)

    def blocks(self):
        slave = self.db.get_slave(1)
        name = self.name()
        slave.add_block(name, self.rng.choice((1, 2, 3, 4)), 20000 + self.addr(), 10)
        slave.handle_request(wire.read_pdu(3, 20000 + self.addr(), 5))
        slave.remove_block(name)

    def slaves(self):
        sid = self.rng.randint(3, 255)
        slave = self.db.add_slave(sid)
        slave.add_block(self.name(), 3, self.addr(), 10)
        self.db.remove_slave(sid)

    def refused(self):
        slave = self.db.get_slave(1)
        self.fails(slave.add_block, self.name(), 3, self.addr(), 10)
        self.fails(slave.add_block, self.name(), 3, 30000, 0)
        self.fails(slave.add_block, self.name(), self.rng.randint(5, 1000), 30000, 10)
        self.fails(slave.remove_block, self.name())
        self.fails(self.db.add_slave, 1)
        self.fails(self.db.get_slave, self.rng.randint(3, 255))
        self.fails(slave.set_values, "block3", 20000, [self.word()])
        self.fails(slave.get_values, self.name(), self.addr())

    def values(self):
        slave = self.db.get_slave(2)
        slave.set_values("block3", self.addr(), [self.word() for _ in range(5)])
        slave.get_values("block3", self.addr(), 5)
        slave.set_values("block1", self.addr(), self.rng.randrange(2))

    def requests(self):
        lib = self.lib
        for query, frame in ((lib.modbus_tcp.TcpQuery(), wire.mbap(self.word(), self.rng.choice((0, 1, 2, 77)), self.pdu())),
                             (lib.modbus_rtu.RtuQuery(), wire.rtu(self.rng.choice((0, 1, 2, 77)), self.pdu())),
                             (lib.modbus_rtu.RtuQuery(), wire.rtu(1, wire.read_pdu(3, 20000 + self.addr(), 1)))):
            self.db.handle_request(query, frame)

    def everything(self):
        db = self.lib.modbus.Databank()
        self.database(db)
        db.get_slave(1).remove_all_blocks()
        db.remove_all_slaves()

    def shared(self):
        if not hasattr(self, "memory"):
            self.memory = {1: [], 2: [], 3: [], 4: []}
        sid = self.rng.randint(3, 255)
        slave = self.db.add_slave(sid, memory=self.memory)
        slave.add_block("b", self.rng.choice((1, 2, 3, 4)), 0, 10)
        slave.remove_block("b")
        self.db.remove_slave(sid)


class Threads(Use):
    """exchanges by threads which end, worker threads"""
    kinds = ("exchange", "worker", "failing", "local")
    per_round = 80

    def open(self):
        self.server, port = tcp_server(self.lib)
        self.database(self.server.get_db())
        self.master = self.lib.modbus_tcp.TcpMaster("127.0.0.1", port, 30.0)

    def close(self):
        self.master.close()
        stop_server(self.server)

    def run(self, *fcts):
        threads = [threading.Thread(target=fct) for fct in fcts]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(60)

    def exchange(self):
        def main():
            self.master.execute(1, 3, self.addr(), 1)
        self.run(main, main)

    def failing(self):
        self.run(lambda: self.fails(self.master.execute, 1, 3, 20000 + self.addr(), 1))

    def local(self):
        slave = self.server.get_slave(1)
        self.run(lambda: slave.set_values("block3", self.addr(), self.word()), lambda: slave.get_values("block3", 1, 5))

    def worker(self):
        called = threading.Event()
        worker = self.lib.utils.WorkerThread(lambda: called.set() or time.sleep(0.0005), exit_fct=lambda: None)
        worker.start()
        called.wait(30)
        worker.stop()


class Simulator(Use):
    kinds = ("add", "values", "error", "unknown", "closed", "typed")
    per_round = 90

    def open(self):
        self.host = simu.Host(self.lib, terminal=True).start()
        self.client = self.host.client()
        self.client.add_slave(1)
        self.client.add_block(1, "b", 3, 0, 20000)

    def tidy(self):
        with self.host.out.cond:
            self.host.out.text = ""

    def close(self):
        self.host.close()

    def add(self):
        sid = self.rng.randint(2, 255)
        self.client.add_slave(sid)
        self.client.add_block(sid, "x%d" % self.word(), 3, self.addr(), 10)
        self.client.remove_slave(sid)

    def values(self):
        self.client.set_values(1, "b", self.addr(), [self.word(), self.word()])
        self.client.get_values(1, "b", self.addr(), 3)

    def error(self):
        self.fails(self.client.get_values, 1, "b", 20000 + self.addr(), 1)

    def unknown(self):
        self.host.rpc("nothing%d" % self.word())

    def closed(self):
        sock = socket.create_connection(("127.0.0.1", self.host.rpc_port), 30)
        sock.sendall(b"has_block 1 b\n"[:self.rng.choice((0, 3, 14))])
        sock.close()

    def typed(self):
        self.host.type("get_values 1 b %d 2\n" % self.addr())
        if self.host.out.line() is None:
            raise Violation("no answer on the console", timing=True)


class Verbose(Tcp):
    """with the debug log and hooks which look at everything"""

    def open(self):
        Tcp.open(self)
        self.server.set_verbose(True)
        self.master.set_verbose(True)
        self.logger = self.lib.utils.create_logger("dummy")

    def close(self):
        Tcp.close(self)
        for handler in list(self.logger.handlers):
            self.logger.removeHandler(handler)


TYPES = {"tcp": Tcp, "tcp faults": TcpFaults, "connections": Connections, "bad clients": BadClients, "rtu": Rtu,
         "rtu faults": RtuFaults, "rtu over tcp": RtuOverTcp, "tcp restart": TcpRestart, "rtu restart": RtuRestart,
         "hooks": Hooks, "databank": Databank, "threads": Threads, "simulator": Simulator, "verbose": Verbose}
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILTERS = [tracemalloc.Filter(False, os.path.join(HERE, "*")), tracemalloc.Filter(False, tracemalloc.__file__),
           tracemalloc.Filter(False, "<frozen *"), tracemalloc.Filter(False, gc.__name__)]


def measure(best, limit=3.0):
    """(objects, bytes, threads, descriptors, bytes with those allocated by the harness) once what is ending has ended"""
    end = time.monotonic() + limit
    while True:
        gc.collect()
        now = [len(gc.get_objects()), 0, threading.active_count(), nfds(), 0]
        if best is None or (now[0] <= best[0] and now[2] <= best[2] and now[3] <= best[3]) or time.monotonic() > end:
            break
        time.sleep(0.1)
    snap = tracemalloc.take_snapshot().filter_traces(FILTERS[1:])
    now[4] = sum(t.size for t in snap.traces)
    snap = snap.filter_traces(FILTERS[:1])
    now[1] = sum(t.size for t in snap.traces)
    return now, snap


def case(ctx, rng, i):
    use = TYPES[ctx.kind](ctx, rng)
    if i == 0:
        ctx.count("uses")
    n = use.per_round
    values = []
    tracemalloc.start(1)
    first = None
    try:
        k = 0
        for rnd in range(ROUNDS + 2):
            for _ in range(n):
                use.op(k)
                k += 1
            use.tidy()
            now, snap = measure(values[-1] if values else None)
            if rnd < 2:
                continue                # the first rounds fill the caches
            if first is None:
                first = snap
            values.append(now)
            ctx.count("measures")
            if time.monotonic() > ctx.deadline + 60:
                break
        ctx.count("operations", k)
        if len(values) < 4:
            raise Inconclusive("too slow")
        ops = n * (len(values) - 1)
        half = len(values) // 2
        for name, pos, least in (("objects", 0, 0.02 * ops + 5), ("bytes", 1, ops + 500), ("threads", 2, 3.5),
                                 ("descriptors", 3, 3.5), ("bytes kept", 4, 2 * ops + 4000)):
            col = [v[pos] for v in values]
            grows = sum(b > a for a, b in zip(col, col[1:]))
            if col[-1] - col[0] > least and col[-1] - col[half] > least / 4 and grows * 2 >= len(col) - 1:
                stats = [str(s) for s in snap.compare_to(first, "lineno")[:6]]
                raise Violation("the number of %s grows: %s after rounds of %d operations (%s)" % (name, col, n, ctx.kind),
                                timing=True, largest=stats, values=values)
        ctx.sample(dict(use=ctx.kind, operations=k, values=values))
        if os.environ.get("C34_DEBUG"):
            with open(os.environ["C34_DEBUG"], "a") as fil:
                fil.write("%s %d %s\n" % (ctx.kind, i, values))
    finally:
        tracemalloc.stop()
        use.close()
