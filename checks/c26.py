"""C26: hooks, slaves and servers never deadlock"""
import random
import struct
import sys
import threading
import time

from vp import net, sched, wire
from vp.core import Violation
from vp.fakeserial import FakeSerial, GAP

LEVEL = "exploration"
RULE = ("a case is a small concurrent program: 2 to 5 threads send requests to slaves (directly, through the databank, a RTU "
        "master, a running RTU server, broadcasts), use their local operations, change the databank, and install, uninstall "
        "and call hooks, while functions hooked on any event call such operations back and may fail, or functions of a master use "
        "another master; under the controlled "
        "scheduler, which sees any set of threads waiting for each other, and with real TCP servers, masters and threads "
        "with a limit of time; distinct by (schedule, program)")
ASSUMPTIONS = ["the functions called during an access to a slave use that slave only, not another one (two slaves locked in "
               "opposite orders by the functions of the application are its own fault), and neither wait nor stop a server",
               "in the sched shards the locks of the library are those of the threading module, as given by the scheduler"]
SLAVES = (1, 2)
SLAVE_HOOKS = ["modbus.Slave.handle_request", "modbus.Slave.on_handle_broadcast", "modbus.Slave.on_exception"] + [
    "modbus.Slave.handle_%s_request" % name for name in (
        "write_multiple_coils", "write_multiple_registers", "write_single_register", "write_single_coil",
        "read_input_registers", "read_holding_registers", "read_discrete_inputs", "read_coils", "mask_write_register",
        "read_write_multiple_registers", "read_exception_status")]
BLOCK_HOOK = "modbus.ModbusBlock.setitem"
OTHER_HOOKS = ["modbus.Databank.on_error", "modbus.Server.before_handle_request", "modbus.Server.after_handle_request",
               "modbus.Server.on_exception", "modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv",
               "modbus_rtu.RtuMaster.before_send", "modbus_rtu.RtuMaster.after_recv", "modbus_rtu.RtuMaster.before_open",
               "modbus_rtu.RtuMaster.after_open", "modbus_rtu.RtuMaster.before_close", "modbus_rtu.RtuServer.after_read",
               "modbus_rtu.RtuServer.before_write", "modbus_rtu.RtuServer.after_write", "modbus_rtu.RtuServer.before_open",
               "modbus_rtu.RtuServer.after_close", "modbus_rtu.RtuServer.on_error",
               "modbus_tcp.TcpServer.on_connect", "modbus_tcp.TcpServer.on_disconnect", "modbus_tcp.TcpServer.after_recv",
               "modbus_tcp.TcpServer.before_send", "modbus_tcp.TcpServer.after_send", "modbus_tcp.TcpServer.on_error",
               "modbus_tcp.TcpMaster.before_connect", "modbus_tcp.TcpMaster.after_recv", "modbus_tcp.TcpMaster.before_close"]
HOOKS = SLAVE_HOOKS + [BLOCK_HOOK] * 4 + OTHER_HOOKS
TARGETED = ("pdu", "set", "get", "request", "add", "del", "clear", "back")
CUSTOM = ("custom.one", "custom.two")


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="sched", n=3000 * k, budget=25 * k, min=100, mode="sched", name="sched-%d" % p) for p in range(4)] +
            [dict(kind="server", n=2000 * k, budget=25 * k, min=40, mode="sched", name="server-%d" % p) for p in range(2)] +
            [dict(kind="net", n=60 * k, budget=25 * k, min=3, stall=120, name="net-%d" % p) for p in range(2)] +
            [dict(kind="nested", n=300 * k, budget=15 * k, min=3, stall=120)])


def need(tier):
    return {"programs": 1000, "operations": 10000, "calls back": 5000, "lock waits": 3000, "failures of functions": 200,
            "stops of servers": 150, "master exchanges": 500, "network exchanges": 100, "nested exchanges": 100}


LOCAL = threading.local()       # .slave: the slave which this thread is accessing; .depth: of the functions


class Failure(Exception):
    pass


def know(cls):
    """from now on LOCAL.slave is the slave whose values are being accessed by the current thread"""
    for name in ("handle_request", "set_values", "get_values"):
        method = getattr(cls, name)
        if not hasattr(method, "known"):
            setattr(cls, name, knowing(method))


def knowing(method):
    def access(self, *args, **kwargs):
        before = getattr(LOCAL, "slave", None)
        LOCAL.slave = self
        try:
            return method(self, *args, **kwargs)
        finally:
            LOCAL.slave = before
    access.known = True
    return access


class World(object):
    """slaves, and functions on the hooks which use them"""

    def __init__(self, ctx, rng):
        self.ctx, self.lib, self.rng = ctx, ctx.lib, rng
        self.db = self.lib.modbus.Databank()
        self.count = 0
        self.local = LOCAL
        know(ctx.lib.modbus.Slave)
        self.log = []
        self.installed = []
        self.most = rng.choice((4, 8, 12))
        self.sids = SLAVES[:rng.choice((1, 1, 2))]
        self.known = {}
        for sid in self.sids:
            self.add(sid)

    def add(self, sid):
        slave = self.db.add_slave(sid)
        self.known[slave] = sid
        self.prepare(slave)

    def prepare(self, slave):
        slave.add_block("h", 3, 0, 6)
        slave.add_block("c", 1, 0, 9)
        slave.add_block("i", 4, 0, 3)

    # -- the operations

    def pdu(self, rng):
        return rng.choice((wire.read_pdu(3, 0, 6), wire.read_pdu(1, 0, 9), wire.read_pdu(4, 0, 3), wire.read_pdu(2, 0, 1),
                           wire.write_reg_pdu(rng.randrange(7), 5), wire.write_coil_pdu(3, 1),
                           wire.write_regs_pdu(0, [1, 2, 3]), wire.write_coils_pdu(0, [1] * 9), wire.mask_pdu(1, 0xF0F0, 1),
                           wire.rw_pdu(0, 6, 1, [4, 5]), b"\x07", b"\x63", b"\x03\0", wire.read_pdu(3, 4, 9)))

    def random_op(self, rng, sid=None, nested=False):
        """sid: the slave being accessed"""
        what = rng.random()
        target = sid if sid is not None else rng.choice(self.sids)
        if what < 0.18:
            return ("pdu", target, self.pdu(rng))
        if what < 0.32:
            return ("request", target, self.pdu(rng))
        if what < 0.36 and sid is None and not nested:
            return ("broadcast", rng.choice((wire.write_reg_pdu(0, 3), wire.write_coils_pdu(0, [1, 0, 1]))))
        if what < 0.50:
            return ("set", target, rng.choice((("h", 0, (1, 2, 3)), ("h", 5, (1,)), ("c", 0, (1, 1)), ("i", 0, (7, 7, 7)), ("no", 0, (1,)))))
        if what < 0.60:
            return ("get", target, rng.choice((("h", 0, 6), ("c", 2, 3), ("h", 4, 5))))
        if what < 0.68:
            return rng.choice((("add", target, "g", 3, rng.choice((6, 5)), 3), ("del", target, rng.choice(("g", "g", "h"))),
                               ("clear", target), ("back", target)))
        if what < 0.82:
            return rng.choice((("has", target), ("has", 77), ("add slave", 77), ("remove slave", 77), ("has", target),
                               ("remove slave", target), ("add slave", target)) if rng.random() < 0.8 else
                              (("remove all",), ("add slave", target)))
        if what < 0.95:
            return rng.choice((("install", rng.choice(HOOKS + list(CUSTOM)), rng.randrange(4)),
                               ("uninstall", rng.choice(HOOKS), rng.randrange(4)), ("call", rng.choice(CUSTOM)),
                               ("uninstall all", rng.choice(CUSTOM))))
        return ("fail",) if nested else ("call", rng.choice(CUSTOM))

    def run(self, op, slave=None):
        """slave: the object of the slave being accessed (which may be in the databank no more)"""
        lib, db = self.lib, self.db
        what = op[0]
        self.count += 1
        if what == "fail":
            self.ctx.count("failures of functions")
            raise Failure("as asked")
        if len(op) > 1 and what in TARGETED and what != "request":
            try:
                target = slave or db.get_slave(op[1])
            except lib.modbus.MissingKeyError:
                return None
        if what == "pdu":
            return target.handle_request(op[2])
        if what == "request":
            return db.handle_request(lib.modbus_rtu.RtuQuery(), wire.rtu(op[1], op[2]))
        if what == "broadcast":
            return db.handle_request(lib.modbus_tcp.TcpQuery(), wire.mbap(1, 0, op[1]))
        if what == "set":
            return target.set_values(op[2][0], op[2][1], list(op[2][2]))
        if what == "get":
            return target.get_values(*op[2])
        if what == "add":
            return target.add_block(*op[2:])
        if what == "del":
            return target.remove_block(op[2])
        if what == "clear":
            return target.remove_all_blocks()
        if what == "back":
            return self.prepare(target)
        if what == "has":
            return db.get_slave(op[1])
        if what == "add slave":
            return self.add(op[1])
        if what == "remove slave":
            return db.remove_slave(op[1])
        if what == "remove all":
            return db.remove_all_slaves()
        if what == "install":
            if len(self.installed) > self.most:
                return None         # each access calls the functions again, which call others
            lib.hooks.install_hook(op[1], self.fcts[op[2]])
            self.installed.append((op[1], self.fcts[op[2]]))
            return None
        if what == "uninstall":
            return lib.hooks.uninstall_hook(op[1], self.fcts[op[2]])
        if what == "uninstall all":
            return lib.hooks.uninstall_hook(op[1])
        if what == "call":
            return lib.hooks.call_hooks(op[1], (slave,))
        raise AssertionError(op)

    def guarded(self, op, slave=None):
        """the refusals are not judged here"""
        try:
            self.run(op, slave)
        except Exception as exc:  # noqa
            if isinstance(exc, AssertionError):
                raise

    # -- the functions

    def make_functions(self, rng):
        self.fcts = [self.function(k, [(self.random_op(rng, nested=True), rng.random() < 0.3) for _ in range(rng.randint(1, 3))])
                     for k in range(4)]

    def function(self, k, todo):
        local = self.local

        def fct(args):
            depth = getattr(local, "depth", 0)
            if depth >= 2:
                return None
            slave = getattr(local, "slave", None)
            if slave is None and args and isinstance(args[0], (self.lib.modbus.ModbusBlock, self.lib.modbus.Slave)):
                return None         # an access to a slave which cannot be known
            local.depth = depth + 1
            try:
                for op, careless in todo:
                    self.ctx.count("calls back")
                    if op[0] == "broadcast":
                        continue
                    if slave is not None:
                        sid = self.known.get(slave)
                        if op[0] == "request" and sid is None:
                            continue
                        if op[0] == "request":
                            # only the slave being accessed, if it is still the one of the databank
                            op = ("pdu",) + op[1:]
                        if op[0] in TARGETED and op[0] != "request" and op[1] != sid:
                            op = (op[0], sid) + op[2:]
                    if careless:
                        self.run(op, slave)
                    else:
                        self.guarded(op, slave)
            finally:
                local.depth = depth
            return None
        return fct

    def install(self, rng):
        names = rng.sample(HOOKS, rng.randint(1, 6)) + ([BLOCK_HOOK] if rng.random() < 0.6 else [])
        for name in names:
            fct = rng.choice(self.fcts)
            self.lib.hooks.install_hook(name, fct)
            self.installed.append((name, fct))
        for name in CUSTOM:
            self.lib.hooks.install_hook(name, self.fcts[0])
            self.installed.append((name, self.fcts[0]))

    def close(self):
        for name in set(n for n, _ in self.installed):
            try:
                self.lib.hooks.uninstall_hook(name)
            except KeyError:
                pass


def case(ctx, rng, i):
    if ctx.kind == "net":
        return network(ctx, rng)
    if ctx.kind == "nested":
        return nested(ctx, rng)
    return scheduled(ctx, rng)


def scheduled(ctx, rng):
    lib = ctx.lib
    world = World(ctx, rng)
    world.make_functions(rng)
    programs, threads = [], []
    count = rng.choice((2, 2, 3, 4))

    def thread(ops):
        def main():
            for op in ops:
                sched.yield_point()
                world.guarded(op)
        return main
    try:
        world.install(rng)
        for k in range(count):
            ops = [world.random_op(rng) for _ in range(rng.randint(2, 5))]
            programs.append(ops)
            threads.append(("t%d" % k, thread(ops)))
        if rng.random() < 0.35:
            threads.append(("master", master_thread(ctx, world, rng)))
        if ctx.kind == "server":
            threads.append(("server user", server_thread(ctx, world, rng)))
        run = sched.make_run(rng, horizon=1500)
        try:
            run.execute(threads)
        except sched.StepLimit:
            ctx.count("too long")
            return
        if run.deadlock:
            raise Violation("deadlock: " + run.deadlock, stacks=run.stacks, programs=[repr(p) for p in programs],
                            hooks=[name for name, _ in world.installed])
        for name, error in run.errors():
            if isinstance(error, (Violation, AssertionError)) or name.startswith("t"):
                raise error
    finally:
        world.close()
    ctx.count("programs")
    ctx.count("operations", world.count)
    ctx.count("switches", run.switches)
    ctx.count("lock waits", run.waits)
    ctx.key(run.sched_hash, tuple(tuple(p) for p in programs))
    ctx.state("schedules", run.sched_hash)
    ctx.sample(dict(programs=[repr(p)[:200] for p in programs], hooks=[name for name, _ in world.installed][:6]))


def master_thread(ctx, world, rng):
    """a RTU master whose slave is the databank, in the same thread"""
    lib = ctx.lib
    pdus = [rng.choice((wire.read_pdu(3, 0, 6), wire.write_reg_pdu(1, 7))) for _ in range(rng.randint(1, 3))]

    def main():
        port = FakeSerial(threading=sched.threading_shim(), on_write=lambda data: answer(data))

        def answer(data):
            response = world.db.handle_request(lib.modbus_rtu.RtuQuery(), data)
            return [bytes(response), GAP] if response else []
        master = lib.modbus_rtu.RtuMaster(port)
        for pdu in pdus:
            ctx.count("master exchanges")
            try:
                if pdu[0] == 3:
                    master.execute(1, 3, 0, 6)
                else:
                    master.execute(1, 6, 1, output_value=7)
            except Exception:  # noqa
                pass
        try:
            master.close()
        except Exception:  # noqa
            pass
    return main


def server_thread(ctx, world, rng):
    """somebody uses a RTU server, then stops it"""
    lib = ctx.lib
    frames = [(rng.choice((0, 0.01)), wire.rtu(rng.choice((0, 1, 1, 1)), world.pdu(rng))) for _ in range(rng.randint(1, 4))]
    twice = rng.random() < 0.3

    def main():
        shim = sched.time_shim()
        port = FakeSerial(threading=sched.threading_shim(), is_open=False)

        server = lib.modbus_rtu.RtuServer(port, databank=world.db, interframe_multiplier=0.5)
        for _ in range(2 if twice else 1):
            server.start()
            for delay, frame in frames:
                if port.is_open:
                    port.feed([frame, GAP])
                shim.sleep(delay)
            shim.sleep(rng.choice((0, 0.05)))
            server.stop()
            ctx.count("stops of servers")
    return main


# ---------------------------------------------------------------------------------------------------- network

def network(ctx, rng):
    """TCP server, masters and threads of the application, with the same functions"""
    lib = ctx.lib
    world = World(ctx, rng)
    world.make_functions(rng)
    server, port = net.tcp_server(lib, databank=world.db)
    threads, errors, done = [], [], []
    interval = sys.getswitchinterval()

    def user(ops):
        def main():
            try:
                for op in ops:
                    world.guarded(op)
                done.append(True)
            except BaseException as exc:  # noqa
                errors.append(exc)
        return main

    def client(seed):
        def main():
            mine = random.Random(seed)
            master = lib.modbus_tcp.TcpMaster("127.0.0.1", port, 0.2)
            try:
                for _ in range(mine.randint(5, 20)):
                    ctx.count("network exchanges")
                    try:
                        if mine.random() < 0.5:
                            master.execute(1, 3, 0, 6)
                        else:
                            master.execute(mine.choice(world.sids), 16, 0, output_value=[1, 2, 3])
                    except Exception:  # noqa
                        pass
                done.append(True)
            finally:
                try:
                    master.close()
                except Exception:  # noqa
                    pass
        return main
    world.install(rng)
    try:
        sys.setswitchinterval(rng.choice((1e-6, 1e-5, 1e-4)))
        for k in range(rng.randint(2, 4)):
            threads.append(threading.Thread(target=user([world.random_op(rng) for _ in range(rng.randint(30, 150))]), daemon=True))
        for k in range(rng.randint(1, 3)):
            threads.append(threading.Thread(target=client(rng.random()), daemon=True))
        for one in threads:
            one.start()
        end = time.monotonic() + 60
        for one in threads:
            one.join(max(0, end - time.monotonic()))
            if one.is_alive():
                raise Violation("the threads make no progress", timing=True, hooks=[name for name, _ in world.installed],
                                stacks=stacks(threads))
        sys.setswitchinterval(interval)
        net.stop_server(server)
        ctx.count("stops of servers")
    finally:
        sys.setswitchinterval(interval)
        world.close()
    if errors:
        raise errors[0]
    ctx.count("programs")
    ctx.count("operations", world.count)
    ctx.key("net", ctx.i)


def reply(unit, pdu):
    """what the slaves of the nested masters answer: their registers contain their address"""
    if pdu[0] == 3:
        addr, count = struct.unpack(">HH", pdu[1:5])
        return struct.pack(">BB", 3, 2 * count) + b"".join(struct.pack(">H", unit * 256 + (addr + k) % 256) for k in range(count))
    return bytes(pdu)


class Plain(object):
    """a master and its slave"""

    def __init__(self, ctx, kind, unit):
        lib = ctx.lib
        self.unit, self.peer = unit, None
        if kind == "rtu":
            port = FakeSerial(is_open=False)
            port.on_write = lambda data: [wire.rtu(data[0], reply(data[0], bytes(data)[1:-2])), GAP] if data else None
            self.master = lib.modbus_rtu.RtuMaster(port)
        else:
            def serve(conn):
                while True:
                    data = conn.sock.recv(1000)
                    if not data:
                        return
                    if kind == "tcp":
                        conn.send(wire.mbap(struct.unpack(">H", data[:2])[0], data[6], reply(data[6], data[7:])))
                    else:
                        conn.send(wire.rtu(data[0], reply(data[0], data[1:-2])))
            self.peer = net.Peer(serve)
            cls = lib.modbus_tcp.TcpMaster if kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
            self.master = cls("127.0.0.1", self.peer.port, 20)

    def exchange(self, rng, **kwargs):
        addr, count = rng.randrange(200), rng.randint(1, 20)
        got = self.master.execute(self.unit, 3, addr, count, **kwargs)
        want = tuple(self.unit * 256 + (addr + k) % 256 for k in range(count))
        if tuple(got) != want:
            raise Violation("a master gets %r instead of the answer of its slave %d: %r" % (got, self.unit, want))

    def close(self):
        try:
            self.master.close()
        finally:
            if self.peer is not None:
                self.peer.close()


def nested(ctx, rng):
    """functions of the masters which use other masters, from several threads"""
    hooks = ctx.lib.hooks
    names = ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv",
             "modbus_rtu.RtuMaster.before_open", "modbus_rtu.RtuMaster.before_send", "modbus_rtu.RtuMaster.after_recv",
             "modbus_rtu.RtuMaster.after_close", "modbus_tcp.TcpMaster.before_connect", "modbus_tcp.TcpMaster.after_connect",
             "modbus_tcp.TcpMaster.before_send", "modbus_tcp.TcpMaster.after_recv", "modbus_tcp.TcpMaster.before_close",
             "modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv"]
    names = rng.sample(names, rng.randint(1, 4))
    count = rng.choice((1, 1, 2, 3))
    kinds = [(rng.choice(("rtu", "tcp", "over")), rng.choice(("rtu", "tcp", "over"))) for _ in range(count)]
    pairs, threads, errors = [], [], []
    inner = {}      # thread: the other master
    busy = threading.local()

    def function(args):
        other = inner.get(threading.current_thread())
        if other is None or getattr(busy, "inside", False):
            return
        busy.inside = True
        try:
            other.exchange(busy.rng)
            ctx.count("nested exchanges")
            if busy.rng.random() < 0.2:
                other.master.close()
        finally:
            busy.inside = False

    def user(outer, seed):
        def main():
            busy.rng = random.Random(seed)
            try:
                for _ in range(8):
                    kwargs = {"threadsafe": False} if busy.rng.random() < 0.1 else {}
                    outer.exchange(busy.rng, **kwargs)
                    if busy.rng.random() < 0.3:
                        outer.master.close()
            except BaseException as exc:  # noqa
                errors.append(exc)
        return main
    for name in names:
        hooks.install_hook(name, function)
    try:
        for k, (one, two) in enumerate(kinds):
            pairs.append((Plain(ctx, one, 2 * k + 1), Plain(ctx, two, 2 * k + 2)))
            threads.append(threading.Thread(target=user(pairs[-1][0], rng.random()), daemon=True))
            inner[threads[-1]] = pairs[-1][1]
        for one in threads:
            one.start()
        end = time.monotonic() + 40
        for one in threads:
            one.join(max(0, end - time.monotonic()))
            if one.is_alive():
                raise Violation("a function of %s which uses another master makes no progress" % ", ".join(names), timing=True,
                                kinds=kinds, stacks=stacks(threads))
        if errors:
            if isinstance(errors[0], Violation):
                raise errors[0]
            raise Violation("an exchange fails when functions of %s use another master: %r" % (", ".join(names), errors[0]),
                            timing=True, kinds=kinds)
    finally:
        for name in names:
            hooks.uninstall_hook(name, function)
        if not any(one.is_alive() for one in threads):
            for pair in pairs:
                for one in pair:
                    one.close()
    ctx.count("programs")
    ctx.key("nested", kinds, sorted(names))


def stacks(threads):
    import traceback
    frames = sys._current_frames()
    return ["".join(traceback.format_stack(frames[t.ident])[-4:]) for t in threads if t.is_alive() and t.ident in frames]
