"""C25: servers sharing a databank serve the same slaves, each on its own line"""
import itertools
import logging
import random
import socket
import sys
import threading
import time

from vp import delays, lin, model, net, wire
from vp.core import Violation, Inconclusive
from vp.fakeserial import FakeSerial, GAP
from vp.world import Path, World, add_slave, random_layout, random_values, unframe, valid_read, valid_write
from checks import c06

LEVEL = "exploration"
RULE = ("a case is a session with 2 to 4 TCP and RTU servers sharing a databank (composite server or not, given databank or "
        "not): requests and broadcasts on any line against one model, slaves and blocks changed through any of the objects, "
        "silence of the other lines; or cycles of start and stop of the composite, with one member stopped alone, and of "
        "verbosity; or concurrent clients on all the lines with local threads, the history being linearizable; distinct by "
        "(servers, requests)")
ASSUMPTIONS = ["a serial line is a scripted port; the TCP lines are real sockets on the loopback"]


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="sequence", n=500 * k, budget=22 * k, min=10, simulator=True, name="sequence-%d" % p) for p in range(3)] +
            [dict(kind="lifecycle", n=60 * k, budget=22 * k, min=3, simulator=True, name="lifecycle-%d" % p) for p in range(2)] +
            [dict(kind="concurrent", n=600 * k, budget=22 * k, min=10, simulator=True, name="concurrent-%d" % p)
             for p in range(3)])


def need(tier):
    return {"requests": 1500, "tcp requests": 300, "rtu requests": 300, "broadcasts": 60, "missing": 60, "slaves added": 200,
            "blocks": 200, "cleared": 20, "member stopped": 4, "starts": 8, "verbose exchanges": 20, "quiet exchanges": 20,
            "histories": 80, "operations": 1000, "overlaps": 500, "delays injected": 1000, "empty databank given": 4}


# ---------------------------------------------------------------------------------------------------- the lines

class TcpLine(Path):
    def __init__(self, num, server, port):
        self.name, self.server, self.port = "tcp%d" % num, server, port
        self.conns = []
        self.tid = 0

    def connection(self, rng):
        if not self.conns or (len(self.conns) < 3 and rng.random() < 0.1):
            self.conns.append(net.RawClient(self.port))
        return rng.choice(self.conns)

    rng = None

    def send(self, slave_id, pdu, kind=None):
        conn = self.connection(self.rng)
        self.tid = (self.tid + 4097) & 0xFFFF
        conn.send(wire.mbap(self.tid, slave_id, pdu))
        frame = conn.frame(what="the answer to %s on %s" % (bytes(pdu).hex(), self.name))
        if not frame:
            raise Violation("%s closes the connection instead of answering to %s" % (self.name, bytes(pdu).hex()))
        return unframe(frame, "tcp", slave_id, self.tid)

    def silent(self, slave_id, pdu, sentinel):
        """a request without answer, followed by one to sentinel (slave id, pdu, response)"""
        conn = self.connection(self.rng)
        self.tid = (self.tid + 4097) & 0xFFFF
        conn.send(wire.mbap(self.tid, slave_id, pdu))
        tid = (self.tid + 1) & 0xFFFF
        conn.send(wire.mbap(tid, sentinel[0], sentinel[1]))
        frame = conn.frame(what="the answer which follows a request without answer")
        if frame != wire.mbap(tid, sentinel[0], sentinel[2]):
            raise Violation("%s answers %s after the request %s for the slave %d, which has no answer, and one answered by %s" % (
                self.name, frame.hex(), bytes(pdu).hex(), slave_id, sentinel[2].hex()))

    def quiet(self):
        return all(conn.quiet() for conn in self.conns)

    def close(self):
        for conn in self.conns:
            conn.close()
        self.conns = []

    def stopped(self):
        """nothing listens and the connections are closed"""
        try:
            sock = socket.create_connection(("127.0.0.1", self.port), 5)
        except OSError:
            pass
        else:
            sock.close()
            raise Violation("%s accepts connections after stop()" % self.name)
        for conn in self.conns:
            data = conn.closed(20)
            if data is None:
                raise Violation("a connection of %s is open after stop()" % self.name, timing=True)
        self.close()


class RtuLine(Path):
    def __init__(self, num, server, port):
        self.name, self.server, self.port = "rtu%d" % num, server, port
        self.seen = len(port.writes)

    rng = None

    def exchange(self, slave_id, pdu, gap=True):
        before = len(self.port.writes)
        self.port.feed([wire.rtu(slave_id, pdu)] + ([GAP] if gap else []))
        if not self.port.wait_idle(30):
            raise Violation("%s is stuck with the request %s" % (self.name, bytes(pdu).hex()), timing=True)
        writes = self.port.writes[before:]
        self.seen = len(self.port.writes)
        return writes

    def send(self, slave_id, pdu, kind=None):
        writes = self.exchange(slave_id, pdu, self.rng.random() < 0.5)
        if len(writes) > 1:
            raise Violation("several responses to one request on %s: %s" % (self.name, [w.hex() for w in writes]))
        return unframe(writes[0], "rtu", slave_id) if writes else None

    def silent(self, slave_id, pdu, sentinel):
        writes = self.exchange(slave_id, pdu)
        if writes:
            raise Violation("%s answers %s to the request %s for the slave %d" % (
                self.name, writes[0].hex(), bytes(pdu).hex(), slave_id))

    def quiet(self):
        return len(self.port.writes) == self.seen

    def stopped(self):
        before = len(self.port.writes)
        self.port.feed([wire.rtu(250, wire.read_pdu(3, 0, 1)), GAP])
        time.sleep(0.03)
        if len(self.port.writes) != before:
            raise Violation("%s answers after stop()" % self.name)
        with self.port.cond:
            del self.port.rx[:]


class Bench(object):
    """servers with a common databank"""

    def __init__(self, ctx, rng, start=True, kinds=None):
        lib = self.lib = ctx.lib
        self.ctx, self.rng = ctx, rng
        made = []

        class Tcp(lib.modbus_tcp.TcpServer):
            def __init__(self, *args, **kwargs):
                super(Tcp, self).__init__(*args, **kwargs)
                made.append(self)

        class Rtu(lib.modbus_rtu.RtuServer):
            def __init__(self, *args, **kwargs):
                super(Rtu, self).__init__(*args, **kwargs)
                made.append(self)
        if kinds is None:
            kinds = rng.choice(("tr", "tr", "rt", "trt", "rtr", "trtr", "tt", "rr"))
        places = [net.free_port() if kind == "t" else FakeSerial(name="port%d" % k, is_open=rng.random() < 0.5)
                  for k, kind in enumerate(kinds)]
        classes = [Tcp if kind == "t" else Rtu for kind in kinds]
        args = [(place, "127.0.0.1") if kind == "t" else (place,) for kind, place in zip(kinds, places)]
        given = rng.choice((None, "empty", "used"))
        databank = None
        if given:
            databank = lib.modbus.Databank()
            if given == "used":
                databank.add_slave(99)
            else:
                ctx.count("empty databank given")
        self.composite = None
        self.kinds = kinds
        if rng.random() < 0.75 or databank is None:
            kwargs = {"databank": databank} if databank is not None else {}
            self.composite = lib.simulator.CompositeServer(classes, args, **kwargs)
        else:
            for cls, arg in zip(classes, args):
                cls(*arg, databank=databank)
        if len(made) != len(kinds):
            raise Violation("the composite server has created %d servers instead of %d" % (len(made), len(kinds)))
        self.members = made
        self.lines = []
        for k, (kind, server, place) in enumerate(zip(kinds, made, places)):
            self.lines.append((TcpLine if kind == "t" else RtuLine)(k, server, place))
        self.gates = list(made) + [server.get_db() for server in made] + ([databank] if databank is not None else [])
        if self.composite is not None:
            self.gates += [self.composite, self.composite.get_db()]
        if given == "used":
            for gate in self.gates:
                if not self.has(gate, 99):
                    raise Violation("a slave of the given databank is not seen through %s" % type(gate).__name__, kinds=kinds,
                                    composite=self.composite is not None)
        self.started = False
        if start:
            self.start()

    def has(self, gate, sid):
        try:
            gate.get_slave(sid)
            return True
        except self.lib.modbus.MissingKeyError:
            return False

    def start(self):
        self.ctx.count("starts")
        if self.composite is not None:
            self.composite.start()
        else:
            for member in self.members:
                member.start()
        self.started = True
        for line in self.lines:
            if isinstance(line, TcpLine) and not net.wait_listening(line.port):
                raise Inconclusive("the TCP server can not be started")
            if isinstance(line, RtuLine):
                if not line.port.wait_idle(30):
                    raise Violation("%s doesn't listen after start()" % line.name, timing=True)

    def stop(self):
        errors = []

        def main():
            try:
                if self.composite is not None:
                    self.composite.stop()
                else:
                    for member in self.members:
                        member.stop()
            except Exception as exc:  # noqa
                errors.append(exc)
        thread = threading.Thread(target=main, daemon=True)
        thread.start()
        thread.join(60)
        if thread.is_alive():
            raise Violation("stop() doesn't return", timing=True, kinds=self.kinds)
        if errors:
            raise Violation("stop() raises %r" % (errors[0],), kinds=self.kinds)
        self.started = False

    def close(self):
        if self.started:
            self.stop()
        for line in self.lines:
            line.close()


# ---------------------------------------------------------------------------------------------------- the cases

def setup(ctx):
    if ctx.kind == "sequence":
        ctx.store["benches"] = [Bench(ctx, random.Random(5 * k + 1), kinds=kinds) for k, kinds in
                                enumerate(("trtr", "tr", "rr", "tt"))]
    elif ctx.kind == "concurrent":
        ctx.store["delays"] = delays.Delays(("modbus.py",), seed=ctx.seed)
        with ctx.store["delays"]:
            ctx.store["benches"] = [Bench(ctx, random.Random(9), kinds="trtr")]


def teardown(ctx):
    for bench in ctx.store.get("benches", ()):
        bench.close()


def case(ctx, rng, i):
    if ctx.kind == "sequence":
        return sequence(ctx, rng)
    if ctx.kind == "lifecycle":
        return lifecycle(ctx, rng)
    return concurrent(ctx, rng)


class Shared(World):
    """the world of the slaves of a bench: every access goes through any of the objects"""

    def __init__(self, ctx, rng, bench):
        self.bench = bench
        World.__init__(self, ctx, rng, slaves=rng.randint(0, 2), paths=(), db=rng.choice(bench.gates))
        for line in bench.lines:
            line.rng = rng
            self.paths[line.name] = line
        self.ctx.count("slaves added", len(self.models))
        # the slave of the sentinels
        if 250 in self.models:
            self.gate().remove_slave(250)
            del self.models[250], self.slaves[250]
        self.add(250, [("s", 3, 0, 2)], True)
        self.slaves[250].set_values("s", 0, [4711, 815])
        self.models[250].blocks["s"].data[:] = [4711, 815]
        self.kinds = bench.kinds

    def close(self):
        pass

    def gate(self):
        return self.rng.choice(self.bench.gates)

    def add(self, sid, layout, unsigned):
        slave = add_slave(self.gate(), self.rng, sid, unsigned)
        self.models[sid] = model.SlaveModel(unsigned)
        for blk in layout:
            slave.add_block(*blk)
            self.models[sid].add(*blk)
        self.slaves[sid] = slave

    def check_slaves(self):
        for gate in self.bench.gates:
            for sid in set(self.models) | {self.missing()}:
                if self.bench.has(gate, sid) != (sid in self.models):
                    raise Violation("the slave %d is %s through %s" % (
                        sid, "missing" if sid in self.models else "still there", type(gate).__name__), kinds=self.kinds)

    def missing(self):
        return next(s for s in self.rng.sample(range(1, 256), 20) if s not in self.models)

    def sentinel(self):
        words = self.models[250].blocks["s"].data
        return (250, wire.read_pdu(3, 0, 2), bytes([3, 4]) + wire.regs(words))

    def others_quiet(self, name, what):
        for line in self.bench.lines:
            if line.name != name and not line.quiet():
                raise Violation("%s sends something after %s" % (line.name, what), kinds=self.kinds)


def sequence(ctx, rng):
    bench = rng.choice(ctx.store["benches"])
    world = Shared(ctx, rng, bench)
    lib = ctx.lib
    keys = []
    for sid in world.models:
        world.fill(sid)
    for _ in range(30):
        what = rng.random()
        if what < 0.55:
            sid = rng.choice(sorted(world.models))
            mod = world.models[sid]
            pdu = rng.choice((valid_read, valid_write, valid_write))(rng, mod)
            if rng.random() < 0.1:
                pdu = wire.read_pdu(rng.choice((1, 2, 3, 4)), rng.randrange(65536), rng.randrange(1, 130))
            line = rng.choice(bench.lines)
            world.step(sid, pdu, line.name)
            world.others_quiet(line.name, "the request %s on %s" % (bytes(pdu).hex(), line.name))
            ctx.count("%s requests" % line.name[:3])
            keys.append((line.name, sid, bytes(pdu)))
        elif what < 0.63:
            line = rng.choice(bench.lines)
            sid = world.missing()
            pdu = rng.choice((valid_read, valid_write))(rng, world.models[250])
            line.silent(sid, pdu, world.sentinel())
            world.others_quiet(line.name, "a request to a missing slave on %s" % line.name)
            for other in world.models:
                world.check_image(other, "after a request to the missing slave %d" % sid)
            ctx.count("missing")
        elif what < 0.70:
            line = rng.choice(bench.lines)
            pdu = valid_write(rng, world.models[rng.choice(sorted(world.models))], rng.choice((5, 6, 15, 16)))
            for mod in world.models.values():
                outs = mod.request(pdu)
                if outs and not outs[0].response[0] & 0x80:
                    outs[0].apply()
            # on TCP, the broadcast is over when the next request is answered
            line.silent(0, pdu, world.sentinel())
            for other in world.models:
                world.check_image(other, "after the broadcast %s on %s" % (bytes(pdu).hex(), line.name))
            world.others_quiet(line.name, "a broadcast on %s" % line.name)
            ctx.count("broadcasts")
        elif what < 0.78 and len(world.models) < 5:
            world.add(world.missing(), random_layout(rng, 4), rng.random() < 0.5)
            ctx.count("slaves added")
        elif what < 0.82:
            sid = rng.choice(sorted(world.models))
            if sid != 250:
                world.gate().remove_slave(sid)
                del world.models[sid], world.slaves[sid]
        elif what < 0.84:
            world.gate().remove_all_slaves()
            world.models.clear()
            world.slaves.clear()
            world.check_slaves()
            world.add(250, [("s", 3, 0, 2)], True)
            ctx.count("cleared")
        elif what < 0.92:
            # blocks
            sid = rng.choice(sorted(world.models))
            slave, mod = world.gate().get_slave(sid), world.models[sid]
            if sid != 250 and mod.blocks and rng.random() < 0.4:
                name = rng.choice(sorted(mod.blocks))
                slave.remove_block(name)
                del mod.blocks[name]
            else:
                typ, size, start = rng.choice((1, 2, 3, 4)), rng.randint(1, 20), rng.randrange(100, 60000)
                name = "n%d" % rng.randrange(10000)
                if name not in mod.blocks and not mod.overlap(typ, start, size):
                    slave.add_block(name, typ, start, size)
                    mod.add(name, typ, start, size)
            ctx.count("blocks")
        else:
            # local values through any object
            sid = rng.choice(sorted(world.models))
            slave, mod = world.gate().get_slave(sid), world.models[sid]
            for name, blk in mod.blocks.items():
                values = random_values(rng, blk.typ, blk.size, mod.unsigned)
                slave.set_values(name, blk.start, values)
                blk.data[:] = values
    world.check_slaves()
    for gate in bench.gates:
        for sid, mod in world.models.items():
            for name, blk in mod.blocks.items():
                got = list(gate.get_slave(sid).get_values(name, blk.start, blk.size))
                if got != blk.data:
                    raise Violation("the values of the block %s of slave %d are others through %s" % (name, sid, type(gate).__name__),
                                    expected=blk.data, got=got)
    ctx.key(bench.kinds, tuple(keys))
    ctx.sample(dict(servers=bench.kinds, requests=[(k[0], k[1], k[2].hex()) for k in keys[:5]]))


class Records(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.messages = []

    def emit(self, record):
        self.messages.append(record.getMessage())


def lifecycle(ctx, rng):
    bench = Bench(ctx, rng, start=False)
    lib = ctx.lib
    records = Records()
    lib.logger.addHandler(records)
    level = lib.logger.level
    lib.logger.setLevel(logging.DEBUG)
    verbose = False
    try:
        for cycle in range(rng.randint(1, 3)):
            if rng.random() < 0.3:
                # nothing happens to servers which are stopped
                if bench.composite is not None:
                    bench.composite.stop()
            bench.start()
            world = Shared(ctx, rng, bench)
            for sid in world.models:
                world.fill(sid)
            for _ in range(rng.randint(1, 2)):
                if rng.random() < 0.6:
                    verbose = rng.random() < 0.6
                    if bench.composite is not None:
                        bench.composite.set_verbose(verbose)
                    else:
                        for member in bench.members:
                            member.set_verbose(verbose)
                lines = list(bench.lines)
                rng.shuffle(lines)
                for line in lines:
                    del records.messages[:]
                    words = [rng.randrange(0x10000) for _ in range(2)]
                    pdu = wire.write_regs_pdu(0, words)
                    world.step(250, pdu, line.name)
                    world.others_quiet(line.name, "a request on %s" % line.name)
                    text = "-".join(str(b) for b in pdu)
                    logged = any(text in message for message in list(records.messages))
                    if logged != verbose:
                        raise Violation("the frames of %s are %slogged although verbose is %s" % (
                            line.name, "" if logged else "not ", verbose), kinds=bench.kinds)
                    ctx.count("verbose exchanges" if verbose else "quiet exchanges")
            if rng.random() < 0.4 and len(bench.members) > 1:
                # one of them alone
                k = rng.randrange(len(bench.members))
                net.stop_server(bench.members[k])
                bench.lines[k].stopped()
                for j, line in enumerate(bench.lines):
                    if j != k:
                        world.step(250, wire.write_regs_pdu(0, [cycle, j]), line.name)
                ctx.count("member stopped")
                if rng.random() < 0.5:
                    bench.members[k].start()
                    line = bench.lines[k]
                    if isinstance(line, TcpLine):
                        net.wait_listening(line.port)
                    world.step(250, wire.write_regs_pdu(0, [cycle, 77]), line.name)
            bench.stop()
            for line in bench.lines:
                line.stopped()
            world.check_slaves()
        ctx.key(bench.kinds, cycle, ctx.i)
        ctx.sample(dict(servers=bench.kinds, composite=bench.composite is not None, cycles=cycle + 1))
    finally:
        lib.logger.removeHandler(records)
        lib.logger.setLevel(level)
        bench.close()


def pdu_op(rng, uniq):
    while True:
        op = c06.random_op(rng, uniq, False)
        if op[0] == "pdu":
            return ("pdu", op[1])


def concurrent(ctx, rng):
    bench = ctx.store["benches"][0]
    rng.choice(bench.gates).remove_all_slaves()
    sid = rng.randint(1, 247)
    slave = rng.choice(bench.gates).add_slave(sid)
    mod = model.SlaveModel(True)
    for args in (("h", 3, 0, 6), ("c", 1, 0, 12)):
        slave.add_block(*args)
        mod.add(*args)
    init = c06.freeze(mod)
    uniq = c06.Unique()
    clock = itertools.count()
    history, errors, threads = [], [], []
    lib = ctx.lib
    gate = threading.Barrier(5 if rng.random() < 0.5 else 4)

    def runner(name, ops, act):
        def main():
            try:
                gate.wait(30)
                for op in ops:
                    call = next(clock)
                    result = act(op)
                    history.append(lin.Op(call, next(clock), op, result, name))
            except BaseException as exc:  # noqa
                errors.append(exc)
        return main
    for line in bench.lines:
        line.rng = random.Random(rng.random())
        ops = [pdu_op(rng, uniq) for _ in range(rng.randint(2, 5))]
        if isinstance(line, TcpLine):
            def act(op, line=line):
                return ("pdu", line.send(sid, op[1]))
        else:
            def act(op, line=line):
                before = len(line.port.writes)
                line.port.feed([wire.rtu(sid, op[1])])
                with line.port.cond:
                    if not line.port.cond.wait_for(lambda: len(line.port.writes) > before, 30):
                        raise Violation("no answer on %s to %s" % (line.name, op[1].hex()), timing=True)
                    line.seen = len(line.port.writes)
                    return ("pdu", unframe(line.port.writes[before], "rtu", sid))
        threads.append(threading.Thread(target=runner(line.name, ops, act), daemon=True))
    for k in range(gate.parties - len(threads)):
        ops = [c06.random_op(rng, uniq, False) for _ in range(rng.randint(2, 5))]
        threads.append(threading.Thread(target=runner("local%d" % k, ops, lambda op: c06.execute(
            lib, slave, bench.members[0].get_db(), op, sid)), daemon=True))
    interval = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice((1e-6, 1e-5, 1e-4)))
    pauses = ctx.store["delays"]
    pauses.probability, pauses.length = rng.choice((0, 0, 0.02, 0.1)), rng.choice((0, 0.0003))
    try:
        with pauses:
            for one in threads:
                one.start()
        for one in threads:
            one.join(60)
            if one.is_alive():
                raise Violation("an exchange lasts for ever", timing=True)
    finally:
        pauses.probability = 0
        sys.setswitchinterval(interval)
    ctx.counters["delays injected"] = pauses.count
    if errors:
        raise errors[0]
    for name, start, size in (("h", 0, 6), ("c", 0, 12)):
        op = ("get", name, start, size)
        call = next(clock)
        history.append(lin.Op(call, next(clock), op, c06.execute(lib, slave, None, op, sid), "end"))
    try:
        good = lin.check(history, init, c06.make_step(True))
    except lin.TooLong:
        ctx.count("too long")
        return
    ctx.count("histories")
    ctx.count("operations", len(history))
    ctx.count("overlaps", sum(1 for a in history for b in history if a.thread != b.thread and a.call < b.call < a.ret))
    ctx.key(tuple(sorted((o.call, o.thread, o.op) for o in history)))
    ctx.state("histories", [(o.op, o.result) for o in history])
    if good is None:
        raise Violation("no sequential order of the operations gives these results",
                        history=[repr(o) for o in sorted(history, key=lambda o: o.call)])
