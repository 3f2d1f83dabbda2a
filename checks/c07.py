"""C07: a request acts on the slave it names and on no other"""
import logging
import struct

from vp import lin, model, sched, wire
from vp.core import Violation, Inconclusive
from vp.net import RawClient, tcp_server, stop_server
from vp.fakeserial import FakeSerial
from vp.world import World, valid_write, valid_read, unframe, RtuPath

LEVEL = "exploration"
RULE = ("a case sends requests to random ids (existing, missing, removed, added again) of a server with several slaves of "
        "the same or of different layouts, and compares the answer and the memory of every slave to the models; in the "
        "sched shards slaves come and go in other threads and the history must be linearizable; distinct by (id, "
        "presence, request, path)")
ASSUMPTIONS = []


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="db", n=800 * k, budget=25 * k, min=50, name="db-%d" % p) for p in range(2)] +
            [dict(kind="rtu", n=60 * k, budget=25 * k, min=4)] +
            [dict(kind="tcp", n=60 * k, budget=30 * k, min=4)] +
            [dict(kind="flag", n=24 * k, budget=25 * k, min=16)] +
            [dict(kind="ids", n=2 * k, budget=30 * k, min=1)] +
            [dict(kind="sched", n=1500 * k, budget=30 * k, min=100, mode="sched", name="sched-%d" % p)
             for p in range(3)])


def need(tier):
    return {"answered": 5000, "unanswered": 2000, "histories": 300, "ids": 255, "reports": 60}


class TcpPath(object):
    """a TcpServer of modbus_tk and a raw client"""
    name = "tcp-server"

    def __init__(self, world):
        self.world = world
        self.server, self.port = tcp_server(world.lib, databank=world.db)
        self.client = RawClient(self.port)
        self.tid = 0

    def send(self, slave_id, pdu, kind=None, answered=True):
        self.tid = (self.tid + 259) & 0xFFFF
        self.client.send(wire.mbap(self.tid, slave_id, pdu))
        if not answered:
            # nothing must come before the answer to another request: read coils of a slave which is always there
            self.tid = (self.tid + 1) & 0xFFFF
            self.client.send(wire.mbap(self.tid, self.world.sentinel, b"\x07"))
            resp = self.client.frame()
            pdu = unframe(resp, "tcp", self.world.sentinel, self.tid)
            if pdu != b"\x07\x00":
                raise Violation("an unexpected answer: %s" % resp.hex())
            return None
        return unframe(self.client.frame(), "tcp", slave_id, self.tid)

    def close(self):
        self.client.close()
        stop_server(self.server)


def case(ctx, rng, i):
    if ctx.kind == "sched":
        return concurrent(ctx, rng)
    if ctx.kind == "ids":
        return all_ids(ctx, rng)
    if ctx.kind == "flag":
        return reported(ctx, rng)
    lib = ctx.lib
    world = World(ctx, rng, slaves=rng.choice((2, 3, 5)), same_layout=rng.random() < 0.6,
                  paths=() if ctx.kind != "db" else ("db-tcp", "db-rtu"))
    strict = rng.random() < 0.5
    world.db.error_on_missing_slave = strict
    world.sentinel = sorted(world.models)[0]
    if ctx.kind == "rtu":
        world.paths["rtu-server"] = RtuPath(world)
    elif ctx.kind == "tcp":
        world.paths["tcp-server"] = TcpPath(world)
    try:
        layouts = {sid: world.layout(sid) for sid in world.models}
        for sid in world.models:
            world.fill(sid)
        gone = []
        for step in range(40):
            what = rng.random()
            if what < 0.08 and len(world.models) > 1:
                sid = rng.choice([s for s in world.models if s != world.sentinel])
                world.db.remove_slave(sid)
                gone.append((sid, world.models.pop(sid), world.slaves.pop(sid)))
            elif what < 0.16 and gone:
                sid, old, _ = gone.pop()
                world.slaves[sid] = world.db.add_slave(sid, old.unsigned)
                world.models[sid] = model.SlaveModel(old.unsigned)
                for blk in layouts[sid]:
                    world.slaves[sid].add_block(*blk)
                    world.models[sid].add(*blk)
                world.fill(sid)
            elif what < 0.45:
                # a slave which is not there
                sid = rng.choice([g[0] for g in gone] + [rng.randint(1, 255)])
                if sid in world.models:
                    continue
                mod = rng.choice(sorted(world.models.values(), key=lambda m: sorted(m.blocks)))
                pdu = valid_write(rng, mod) if rng.random() < 0.8 else valid_read(rng, mod)
                path = world.paths[rng.choice(sorted(world.paths))]
                resp = path.send(sid, pdu, answered=False) if ctx.kind == "tcp" else path.send(sid, pdu)
                ctx.check(resp is None, "a request to the missing slave %d is answered: %r (error_on_missing_slave %s)"
                          % (sid, resp, strict))
                for other in world.models:
                    world.check_image(other, "after a request to the missing slave %d" % sid)
                for osid, mod, slave in gone:
                    for name, blk in mod.blocks.items():
                        ctx.check(list(slave.get_values(name, blk.start, blk.size)) == blk.data,
                                  "the removed slave %d has executed a request" % osid)
                ctx.count("unanswered")
                ctx.key("missing", strict, pdu[:5], path.name)
            else:
                sid = rng.choice(sorted(world.models))
                mod = world.models[sid]
                pdu = valid_write(rng, mod) if rng.random() < 0.6 else valid_read(rng, mod)
                world.step(sid, pdu)
                ctx.count("answered")
                ctx.key("present", pdu[:5], len(world.models))
        ctx.sample(dict(slaves=sorted(world.models), last=pdu))
    finally:
        world.close()


class Errors(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        if record.levelno >= logging.ERROR:
            self.records.append(record.getMessage())


def reported(ctx, rng):
    """error_on_missing_slave: whether the requests to the slaves which are not there are errors, for the log"""
    lib = ctx.lib
    how = ("default", "given", "databank", "databank default")[ctx.i % 4]
    flag = bool(ctx.i // 8 % 2) if "default" not in how else True
    kwargs = {}
    if how == "given":
        kwargs["error_on_missing_slave"] = flag
    elif how.startswith("databank"):
        kwargs["databank"] = lib.modbus.Databank() if how.endswith("default") else lib.modbus.Databank(flag)
        if rng.random() < 0.5:
            # the databank decides
            kwargs["error_on_missing_slave"] = not flag
    seen = Errors()
    rtu = ctx.i // 4 % 2
    log, level = lib.logger, lib.logger.level
    if rtu:
        port = FakeSerial()
        server = lib.modbus_rtu.RtuServer(port, interframe_multiplier=0.02, **kwargs)
        server.start()
    else:
        server, port = tcp_server(lib, **kwargs)
        client = RawClient(port)
    try:
        sid = rng.randint(1, 255)
        slave = server.add_slave(sid)
        slave.add_block("h", 3, 0, 4)
        log.setLevel(logging.ERROR)
        log.addHandler(seen)
        for step in range(6):
            missing = rng.choice([n for n in (sid ^ 1, sid ^ 0x80, rng.randint(1, 255)) if n != sid and n])
            for num, want in ((missing, 1 if flag else 0), (sid, 0)):
                del seen.records[:]
                pdu = rng.choice((wire.read_pdu(3, 0, 4), wire.write_reg_pdu(0, step)))
                if rtu:
                    before = len(port.writes)
                    port.feed([wire.rtu(num, pdu)])
                    if not port.wait_idle(30):
                        raise Violation("the RTU server is stuck", timing=True)
                    got = len(port.writes) - before
                else:
                    client.send(wire.mbap(step, num, pdu))
                    if num == missing:
                        client.send(wire.mbap(step, sid, b"\x07"))
                    got = client.frame()
                    got = int(got != wire.mbap(step, sid, b"\x07\x00"))
                ctx.check(got == (num == sid), "a request to the %s slave is %s" % (
                    "present" if num == sid else "missing", "answered" if got else "not answered"))
                if want != min(len(seen.records), 1):
                    raise Violation("a request to the %s slave %d is %s as an error, error_on_missing_slave is %s (%s)" % (
                        "present" if num == sid else "missing", num, "reported" if seen.records else "not reported", flag, how),
                        records=seen.records, rtu=bool(rtu))
                ctx.count("reports")
        ctx.key("flag", how, flag, rtu, len(kwargs))
    finally:
        log.removeHandler(seen)
        log.setLevel(level)
        if rtu:
            server.stop()
        else:
            client.close()
            stop_server(server)


def all_ids(ctx, rng):
    """255 slaves, each one with its own values"""
    lib = ctx.lib
    databank = lib.modbus.Databank(error_on_missing_slave=rng.random() < 0.5)
    slaves = {}
    for sid in range(1, 256):
        slaves[sid] = databank.add_slave(sid)
        slaves[sid].add_block("h", 3, 0, 2)
        slaves[sid].set_values("h", 0, [sid, 1000 + sid])
    for sid in range(1, 256):
        for framing in ("tcp", "rtu"):
            query = lib.modbus_tcp.TcpQuery() if framing == "tcp" else lib.modbus_rtu.RtuQuery()
            pdu = wire.read_pdu(3, 0, 2)
            frame = wire.mbap(7, sid, pdu) if framing == "tcp" else wire.rtu(sid, pdu)
            got = unframe(databank.handle_request(query, bytearray(frame)), framing, sid, 7)
            ctx.check(got == b"\x03\x04" + wire.regs([sid, 1000 + sid]), "slave %d reads %s" % (sid, got.hex()))
        query = lib.modbus_rtu.RtuQuery()
        databank.handle_request(query, bytearray(wire.rtu(sid, wire.write_reg_pdu(0, 2000 + sid))))
        for other in range(1, 256):
            want = (2000 + other if other <= sid else other, 1000 + other)
            ctx.check(slaves[other].get_values("h", 0, 2) == want, "after a write to slave %d the slave %d contains %r"
                      % (sid, other, slaves[other].get_values("h", 0, 2)))
        ctx.count("ids")
    for sid in rng.sample(range(1, 256), 60):
        databank.remove_slave(sid)
        got = databank.handle_request(lib.modbus_rtu.RtuQuery(), bytearray(wire.rtu(sid, wire.read_pdu(3, 0, 2))))
        ctx.check(not got, "the removed slave %d answers %r" % (sid, got))
    ctx.key("ids", ctx.i)


def concurrent(ctx, rng):
    """slaves which come and go: every request sees the slave or not"""
    lib = ctx.lib
    databank = lib.modbus.Databank(error_on_missing_slave=rng.random() < 0.5)
    ids = rng.sample(range(1, 256), 3)
    fixed = ids[0]
    slave = databank.add_slave(fixed)
    slave.add_block("h", 3, 0, 2)
    init = tuple(sorted({fixed: 0}.items()))

    def step(state, op):
        have = dict(state)
        what, sid = op[0], op[1]
        if what == "add":
            if sid in have:
                return [(lambda r: r == "DuplicatedKeyError", state)]
            have[sid] = None
            return [(lambda r: r is None, tuple(sorted(have.items(), key=str)))]
        if what == "remove":
            if sid not in have:
                return [(lambda r: r == "MissingKeyError", state)]
            del have[sid]
            return [(lambda r: r is None, tuple(sorted(have.items(), key=str)))]
        if what == "clear":
            return [(lambda r: r is None, ())]
        if what == "get":
            return [((lambda r: r == "there") if sid in have else (lambda r: r == "MissingKeyError"), state)]
        if sid not in have:
            return [(lambda r: r == b"", state)]
        if have[sid] is None:
            # without any block
            return [(lambda r: r == wire.rtu(sid, bytes([op[2][0] | 0x80, 2])), state)]
        if what == "write":
            have[sid] = struct.unpack(">H", op[2][3:5])[0]
            return [(lambda r: r == wire.rtu(sid, op[2]), tuple(sorted(have.items(), key=str)))]
        return [(lambda r, v=have[sid]: r == wire.rtu(sid, b"\x03\x02" + wire.regs([v])), state)]

    counter = [0]

    def program(num):
        ops = []
        for _ in range(rng.randint(2, 4)):
            sid = rng.choice(ids)
            kind = rng.choice(("add", "remove", "get", "write", "write", "read", "read", "read"))
            if kind in ("add", "remove") and sid == fixed:
                sid = ids[1]
            if kind == "write":
                counter[0] += 1
                ops.append(("write", sid, wire.write_reg_pdu(0, counter[0])))
            elif kind == "read":
                ops.append(("read", sid, wire.read_pdu(3, 0, 1)))
            elif rng.random() < 0.04:
                ops.append(("clear", None))
            else:
                ops.append((kind, sid))
        return ops

    programs = [program(k) for k in range(rng.choice((2, 3, 4)))]
    history, clock = [], [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def execute(op):
        try:
            if op[0] == "add":
                databank.add_slave(op[1])
            elif op[0] == "remove":
                databank.remove_slave(op[1])
            elif op[0] == "clear":
                databank.remove_all_slaves()
            elif op[0] == "get":
                databank.get_slave(op[1])
                return "there"
            else:
                return bytes(databank.handle_request(lib.modbus_rtu.RtuQuery(), wire.rtu(op[1], op[2])) or b"")
        except (lib.exceptions.DuplicatedKeyError, lib.exceptions.MissingKeyError) as exc:
            return type(exc).__name__

    def thread(num, ops):
        def main():
            for op in ops:
                call = tick()
                res = execute(op)
                history.append(lin.Op(call, tick(), op, res, num))
        return main

    run = sched.make_run(rng)
    run.execute([("thread%d" % k, thread(k, ops)) for k, ops in enumerate(programs)])
    if run.deadlock:
        raise Violation("deadlock: " + run.deadlock, stacks=run.stacks)
    for _, error in run.errors():
        raise error
    try:
        good = lin.check(history, init, step)
    except lin.TooLong as exc:
        raise Inconclusive(str(exc))
    ctx.count("histories")
    ctx.count("switches", run.switches)
    ctx.key(run.sched_hash)
    if good is None:
        raise Violation("no order of the operations gives these results",
                        history=[repr(o) for o in sorted(history, key=lambda o: o.call)], fixed=fixed)
