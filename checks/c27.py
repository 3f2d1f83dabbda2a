"""C27: registers served over the network are linearizable"""
import itertools
import random
import struct
import sys
import threading
import time

from vp import delays, lin, model, net, wire
from vp.core import Violation
from checks import c06

LEVEL = "exploration"
RULE = ("a case runs 2 to 4 masters on TCP connections and 0 to 2 local threads on one slave with unique values, directly or "
        "through a proxy which cuts connections before, during and after the exchanges or delays the answers: the history of "
        "calls and returns must be linearizable, an exchange which failed being executed at any time after its call or never, "
        "and the requests executed by the slave are counted: once for a write which succeeded, at most once for one which "
        "failed; distinct by history")
ASSUMPTIONS = ["the interleavings are those of the threads of this machine, of the delays of the proxy and of those injected between "
               "the lines of the library",
               "the slave's requests are observed through the hook modbus.Slave.handle_request"]
FATES = ("cut before", "cut at once", "cut after", "cut inside", "reset before", "reset after", "late", "header only", "slow")
TIMEOUT = 0.25


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="cut", n=400 * k, budget=25 * k, min=8, name="cut-%d" % p) for p in range(3)] +
            [dict(kind="direct", n=1200 * k, budget=25 * k, min=15, name="direct-%d" % p) for p in range(2)] +
            [dict(kind="delayed", n=800 * k, budget=25 * k, min=10, name="delayed-%d" % p) for p in range(3)])


def need(tier):
    return {"histories": 400, "operations": 4000, "network operations": 3000, "overlaps": 1500, "failed": 150,
            "failed and executed": 40, "failed and not executed": 40, "local operations": 800, "delays injected": 2000}


class Proxy(object):
    """between the masters and the server"""

    def __init__(self, port):
        self.port = port
        self.rng = random.Random(0)
        self.fail = 0.0
        self.peer = net.Peer(self.serve)

    def serve(self, conn):
        upstream = net.RawClient(self.port)
        try:
            while True:
                (tid, proto, length, unit), pdu = conn.request()
                fate = self.rng.choice(FATES) if self.rng.random() < self.fail else "good"
                frame = wire.mbap(tid, unit, pdu, proto, length)
                if fate in ("cut before", "reset before"):
                    if fate == "reset before":
                        conn.reset()
                    return
                upstream.send(frame)
                if fate == "cut at once":
                    return
                answer = upstream.frame(5)
                if fate == "late":
                    time.sleep(TIMEOUT * 1.3)
                elif fate == "slow":
                    conn.send(answer[:5])
                    time.sleep(0.01)
                    answer = answer[5:]
                elif fate == "cut after":
                    return
                elif fate == "reset after":
                    conn.reset()
                    return
                elif fate == "cut inside":
                    conn.send(answer[:self.rng.randrange(1, len(answer))])
                    return
                elif fate == "header only":
                    conn.send(answer[:7])
                    return
                conn.send(answer)
        finally:
            upstream.close()


def setup(ctx):
    lib = ctx.lib
    ctx.store["delays"] = delays.Delays(seed=ctx.seed)
    with ctx.store["delays"]:
        ctx.store["server"], ctx.store["port"] = net.tcp_server(lib)
    if ctx.kind == "cut":
        ctx.store["proxy"] = Proxy(ctx.store["port"])
    executed = ctx.store["executed"] = []
    lib.hooks.install_hook("modbus.Slave.handle_request", lambda args: executed.append((args[0], bytes(args[1]))))


def teardown(ctx):
    ctx.lib.hooks.uninstall_hook("modbus.Slave.handle_request")
    if "proxy" in ctx.store:
        ctx.store["proxy"].peer.close()
    net.stop_server(ctx.store["server"])


def network_op(rng, uniq):
    """a request whose pdu is unique when it writes: on the block h (0..5) and c (0..11)"""
    what = rng.random()
    if what < 0.34:
        return wire.read_pdu(3, *rng.choice(((0, 6), (0, 6), (2, 3))))
    if what < 0.54:
        return wire.write_regs_pdu(0, uniq.words(6))
    if what < 0.62:
        return wire.write_regs_pdu(2, uniq.words(3))
    if what < 0.74:
        return wire.write_reg_pdu(rng.randrange(6), uniq.words(1)[0])
    if what < 0.82:
        return wire.rw_pdu(0, 6, rng.choice((0, 3)), uniq.words(3))
    if what < 0.88:
        word = uniq.words(1)[0]
        return wire.mask_pdu(rng.randrange(6), 0xFF00, word)
    if what < 0.92:
        return wire.read_pdu(1, 0, 12)
    if what < 0.96:
        return wire.read_pdu(3, 3, 9)
    return wire.write_coils_pdu(0, [rng.randrange(2)] * 12)


def call(master, sid, pdu):
    """has the master execute this request: returns the response it stands for"""
    fct = pdu[0]
    if fct in (1, 3):
        (addr, qty) = struct.unpack(">HH", pdu[1:5])
        values = master.execute(sid, fct, addr, qty)
        data = wire.regs(values) if fct == 3 else wire.pack_bits(values)
        return bytes([fct, len(data)]) + data
    if fct == 6:
        (addr, value) = struct.unpack(">HH", pdu[1:5])
        return bytes([fct]) + struct.pack(">HH", *master.execute(sid, fct, addr, output_value=value))
    if fct == 16:
        (addr, qty) = struct.unpack(">HH", pdu[1:5])
        return bytes([fct]) + struct.pack(">HH", *master.execute(sid, fct, addr, output_value=struct.unpack(">%dH" % qty, pdu[6:])))
    if fct == 15:
        (addr, qty) = struct.unpack(">HH", pdu[1:5])
        return bytes([fct]) + struct.pack(">HH", *master.execute(sid, fct, addr, output_value=wire.unpack_bits(pdu[6:], qty)))
    if fct == 22:
        (addr, and_mask, or_mask) = struct.unpack(">HHH", pdu[1:7])
        return bytes([fct]) + struct.pack(">HHH", *master.execute(sid, fct, addr, and_mask=and_mask, or_mask=or_mask))
    (raddr, rqty, waddr, wqty) = struct.unpack(">HHHH", pdu[1:9])
    values = master.execute(sid, fct, raddr, rqty, write_starting_address_fc23=waddr,
                            output_value=struct.unpack(">%dH" % wqty, pdu[10:]))
    data = wire.regs(values)
    return bytes([fct, len(data)]) + data


WRITES = (6, 16, 22, 23)


def case(ctx, rng, i):
    lib, server = ctx.lib, ctx.store["server"]
    executed = ctx.store["executed"]
    server.remove_all_slaves()
    # the requests of the cases before which are still on their way are for other slaves
    ctx.store["sid"] = sid = ctx.store.get("sid", 0) % 247 + 1
    slave = server.add_slave(sid)
    mod = model.SlaveModel(True)
    for args in (("h", 3, 0, 6), ("c", 1, 0, 12)):
        slave.add_block(*args)
        mod.add(*args)
    init = c06.freeze(mod)
    uniq = c06.Unique()
    uniq.last = rng.randrange(20000)
    del executed[:]
    cut = ctx.kind == "cut"
    port = ctx.store["port"]
    if cut:
        proxy = ctx.store["proxy"]
        proxy.rng, proxy.fail = random.Random(rng.random()), rng.choice((0.1, 0.3, 0.5))
        port = proxy.peer.port
    clock = itertools.count()
    history, errors, failed, succeeded = [], [], [], []
    count = rng.choice((2, 2, 3, 4))
    locals_ = rng.choice((0, 1, 1, 2))
    gate = threading.Barrier(count + locals_)
    shared = None
    if rng.random() < 0.2:
        # two threads may share a master
        shared = lib.modbus_tcp.TcpMaster("127.0.0.1", port, TIMEOUT if cut else 20.0)
    masters = []

    def network(num, ops, master):
        def main():
            try:
                gate.wait(30)
                for pdu in ops:
                    start = next(clock)
                    try:
                        response = call(master, sid, pdu)
                    except lib.modbus.ModbusError as exc:
                        response = bytes([pdu[0] | 0x80, exc.get_exception_code()])
                    except Exception as exc:  # noqa
                        if not cut:
                            raise Violation("the exchange %s fails: %s: %s" % (pdu.hex(), type(exc).__name__, exc), timing=True)
                        failed.append(pdu)
                        if pdu[0] in (1, 3):
                            continue
                        history.append(lin.Op(start, None, ("pdu", pdu), None, "m%d" % num, True))
                        continue
                    succeeded.append(pdu)
                    history.append(lin.Op(start, next(clock), ("pdu", pdu), ("pdu", response), "m%d" % num))
            except BaseException as exc:  # noqa
                errors.append(exc)
        return main

    def local(num, ops):
        def main():
            try:
                gate.wait(30)
                for op in ops:
                    start = next(clock)
                    result = c06.execute(lib, slave, server.get_db(), op, sid)
                    history.append(lin.Op(start, next(clock), op, result, "local%d" % num))
                    time.sleep(pause)
            except BaseException as exc:  # noqa
                errors.append(exc)
        return main
    pause = rng.choice((0, 0.0002, 0.001))
    threads = []
    for k in range(count):
        if shared is not None and k < 2:
            master = shared
        else:
            master = lib.modbus_tcp.TcpMaster("127.0.0.1", port, TIMEOUT if cut else 20.0)
        masters.append(master)
        ops = [network_op(rng, uniq) for _ in range(rng.randint(2, 6))]
        threads.append(threading.Thread(target=network(k, ops, master), daemon=True))
    for k in range(locals_):
        ops = []
        for _ in range(rng.randint(2, 6)):
            ops.append(rng.choice((("get", "h", 0, 6), ("set", "h", 0, tuple(uniq.words(6))), ("set", "h", 4, tuple(uniq.words(2))),
                                   ("get", "c", 0, 12))))
        threads.append(threading.Thread(target=local(k, ops), daemon=True))
        ctx.count("local operations", len(ops))
    interval = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice((1e-6, 1e-5, 1e-4, 5e-3)))
    pauses = ctx.store["delays"]
    pauses.probability = rng.choice((0, 0.01, 0.05, 0.2)) if ctx.kind == "delayed" else 0
    pauses.length = rng.choice((0, 0.0001, 0.0005))
    try:
        if pauses.probability:
            with pauses:
                for one in threads:
                    one.start()
        else:
            for one in threads:
                one.start()
        for one in threads:
            one.join(90)
            if one.is_alive():
                raise Violation("an exchange lasts for ever", timing=True)
    finally:
        pauses.probability = 0
        sys.setswitchinterval(interval)
        for master in set(masters):
            master.close()
    if errors:
        raise errors[0]
    op = ("get", "h", 0, 6)
    start = next(clock)
    history.append(lin.Op(start, next(clock), op, c06.execute(lib, slave, None, op, sid), "end"))
    for item in history:
        if item.open:
            item.ret = None
    # how many times each one was executed
    seen = {}
    for target, pdu in list(executed):
        if target is not slave:
            continue        # of the case before
        seen[pdu] = seen.get(pdu, 0) + 1
    witness = dict(history=[repr(o) for o in sorted(history, key=lambda o: o.call)])
    for pdu in succeeded:
        if pdu[0] in WRITES and seen.get(pdu, 0) != 1:
            raise Violation("the request %s, answered once, was executed %d times" % (pdu.hex(), seen.get(pdu, 0)), **witness)
    for pdu in failed:
        if pdu[0] in WRITES:
            n = seen.get(pdu, 0)
            if n > 1:
                raise Violation("the request %s, whose exchange failed, was executed %d times" % (pdu.hex(), n), **witness)
            ctx.count("failed and executed" if n else "failed and not executed")
    asked = set(succeeded) | set(failed) | set(o.op[1] for o in history if o.op[0] == "pdu")
    for pdu in seen:
        if pdu not in asked:
            raise Violation("the slave has executed %s, which nobody has asked" % pdu.hex(), **witness)
    ctx.count("failed", len(failed))
    ctx.counters["delays injected"] = pauses.count
    ctx.count("network operations", len(succeeded) + len(failed))
    try:
        good = lin.check(history, init, c06.make_step(True))
    except lin.TooLong:
        ctx.count("too long")
        return
    ctx.count("histories")
    ctx.count("operations", len(history))
    closed = [o for o in history if not o.open]
    ctx.count("overlaps", sum(1 for a in closed for b in closed if a.thread != b.thread and a.call < b.call < a.ret))
    ctx.key(tuple((o.call, o.ret, o.op) for o in history))
    ctx.state("histories", [(o.op, o.result) for o in history])
    if good is None:
        raise Violation("no sequential order of the operations gives these results", **witness)
    ctx.sample([repr(o) for o in history], limit=1)
