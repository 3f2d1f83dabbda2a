"""C28: the pymodbus adapter returns what the slave holds"""
import itertools
import random
import struct
import threading
import time

from vp import model, net, wire
from vp.core import Violation
from vp.world import random_layout, random_range, random_values, pick_block

LEVEL = "exploration"
RULE = ("a case is a series of operations of the adapter, from one or several of them, on a server with a random layout (slave "
        "1 and another one with other values), in the limits of the blocks or not, with local changes, closing and opening "
        "again: values, types and memory of both slaves are compared with a model; or on a scripted slave which refuses, cuts, "
        "delays or alters its answers: each call returns the exact value or raises; distinct by (operation, address, number)")
ASSUMPTIONS = ["the operations are the ones of the adapter (no holding registers are read: it has no operation for it)"]
FATES = ("exception", "close", "close in the answer", "reset", "silent", "late", "other tid", "other unit", "other function",
         "short", "long", "byte count", "protocol", "nothing but a header")
TIMEOUT = 0.2


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="server", n=900 * k, budget=20 * k, min=30, name="server-%d" % p) for p in range(3)] +
            [dict(kind="faulty", n=300 * k, budget=22 * k, min=6, name="faulty-%d" % p) for p in range(4)] +
            [dict(kind="threads", n=300 * k, budget=20 * k, min=10)])


def need(tier):
    return {"reads": 4000, "writes": 2000, "refused": 300, "reopened": 100, "faults": 150, "good after a fault": 80,
            "wide reads": 300, "threaded": 300,
            "impossible words": 200, "refused connections": 50}


def setup(ctx):
    lib = ctx.lib
    if ctx.kind != "faulty":
        ctx.store["server"], ctx.store["port"] = net.tcp_server(lib)
        ctx.store["clients"] = [make(ctx, ctx.store["port"], timeout) for timeout in (20.0, 30)]
        one = lib.pymodbusclient.PyModbusClientTCP(host="127.0.0.1", port=ctx.store["port"], timeout=10, other="ignored")
        ctx.store["clients"].append(one)
        # with the default timeout
        ctx.store["clients"].append(lib.pymodbusclient.PyModbusClientTCP("127.0.0.1", ctx.store["port"]))
        ctx.store["clients"].append(lib.pymodbusclient.PyModbusClientTCP(port=ctx.store["port"], timeout=None))


def teardown(ctx):
    for client in ctx.store.get("clients", ()):
        client.close()
    if "server" in ctx.store:
        net.stop_server(ctx.store["server"])


def make(ctx, port, timeout):
    return ctx.lib.pymodbusclient.PyModbusClientTCP("127.0.0.1", port, timeout)


def case(ctx, rng, i):
    if ctx.kind == "server":
        return served(ctx, rng)
    if ctx.kind == "faulty":
        return faulty(ctx, rng)
    return threads(ctx, rng)


READS = {"read_coils": 1, "read_discrete_inputs": 2, "read_input_registers": 4}


def invoke(client, name, addr, arg, style):
    """the call, with the ways to give the arguments"""
    fct = getattr(client, name)
    keys = {"read_coils": ("bit_addr", "bit_number"), "read_discrete_inputs": ("bit_addr", "bit_number"),
            "read_input_registers": ("register", "num"), "write_single_register": ("register", "word"),
            "write_single_coil": ("coil", "value")}[name]
    if style == 0:
        return fct(addr, arg)
    if style == 1:
        return fct(**{keys[0]: addr, keys[1]: arg})
    if style == 2 and name in READS and arg == 1:
        return fct(addr)
    return fct(addr, **{keys[1]: arg})


def random_call(rng, mod):
    """(operation, address, argument, pdu)"""
    name = rng.choice(tuple(READS) * 2 + ("write_single_register", "write_single_coil") * 2)
    if name in READS:
        fct = READS[name]
        blk = pick_block(rng, mod, fct)
        top = 125 if fct == 4 else 2000
        if blk is None or rng.random() < 0.12:
            addr, qty = rng.randrange(65530), rng.choice((1, 2, top, rng.randint(1, top)))
            if rng.random() < 0.3 and blk is not None:
                addr, qty = blk.start, min(blk.size + 1, top)
        else:
            addr, qty = random_range(rng, blk, top)
        return name, addr, qty, wire.read_pdu(fct, addr, qty)
    typ = 3 if name == "write_single_register" else 1
    blk = pick_block(rng, mod, typ)
    addr = rng.randrange(65536) if blk is None or rng.random() < 0.1 else random_range(rng, blk, 1)[0]
    if typ == 3:
        word = rng.choice((0, 1, 0x7FFF, 0x8000, 0xFFFF, -1, -0x8000, rng.randrange(0x10000)))
        return name, addr, word, wire.write_reg_pdu(addr, word & 0xFFFF)
    value = rng.choice((0, 1, True, False, 0xFF00, 1, 255))
    return name, addr, value, wire.write_coil_pdu(addr, bool(value))


def expected(pdu, response):
    if pdu[0] in (1, 2):
        return wire.unpack_bits(response[2:], struct.unpack(">H", pdu[3:5])[0])
    return list(struct.unpack(">%dH" % (response[1] // 2), response[2:]))


def judge_read(name, addr, arg, got, want, **witness):
    if type(got) is not list or list(got) != list(want) or any(type(v) is not int for v in got):
        raise Violation("%s(%d, %d) returns %r instead of %r" % (name, addr, arg, got, want), **witness)


def served(ctx, rng):
    lib, server = ctx.lib, ctx.store["server"]
    server.remove_all_slaves()
    mods, slaves = {}, {}
    for sid in (1, rng.choice((2, 255, 100))):
        unsigned = rng.random() < 0.6
        slaves[sid] = server.add_slave(sid, unsigned)
        mods[sid] = model.SlaveModel(unsigned)
        layout = random_layout(rng, 7, rng.random() < 0.3) if sid == 1 or rng.random() < 0.5 else layout
        for blk in layout:
            slaves[sid].add_block(*blk)
            mods[sid].add(*blk)
    clients = ctx.store["clients"]

    def fill(sid):
        for name, blk in mods[sid].blocks.items():
            values = random_values(rng, blk.typ, blk.size, mods[sid].unsigned)
            slaves[sid].set_values(name, blk.start, values)
            blk.data[:] = values

    def check(what):
        for sid, mod in mods.items():
            for name, blk in mod.blocks.items():
                got = list(slaves[sid].get_values(name, blk.start, blk.size))
                if got != blk.data:
                    raise Violation("the block %s of slave %d has other values after %s" % (name, sid, what), expected=blk.data,
                                    got=got)
    for sid in mods:
        fill(sid)
    calls = []
    for k in range(25):
        client = rng.choice(clients)
        if rng.random() < 0.05:
            what = rng.choice(("close", "open", "both", "double"))
            if what != "open":
                ctx.check(client.close() is True, "close() doesn't return True")
                ctx.check(not client.is_open(), "is_open() is true after close()")
            if what == "double":
                client.close()
            if what in ("open", "both"):
                ctx.check(client.open() is True, "open() doesn't return True")
                ctx.check(client.is_open(), "is_open() is false after open()")
            ctx.count("reopened")
        if rng.random() < 0.06:
            # what a register can not hold is refused, and nothing is written
            value = rng.choice((0x10000, -0x8001, 70000, 1 << 20, -70000, 1 << 40, "12", None, 1.5))
            blk = pick_block(rng, mods[1], 3)
            addr = blk.start if blk is not None and blk.start < 65536 else 0
            try:
                result = client.write_single_register(addr, value)
            except Exception:  # noqa
                ctx.count("impossible words")
            else:
                raise Violation("write_single_register(%d, %r) returns %r" % (addr, value, result))
            check("write_single_register(%d, %r)" % (addr, value))
            client.open()
        if rng.random() < 0.02:
            # nobody listens
            lost = make(ctx, net.free_port(), rng.choice((2, 20.0)))
            try:
                if rng.random() < 0.5:
                    lost.open()
                else:
                    lost.read_coils(0, 1)
            except OSError:
                pass
            else:
                raise Violation("the adapter opens a connection to nobody")
            ctx.check(not lost.is_open(), "is_open() is true after a connection which has failed")
            ctx.check(lost.close() is True and not lost.is_open(), "close() fails")
            ctx.count("refused connections")
        if rng.random() < 0.1:
            fill(rng.choice(sorted(mods)))
        name, addr, arg, pdu = random_call(rng, mods[1])
        calls.append((name, addr, arg))
        out = mods[1].request(pdu)
        style = rng.randrange(3)
        error = result = None
        try:
            result = invoke(client, name, addr, arg, style)
        except Exception as exc:  # noqa
            error = exc
        witness = dict(calls=[repr(c) for c in calls], layout=[(b.name, b.typ, b.start, b.size) for b in mods[1].blocks.values()],
                       unsigned=mods[1].unsigned)
        if len(out) != 1 and error is None:
            raise Violation("harness: several outcomes for %s" % pdu.hex())
        response = out[0].response
        if response[0] & 0x80:
            codes = [o.response[1] for o in out]
            if error is None:
                raise Violation("%s(%d, %r) returns %r although the slave refuses it" % (name, addr, arg, result), **witness)
            if not isinstance(error, lib.modbus.ModbusError) or error.get_exception_code() not in codes:
                raise Violation("%s(%d, %r) raises %r instead of the exception %r of the slave" % (name, addr, arg, error, codes),
                                timing=True, **witness)
            ctx.count("refused")
        else:
            if error is not None:
                raise Violation("%s(%d, %r) raises %s: %s" % (name, addr, arg, type(error).__name__, error), timing=True, **witness)
            if name in READS:
                judge_read(name, addr, arg, result, expected(pdu, response), **witness)
                ctx.count("reads")
                if arg > 100:
                    ctx.count("wide reads")
            else:
                ctx.count("writes")
                if name == "write_single_register":
                    ctx.check(result is True, "write_single_register doesn't return True", **witness)
            out[0].apply()
        check("%s(%d, %r)" % (name, addr, arg))
        if not client.is_open():
            raise Violation("is_open() is false after an operation", **witness)
        ctx.check(client.last_error() is None, "last_error() is not None")
        ctx.key(name, addr % 16, arg if name in READS else bool(arg), style)
    ctx.sample([repr(c) for c in calls[:8]], limit=2)


# ------------------------------------------------------------------------------------------------- faults

def word(addr):
    return (addr * 40503 + 77) & 0xFFFF


def answer(pdu):
    fct = pdu[0]
    if fct in (5, 6):
        return pdu
    (addr, qty) = struct.unpack(">HH", pdu[1:5])
    if fct == 4:
        data = wire.regs([word(addr + k) for k in range(qty)])
    else:
        data = wire.pack_bits([word(addr + k) >> 5 & 1 for k in range(qty)])
    return bytes([fct, len(data)]) + data


def faulty(ctx, rng):
    plan_ = {}
    seen = []

    def serve(conn):
        while True:
            (tid, proto, length, unit), pdu = conn.request()
            addr = struct.unpack(">H", pdu[1:3])[0]
            seen.append((unit, pdu))
            fate = plan_.get(addr, "good")
            good = answer(pdu)
            if fate == "exception":
                conn.send(wire.mbap(tid, unit, bytes([pdu[0] | 0x80, 2])))
            elif fate == "close":
                return
            elif fate == "close in the answer":
                frame = wire.mbap(tid, unit, good)
                conn.send(frame[:addr % (len(frame) - 1) + 1])
                return
            elif fate == "reset":
                conn.reset()
                return
            elif fate == "silent":
                pass
            elif fate == "late":
                time.sleep(TIMEOUT * 1.5)
                conn.send(wire.mbap(tid, unit, good))
            elif fate == "other tid":
                conn.send(wire.mbap(tid ^ 0x101, unit, good))
            elif fate == "other unit":
                conn.send(wire.mbap(tid, unit + 1, good))
            elif fate == "other function":
                conn.send(wire.mbap(tid, unit, bytes([good[0] + 1]) + good[1:]))
            elif fate == "short":
                conn.send(wire.mbap(tid, unit, good[:-1]))
            elif fate == "long":
                conn.send(wire.mbap(tid, unit, good + b"\x2a"))
            elif fate == "byte count":
                conn.send(wire.mbap(tid, unit, good[:1] + bytes([(good[1] + 1) & 0xFF]) + good[2:]))
            elif fate == "protocol":
                conn.send(wire.mbap(tid, unit, good, 1))
            elif fate == "nothing but a header":
                conn.send(wire.mbap(tid, unit, good)[:7])
            else:
                frame = wire.mbap(tid, unit, good)
                cut = addr % len(frame)
                conn.send(frame[:cut])
                conn.send(frame[cut:])
    peer = net.Peer(serve)
    client = make(ctx, peer.port, TIMEOUT)
    patient = None
    calls = []
    try:
        after = False
        for k in range(rng.randint(4, 10)):
            addr = rng.randrange(60000)
            name = rng.choice(tuple(READS) + ("write_single_register", "write_single_coil"))
            fate = "good" if after or rng.random() < 0.4 else rng.choice(FATES)
            if name not in READS and fate in ("byte count", "long", "short", "other unit"):
                # an echo has no byte count; the others are judged on reads
                fate = "other function"
            if name not in READS and fate == "other function":
                fate = "exception"
            plan_[addr] = fate
            arg = rng.choice((1, 2, 9, 16, rng.randint(1, 100))) if name in READS else rng.choice((0, 1))
            calls.append((name, addr, arg, fate))
            error = result = None
            try:
                result = invoke(client, name, addr, arg, rng.randrange(3))
            except Exception as exc:  # noqa
                error = exc
            ctx.key(name, arg, fate)
            ctx.state("faults", (name, fate))
            if fate != "good":
                ctx.count("faults")
            if error is None:
                if name in READS:
                    fct = READS[name]
                    want = expected(wire.read_pdu(fct, addr, arg), answer(wire.read_pdu(fct, addr, arg)))
                    judge_read(name, addr, arg, result, want, calls=calls)
                if fate not in ("good", "late"):
                    raise Violation("%s returns %r although the answer is bad (%s)" % (name, result, fate), calls=calls)
                if after:
                    ctx.count("good after a fault")
            elif fate == "good" and not after:
                raise Violation("%s raises %s: %s with a good answer" % (name, type(error).__name__, error), timing=True, calls=calls)
            elif fate == "exception" and not isinstance(error, ctx.lib.modbus.ModbusError):
                # unless something of the call before is still on the line
                if not after:
                    raise Violation("%s raises %s: %s instead of the exception of the slave" % (name, type(error).__name__, error),
                                    timing=True, calls=calls)
            # a fault may disturb the next call: it must not give a wrong value, but may raise
            after = (fate != "good" or (after and error is not None)) and fate != "exception"
            if after and rng.random() < 0.3:
                client.close()
                client.open()
                after = False
        for unit, pdu in seen:
            if unit != 1:
                raise Violation("the adapter sends a request to the slave %d" % unit, pdu=pdu, calls=calls)
        ctx.sample(calls, limit=2)
    finally:
        client.close()
        peer.close()
        del patient


# ------------------------------------------------------------------------------------------------- threads

def threads(ctx, rng):
    """several adapters, or one shared by threads"""
    server = ctx.store["server"]
    server.remove_all_slaves()
    slave = server.add_slave(1)
    size = 300
    for name, typ in (("c", 1), ("d", 2), ("h", 3), ("i", 4)):
        slave.add_block(name, typ, 0, size)
    slave.set_values("i", 0, [word(k) for k in range(size)])
    slave.set_values("d", 0, [word(k) >> 5 & 1 for k in range(size)])
    errors = []
    shared = rng.choice(ctx.store["clients"])
    count = rng.randint(2, 4)
    own = rng.random() < 0.5
    width = size // count

    def main(k, seed):
        mine = random.Random(seed)
        client = make(ctx, ctx.store["port"], 20.0) if own else shared
        coils, regs = {}, {}
        try:
            for _ in range(mine.randint(5, 20)):
                name = mine.choice(tuple(READS) + ("write_single_register", "write_single_coil"))
                # each one writes in its own part
                addr = k * width + mine.randrange(width)
                ctx.count("threaded")
                if name in READS:
                    qty = mine.randint(1, min(100, (k + 1) * width - addr))
                    got = invoke(client, name, addr, qty, mine.randrange(3))
                    want = ([coils.get(a, 0) for a in range(addr, addr + qty)] if name == "read_coils" else
                            [word(a) >> 5 & 1 for a in range(addr, addr + qty)] if name == "read_discrete_inputs" else
                            [word(a) for a in range(addr, addr + qty)])
                    judge_read(name, addr, qty, got, want, own=own)
                elif name == "write_single_coil":
                    coils[addr] = mine.randrange(2)
                    invoke(client, name, addr, coils[addr], mine.randrange(3))
                else:
                    regs[addr] = mine.randrange(0x10000)
                    invoke(client, name, addr, regs[addr], mine.randrange(3))
            for addr, value in regs.items():
                if slave.get_values("h", addr, 1)[0] != value:
                    raise Violation("the register %d has not the value written" % addr)
        except Violation as exc:
            errors.append(exc)
        except Exception as exc:  # noqa
            errors.append(Violation("an operation raises %s: %s" % (type(exc).__name__, exc), timing=True, own=own))
        finally:
            if own:
                client.close()
    users = [threading.Thread(target=main, args=(k, rng.random()), daemon=True) for k in range(count)]
    for one in users:
        one.start()
    for one in users:
        one.join(60)
        if one.is_alive():
            raise Violation("an operation doesn't return", timing=True)
    if errors:
        raise errors[0]
    ctx.key("threads", ctx.i)
