"""C06: the operations of a slave are atomic"""
import random
import struct
import sys
import threading

from vp import lin, model, sched, wire
from vp.core import Violation, Inconclusive

LEVEL = "exploration"
RULE = ("a case is a small concurrent program (2 to 4 threads, local operations and requests on one slave, unique values) "
        "run under a controlled schedule (switches at every line or bytecode of modbus_tk and lock operation); its "
        "history of calls and returns must be linearizable with respect to the model of a slave; distinct by schedule")
ASSUMPTIONS = ["schedules are sequentially consistent interleavings of bytecode (as with the GIL)"]


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="lin", n=2500 * k, budget=35 * k, min=150, mode="sched", name="lin-%d" % p) for p in range(6)] +
            [dict(kind="pairs", n=2500 * k, budget=30 * k, min=150, mode="sched", name="pairs-%d" % p) for p in range(2)] +
            [dict(kind="stress", n=6 * k, budget=20 * k, min=1)])


def need(tier):
    return {"histories": 1000, "operations": 10000, "switches": 20000, "concurrent pairs": 5000}


def freeze(mod):
    return tuple(sorted((b.name, b.typ, b.start, tuple(b.data)) for b in mod.blocks.values()))


def thaw(state, unsigned):
    mod = model.SlaveModel(unsigned)
    for name, typ, start, data in state:
        mod.add(name, typ, start, len(data))
        mod.blocks[name].data[:] = data
    return mod


def make_step(unsigned):
    def step(state, op):
        what = op[0]
        mod = thaw(state, unsigned)
        if what == "pdu":
            outs = mod.request(op[1])
            res = []
            for out in outs:
                new = thaw(state, unsigned)
                for out2 in new.request(op[1]):
                    if out2.response == out.response:
                        out2.apply()
                res.append((lambda r, e=out.response: r == ("pdu", e), freeze(new)))
            return res
        if what in ("set", "get"):
            name, addr = op[1], op[2]
            size = len(op[3]) if what == "set" else op[3]
            if name not in mod.blocks:
                return [(lambda r: r == ("exc", "MissingKeyError"), state)]
            blk = mod.blocks[name]
            if addr < blk.start or addr + size > blk.start + blk.size:
                return [(lambda r: r == ("exc", "OutOfModbusBlockError"), state)]
            off = addr - blk.start
            if what == "get":
                want = tuple(blk.data[off:off + size])
                return [(lambda r: r == ("ok", want), state)]
            blk.data[off:off + size] = op[3]
            return [(lambda r: r == ("ok", None), freeze(mod))]
        if what == "add":
            (name, typ, start, size) = op[1]
            reasons = []
            if name in mod.blocks:
                reasons.append("DuplicatedKeyError")
            if mod.overlap(typ, start, size):
                reasons.append("OverlapModbusBlockError")
            if reasons:
                return [(lambda r: r[0] == "exc" and r[1] in reasons, state)]
            mod.add(name, typ, start, size)
            return [(lambda r: r == ("ok", None), freeze(mod))]
        if what == "remove":
            if op[1] not in mod.blocks:
                return [(lambda r: r == ("exc", "MissingKeyError"), state)]
            del mod.blocks[op[1]]
            return [(lambda r: r == ("ok", None), freeze(mod))]
        if what == "clear":
            return [(lambda r: r == ("ok", None), ())]
        raise AssertionError(op)
    return step


REFUSALS = ("MissingKeyError", "OutOfModbusBlockError", "DuplicatedKeyError", "OverlapModbusBlockError")


def execute(lib, slave, databank, op, sid):
    """run an operation against the real slave"""
    what = op[0]
    try:
        if what == "pdu":
            pdu = op[1]
            if len(op) > 2 and op[2] == "db":
                resp = databank.handle_request(lib.modbus_rtu.RtuQuery(), wire.rtu(sid, pdu))
                return ("pdu", bytes(resp)[1:-2])
            return ("pdu", bytes(slave.handle_request(pdu)))
        if what == "set":
            return ("ok", slave.set_values(op[1], op[2], list(op[3])))
        if what == "get":
            return ("ok", tuple(slave.get_values(op[1], op[2], op[3])))
        if what == "add":
            return ("ok", slave.add_block(*op[1]))
        if what == "remove":
            return ("ok", slave.remove_block(op[1]))
        if what == "clear":
            return ("ok", slave.remove_all_blocks())
    except Exception as exc:  # noqa
        if type(exc).__name__ in REFUSALS:
            return ("exc", type(exc).__name__)
        raise
    raise AssertionError(op)


class Unique(object):
    """values which are never used twice"""

    def __init__(self):
        self.last = 0

    def words(self, n):
        self.last += 1
        return [self.last] * n if n > 1 else [self.last]

    def ramp(self, n):
        self.last += n
        return list(range(self.last - n + 1, self.last + 1))


def random_op(rng, uniq, registry):
    """on the block h (holding, 0..5), g (holding, 6..9), c (coils 0..11)"""
    what = rng.randrange(16)
    if what < 3:
        return ("set", "h", 0, tuple(uniq.words(6)))
    if what == 3:
        return ("get", "h", 0, 6)
    if what == 4:
        return ("get", "h", rng.randrange(3), 3)
    if what < 7:
        return ("pdu", wire.read_pdu(3, 0, 6), rng.choice(("slave", "db")))
    if what < 9:
        return ("pdu", wire.write_regs_pdu(0, uniq.words(6)), rng.choice(("slave", "db")))
    if what == 9:
        return ("pdu", wire.write_reg_pdu(rng.randrange(6), uniq.words(1)[0]), rng.choice(("slave", "db")))
    if what == 10:
        # set or clear one bit
        bit = 1 << rng.randrange(8, 16)
        return ("pdu", wire.mask_pdu(0, 0xFFFF ^ bit, rng.choice((0, bit))))
    if what == 11:
        return ("pdu", wire.rw_pdu(0, 6, rng.randrange(3), uniq.words(3)))
    if what == 12:
        return ("pdu", wire.write_coils_pdu(0, [rng.randrange(2)] * 12))
    if what == 13:
        return rng.choice((("pdu", wire.read_pdu(1, 0, 12)), ("get", "c", 0, 12),
                           ("set", "c", 0, (rng.randrange(2),) * 12)))
    if not registry:
        return ("get", "h", 0, 6)
    return rng.choice((("add", ("g", 3, 6, 4)), ("add", ("g2", 3, 4, 4)), ("add", ("g", 3, 7, 2)), ("remove", "g"),
                       ("remove", "h"), ("add", ("h", 3, 0, 6)), ("add", ("k", 3, 8, 3)), ("remove", "k"),
                       ("clear",), ("set", "g", 6, tuple(uniq.words(4))), ("get", "g", 6, 4),
                       ("pdu", wire.read_pdu(3, 6, 4)), ("get", "h", 0, 6)))


def mask_op(rng):
    bit = 1 << rng.randrange(16)
    return ("pdu", wire.mask_pdu(0, 0xFFFF ^ bit, bit))


def case(ctx, rng, i):
    if ctx.kind == "stress":
        return stress(ctx, rng)
    lib = ctx.lib
    unsigned = True
    sid = rng.randint(1, 255)
    databank = lib.modbus.Databank()
    slave = databank.add_slave(sid, unsigned)
    mod = model.SlaveModel(unsigned)
    for args in (("h", 3, 0, 6), ("c", 1, 0, 12)):
        slave.add_block(*args)
        mod.add(*args)
    init = freeze(mod)
    uniq = Unique()
    registry = rng.random() < 0.4
    if ctx.kind == "pairs":
        # two or three operations which are likely to conflict
        programs = []
        theme = rng.randrange(4)
        for _ in range(rng.choice((2, 3))):
            if theme == 0:
                programs.append([mask_op(rng)])
            elif theme == 1:
                programs.append([("pdu", wire.rw_pdu(0, 6, 0, uniq.words(6)))])
            elif theme == 2:
                programs.append([rng.choice((("add", ("g", 3, 6, 4)), ("add", ("g2", 3, 8, 4)), ("remove", "h"),
                                             ("add", ("g", 3, 9, 1)), ("pdu", wire.write_regs_pdu(0, uniq.words(6)))))])
            else:
                programs.append([random_op(rng, uniq, True), random_op(rng, uniq, True)])
        programs.append([("get", "h", 0, 6), ("pdu", wire.read_pdu(3, 0, 6))])
    else:
        programs = [[random_op(rng, uniq, registry) for _ in range(rng.randint(2, 4))]
                    for _ in range(rng.choice((2, 3, 3, 4)))]
    history = []
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def thread(num, ops):
        def run():
            for op in ops:
                sched.yield_point()
                call = tick()
                result = execute(lib, slave, databank, op, sid)
                history.append(lin.Op(call, tick(), op, result, num))
        return run

    run = sched.make_run(rng, horizon=1200)
    run.execute([("thread%d" % k, thread(k, ops)) for k, ops in enumerate(programs)])
    if run.deadlock:
        raise Violation("deadlock: " + run.deadlock, stacks=run.stacks)
    for name, error in run.errors():
        raise error
    # what is left at the end
    final = []
    for name in ("h", "c", "g", "g2", "k"):
        blk = {"h": (0, 6), "c": (0, 12), "g": (6, 4), "g2": (4, 4), "k": (8, 3)}[name]
        op = ("get", name, blk[0], blk[1])
        call = tick()
        final.append(lin.Op(call, tick(), op, execute(lib, slave, databank, op, sid), "end"))
    history += final
    try:
        good = lin.check(history, init, make_step(unsigned))
    except lin.TooLong as exc:
        ctx.count("too long")
        if ctx.counters["too long"] > 20:
            raise Inconclusive(str(exc))
        return
    ctx.count("histories")
    ctx.count("operations", len(history))
    ctx.count("switches", run.switches)
    ctx.count("concurrent pairs", sum(1 for a in history for b in history
                                      if a.thread != b.thread and a.call < b.call < a.ret))
    ctx.key(run.sched_hash)
    ctx.state("histories", [(o.op, o.result) for o in history])
    if good is None:
        raise Violation("no sequential order of the operations gives these results",
                        history=[repr(o) for o in sorted(history, key=lambda o: o.call)])
    ctx.sample([repr(o) for o in history], limit=1)


def stress(ctx, rng):
    """real threads"""
    lib = ctx.lib
    slave = lib.modbus.Databank().add_slave(1)
    slave.add_block("h", 3, 0, 100)
    slave.add_block("m", 3, 200, 1)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    errors, counts = [], [0, 0]
    stop = threading.Event()

    def writer(num):
        try:
            for k in range(120):
                value = num * 1000 + k
                if k % 2:
                    slave.set_values("h", 0, [value] * 100)
                else:
                    slave.handle_request(wire.write_regs_pdu(0, [value] * 100))
                # each thread owns one bit of the register m
                on = wire.mask_pdu(200, 0xFFFF ^ (1 << num), (1 << num) if k % 2 else 0)
                slave.handle_request(on)
                got = slave.get_values("m", 200, 1)[0]
                counts[0] += 1
                if bool(got & (1 << num)) != bool(k % 2):
                    errors.append("a mask write is lost: bit %d of %04x after step %d" % (num, got, k))
        except Exception as exc:  # noqa
            errors.append("writer: %r" % exc)

    def reader():
        try:
            while not stop.is_set():
                got = slave.get_values("h", 0, 100)
                if len(set(got)) != 1:
                    errors.append("torn local read: %r" % sorted(set(got)))
                resp = slave.handle_request(wire.read_pdu(3, 0, 100))
                words = set(struct.unpack(">100H", bytes(resp)[2:]))
                counts[1] += 1
                if len(words) != 1:
                    errors.append("torn request: %r" % sorted(words))
        except Exception as exc:  # noqa
            errors.append("reader: %r" % exc)

    try:
        writers = [threading.Thread(target=writer, args=(n,), daemon=True) for n in range(4)]
        readers = [threading.Thread(target=reader, daemon=True) for _ in range(2)]
        for t in writers + readers:
            t.start()
        for t in writers:
            t.join()
        stop.set()
        for t in readers:
            t.join()
    finally:
        sys.setswitchinterval(old)
    ctx.count("stress writes", counts[0])
    ctx.count("stress reads", counts[1])
    ctx.key("stress", ctx.i)
    if errors:
        raise Violation(errors[0], errors=errors[:10])
