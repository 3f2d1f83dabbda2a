"""C04: the registry of blocks and slaves"""
import struct

from vp import model, wire
from vp.core import Violation
from vp.world import add_slave, make_slave

LEVEL = "exploration"
RULE = ("a case is a history of registry operations with valid and invalid arguments on a small range of addresses; after "
        "each operation its exception is compared to the model and the blocks are probed through get_values and through "
        "requests at every address of interest; distinct by (operation, outcome, layout)")
ASSUMPTIONS = ["when several reasons to refuse an operation apply, any of their exceptions is accepted"]


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="blocks", n=900 * k, budget=25 * k, min=50, name="blocks-%d" % p) for p in range(4)] +
            [dict(kind="slaves", n=900 * k, budget=25 * k, min=50, name="slaves-%d" % p) for p in range(2)] +
            [dict(kind="orders", n=240 * k, budget=25 * k, min=20)])


def need(tier):
    return {"added": 5000, "refused": 5000, "overlap": 1500, "probes": 50000}


def outcome(fct, *args):
    try:
        return None, fct(*args)
    except Exception as exc:  # noqa
        return exc, None


READ = {1: 1, 2: 2, 3: 3, 4: 4}


def probe(ctx, slave, mod, sid, typ, addr, qty):
    """what a read request sees must be what the model says"""
    if not 0 <= addr or addr + qty > 65536:
        return
    pdu = wire.read_pdu(READ[typ], addr, qty)
    resp = bytes(slave.handle_request(pdu))
    out = model.match(mod.request(pdu), resp)
    ctx.count("probes")
    if out is None:
        raise Violation("reading %d items of type %d at %d gives %s while the blocks are %s" % (
            qty, typ, addr, resp.hex(), sorted((b.typ, b.start, b.size, b.name) for b in mod.blocks.values())))


def check_blocks(ctx, rng, slave, mod, sid):
    for name, blk in mod.blocks.items():
        got = list(slave.get_values(name, blk.start, blk.size))
        ctx.check(got == blk.data, "block %s contains %s instead of %s" % (name, got, blk.data))
        probe(ctx, slave, mod, sid, blk.typ, blk.start, min(blk.size, 125))
        probe(ctx, slave, mod, sid, blk.typ, blk.start - 1, 1)
        probe(ctx, slave, mod, sid, blk.typ, blk.start + blk.size, 1)
        probe(ctx, slave, mod, sid, blk.typ, blk.start + blk.size - 1, 2)
    probe(ctx, slave, mod, sid, rng.choice((1, 2, 3, 4)), rng.randrange(60), rng.choice((1, 2, 5)))


def add_block(ctx, lib, slave, mod, args):
    (name, typ, start, size) = args
    exc = lib.exceptions
    reasons = []
    if size <= 0:
        reasons.append(exc.InvalidArgumentError)
    if start < 0:
        reasons.append(exc.InvalidArgumentError)
    if name in mod.blocks:
        reasons.append(exc.DuplicatedKeyError)
    if typ not in (1, 2, 3, 4):
        reasons.append(exc.InvalidModbusBlockError)
    elif size > 0 and mod.overlap(typ, start, size):
        reasons.append(exc.OverlapModbusBlockError)
        ctx.count("overlap")
    err, _ = outcome(slave.add_block, *args)
    judge(ctx, "add_block%r" % (args,), err, reasons, mod)
    if not reasons:
        mod.add(*args)
        ctx.count("added")
    return bool(reasons)


def judge(ctx, what, err, reasons, mod=None):
    layout = sorted((b.typ, b.start, b.size, b.name) for b in mod.blocks.values()) if mod else None
    if not reasons:
        ctx.check(err is None, "%s is refused with %r while nothing is against it" % (what, err), layout=layout)
    else:
        ctx.check(err is not None, "%s is accepted instead of raising %s" % (
            what, [r.__name__ for r in reasons]), layout=layout)
        ctx.check(any(isinstance(err, r) for r in reasons), "%s raises %s: %s instead of %s" % (
            what, type(err).__name__, err, [r.__name__ for r in reasons]), layout=layout)
        ctx.count("refused")


def case(ctx, rng, i):
    if ctx.kind == "slaves":
        return slaves(ctx, rng, i)
    if ctx.kind == "orders":
        return orders(ctx, rng, i)
    lib = ctx.lib
    sid = rng.randint(1, 255)
    unsigned = rng.random() < 0.7
    slave = make_slave(lib, rng, sid, unsigned)
    mod = model.SlaveModel(unsigned)
    names = ["a", "b", "c", "d", "e", "f", "g"]
    space = rng.choice((12, 25, 60))
    base = rng.choice((0, 0, 0, 500, 65000))
    for step in range(25):
        what = rng.random()
        if what < 0.7:
            typ = rng.choice((1, 2, 3, 4, 1, 3) if rng.random() < 0.93 else (0, 5, -1, 7, "x", None))
            if rng.random() < 0.5:
                typ = 3
            start = base + rng.randrange(space)
            size = rng.choice((1, 1, 2, 3, 5, 8, space // 2))
            if rng.random() < 0.08:
                size = rng.choice((0, -1, -5))
            if rng.random() < 0.06:
                start = rng.choice((-1, -5))
            args = (rng.choice(names), typ, start, size)
            refused = add_block(ctx, lib, slave, mod, args)
            ctx.key("add", refused, args, sorted((b.typ, b.start, b.size) for b in mod.blocks.values()))
            if not refused and rng.random() < 0.8:
                blk = mod.blocks[args[0]]
                values = [rng.randrange(2) if typ in (1, 2) else rng.randrange(1, 1000) for _ in range(size)]
                # a new block contains zeros
                check_blocks(ctx, rng, slave, mod, sid)
                slave.set_values(args[0], start, values)
                blk.data[:] = values
        elif what < 0.93:
            name = rng.choice(names)
            err, _ = outcome(slave.remove_block, name)
            judge(ctx, "remove_block(%r)" % name, err,
                  [] if name in mod.blocks else [lib.exceptions.MissingKeyError], mod)
            mod.blocks.pop(name, None)
            ctx.count("removed")
        elif what < 0.96:
            slave.remove_all_blocks()
            mod.blocks.clear()
        name = rng.choice(names)
        if name not in mod.blocks:
            for fct, args in ((slave.get_values, (name, base, 1)), (slave.set_values, (name, base, [1]))):
                err, _ = outcome(fct, *args)
                judge(ctx, "%s%r" % (fct.__name__, args), err, [lib.exceptions.MissingKeyError], mod)
        check_blocks(ctx, rng, slave, mod, sid)
    ctx.sample(dict(layout=sorted((b.name, b.typ, b.start, b.size) for b in mod.blocks.values())))


def orders(ctx, rng, i):
    """every position of a new block among three existing ones, added in a random order"""
    lib = ctx.lib
    blocks = [(5, 3), (10, 2), (16, 4)]
    rng.shuffle(blocks)
    for start in range(0, 24):
        for size in (1, 2, 3, 4, 7, 12, 30):
            slave = lib.modbus.Databank().add_slave(1)
            mod = model.SlaveModel()
            for k, (s, n) in enumerate(blocks):
                add_block(ctx, lib, slave, mod, ("b%d" % k, 3, s, n))
            add_block(ctx, lib, slave, mod, ("new", 3, start, size))
            for addr in range(0, 30, 3):
                probe(ctx, slave, mod, 1, 3, addr, 1)
    ctx.key("orders", tuple(blocks))


def slaves(ctx, rng, i):
    """the slaves of a databank or of a server"""
    lib = ctx.lib
    exc = lib.exceptions
    where = rng.randrange(3)
    if where == 0:
        owner = lib.modbus.Databank()
    elif where == 1:
        owner = lib.modbus_tcp.TcpServer(port=0, address="127.0.0.1")
    else:
        owner = lib.modbus_rtu.RtuServer(ctx.store.setdefault("port", make_port()))
    mods = {}
    ids = [rng.randint(1, 255) for _ in range(4)] + [1, 255]
    for step in range(30):
        what = rng.random()
        sid = rng.choice(ids)
        if what < 0.5:
            if rng.random() < 0.2:
                sid = rng.choice((0, -1, 256, 257, 1000))
            unsigned = rng.random() < 0.5
            reasons = []
            if not 1 <= sid <= 255:
                reasons.append(Exception)
            elif sid in mods:
                reasons.append(exc.DuplicatedKeyError)
            err, slave = outcome(add_slave, owner, rng, sid, unsigned)
            judge(ctx, "add_slave(%r)" % sid, err, reasons)
            if not reasons:
                mods[sid] = model.SlaveModel(unsigned)
                ctx.check(slave is owner.get_slave(sid), "add_slave does not return the slave")
                args = ("b", rng.choice((1, 3)), rng.randrange(50), rng.randrange(1, 10))
                add_block(ctx, lib, slave, mods[sid], args)
        elif what < 0.75:
            err, _ = outcome(owner.remove_slave, sid)
            judge(ctx, "remove_slave(%r)" % sid, err, [] if sid in mods else [exc.MissingKeyError])
            mods.pop(sid, None)
        elif what < 0.8:
            owner.remove_all_slaves()
            mods.clear()
        else:
            err, _ = outcome(owner.get_slave, sid)
            judge(ctx, "get_slave(%r)" % sid, err, [] if sid in mods else [exc.MissingKeyError])
        ctx.key("slaves", step, tuple(sorted(mods)))
        for sid in set(ids):
            err, slave = outcome(owner.get_slave, sid)
            ctx.check((err is None) == (sid in mods), "slave %d is %s" % (
                sid, "missing: %r" % err if sid in mods else "there but it should not be"))
            if sid in mods:
                check_blocks(ctx, rng, slave, mods[sid], sid)
            # as requests see it
            databank = owner if where == 0 else owner.get_db()
            pdu = wire.read_pdu(3, 0, 1)
            resp = databank.handle_request(lib.modbus_rtu.RtuQuery(), wire.rtu(sid, pdu))
            ctx.count("probes")
            if sid in mods:
                good = model.match(mods[sid].request(pdu), (resp or b"")[1:-2])
                ctx.check(good is not None, "request to slave %d: %r" % (sid, resp))
            else:
                ctx.check(not resp, "a request to the missing slave %d is answered: %r" % (sid, resp))


def make_port():
    from vp.fakeserial import FakeSerial
    return FakeSerial()
