"""C01: reads return exactly the stored values"""
import struct

from vp import wire
from vp.core import Violation
from vp.world import World, make_slave, server_paths, stop_paths, random_values, valid_read

LEVEL = "exploration"
RULE = ("a case is a random layout of blocks with random contents (stored through the local interface) and a series of "
        "reads in the limits, or a sweep of every offset and quantity on one block; it is non trivial when the range "
        "read is not the whole block; distinct by (type, alignment of the offset, quantity, signed, path)")
ASSUMPTIONS = ["the encoding expected by the oracle is computed by vp/wire.py and vp/model.py, which share no code with "
               "modbus_tk"]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return ([dict(kind="random", n=2400 * k, budget=25 * k, min=200, part=p, name="random-%d" % p) for p in range(3)] +
            [dict(kind="big", n=720 * k, budget=25 * k, min=10)] +
            [dict(kind="server", n=240 * k, budget=25 * k, min=5)] +
            [dict(kind="sweep", n=48 * k, budget=40 * k, min=8, part=p, name="sweep-%d" % p) for p in range(3)])


def need(tier):
    return {"reads": 20000, "accepted": 5000, "sweep_reads": 5000}


def teardown(ctx):
    stop_paths(ctx)


def case(ctx, rng, i):
    if ctx.kind == "sweep":
        return sweep(ctx, rng, i)
    more = server_paths(ctx, rng) if ctx.kind == "server" else dict(big=ctx.kind == "big")
    world = World(ctx, rng, slaves=rng.choice((1, 2)), **more)
    try:
        for sid in world.models:
            world.fill(sid)
        for k in range(60):
            sid = rng.choice(sorted(world.models))
            if rng.random() < 0.1:
                world.fill(sid)
            pdu = valid_read(rng, world.models[sid])
            out = world.step(sid, pdu, images=(k % 6 == 0))
            ctx.count("reads")
            if len(pdu) == 5:
                (addr, qty) = struct.unpack(">HH", pdu[1:5])
                ctx.key(pdu[0], addr % 8, qty, world.models[sid].unsigned)
        for sid in world.models:
            world.check_image(sid, "after the reads")
        ctx.sample(dict(layout=world.layout(sid), pdu=pdu, response=out.response))
    finally:
        world.close()


def sweep(ctx, rng, i):
    """every offset and quantity of one block, at least for the small quantities"""
    lib = ctx.lib
    fct = 1 + i % 4
    unsigned = rng.random() < 0.5
    bits = fct in (1, 2)
    size = rng.choice((33, 40, 47)) if i % 8 < 4 else (2010 if bits else 135)
    start = rng.choice((0, 1, 7, 1000, 65536 - size))
    slave = make_slave(lib, rng, rng.randint(1, 255), unsigned)
    # neighbours with other contents
    if start > 20:
        slave.add_block("before", fct, start - 20, 20)
        slave.set_values("before", start - 20, [1] * 20)
    slave.add_block("blk", fct, start, size)
    if start + size + 20 < 65536:
        slave.add_block("after", fct, start + size, 20)
        slave.set_values("after", start + size, [1] * 20)
    values = random_values(rng, fct, size, unsigned)
    slave.set_values("blk", start, values)
    if size < 100:
        pairs = [(o, q) for o in range(size) for q in range(1, size - o + 1)]
    else:
        top = 2000 if bits else 125
        pairs = [(0, q) for q in range(1, top + 1)] + [(o, top - p) for o in range(9) for p in range(9)
                                                      if o + top - p <= size]
        pairs += [(size - q, q) for q in range(1, 20)]
    for off, qty in pairs:
        pdu = wire.read_pdu(fct, start + off, qty)
        resp = bytes(slave.handle_request(pdu))
        want = values[off:off + qty]
        data = wire.pack_bits(want) if bits else wire.regs(want)
        expected = struct.pack(">BB", fct, len(data)) + data
        if resp != expected:
            raise Violation("reading %d items at %d of a block of %d items at %d (function %d, unsigned %s) gives %s "
                            "instead of %s" % (qty, start + off, size, start, fct, unsigned, resp.hex(),
                                               expected.hex()), values=values)
        ctx.count("sweep_reads")
        ctx.key(fct, (start + off) % 8, qty, unsigned)
    got = list(slave.get_values("blk", start, size))
    ctx.check(got == values, "reading has changed the values of the block", before=values, after=got)
    ctx.count("reads", len(pairs))
