"""C02: writes store exactly the sent values and nothing else"""
import struct

from vp.core import Violation
from vp.world import World, make_slave, server_paths, stop_paths, valid_write, valid_read, random_range, pick_block, random_word
from vp import wire, model

LEVEL = "exploration"
RULE = ("a case is a random layout with random contents and a history of acceptable writes (5, 6, 15, 16, 22, 23) mixed "
        "with reads and local writes; after every request the whole memory of every slave is compared to the model; "
        "distinct by (function, quantity, alignment, signed, path)")
ASSUMPTIONS = ["the memory is observed through Slave.get_values"]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return ([dict(kind="random", n=1800 * k, budget=25 * k, min=150, name="random-%d" % p) for p in range(4)] +
            [dict(kind="big", n=360 * k, budget=25 * k, min=5)] +
            [dict(kind="server", n=240 * k, budget=25 * k, min=5)] +
            [dict(kind="masks", n=360 * k, budget=20 * k, min=10)] +
            [dict(kind="overlap23", n=1200 * k, budget=20 * k, min=20)] +
            [dict(kind="bits15", n=240 * k, budget=20 * k, min=8)])


def need(tier):
    return {"accepted": 10000, "masks": 2000, "rw": 1000, "bit_writes": 1000}


def teardown(ctx):
    stop_paths(ctx)


def case(ctx, rng, i):
    if ctx.kind == "masks":
        return masks(ctx, rng)
    if ctx.kind == "bits15":
        return bits15(ctx, rng, i)
    more = server_paths(ctx, rng) if ctx.kind == "server" else dict(big=ctx.kind == "big")
    world = World(ctx, rng, slaves=rng.choice((1, 2, 3)), same_layout=rng.random() < 0.5, **more)
    try:
        for sid in world.models:
            world.fill(sid)
        for k in range(40):
            sid = rng.choice(sorted(world.models))
            mod = world.models[sid]
            if ctx.kind == "overlap23":
                pdu = overlap23(rng, mod)
                if pdu is None:
                    return
                ctx.count("rw")
            else:
                pdu = valid_write(rng, mod) if rng.random() < 0.85 else valid_read(rng, mod)
            out = world.step(sid, pdu)
            ctx.key(pdu[0], pdu[1:5], mod.unsigned)
        ctx.sample(dict(layout=world.layout(sid), pdu=pdu, response=out.response))
    finally:
        world.close()


def overlap23(rng, mod):
    """read/write multiple registers with overlapping ranges"""
    blk = pick_block(rng, mod, 3)
    if not blk:
        return None
    waddr, wqty = random_range(rng, blk, 121)
    raddr = min(max(blk.start, waddr + rng.randint(-3, 3)), blk.start + blk.size - 1)
    rqty = rng.randint(1, min(125, blk.start + blk.size - raddr))
    return wire.rw_pdu(raddr, rqty, waddr, [random_word(rng) for _ in range(wqty)])


def masks(ctx, rng):
    """mask write: every combination of interesting words"""
    for unsigned in (True, False):
        slave = make_slave(ctx.lib, rng, 1, unsigned)
        mod = model.SlaveModel(unsigned)
        slave.add_block("h", 3, 10, 3)
        mod.add("h", 3, 10, 3)
        for _ in range(40):
            word = mod.store(random_word(rng))
            neighbours = [mod.store(random_word(rng)) for _ in range(2)]
            values = [neighbours[0], word, neighbours[1]]
            slave.set_values("h", 10, values)
            mod.blocks["h"].data[:] = values
            pdu = wire.mask_pdu(11, random_word(rng), random_word(rng))
            outs = mod.request(pdu)
            resp = slave.handle_request(pdu)
            out = model.match(outs, resp)
            ctx.check(out is not None, "response to the mask write %s of %d: %s" % (pdu.hex(), word, bytes(resp).hex()))
            out.apply()
            got = list(slave.get_values("h", 10, 3))
            ctx.check(got == mod.blocks["h"].data, "mask write %s of %r (unsigned %s) gives %r instead of %r" % (
                pdu.hex(), values, unsigned, got, mod.blocks["h"].data))
            back = bytes(slave.handle_request(wire.read_pdu(3, 10, 3)))
            ctx.check(back == b"\x03\x06" + wire.regs(got), "the registers can not be read back: %s" % back.hex(),
                      values=got)
            ctx.count("masks")
            ctx.key(word, pdu)


def bits15(ctx, rng, i):
    """write multiple coils: every quantity up to a size, at every alignment"""
    size = 48 if i % 4 else 2000
    unsigned = rng.random() < 0.5
    slave = make_slave(ctx.lib, rng, 1, unsigned)
    start = rng.choice((0, 3, 500))
    slave.add_block("c", 1, start, size)
    values = [rng.randrange(2) for _ in range(size)]
    slave.set_values("c", start, values)
    if size == 48:
        pairs = [(o, q) for q in range(1, 41) for o in (0, 1, rng.randrange(8), 48 - q)
                 if o + q <= size]
    else:
        pairs = [(rng.randint(0, size - q), q) for q in list(range(1960, 1969)) + [rng.randint(1, 1968)
                                                                                 for _ in range(20)]]
    for off, qty in pairs:
        bits = [rng.randrange(2) for _ in range(qty)]
        pdu = bytearray(wire.write_coils_pdu(start + off, bits))
        if qty % 8 and rng.random() < 0.5:
            pdu[-1] |= (0xFF << (qty % 8)) & 0xFF
        resp = bytes(slave.handle_request(bytes(pdu)))
        values[off:off + qty] = bits
        ctx.check(resp == struct.pack(">BHH", 15, start + off, qty), "response %s to %s" % (resp.hex(), pdu.hex()))
        got = list(slave.get_values("c", start, size))
        if got != values:
            diff = [(k, a, b) for k, (a, b) in enumerate(zip(values, got)) if a != b]
            raise Violation("writing %d coils at offset %d changes the block: (offset, expected, found) %s" % (
                qty, off, diff[:8]), pdu=pdu, unsigned=unsigned)
        ctx.count("bit_writes")
        ctx.count("accepted")
        ctx.key(off % 8, qty, unsigned)
