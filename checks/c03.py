"""C03: requests which can not be served get an exception code and change nothing"""
import struct

from vp import wire
from vp.world import World, server_paths, stop_paths, valid_write, valid_read, pick_block, random_word, random_values

LEVEL = "exploration"
RULE = ("a case is a random layout with contents and a series of requests which are valid ones cut at any byte, mutated, "
        "one step around each limit, for ranges around the ends of the blocks, or random bytes; the response must be in "
        "the set the model accepts and the memory equal to the model; distinct by the bytes of the request")
ASSUMPTIONS = ["when several errors apply to a request, any of their codes is accepted",
               "bytes after the end of a request may be ignored or refused",
               "functions above 127 are not requests: only the memory is checked"]


def plan(tier):
    k = 1 if tier == "quick" else 12
    return ([dict(kind="limits", n=1200 * k, budget=25 * k, min=20, name="limits-%d" % p) for p in range(2)] +
            [dict(kind="cuts", n=1200 * k, budget=25 * k, min=20, name="cuts-%d" % p) for p in range(2)] +
            [dict(kind="server", n=240 * k, budget=25 * k, min=4)] +
            [dict(kind="ranges", n=1200 * k, budget=25 * k, min=20)] +
            [dict(kind="random", n=1800 * k, budget=25 * k, min=20, name="random-%d" % p) for p in range(2)] +
            [dict(kind="functions", n=72 * k, budget=20 * k, min=3)])


def need(tier):
    return {"exceptions": 10000, "accepted": 500, "requests": 15000}


def limit_request(rng, mod):
    """a request at or around a limit of quantity, byte count or value"""
    fct = rng.choice((1, 2, 3, 4, 15, 16, 23, 5))
    typ = {1: 1, 2: 2, 3: 3, 4: 4, 15: 1, 16: 3, 23: 3, 5: 1}[fct]
    blk = pick_block(rng, mod, typ)
    addr = blk.start if blk and rng.random() < 0.9 else rng.randrange(65536)
    if blk and rng.random() < 0.3:
        addr += rng.randrange(blk.size)
    addr &= 0xFFFF
    if fct in (1, 2):
        return wire.read_pdu(fct, addr, rng.choice((0, 1, 1999, 2000, 2001, 2002, 2008, 4000, 65535, 0x8000)))
    if fct in (3, 4):
        return wire.read_pdu(fct, addr, rng.choice((0, 1, 124, 125, 126, 127, 128, 250, 65535, 0x8000)))
    if fct == 5:
        return wire.write_coil_pdu(addr, True, raw=rng.choice((1, 0xFF, 0xFF01, 0xFE00, 0xFFFF, 0x100, 0x8000,
                                                                 0xFF00, 0, random_word(rng))))
    if fct == 15:
        qty = rng.choice((0, 1, 8, 9, 1967, 1968, 1969, 1976, 2000, 65535, 2040))
        need = (qty + 7) // 8
        count = need if rng.random() < 0.5 else rng.choice((0, 1, 255, need + 1, need - 1, need // 2, need * 2))
        size = rng.choice((count & 0xFF, need, count & 0xFF))
        return wire.write_coils_pdu(addr, (), qty=qty, count=count, data=bytes(
            rng.randrange(256) for _ in range(max(0, min(size, 300)))))
    qty = rng.choice((0, 1, 2, 120, 121, 124, 125, 126, 127, 128, 65535, 122, 123))
    count = qty * 2 if rng.random() < 0.5 else rng.choice((0, 1, qty, qty * 2 + 1, qty * 2 - 1, qty * 2 + 2, 255))
    size = rng.choice((count & 0xFF, count & 0xFF, min(qty * 2, 300)))
    data = bytes(rng.randrange(256) for _ in range(size))
    if fct == 16:
        return wire.write_regs_pdu(addr, (), qty=qty, count=count, data=data)
    rqty = rng.choice((1, 1, 0, 125, 126, 128, 255, 65535, 2))
    return wire.rw_pdu(addr, rqty, addr, (), qty=qty, count=count, data=data)


def range_request(rng, mod):
    """a range around the ends of the blocks"""
    fct = rng.choice((1, 2, 3, 4, 5, 6, 15, 16, 22, 23))
    typ = {1: 1, 2: 2, 3: 3, 4: 4, 5: 1, 6: 3, 15: 1, 16: 3, 22: 3, 23: 3}[fct]
    cands = [b for b in mod.blocks.values() if b.typ == typ] or list(mod.blocks.values())
    blk = rng.choice(cands)
    qty = rng.choice((1, 2, 3, blk.size, blk.size + 1, max(1, blk.size - 1)))
    addr = rng.choice((blk.start - 1, blk.start - qty, blk.start - qty + 1, blk.start, blk.start + blk.size - qty,
                       blk.start + blk.size - qty + 1, blk.start + blk.size - 1, blk.start + blk.size,
                       rng.randrange(65536))) & 0xFFFF
    if fct in (1, 2, 3, 4):
        return wire.read_pdu(fct, addr, min(qty, 2000 if fct < 3 else 125))
    if fct == 5:
        return wire.write_coil_pdu(addr, rng.random() < 0.5)
    if fct == 6:
        return wire.write_reg_pdu(addr, random_word(rng))
    if fct == 15:
        return wire.write_coils_pdu(addr, random_values(rng, 1, min(qty, 1968), True))
    if fct == 22:
        return wire.mask_pdu(addr, random_word(rng), random_word(rng))
    values = random_values(rng, 3, min(qty, 121), True)
    if fct == 16:
        return wire.write_regs_pdu(addr, values)
    other = rng.choice(cands)
    raddr = rng.choice((addr, other.start, other.start + other.size - 1, other.start + other.size)) & 0xFFFF
    rqty = rng.choice((1, 2, min(other.size, 125)))
    return wire.rw_pdu(raddr, rqty, addr, values)


def requests(ctx, rng, mod, i):
    kind = ctx.kind
    if kind == "server":
        kind = rng.choice(("limits", "cuts", "ranges", "random"))
    if kind == "functions":
        for fct in range(256):
            yield bytes([fct]) + bytes(rng.randrange(256) for _ in range(rng.choice((0, 1, 4, 5, 10))))
        return
    for _ in range(40 if kind != "cuts" else 4):
        if kind == "limits":
            yield limit_request(rng, mod)
        elif kind == "ranges":
            yield range_request(rng, mod)
        elif kind == "random":
            if rng.random() < 0.3:
                yield bytes([rng.choice((1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23, rng.randrange(256)))]) + bytes(
                    rng.randrange(256) for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 20))))
            else:
                pdu = bytearray(valid_write(rng, mod) if rng.random() < 0.7 else valid_read(rng, mod))
                for _ in range(rng.choice((1, 1, 2))):
                    pdu[rng.randrange(min(len(pdu), 11))] = rng.choice((0, 1, 255, 128, rng.randrange(256)))
                yield bytes(pdu)
        else:
            pdu = valid_write(rng, mod, rng.choice((5, 6, 15, 16, 16, 15, 22, 23, 23)))
            if rng.random() < 0.15:
                pdu = valid_read(rng, mod)
            cuts = range(1, len(pdu)) if len(pdu) < 30 else sorted(rng.sample(range(1, len(pdu)), 25))
            for cut in cuts:
                yield pdu[:cut]
            yield pdu


def teardown(ctx):
    stop_paths(ctx)


def case(ctx, rng, i):
    more = server_paths(ctx, rng) if ctx.kind == "server" else dict(big=ctx.kind == "limits" and rng.random() < 0.6)
    world = World(ctx, rng, slaves=rng.choice((1, 2)), **more)
    try:
        for sid in world.models:
            world.fill(sid)
        sid = rng.choice(sorted(world.models))
        for pdu in requests(ctx, rng, world.models[sid], i):
            out = world.step(sid, pdu)
            ctx.key(pdu)
            if out is not None and out.response[0] & 0x80:
                ctx.state("codes by function", out.response[0], out.response[1])
                ctx.count("code %d" % out.response[1])
        ctx.sample(dict(layout=world.layout(sid), pdu=pdu, response=out.response if out else None))
    finally:
        world.close()
