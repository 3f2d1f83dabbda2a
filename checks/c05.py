"""C05: local access and requests see the same memory"""
import array

from vp import model, wire
from vp.core import Violation
from vp.world import (World, add_slave, Path, SlavePath, DbPath, valid_write, valid_read, random_values, random_layout, pick_block,
                      random_range)

LEVEL = "exploration"
RULE = ("a case is a history which mixes set_values, get_values (inside, across and outside of the blocks, with scalars, "
        "lists, tuples, ranges, arrays) and requests, on slaves with private or shared memories; each result, exception "
        "and the whole memory are compared to the model; distinct by (operation, position relative to the block, size)")
ASSUMPTIONS = ["the shared memories of the model are lists of blocks shared by types and slaves, as in the tests of the "
               "repository"]


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="private", n=1200 * k, budget=25 * k, min=50, name="private-%d" % p) for p in range(4)] +
            [dict(kind="server", n=100 * k, budget=25 * k, min=4)] +
            [dict(kind="shared", n=1200 * k, budget=25 * k, min=50, name="shared-%d" % p) for p in range(3)])


def need(tier):
    return {"local_set": 10000, "local_get": 10000, "out_of_block": 3000, "requests": 10000, "shared_requests": 5000,
            "slaves of a server": 500}


class SharedModel(model.SlaveModel):
    """the blocks of a type are the ones of a group, which other types and slaves may share"""

    def __init__(self, unsigned, groups):
        model.SlaveModel.__init__(self, unsigned)
        self.groups = groups
        self.blocks = {}        # the blocks this slave knows by name

    def find(self, typ, addr, length):
        for block in self.groups[typ]:
            if block.start <= addr and addr + length <= block.start + block.size:
                return block, addr - block.start
        return None, None

    def overlap(self, typ, start, size):
        return any(start < b.start + b.size and b.start < start + size for b in self.groups[typ])

    def add(self, name, typ, start, size):
        model.SlaveModel.add(self, name, typ, start, size)
        self.groups[typ].append(self.blocks[name])


def local(ctx, rng, world, sid):
    """a local operation"""
    lib = ctx.lib
    slave, mod = world.slaves[sid], world.models[sid]
    name = rng.choice(sorted(mod.blocks))
    blk = mod.blocks[name]
    witness = dict(block=(name, blk.typ, blk.start, blk.size))
    size = rng.choice((1, 1, 2, 3, blk.size, blk.size - 1, blk.size + 1, rng.randint(1, 20)))
    size = max(1, size)
    addr = rng.choice((blk.start, blk.start + blk.size - size, blk.start + rng.randrange(blk.size),
                       blk.start - 1, blk.start - size, blk.start + blk.size, blk.start + blk.size - size + 1,
                       blk.start - blk.size))
    inside = blk.start <= addr and addr + size <= blk.start + blk.size
    off = addr - blk.start
    if rng.random() < 0.5:
        ctx.count("local_get")
        try:
            got = slave.get_values(name, addr, size) if size != 1 or rng.random() < 0.5 else slave.get_values(name, addr)
        except lib.exceptions.OutOfModbusBlockError:
            ctx.check(not inside, "get_values(%r, %d, %d) is refused" % (name, addr, size), **witness)
            ctx.count("out_of_block")
            return
        ctx.check(inside, "get_values(%r, %d, %d) out of the block returns %r" % (name, addr, size, got), **witness)
        want = tuple(blk.data[off:off + size])
        ctx.check(tuple(got) == want, "get_values(%r, %d, %d) returns %r instead of %r" % (name, addr, size, got, want),
                  **witness)
        ctx.check(isinstance(got, tuple), "get_values does not return a tuple: %r" % (got,), **witness)
        world.snapshots.append((got, want, "get_values(%r, %d, %d)" % (name, addr, size)))
        ctx.key("get", off, size, blk.size)
        return
    ctx.count("local_set")
    values = random_values(rng, blk.typ, size, mod.unsigned)
    if rng.random() < 0.2 and blk.typ in (3, 4) and values and min(values) >= 0:
        first = rng.randrange(100)
        values = list(range(first, first + size))
        given = range(first, first + size)
    else:
        style = rng.randrange(4)
        given = list(values) if style == 0 else tuple(values) if style == 1 else list(values)
        if style == 2 and size == 1:
            given = values[0]
        if style == 3:
            given = array.array("l", values)
    try:
        slave.set_values(name, addr, given)
    except lib.exceptions.OutOfModbusBlockError:
        ctx.check(not inside, "set_values(%r, %d, %r) is refused" % (name, addr, given), **witness)
        ctx.count("out_of_block")
        return
    ctx.check(inside, "set_values(%r, %d, %r) out of the block is accepted" % (name, addr, given), **witness)
    blk.data[off:off + size] = values
    if isinstance(given, list):
        # the list of the caller is not the memory
        given[0] = 12345
        given.append(6789)
    ctx.key("set", off, size, blk.size, type(given).__name__)


def case(ctx, rng, i):
    if ctx.kind == "shared":
        world = shared_world(ctx, rng)
    else:
        world = World(ctx, rng, slaves=rng.choice((1, 2)), paths=("rtu-server",) if ctx.kind == "server" else
                      ("slave", "db-tcp", "db-rtu"), big=rng.random() < 0.1)
    world.snapshots = []
    try:
        for step in range(40):
            sid = rng.choice(sorted(world.models))
            mod = world.models[sid]
            what = rng.random()
            if what < 0.5 and mod.blocks:
                local(ctx, rng, world, sid)
                for other in world.models:
                    world.check_image(other, "after a local operation on slave %d" % sid)
            else:
                view = mod if ctx.kind != "shared" else view_of(mod)
                pdu = valid_read(rng, view) if what < 0.75 else valid_write(rng, view)
                world.step(sid, pdu)
                if ctx.kind == "shared":
                    ctx.count("shared_requests")
                ctx.key("request", pdu)
        for got, want, what in world.snapshots:
            ctx.check(tuple(got) == want, "the result of %s has changed afterwards: %r instead of %r" % (
                what, got, want))
        ctx.sample(dict(layout=world.layout(sid), snapshots=len(world.snapshots)))
    finally:
        world.close()


class View(object):
    pass


def view_of(mod):
    """the blocks as requests see them: each one under every type of its group"""
    view = View()
    view.unsigned = mod.unsigned
    view.blocks = {}
    for typ, blocks in mod.groups.items():
        for k, blk in enumerate(blocks):
            view.blocks[(typ, k)] = model.Block((typ, k), typ, blk.start, blk.size)
    return view


def shared_world(ctx, rng):
    lib = ctx.lib
    world = World.__new__(World)
    world.ctx, world.lib, world.rng = ctx, lib, rng
    world.db = lib.modbus.Databank()
    world.models, world.slaves = {}, {}
    unsigned = rng.random() < 0.7
    # which types share a list of blocks
    lists = [([], []) for _ in range(4)]
    style = rng.choice(("all", "pairs", "none", "random"))
    group = {"all": {1: 0, 2: 0, 3: 0, 4: 0}, "pairs": {1: 0, 2: 0, 3: 1, 4: 1}, "none": {1: 0, 2: 1, 3: 2, 4: 3},
             "random": {t: rng.randrange(4) for t in (1, 2, 3, 4)}}[style]
    ids = rng.sample(range(1, 256), rng.choice((1, 2, 3)))
    one_map = {t: lists[group[t]][0] for t in group}
    for sid in ids:
        memory = one_map if rng.random() < 0.5 else {t: lists[group[t]][0] for t in group}
        if rng.random() < 0.5:
            owner = world.db
        else:
            # through a server of the databank, which is not started
            owner = lib.modbus_tcp.TcpServer(port=0, address="127.0.0.1", databank=world.db)
            ctx.count("slaves of a server")
        world.slaves[sid] = add_slave(owner, rng, sid, unsigned, memory=memory)
        world.models[sid] = SharedModel(unsigned, {t: lists[group[t]][1] for t in group})
    for k in range(rng.randint(2, 6)):
        sid = rng.choice(ids)
        typ = rng.choice((1, 2, 3, 4))
        args = ("s%d" % k, typ, rng.randrange(60), rng.choice((1, 3, 8, 16, 20)))
        mod = world.models[sid]
        refused = mod.overlap(typ, args[2], args[3])
        try:
            world.slaves[sid].add_block(*args)
        except lib.exceptions.OverlapModbusBlockError:
            ctx.check(refused, "add_block%r is refused" % (args,))
            continue
        ctx.check(not refused, "add_block%r is accepted over another block of the shared memory" % (args,))
        mod.add(*args)
    world.paths = {"slave": SlavePath(world), "db-tcp": DbPath(world, "tcp"), "db-rtu": DbPath(world, "rtu")}
    # fill; values which mean something for every type
    for sid in ids:
        for name, blk in world.models[sid].blocks.items():
            values = [rng.choice((0, 0, 1, 1, 2, 77, 0x7FFF)) for _ in range(blk.size)]
            world.slaves[sid].set_values(name, blk.start, values)
            blk.data[:] = values
    return world
