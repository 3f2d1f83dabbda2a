"""C08: a broadcast is executed once by every slave and never answered"""
import random

from vp import model, sched, wire
from vp.core import Violation, Inconclusive
from vp.net import RawClient, tcp_server, stop_server
from vp.world import World, RtuPath, valid_write, valid_read, random_word

LEVEL = "exploration"
RULE = ("a case sends requests to the address 0 of a server with 1 to 6 slaves (databank with both framings, RTU server, "
        "TCP server): nothing is answered, the memory of each slave is the one of its model after that request, and the "
        "documented hook of slave requests is called once for each slave; in the sched shards slaves come and go in "
        "other threads; distinct by (request, slaves, path)")
ASSUMPTIONS = ["the executions of a slave are counted by the documented hook modbus.Slave.handle_request"]
WRITES = (5, 6, 15, 16, 22, 23)


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="db", n=700 * k, budget=20 * k, min=50, name="db-%d" % p) for p in range(2)] +
            [dict(kind="rtu", n=60 * k, budget=20 * k, min=4)] +
            [dict(kind="tcp", n=40 * k, budget=25 * k, min=3)] +
            [dict(kind="sched", n=2000 * k, budget=25 * k, min=100, mode="sched", name="sched-%d" % p)
             for p in range(3)])


def need(tier):
    return {"broadcasts": 3000, "executed": 5000, "reads": 300, "refused by some": 200, "sched broadcasts": 400,
            "failing slaves": 100, "most slaves": 300}


def make_pdu(rng, world):
    """mostly a write which suits one of the slaves"""
    mod = world.models[rng.choice(sorted(world.models))]
    what = rng.random()
    if what < 0.6:
        return valid_write(rng, mod)
    if what < 0.7:
        return valid_read(rng, mod)
    if what < 0.8:
        # something which many refuse
        return rng.choice((wire.write_coil_pdu(0, 1, raw=rng.choice((1, 0xFF, 0xFE00))),
                           wire.write_regs_pdu(rng.randint(0, 400), [1, 2, 3], count=5),
                           wire.write_regs_pdu(rng.randint(0, 65535), [random_word(rng)] * rng.randint(1, 30)),
                           bytes([rng.choice((7, 8, 11, 17, 20, 43, 100, 127))]) + b"\0\0\0\0"))
    pdu = valid_write(rng, mod)
    if what < 0.9:
        return pdu[:rng.randint(1, len(pdu))]
    return pdu


def case(ctx, rng, i):
    if ctx.kind == "sched":
        return concurrent(ctx, rng)
    lib = ctx.lib
    # sometimes there are many slaves, up to all the addresses
    many = rng.choice((17, 33, 65, 130, 247, 255)) if i % 15 == 1 else 0
    world = World(ctx, rng, slaves=many or rng.randint(1, 6), same_layout=rng.random() < 0.7,
                  max_blocks=4 if many else 7, paths=("db-tcp", "db-rtu") if ctx.kind == "db" else ())
    ctx.count("most slaves", len(world.models) if many else 0)
    world.db.error_on_missing_slave = rng.random() < 0.5
    counts, failing = {}, {}

    def spy(args):
        slave = args[0]
        for sid, one in world.slaves.items():
            if one is slave:
                counts[sid] = counts.get(sid, 0) + 1
                if sid in failing:
                    raise failing[sid]

    server = client = None
    sentinel = sorted(world.models)[0]
    if ctx.kind == "rtu":
        world.paths["rtu"] = RtuPath(world)
    elif ctx.kind == "tcp":
        server, port = tcp_server(lib, databank=world.db)
        client = RawClient(port)
    lib.hooks.install_hook("modbus.Slave.handle_request", spy)
    try:
        for sid in world.models:
            world.fill(sid)
        for step in range(25 if not many else 8):
            pdu = make_pdu(rng, world)
            failing.clear()
            if rng.random() < 0.2:
                for sid in world.models:
                    if rng.random() < 0.5:
                        failing[sid] = rng.choice((RuntimeError("failing"), lib.exceptions.ModbusError(4),
                                                   ValueError("failing"), KeyError("failing")))
                ctx.count("failing slaves", len(failing))
            counts.clear()
            witness = dict(pdu=pdu, slaves={s: (m.unsigned, world.layout(s)) for s, m in world.models.items()},
                           failing={s: repr(e) for s, e in failing.items()}, kind=ctx.kind)
            # -- send it
            if ctx.kind == "tcp":
                client.send(wire.mbap(4660 + step, 0, pdu))
                saved = dict(failing)
                # the answer to another request shows that the broadcast is over
                ask_failing = sentinel in failing
                client.send(wire.mbap(9000 + step, sentinel, b"\x07"))
                frame = client.frame()
                want = wire.mbap(9000 + step, sentinel, b"\x07\x00")
                if ask_failing:
                    ok = len(frame) == 9 and frame[:7] == wire.mbap(9000 + step, sentinel, b"\x87\x04")[:7]
                else:
                    ok = frame == want
                if not ok:
                    raise Violation("received %s after a broadcast instead of the answer to the next request" %
                                    frame.hex(), **witness)
                if not client.quiet():
                    raise Violation("a broadcast is answered", **witness)
                counts[sentinel] = counts.get(sentinel, 0) - 1
                del saved
            else:
                path = world.paths[rng.choice(sorted(world.paths))]
                resp = path.send(0, pdu)
                if resp is not None:
                    raise Violation("a broadcast is answered: %s" % resp.hex(), **witness)
            ctx.count("broadcasts")
            # -- judge
            failing_now = dict(failing)
            failing.clear()
            executed = refused = 0
            for sid, mod in world.models.items():
                outs = mod.request(pdu) or []
                if sid in failing_now:
                    outs = []
                cands = [o for o in outs if o.writes] or [None]
                if any(not o.writes for o in outs) and cands != [None] and len(pdu) and outs[0].writes and len(outs) > 1:
                    cands.append(None)          # the model accepts a refusal
                for cand in cands:
                    before = [(blk, off, blk.data[off]) for blk, off, _ in (cand.writes if cand else ())]
                    if cand is not None:
                        cand.apply()
                    try:
                        world.check_image(sid, "after the broadcast %s" % pdu.hex(), **witness)
                        break
                    except Violation:
                        if cand is cands[-1]:
                            raise
                        for blk, off, val in reversed(before):
                            blk.data[off] = val
                if cand is not None:
                    executed += 1
                    ctx.count("executed")
                else:
                    refused += 1
                if pdu[0] in WRITES and counts.get(sid, 0) != 1:
                    raise Violation("the slave %d has handled the broadcast %d times" % (sid, counts.get(sid, 0)),
                                    **witness)
                if counts.get(sid, 0) > 1:
                    raise Violation("the slave %d has handled the broadcast %d times" % (sid, counts.get(sid, 0)),
                                    **witness)
            if pdu[0] in (1, 2, 3, 4):
                ctx.count("reads")
            if executed and refused:
                ctx.count("refused by some")
            ctx.key(pdu[:6], len(world.models), ctx.kind)
        ctx.sample(dict(slaves=len(world.models), pdu=pdu, executed=executed, refused=refused))
    finally:
        lib.hooks.uninstall_hook("modbus.Slave.handle_request", spy)
        world.close()
        if client:
            client.close()
        if server:
            stop_server(server)


def concurrent(ctx, rng):
    """broadcasts while slaves come and go"""
    lib = ctx.lib
    databank = lib.modbus.Databank(error_on_missing_slave=rng.random() < 0.5)
    ids = rng.sample(range(1, 256), rng.randint(3, 5))
    fixed, moving = ids[:2], ids[2:]
    clock = [0]

    def tick():
        clock[0] += 1
        return clock[0]

    slaves = {}          # slave object -> (id, added between (a, b), removed between (c, d))
    seen = []            # (slave object, value)

    def spy(args):
        seen.append((args[0], bytes(args[1])))

    def add(sid):
        start = tick()
        slave = databank.add_slave(sid)
        slave.add_block("h", 3, 0, 4)
        life = slaves[slave] = dict(sid=sid, add=(start, None), remove=None)
        life["add"] = (start, tick())

    for sid in fixed + moving[:rng.randint(0, len(moving))]:
        add(sid)
    broadcasts = []

    def mover(todo):
        def main():
            for what, sid in todo:
                try:
                    if what == "add":
                        add(sid)
                    elif what == "remove":
                        slave = databank.get_slave(sid)
                        start = tick()
                        databank.remove_slave(sid)
                        if slave in slaves:
                            slaves[slave]["remove"] = (start, tick())
                except (lib.exceptions.DuplicatedKeyError, lib.exceptions.MissingKeyError):
                    pass
        return main

    def sender(num, count):
        def main():
            for k in range(count):
                value = 100 * (num + 1) + k
                pdu = rng_pdu(value)
                framing = (num + k) % 2
                query = lib.modbus_tcp.TcpQuery() if framing else lib.modbus_rtu.RtuQuery()
                frame = wire.mbap(value, 0, pdu) if framing else wire.rtu(0, pdu)
                start = tick()
                resp = databank.handle_request(query, frame)
                broadcasts.append((start, tick(), pdu, value, resp))
        return main

    def rng_pdu(value):
        return wire.write_regs_pdu(0, [value] * 4)

    # one thread moves each slave: its life is known
    programs = []
    for k, sid in enumerate(moving):
        programs.append(("mover%d" % k, mover([(rng.choice(("add", "remove")), sid) for _ in range(rng.randint(2, 4))])))
    for k in range(rng.choice((1, 1, 2))):
        programs.append(("sender%d" % k, sender(k, rng.randint(1, 3))))
    lib.hooks.install_hook("modbus.Slave.handle_request", spy)
    try:
        run = sched.make_run(rng, horizon=500)
        run.execute(programs)
    finally:
        lib.hooks.uninstall_hook("modbus.Slave.handle_request", spy)
    if run.deadlock:
        raise Violation("deadlock: " + run.deadlock, stacks=run.stacks)
    for _, error in run.errors():
        raise error
    for start, end, pdu, value, resp in broadcasts:
        if resp:
            raise Violation("a broadcast is answered: %r" % (resp,))
        ctx.count("sched broadcasts")
        for slave, life in slaves.items():
            times = sum(1 for one, what in seen if one is slave and what == pdu)
            inside = life["add"][1] < start and (life["remove"] is None or life["remove"][0] > end)
            outside = life["add"][0] > end or (life["remove"] is not None and life["remove"][1] < start)
            if times > 1 or (inside and times != 1) or (outside and times):
                raise Violation("the slave %d (%s the server) has executed %d times the broadcast %d" % (
                    life["sid"], "in" if inside else "not in" if outside else "entering or leaving", times, value),
                    lives=sorted([l["sid"], l["add"], l["remove"]] for l in slaves.values()),
                    broadcasts=[b[:2] + b[3:4] for b in broadcasts])
            if times:
                ctx.count("executed")
            if not inside and not outside:
                ctx.count("concurrent with add or remove")
    # the last values
    for slave, life in slaves.items():
        got = slave.get_values("h", 0, 4)
        done = [what for one, what in seen if one is slave]
        want = set(tuple([b[3]] * 4) for b in broadcasts if b[2] in done)
        # a value which has been overwritten for sure can not be the last one
        for b in broadcasts:
            if any(a[0] > b[1] and a[2] in done for a in broadcasts):
                want.discard(tuple([b[3]] * 4))
        if not done:
            want = {(0, 0, 0, 0)}
        # a block which did not exist yet when the broadcast came
        if got not in want and not (got == (0, 0, 0, 0) and life["sid"] in moving):
            raise Violation("the slave %d contains %r after the broadcasts, expected one of %r" % (
                life["sid"], got, sorted(want)))
    ctx.count("switches", run.switches)
    ctx.key(run.sched_hash)
