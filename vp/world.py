"""A databank (or server) of modbus_tk next to its reference model, and ways to send requests to it"""
import struct
import time

from vp import model, wire
from vp.core import Violation, Inconclusive
from vp.fakeserial import FakeSerial, GAP
from vp.net import RawClient, tcp_server, stop_server

NAMES = {1: "coils", 2: "discrete", 3: "holding", 4: "inputs"}


def random_layout(rng, max_blocks=7, big=False, addresses=None):
    """a list of (name, type, start, size) which do not overlap, in any order"""
    blocks = []
    used = {1: [], 2: [], 3: [], 4: []}
    base = addresses if addresses is not None else rng.choice((0, 0, 1, 100, 4000, 65000, 40001))
    for k in range(rng.randint(3, max_blocks)):
        typ = rng.choice((1, 2, 3, 4)) if k >= 4 else k + 1
        if typ in (1, 2):
            size = rng.choice((1, 2, 7, 8, 9, 15, 16, 17, 31, 40, 63, 64, 65, rng.randint(1, 200)))
            if big and rng.random() < 0.5:
                size = rng.choice((1968, 1969, 2000, 2001, 2100))
        else:
            size = rng.choice((1, 2, 3, 5, 10, 20, rng.randint(1, 60)))
            if big and rng.random() < 0.6:
                size = rng.choice((121, 122, 123, 124, 125, 126, 130, 250))
        # next to another block, with a hole, or anywhere
        where = rng.random()
        mine = used[typ]
        if mine and where < 0.4:
            start = mine[-1][0] + mine[-1][1]
        elif mine and where < 0.6:
            start = mine[-1][0] + mine[-1][1] + rng.randint(1, 3)
        elif mine and where < 0.8:
            start = mine[0][0] - size - rng.choice((0, 0, 1, 2))
        else:
            start = base + rng.randint(0, 300)
            if rng.random() < 0.12:
                start = 65536 - size       # up to the last address
        if start < 0 or start + size > 65536:
            continue
        if any(start < s + n and s < start + size for s, n in mine):
            continue
        mine.append((start, size))
        blocks.append(("%s%d" % (NAMES[typ][0].upper(), k), typ, start, size))
    rng.shuffle(blocks)
    return blocks


def random_values(rng, typ, count, unsigned):
    style = rng.randrange(5)
    if typ in (1, 2):
        if style == 0:
            return [1] * count
        if style == 1:
            return [1 if k == count // 2 else 0 for k in range(count)]
        if style == 2:
            return [(k ^ 1) & 1 for k in range(count)]
        return [rng.randrange(2) for _ in range(count)]
    low, high = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)
    if style == 0:
        return [rng.choice((low, high, 0, 1, high - 1, low + 1, -1 if not unsigned else 0x8000, 255, 256))
                for _ in range(count)]
    if style == 1:
        start = rng.randint(low, high)
        return [low + (start + 257 * k - low) % (high - low + 1) for k in range(count)]
    return [rng.randint(low, high) for _ in range(count)]


class Path(object):
    """a way to have a request executed. send() returns the response pdu, or None without a response"""
    name = "?"

    def close(self):
        pass


class SlavePath(Path):
    name = "slave"

    def __init__(self, world):
        self.world = world

    def send(self, slave_id, pdu, kind=bytes):
        try:
            resp = self.world.db.get_slave(slave_id).handle_request(kind(pdu))
        except (struct.error, IndexError):
            # what the databank answers with a slave device failure
            return struct.pack(">BB", (pdu[0] if pdu else 1) | 0x80, 4)
        return bytes(resp)


class DbPath(Path):
    """the databank with the framing of TCP or RTU"""

    def __init__(self, world, framing):
        self.world, self.name = world, "db-" + framing
        self.framing = framing
        self.tid = 0

    def send(self, slave_id, pdu, kind=bytearray):
        lib = self.world.lib
        if self.framing == "tcp":
            self.tid = (self.tid + 4097) & 0xFFFF
            query, frame = lib.modbus_tcp.TcpQuery(), wire.mbap(self.tid, slave_id, pdu)
        else:
            query, frame = lib.modbus_rtu.RtuQuery(), wire.rtu(slave_id, pdu)
        try:
            resp = self.world.db.handle_request(query, kind(frame))
        except struct.error:
            if not pdu or pdu[0] < 0x80:
                raise
            return None     # not a request: the server would not answer
        return unframe(resp, self.framing, slave_id, self.tid, bare=True)


def unframe(resp, framing, slave_id, tid=0, bare=False):
    """checks the frame of a response and returns its pdu"""
    if not resp:
        return None
    resp = bytes(resp)
    if bare and len(resp) == 2:
        # slave device failure: the databank returns it without a frame
        return resp
    if framing == "tcp":
        if len(resp) < 8:
            raise Violation("the response is not a frame: %s" % resp.hex())
        pdu = resp[7:]
        if resp[:7] != wire.mbap(tid, slave_id, pdu)[:7]:
            raise Violation("wrong header in the response %s to the request %d of slave %d" % (
                resp.hex(), tid, slave_id))
        return pdu
    if len(resp) < 4 or wire.crc16(resp[:-2]) != resp[-2:] or resp[0] != slave_id:
        raise Violation("wrong frame in the response %s of slave %d" % (resp.hex(), slave_id))
    return resp[1:-2]


class RtuPath(Path):
    """a running RtuServer on a fake serial port"""
    name = "rtu-server"

    def __init__(self, world):
        self.world = world
        self.port = FakeSerial()
        self.server = world.lib.modbus_rtu.RtuServer(self.port, databank=world.db, interframe_multiplier=0.02)
        self.server.start()
        self.sent = 0

    def send(self, slave_id, pdu, kind=None):
        before = len(self.port.writes)
        frame = wire.rtu(slave_id, pdu)
        self.port.feed([frame])
        if not self.port.wait_idle(30):
            raise Violation("the RTU server is stuck", timing=True)
        writes = self.port.writes[before:]
        if len(writes) > 1:
            raise Violation("several responses to one request: %s" % [w.hex() for w in writes])
        return unframe(writes[0], "rtu", slave_id) if writes else None

    def close(self):
        self.server.stop()


class TcpPath(Path):
    """a TcpServer on the loopback, which lasts for all the cases of the process"""
    name = "tcp-server"

    def __init__(self, world):
        self.world = world
        self.client = RawClient(world.ctx.store["tcp port"])
        self.tid = world.rng.randrange(65536)

    def send(self, slave_id, pdu, kind=None):
        pdu = bytes(pdu)
        self.tid = (self.tid + 1) & 0xFFFF
        frame = wire.mbap(self.tid, slave_id, pdu)
        last = (self.tid + 32768) & 0xFFFF
        if not pdu or pdu[0] >= 0x80:
            # maybe not answered: followed by a request which is
            frame += wire.mbap(last, slave_id, b"\x07")
        began = time.monotonic()
        self.client.send(frame)
        resp = self.client.frame(what="the answer to %s" % frame.hex()[:60])
        if not pdu or pdu[0] >= 0x80:
            if resp[:2] == struct.pack(">H", last):
                return None
            self.client.frame()
        if not resp:
            if time.monotonic() - began > 0.4:
                raise Inconclusive("the harness is too slow")
            raise Violation("the server closes the connection of the request %s to slave %d" % (pdu.hex(), slave_id))
        return unframe(resp, "tcp", slave_id, self.tid)

    def close(self):
        self.client.close()


def server_paths(ctx, rng):
    """the keywords of World for a process which sends its requests to running servers"""
    if "tcp server" not in ctx.store:
        ctx.store["tcp server"], ctx.store["tcp port"] = tcp_server(ctx.lib)
    return dict(paths=("rtu-server", "tcp-server"), db=ctx.store["tcp server"].get_db(), big=rng.random() < 0.6)


def stop_paths(ctx):
    """the function teardown of the checks which use server_paths"""
    if "tcp server" in ctx.store:
        stop_server(ctx.store["tcp server"])


def add_slave(owner, rng, sid, unsigned, **more):
    """owner.add_slave, with what is the default value given or not"""
    if unsigned and rng.random() < 0.5:
        return owner.add_slave(sid, **more)
    if rng.random() < 0.3:
        return owner.add_slave(sid, unsigned=unsigned, **more)
    return owner.add_slave(sid, unsigned, **more)


def make_slave(lib, rng, sid, unsigned):
    """a slave of a databank, or alone"""
    if rng.random() < 0.7:
        return add_slave(lib.modbus.Databank(), rng, sid, unsigned)
    return lib.modbus.Slave(sid) if unsigned and rng.random() < 0.7 else lib.modbus.Slave(sid, unsigned)


class World(object):
    """a databank of modbus_tk and its models"""

    def __init__(self, ctx, rng, slaves=1, big=False, max_blocks=7, paths=("slave", "db-tcp", "db-rtu"), signed=0.4,
                 same_layout=False, db=None):
        self.ctx, self.lib, self.rng = ctx, ctx.lib, rng
        self.db = db if db is not None else self.lib.modbus.Databank()
        self.db.remove_all_slaves()
        self.models, self.slaves = {}, {}
        ids = rng.sample(range(1, 256), slaves)
        layout = random_layout(rng, max_blocks, big)
        for sid in ids:
            unsigned = rng.random() >= signed
            self.slaves[sid] = add_slave(self.db, rng, sid, unsigned)
            self.models[sid] = model.SlaveModel(unsigned)
            for blk in (layout if same_layout else random_layout(rng, max_blocks, big)):
                self.slaves[sid].add_block(*blk)
                self.models[sid].add(*blk)
        self.paths = {}
        for name in paths:
            self.paths[name] = (SlavePath(self) if name == "slave" else RtuPath(self) if name == "rtu-server"
                                else TcpPath(self) if name == "tcp-server" else DbPath(self, name[3:]))

    def close(self):
        for path in self.paths.values():
            path.close()

    def fill(self, sid, only=None):
        """random contents through the local interface"""
        mod = self.models[sid]
        for name, blk in mod.blocks.items():
            values = random_values(self.rng, blk.typ, blk.size, mod.unsigned)
            if blk.typ in (1, 2) and self.rng.random() < 0.25:
                # what is on for the application
                values = [self.rng.choice((1, True, 255, 0xff00, 2, -1)) if v else v for v in values]
            self.slaves[sid].set_values(name, blk.start, values)
            blk.data[:] = values

    def image(self, sid):
        out = {}
        for name, blk in self.models[sid].blocks.items():
            out[name] = list(self.slaves[sid].get_values(name, blk.start, blk.size))
        return out

    def check_image(self, sid, what, **witness):
        for name, blk in self.models[sid].blocks.items():
            got = self.slaves[sid].get_values(name, blk.start, blk.size)
            if list(got) != blk.data:
                diff = [(blk.start + k, want, have) for k, (want, have) in enumerate(zip(blk.data, got))
                        if want != have or len(got) != len(blk.data)]
                raise Violation("%s: block %s (type %d) of slave %d differs from the model at (address, expected, "
                                "found) %s" % (what, name, blk.typ, sid, diff[:6]), **witness)

    def layout(self, sid):
        return [(b.name, b.typ, b.start, b.size) for b in self.models[sid].blocks.values()]

    def step(self, sid, pdu, path=None, images=True):
        """send a request, judge the response and the memory, apply it to the model"""
        rng, ctx = self.rng, self.ctx
        path = self.paths[path or rng.choice(sorted(self.paths))]
        outs = self.models[sid].request(pdu)
        kind = bytes if rng.random() < 0.5 else bytearray
        resp = path.send(sid, pdu, kind)
        witness = dict(slave=sid, unsigned=self.models[sid].unsigned, layout=self.layout(sid), pdu=pdu, path=path.name,
                       response=resp)
        ctx.count("requests")
        if outs is None:
            out = None
        else:
            if resp is None:
                raise Violation("no response to the request %s" % bytes(pdu).hex(), **witness)
            out = model.match(outs, resp)
            if out is None:
                raise Violation("response %s to the request %s, acceptable: %s" % (
                    resp.hex(), bytes(pdu).hex(), outs[:4]), **witness)
            out.apply()
            if out.response and out.response[0] & 0x80:
                ctx.count("exceptions")
            else:
                ctx.count("accepted")
        if images:
            for other in self.models:
                self.check_image(other, "after the request %s to slave %d" % (bytes(pdu).hex(), sid), **witness)
        return out


def random_range(rng, blk, limit):
    """a range inside a block: often touching its limits"""
    top = min(blk.size, limit)
    qty = rng.choice((1, top, rng.randint(1, top), rng.randint(1, top), min(top, rng.choice((7, 8, 9, 16, 17)))))
    room = blk.size - qty
    off = rng.choice((0, room, rng.randint(0, room)))
    return blk.start + off, qty


def pick_block(rng, mod, typ):
    cands = [b for b in mod.blocks.values() if b.typ == typ]
    return rng.choice(cands) if cands else None


def valid_read(rng, mod):
    for _ in range(20):
        typ = rng.choice((1, 2, 3, 4))
        blk = pick_block(rng, mod, typ)
        if blk:
            addr, qty = random_range(rng, blk, 2000 if typ in (1, 2) else 125)
            return wire.read_pdu({1: 1, 2: 2, 3: 3, 4: 4}[typ], addr, qty)
    return bytes([7])


def valid_write(rng, mod, fct=None):
    """an acceptable write request"""
    for _ in range(20):
        fun = fct or rng.choice((5, 6, 15, 16, 22, 23))
        blk = pick_block(rng, mod, 1 if fun in (5, 15) else 3)
        if not blk:
            continue
        if fun == 5:
            return wire.write_coil_pdu(random_range(rng, blk, 1)[0], rng.random() < 0.6)
        if fun == 6:
            return wire.write_reg_pdu(random_range(rng, blk, 1)[0], random_word(rng))
        if fun == 15:
            addr, qty = random_range(rng, blk, 1968)
            pdu = bytearray(wire.write_coils_pdu(addr, random_values(rng, 1, qty, True)))
            if qty % 8 and rng.random() < 0.3:
                # padding bits have no meaning
                pdu[-1] |= (0xFF << (qty % 8)) & 0xFF
            return bytes(pdu)
        if fun == 16:
            addr, qty = random_range(rng, blk, 123)
            return wire.write_regs_pdu(addr, random_values(rng, 3, qty, True))
        if fun == 22:
            return wire.mask_pdu(random_range(rng, blk, 1)[0], random_word(rng), random_word(rng))
        if fun == 23:
            addr, qty = random_range(rng, blk, 121)
            other = blk if rng.random() < 0.7 else pick_block(rng, mod, 3)
            raddr, rqty = random_range(rng, other, 125)
            return wire.rw_pdu(raddr, rqty, addr, random_values(rng, 3, qty, True))
    return bytes([7])


def random_word(rng):
    return rng.choice((0, 1, 0xFFFF, 0x8000, 0x7FFF, 0x00FF, 0xFF00, 0x5555, 0xAAAA,
                       rng.randrange(0x10000), rng.randrange(0x10000), rng.randrange(0x10000)))
