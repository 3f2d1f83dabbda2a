"""C24: typed values survive a round trip through registers"""
import math
import struct

from vp import masters, net, pair, wire
from vp.core import Violation

LEVEL = "exploration"
RULE = ("a case is a series of 40 writes and reads by one or two masters of the same slave, with data formats made of integers "
        "and floats of 2, 4 and 8 bytes in any order and byte order, words with and without sign, bits, raw data, masks and "
        "local accesses; the registers are compared with an encoder written without struct for the integers, and each read "
        "(also of values written with another format or in several times) with its decoding; distinct by (format, function, "
        "address, link)")
ASSUMPTIONS = ["the values of the formats are even in size and fit in one request; a not-a-number may come back as another one",
               "formats without byte order or with @ and = are the ones of this machine, as struct defines them"]
SIZES = {"h": 2, "H": 2, "e": 2, "i": 4, "I": 4, "l": 4, "L": 4, "f": 4, "q": 8, "Q": 8, "d": 8}
BLOCK = 400


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="rtu link", n=900 * k, budget=22 * k, min=40, name="link-%d" % p) for p in range(3)] +
            [dict(kind="tcp", n=400 * k, budget=22 * k, min=10, name="tcp-%d" % p) for p in range(2)] +
            [dict(kind="rtu", n=400 * k, budget=22 * k, min=5)] +
            [dict(kind="rtu over tcp", n=300 * k, budget=22 * k, min=5)])


def need(tier):
    return {"typed writes": 3000, "typed reads": 3000, "re-read": 1500, "words": 2000, "signed words": 500, "bits": 1000,
            "floats": 2000, "64 bits": 2000, "little endian": 1000, "native": 300, "largest": 60, "fc23": 300, "raw": 200,
            "wide bits": 40}


def setup(ctx):
    """the slave and the masters which reach it"""
    lib = ctx.lib
    store = ctx.store
    if ctx.kind in ("rtu link", "rtu over tcp"):
        store["db"] = lib.modbus.Databank()
        link = store["link"] = masters.LINKS["rtu" if ctx.kind == "rtu link" else ctx.kind](lib)

        def reply(link_, tid, unit, pdu):
            answer = bytes(store["db"].get_slave(unit).handle_request(bytes(pdu)))
            return [link_.frame(tid, unit, answer)]
        link.reply = reply
        store["masters"] = [link.master]
    elif ctx.kind == "tcp":
        store["server"], port = net.tcp_server(lib)
        store["db"] = store["server"]
        store["masters"] = [lib.modbus_tcp.TcpMaster("127.0.0.1", port, 30.0) for _ in range(2)]
    else:
        store["line"], store["server"], master = pair.rtu_pair(lib)
        store["db"] = store["server"]
        store["masters"] = [master]


def teardown(ctx):
    for master in ctx.store.get("masters", ()):
        master.close()
    if "server" in ctx.store:
        net.stop_server(ctx.store["server"])
    if "link" in ctx.store:
        ctx.store["link"].close()


# ------------------------------------------------------------------------------------------------ the encoding

def order_of(prefix):
    if prefix in (">", "!"):
        return "big"
    if prefix == "<":
        return "little"
    return __import__("sys").byteorder


def layout(prefix, codes):
    """(offset, code, size) of each value and the whole size"""
    out, pos = [], 0
    for code in codes:
        size = SIZES[code]
        if prefix in ("@", ""):
            if code in "lL":
                size = struct.calcsize("l")
            pos += -pos % size
        out.append((pos, code, size))
        pos += size
    return out, pos


def encode(prefix, codes, values):
    places, size = layout(prefix, codes)
    out = bytearray(size)
    order = order_of(prefix)
    for (pos, code, n), value in zip(places, values):
        if code in "efd":
            data = struct.pack(">" + code, value)
            data = data if order == "big" else data[::-1]
        else:
            data = int(value).to_bytes(n, order, signed=code.islower())
        out[pos:pos + n] = data
    return bytes(out)


def decode(prefix, codes, data):
    places, _ = layout(prefix, codes)
    order = order_of(prefix)
    out = []
    for pos, code, n in places:
        part = data[pos:pos + n]
        if code in "efd":
            part = part if order == "big" else part[::-1]
            out.append(struct.unpack(">" + code, part)[0])
        else:
            out.append(int.from_bytes(part, order, signed=code.islower()))
    return tuple(out)


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, float) or isinstance(y, float):
            if not isinstance(x, float) or not isinstance(y, float):
                return False
            if math.isnan(x) and math.isnan(y):
                continue
            if x != y or math.copysign(1, x) != math.copysign(1, y):
                return False
        elif type(x) is not type(y) or x != y:
            return False
    return True


def random_format(rng, limit):
    """a format of at most limit words: (text, prefix, codes, words)"""
    prefix = rng.choice((">", ">", "<", "!", "=", "@", ""))
    codes = []
    style = rng.random()
    most = limit if style < 0.1 else rng.choice((1, 2, 3, 6, 12))
    one = rng.choice(list(SIZES)) if rng.random() < 0.3 else None
    while len(codes) < most:
        code = one or rng.choice(list(SIZES))
        if layout(prefix, codes + [code])[1] > 2 * limit:
            break
        codes.append(code)
    if not codes:
        codes = ["h"]
    if rng.random() < 0.3:
        # with counts
        text, k = "", 0
        while k < len(codes):
            n = 1
            while k + n < len(codes) and codes[k + n] == codes[k]:
                n += 1
            text += ("%d" % n if n > 1 or rng.random() < 0.2 else "") + codes[k]
            k += n
    else:
        text = (" " if rng.random() < 0.1 else "").join(codes)
    return prefix + text, prefix, codes, layout(prefix, codes)[1] // 2


def random_value(rng, code, size):
    if code in "efd":
        if rng.random() < 0.15:
            return rng.choice((0.0, -0.0, 1.0, -1.0, float("inf"), float("-inf"), float("nan"), 0.5, 2, -3))
        return struct.unpack(">" + code, bytes(rng.randrange(256) for _ in range(struct.calcsize(">" + code))))[0]
    bits = 8 * size
    low, high = (-(1 << bits - 1), (1 << bits - 1) - 1) if code.islower() else (0, (1 << bits) - 1)
    return rng.choice((low, high, 0, 1, low + 1, high - 1, (1 << bits - 1) - 1, 255, 256, 0x7FFF, 0x1234,
                       rng.randint(low, high), rng.randint(low, high), rng.randint(low, high)))


# ------------------------------------------------------------------------------------------------ the cases

class Bench(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.unsigned = rng.random() < 0.5
        self.sid = rng.choice((1, 2, 17, 247, 255)) if ctx.kind != "rtu" else rng.randint(1, 247)
        self.slave = ctx.store["db"].add_slave(self.sid, self.unsigned)
        self.start = {t: rng.choice((0, 1, 1000, 65536 - BLOCK, rng.randrange(65536 - BLOCK))) for t in (1, 2, 3, 4)}
        for typ in (1, 2, 3, 4):
            self.slave.add_block("b%d" % typ, typ, self.start[typ], BLOCK)
        if rng.random() < 0.5 and ctx.kind != "rtu":
            # another slave, which nobody uses
            self.slave2 = ctx.store["db"].add_slave(self.sid % 255 + 1)
            self.slave2.add_block("b3", 3, self.start[3], BLOCK)
        self.words = {3: [0] * BLOCK, 4: [0] * BLOCK}
        self.bits = {1: [0] * BLOCK, 2: [0] * BLOCK}
        self.formats = []       # (offset, prefix, codes, text, words) of typed values which are still whole
        self.log = []

    def close(self):
        self.ctx.store["db"].remove_all_slaves()

    def run(self, fct, *args, **kwargs):
        self.log.append((fct, args, kwargs))
        master = self.rng.choice(self.ctx.store["masters"])
        try:
            return master.execute(self.sid, fct, *args, **kwargs)
        except Exception as exc:
            raise Violation("execute(%d, %d, *%r, **%r) raises %s: %s" % (self.sid, fct, args, kwargs, type(exc).__name__, exc),
                            timing=True, log=self.tail())

    def tail(self):
        return [repr(one)[:300] for one in self.log[-12:]]

    def expect(self, what, got, want):
        if not isinstance(got, tuple) or not same(got, tuple(want)):
            raise Violation("%s gives %r instead of %r" % (what, got, tuple(want)), log=self.tail(), unsigned=self.unsigned)

    def place(self, qty):
        return self.rng.choice((0, BLOCK - qty, self.rng.randint(0, BLOCK - qty), self.rng.randint(0, BLOCK - qty)))

    def store(self, typ, off, words):
        self.words[typ][off:off + len(words)] = words

    def data(self, typ, off, qty):
        return wire.regs(self.words[typ][off:off + qty])

    # -- the steps

    def typed_write(self):
        rng, ctx = self.rng, self.ctx
        text, prefix, codes, qty = random_format(rng, 123)
        off = self.place(qty)
        places, size = layout(prefix, codes)
        values = [random_value(rng, code, n) for _, code, n in places]
        data = encode(prefix, codes, values)
        got = self.run(16, self.start[3] + off, output_value=masters.sequence(rng, values), data_format=text)
        self.expect("a write with the format %r" % text, got, (self.start[3] + off, qty))
        self.store(3, off, struct.unpack(">%dH" % qty, data))
        self.formats = [f for f in self.formats if f[0] + f[4] <= off or f[0] >= off + qty]
        self.formats.append((off, prefix, codes, text, qty))
        ctx.count("typed writes")
        for name, found in (("floats", any(c in "efd" for c in codes)), ("64 bits", any(n == 8 for _, _, n in places)),
                            ("little endian", prefix == "<"), ("native", prefix in ("@", "", "=")), ("largest", qty >= 120)):
            if found:
                ctx.count(name)
        ctx.key(text, 16, off, ctx.kind)
        registers = [v & 0xFFFF for v in self.slave.get_values("b3", self.start[3] + off, qty)]
        want = list(struct.unpack(">%dH" % qty, data))
        if registers != want and not any(isinstance(v, float) and math.isnan(v) for v in values):
            raise Violation("%r written with the format %r are the registers %r instead of %r" % (values, text, registers, want),
                            log=self.tail())
        self.store(3, off, registers)

    def typed_read(self):
        rng, ctx = self.rng, self.ctx
        typ = rng.choice((3, 3, 4))
        if typ == 3 and self.formats and rng.random() < 0.7:
            off, prefix, codes, text, qty = rng.choice(self.formats)
            ctx.count("re-read")
        else:
            text, prefix, codes, qty = random_format(rng, 125)
            off = self.place(qty)
        want = decode(prefix, codes, self.data(typ, off, qty))
        if typ == 3 and rng.random() < 0.15 and qty <= 125:
            # the write comes first
            values = [rng.randrange(-0x8000, 0x10000) for _ in range(rng.randint(1, 10))]
            woff = self.place(len(values))
            self.store(3, woff, [v & 0xFFFF for v in values])
            self.formats = [f for f in self.formats if f[0] + f[4] <= woff or f[0] >= woff + len(values)]
            want = decode(prefix, codes, self.data(typ, off, qty))
            got = self.run(23, self.start[3] + off, qty, write_starting_address_fc23=self.start[3] + woff,
                           output_value=masters.sequence(rng, values), data_format=text)
            ctx.count("fc23")
        else:
            got = self.run(typ, self.start[typ] + off, qty, data_format=text)
        self.expect("reading %d registers with the format %r" % (qty, text), got, want)
        ctx.count("typed reads")
        ctx.key(text, typ, off, ctx.kind)

    def words_write(self):
        rng, ctx = self.rng, self.ctx
        signed = rng.random() < 0.5
        low, high = (-0x8000, 0x7FFF) if signed else (0, 0xFFFF)
        qty = rng.choice((1, 1, 2, 5, 123))
        values = [rng.choice((low, high, 0, 1, -1 if signed else 0x8000, rng.randint(low, high))) for _ in range(qty)]
        off = self.place(qty)
        addr = self.start[3] + off
        how = rng.choice((6, 16, "local", "local4")) if qty > 1 else rng.choice((6, 6, 16, 22, "local"))
        typ = 3
        if how == 6:
            values, qty = values[:1], 1
            got = self.run(6, addr, output_value=values[0])
            self.expect("writing the register %d" % addr, got, (addr, values[0] & 0xFFFF))
        elif how == 16:
            got = self.run(16, addr, output_value=masters.sequence(rng, values))
            self.expect("writing %d registers" % qty, got, (addr, qty))
        elif how == 22:
            and_mask, or_mask = rng.randrange(0x10000), rng.choice((0, rng.randrange(0x10000)))
            got = self.run(22, addr, and_mask=and_mask, or_mask=or_mask)
            self.expect("the mask", got, (addr, and_mask, or_mask))
            values = [(self.words[3][off] & and_mask) | (or_mask & ~and_mask & 0xFFFF)]
        else:
            typ = 4 if how == "local4" else 3
            addr = self.start[typ] + off
            local = [v & 0xFFFF if self.unsigned else (v & 0xFFFF) - 0x10000 * ((v & 0xFFFF) >> 15) for v in values]
            self.slave.set_values("b%d" % typ, addr, masters.sequence(rng, local))
        self.store(typ, off, [v & 0xFFFF for v in values])
        if typ == 3:
            self.formats = [f for f in self.formats if f[0] + f[4] <= off or f[0] >= off + qty]
        ctx.count("words", qty)
        if signed and how != 22:
            ctx.count("signed words", qty)
            got = self.run(typ, addr, qty, data_format=">%dh" % qty)
            self.expect("reading %d signed registers" % qty, got, [v - 0x10000 * (v >> 15) for v in self.words[typ][off:off + qty]])
        else:
            got = self.run(typ, addr, qty)
            self.expect("reading %d registers" % qty, got, self.words[typ][off:off + qty])

    def bits_step(self):
        rng, ctx = self.rng, self.ctx
        qty = rng.choice((1, 1, 3, 8, 9, 16, 17, BLOCK, rng.randint(1, BLOCK)))
        typ = rng.choice((1, 1, 2))
        off = self.place(qty)
        addr = self.start[typ] + off
        values = [rng.randrange(2) for _ in range(qty)]
        how = rng.choice((5, 15, 15, "local")) if typ == 1 else "local"
        if how == 5:
            values, qty = values[:1], 1
            got = self.run(5, addr, output_value=rng.choice((values[0], bool(values[0]), values[0] * 0xFF00)))
            self.expect("writing the coil %d" % addr, got, (addr, 0xFF00 * values[0]))
        elif how == 15:
            got = self.run(15, addr, output_value=masters.sequence(rng, values))
            self.expect("writing %d coils" % qty, got, (addr, qty))
        else:
            self.slave.set_values("b%d" % typ, addr, masters.sequence(rng, values))
        self.bits[typ][off:off + qty] = values
        more = rng.choice((0, 0, rng.randint(0, BLOCK - qty - off)))
        got = self.run(typ, addr, qty + more)
        self.expect("reading %d bits at %d" % (qty + more, addr), got, self.bits[typ][off:off + qty + more])
        ctx.count("bits", qty)
        if qty > 255:
            ctx.count("wide bits")

    def raw(self):
        typ = self.rng.choice((3, 4))
        qty = self.rng.choice((1, 2, 125, self.rng.randint(1, 125)))
        off = self.place(qty)
        got = bytes(self.run(typ, self.start[typ] + off, qty, returns_raw=True,
                             data_format=self.rng.choice(("", ">%dh" % qty, ">d"))))
        if got != self.data(typ, off, qty):
            raise Violation("the raw data of %d registers are %s instead of %s" % (qty, got.hex(), self.data(typ, off, qty).hex()),
                            log=self.tail())
        self.ctx.count("raw")

    def check(self):
        for typ in (3, 4):
            got = [v & 0xFFFF for v in self.slave.get_values("b%d" % typ, self.start[typ], BLOCK)]
            if got != self.words[typ]:
                bad = [(self.start[typ] + k, a, b) for k, (a, b) in enumerate(zip(got, self.words[typ])) if a != b]
                raise Violation("registers (type %d) with other values than written: (address, value, expected) %r" % (typ, bad[:10]),
                                log=self.tail())
        for typ in (1, 2):
            got = [int(bool(v)) for v in self.slave.get_values("b%d" % typ, self.start[typ], BLOCK)]
            if got != self.bits[typ]:
                raise Violation("bits (type %d) with other values than written" % typ, log=self.tail())


def case(ctx, rng, i):
    bench = Bench(ctx, rng)
    try:
        steps = [bench.typed_write] * 3 + [bench.typed_read] * 5 + [bench.words_write] * 2 + [bench.bits_step] * 2 + [bench.raw]
        for k in range(40):
            rng.choice(steps)()
            if k % 8 == 7:
                bench.check()
        bench.check()
        link = ctx.store.get("link")
        if link is not None and link.problem:
            raise Violation(link.problem)
        ctx.sample(dict(unsigned=bench.unsigned, log=[repr(one)[:120] for one in bench.log[:6]]))
    finally:
        bench.close()
