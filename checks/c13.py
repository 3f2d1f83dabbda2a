"""C13: RTU frames carry the right CRC and every corrupted frame is rejected"""
from vp import masters, wire
from vp.core import Violation

LEVEL = "exploration"
RULE = ("a case is one frame: the CRC of the frames which the library builds is computed again bit by bit; the frame is then "
        "parsed intact, and with every corruption of a family (all single bits; pairs of bits: all of them in short frames; "
        "odd numbers of bits; bursts up to 16 bits at every position; every truncation that leaves less than 3 bytes; every "
        "other address of the response), as a request and as a response; the oracle is the definition of the CRC-16; "
        "distinct by (frame, family)")
ASSUMPTIONS = ["the detection by a CRC-16 of 1, 2, odd numbers of bits and bursts of up to 16 bits holds up to 4095 bytes: "
               "each corrupted frame is also checked with an independent CRC before it is used"]
TYPES = (bytes, bytearray)


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="frames", n=4000 * k, budget=25 * k, min=60, name="frames-%d" % p) for p in range(5)] +
            [dict(kind="pairs", n=40 * k, budget=25 * k, min=2, name="pairs-%d" % p) for p in range(2)] +
            [dict(kind="addresses", n=4 * k, budget=25 * k, min=1)])


def need(tier):
    return {"rejected requests": 100000, "rejected responses": 100000, "intact frames": 500, "wrong addresses": 255,
            "short frames": 500, "built frames": 500}


def rejected(ctx, frame, slave, kind):
    """kind(frame) must be refused by both parsers (frame has a wrong CRC)"""
    exc = ctx.lib.exceptions
    query = ctx.lib.modbus_rtu.RtuQuery()
    data = kind(frame)
    try:
        got = query.parse_request(data)
    except exc.ModbusInvalidRequestError:
        ctx.count("rejected requests")
    else:
        raise Violation("the corrupted request %s is accepted: %r" % (frame.hex(), got), frame=frame)
    query = ctx.store.get(slave)
    if query is None:
        query = ctx.lib.modbus_rtu.RtuQuery()
        query.build_request(b"\x03\0\0\0\1", slave)
        ctx.store[slave] = query
    try:
        got = query.parse_response(data)
    except exc.ModbusInvalidResponseError:
        ctx.count("rejected responses")
    else:
        raise Violation("the corrupted response %s to the slave %d is accepted: %r" % (frame.hex(), slave, got), frame=frame)


def intact(ctx, slave, pdu, kind):
    frame = wire.rtu(slave, pdu)
    lib = ctx.lib
    query = lib.modbus_rtu.RtuQuery()
    witness = dict(slave=slave, pdu=pdu)
    built = bytes(query.build_request(pdu, slave))
    if built != frame:
        raise Violation("the request is framed as %s instead of %s" % (built.hex(), frame.hex()), **witness)
    if bytes(query.parse_response(kind(frame))) != pdu:
        raise Violation("the pdu of the response %s is wrong" % frame.hex(), **witness)
    server = lib.modbus_rtu.RtuQuery()
    got = server.parse_request(kind(frame))
    if got[0] != slave or bytes(got[1]) != pdu:
        raise Violation("the request %s is parsed as %r" % (frame.hex(), got), **witness)
    answer = bytes(server.build_response(pdu[::-1]))
    if answer != wire.rtu(slave, pdu[::-1]):
        raise Violation("the response is framed as %s instead of %s" % (answer.hex(), wire.rtu(slave, pdu[::-1]).hex()),
                        **witness)
    ctx.count("intact frames")
    ctx.count("built frames", 2)
    return frame


def flip(frame, bits):
    data = bytearray(frame)
    for bit in bits:
        data[bit // 8] ^= 1 << (bit % 8)
    return bytes(data)


def random_pdu(rng):
    what = rng.randrange(5)
    if what < 2:
        call = masters.random_call(rng, small=True)
        return rng.choice((call.pdu, call.answer))
    if what == 2:
        return bytes([rng.randint(1, 127)]) + rng.choice((b"\0", b"\xff")) * rng.choice((0, 1, 2, 4, 8, 252))
    size = rng.choice((0, 1, 2, 3, 4, 5, 7, 8, 16, 60, 125, 250, 251, 252, rng.randint(0, 252)))
    return bytes(rng.randrange(256) for _ in range(size + 1))


def case(ctx, rng, i):
    slave = rng.choice((1, 2, 127, 128, 247, 255, 0, rng.randrange(256)))
    kind = TYPES[rng.randrange(2)]
    if ctx.kind == "addresses":
        pdu = random_pdu(rng)
        for asked in range(256):
            query = ctx.lib.modbus_rtu.RtuQuery()
            query.build_request(b"\x03\0\0\0\1", asked)
            for other in range(256):
                data = kind(wire.rtu(other, pdu))
                try:
                    query.parse_response(data)
                    ok = True
                except ctx.lib.exceptions.ModbusInvalidResponseError:
                    ok = False
                if ok != (other == asked):
                    raise Violation("a response of the slave %d is %s by a request to the slave %d" % (
                        other, "accepted" if ok else "refused", asked), pdu=pdu)
                ctx.count("wrong addresses" if not ok else "right addresses")
        for bad in (-1, 256, 257, 65536):
            try:
                ctx.lib.modbus_rtu.RtuQuery().build_request(pdu, bad)
            except ctx.lib.exceptions.InvalidArgumentError:
                continue
            raise Violation("a request to the address %d is built" % bad)
        ctx.key("addresses", pdu)
        return
    pdu = random_pdu(rng) if ctx.kind == "frames" else random_pdu(rng)[:rng.choice((1, 2, 3, 5, 6, 8, 12, 16))]
    frame = intact(ctx, slave, pdu, kind)
    nbits = 8 * len(frame)

    def bad(bits):
        data = flip(frame, bits)
        if wire.crc16(data[:-2]) == data[-2:]:
            raise AssertionError("the corruption %r of %s is not detected by a CRC" % (bits, frame.hex()))
        rejected(ctx, data, slave, kind)

    if ctx.kind == "pairs":
        for one in range(nbits):
            for two in range(one):
                bad((one, two))
        ctx.key("pairs", frame)
        ctx.count("all pairs of a frame")
        return
    # every bit
    bits = range(nbits) if nbits < 300 else rng.sample(range(nbits), 300)
    for one in bits:
        bad((one,))
    ctx.key("bits", frame)
    # pairs, odd numbers
    for _ in range(60):
        bad(rng.sample(range(nbits), 2))
        bad(rng.sample(range(nbits), rng.choice([n for n in (3, 5, 7, 9, 15, nbits - 1, nbits // 2 | 1)
                                                 if n <= nbits and n % 2])))
    # bursts: the bits are sent least significant first, then it is the order of the indexes
    for _ in range(100):
        length = rng.choice((2, 3, 8, 15, 16, rng.randint(2, 16)))
        first = rng.randrange(nbits - length + 1)
        inner = [first + k for k in range(1, length - 1) if rng.random() < 0.5]
        bad([first, first + length - 1] + inner)
    # the two CRC bytes: zeroed, exchanged, complemented, those of another frame
    good = frame[-2:]
    for crc in {b"\0\0", b"\xff\xff", good[::-1], bytes(255 - c for c in good), wire.crc16(frame), wire.crc16(pdu),
                bytes([good[0], good[1] ^ 1]), bytes([good[0] ^ 0x80, good[1]])} - {good}:
        rejected(ctx, frame[:-2] + crc, slave, kind)
    # truncated and extended frames
    for data in [frame[:n] for n in range(len(frame))] + [frame[n:] for n in range(1, min(6, len(frame)))] + [
            frame + b"\1", frame + frame[:1] + b"\x55"]:
        if len(data) < 3 or wire.crc16(data[:-2]) != data[-2:]:
            rejected(ctx, data, slave, kind)
    for data in (b"", frame[:1], frame[:2], b"\0\0", b"\xff\xff", wire.crc16(b"")):
        rejected(ctx, data, slave, kind)
        ctx.count("short frames")
    ctx.sample(dict(frame=frame))
