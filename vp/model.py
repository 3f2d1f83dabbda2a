"""A sequential reference model of a slave, written from the modbus application protocol (V1.1b3).

Slave.request(pdu) returns the acceptable outcomes: a list of (response pdu or None, apply function). None of the code
of modbus_tk is used. Where the protocol (or modbus_tk) leaves a choice, several outcomes are acceptable.
"""
import struct

from vp import wire
from vp.wire import COILS, DISCRETE, HOLDING, INPUTS


class Block(object):
    def __init__(self, name, typ, start, size):
        self.name, self.typ, self.start, self.size = name, typ, start, size
        self.data = [0] * size


class Outcome(object):
    """an acceptable response, and what is written: [(block, offset, value)]"""

    def __init__(self, response, writes=(), what=""):
        self.response, self.writes, self.what = response, list(writes), what

    def apply(self):
        for block, offset, value in self.writes:
            block.data[offset] = value

    def __repr__(self):
        return "%s%s" % (self.what, self.response.hex() if self.response is not None else None)


class SlaveModel(object):
    def __init__(self, unsigned=True):
        self.unsigned = unsigned
        self.blocks = {}

    # -- registry

    def overlap(self, typ, start, size):
        return any(b.typ == typ and start < b.start + b.size and b.start < start + size
                   for b in self.blocks.values())

    def add(self, name, typ, start, size):
        self.blocks[name] = Block(name, typ, start, size)

    def find(self, typ, addr, length):
        """the block which contains the whole range"""
        for block in self.blocks.values():
            if block.typ == typ and block.start <= addr and addr + length <= block.start + block.size:
                return block, addr - block.start
        return None, None

    def has(self, typ, addr):
        return self.find(typ, addr, 1)[0] is not None

    def store(self, word):
        """a word received from the network as it is stored"""
        word &= 0xFFFF
        return word - 0x10000 if (not self.unsigned and word & 0x8000) else word

    def image(self):
        return {name: list(b.data) for name, b in self.blocks.items()}

    # -- requests

    def _error(self, fct, codes):
        return [Outcome(struct.pack(">BB", fct | 0x80, code), what="exception ") for code in sorted(codes)]

    def request(self, pdu):
        pdu = bytes(pdu)
        fct = pdu[0]
        if fct >= 0x80:
            return None     # not a request: nothing is specified except that nothing is written
        handlers = {1: self._read, 2: self._read, 3: self._read, 4: self._read, 5: self._coil, 6: self._reg,
                    7: self._status, 15: self._coils, 16: self._regs, 22: self._mask, 23: self._rw}
        if fct not in handlers:
            return self._error(fct, {1})
        return handlers[fct](fct, pdu)

    def _read(self, fct, pdu):
        if len(pdu) < 5:
            return self._error(fct, {3, 4})
        (addr, qty) = struct.unpack(">HH", pdu[1:5])
        typ = {1: COILS, 2: DISCRETE, 3: HOLDING, 4: INPUTS}[fct]
        codes = set()
        if not 1 <= qty <= (2000 if fct in (1, 2) else 125):
            codes.add(3)
        block, offset = self.find(typ, addr, max(qty, 1))
        if block is None:
            codes.add(2)
        if codes:
            return self._error(fct, codes)
        values = block.data[offset:offset + qty]
        if fct in (1, 2):
            data = wire.pack_bits(values)
        else:
            data = wire.regs(values)
        good = Outcome(struct.pack(">BB", fct, len(data)) + data)
        return self._maybe_trailing(fct, pdu, 5, good)

    def _maybe_trailing(self, fct, pdu, length, good):
        """bytes after the end of the request: ignored or refused"""
        if len(pdu) == length:
            return [good]
        outs = [good]
        if good.response is not None and fct in (5, 6, 22):
            # the echo may contain them
            outs.append(Outcome(good.response + pdu[length:], good.writes))
        return outs + self._error(fct, {3})

    def _coil(self, fct, pdu):
        if len(pdu) < 5:
            return self._error(fct, {3, 4})
        (addr, value) = struct.unpack(">HH", pdu[1:5])
        codes = set()
        if value not in (0, 0xFF00):
            codes.add(3)
        block, offset = self.find(COILS, addr, 1)
        if block is None:
            codes.add(2)
        if codes:
            return self._error(fct, codes)
        return self._maybe_trailing(fct, pdu, 5, Outcome(pdu[:5], [(block, offset, 1 if value else 0)]))

    def _reg(self, fct, pdu):
        if len(pdu) < 5:
            return self._error(fct, {3, 4})
        (addr, value) = struct.unpack(">HH", pdu[1:5])
        block, offset = self.find(HOLDING, addr, 1)
        if block is None:
            return self._error(fct, {2})
        return self._maybe_trailing(fct, pdu, 5, Outcome(pdu[:5], [(block, offset, self.store(value))]))

    def _status(self, fct, pdu):
        good = Outcome(struct.pack(">BB", fct, 0))
        return self._maybe_trailing(fct, pdu, 1, good)

    def _coils(self, fct, pdu):
        if len(pdu) < 6:
            return self._error(fct, {3, 4})
        (addr, qty, count) = struct.unpack(">HHB", pdu[1:6])
        codes = set()
        if not 1 <= qty <= 1968 or count != (qty + 7) // 8:
            codes.add(3)
        block, offset = self.find(COILS, addr, max(qty, 1))
        if block is None:
            codes.add(2)
        if len(pdu) < 6 + count or len(pdu) < 6 + (qty + 7) // 8:
            codes |= {3, 4}
        if codes:
            return self._error(fct, codes)
        bits = wire.unpack_bits(pdu[6:6 + count], qty)
        good = Outcome(struct.pack(">BHH", fct, addr, qty), [(block, offset + k, b) for k, b in enumerate(bits)])
        return self._maybe_trailing(fct, pdu, 6 + count, good)

    def _regs(self, fct, pdu):
        if len(pdu) < 6:
            return self._error(fct, {3, 4})
        (addr, qty, count) = struct.unpack(">HHB", pdu[1:6])
        codes = set()
        if not 1 <= qty <= 123 or count != qty * 2:
            codes.add(3)
        block, offset = self.find(HOLDING, addr, max(qty, 1))
        if block is None:
            codes.add(2)
        if len(pdu) < 6 + count or len(pdu) < 6 + qty * 2:
            codes |= {3, 4}
        if codes:
            return self._error(fct, codes)
        words = struct.unpack(">%dH" % qty, pdu[6:6 + count])
        good = Outcome(struct.pack(">BHH", fct, addr, qty),
                       [(block, offset + k, self.store(w)) for k, w in enumerate(words)])
        return self._maybe_trailing(fct, pdu, 6 + count, good)

    def _mask(self, fct, pdu):
        if len(pdu) < 7:
            return self._error(fct, {3, 4})
        (addr, and_mask, or_mask) = struct.unpack(">HHH", pdu[1:7])
        block, offset = self.find(HOLDING, addr, 1)
        if block is None:
            return self._error(fct, {2})
        value = ((block.data[offset] & and_mask) | (or_mask & ~and_mask)) & 0xFFFF
        return self._maybe_trailing(fct, pdu, 7, Outcome(pdu[:7], [(block, offset, self.store(value))]))

    def _rw(self, fct, pdu):
        if len(pdu) < 10:
            return self._error(fct, {3, 4})
        (raddr, rqty, waddr, wqty, count) = struct.unpack(">HHHHB", pdu[1:10])
        codes = set()
        if not 1 <= rqty <= 125 or not 1 <= wqty <= 123 or count != wqty * 2:
            codes.add(3)
        rblock, roffset = self.find(HOLDING, raddr, max(rqty, 1))
        wblock, woffset = self.find(HOLDING, waddr, max(wqty, 1))
        if rblock is None or wblock is None:
            codes.add(2)
        if len(pdu) < 10 + count or len(pdu) < 10 + wqty * 2:
            codes |= {3, 4}
        if codes:
            return self._error(fct, codes)
        words = struct.unpack(">%dH" % wqty, pdu[10:10 + count])
        writes = [(wblock, woffset + k, self.store(w)) for k, w in enumerate(words)]
        # the write operation is performed before the read
        after = {(id(b), o): v for b, o, v in writes}
        values = [after.get((id(rblock), roffset + k), rblock.data[roffset + k]) for k in range(rqty)]
        good = Outcome(struct.pack(">BB", fct, 2 * rqty) + wire.regs(values), writes)
        outs = self._maybe_trailing(fct, pdu, 10 + count, good)
        if wqty > 121:
            # 121 for the protocol, 123 for modbus_tk
            outs = outs + self._error(fct, {3})
        return outs


def match(outcomes, response):
    """the outcome which the response corresponds to, or None"""
    for out in outcomes:
        if out.response == bytes(response or b""):
            return out
    return None
