"""Calls of Master.execute with the request and the result the protocol gives them, and links to play the slave"""
import struct
import threading

from vp import wire
from vp.core import Violation
from vp.fakeserial import FakeSerial, GAP
from vp.net import Peer


class Call(object):
    """execute(slave, function_code, **kwargs) must send pdu; the response answer must give result"""

    def __init__(self, slave, fct, args, kwargs, pdu, answer, result, data):
        self.slave, self.fct, self.args, self.kwargs = slave, fct, args, kwargs
        self.pdu, self.answer, self.result = pdu, answer, result
        self.data = data          # what returns_raw gives

    def run(self, master, **more):
        kwargs = dict(self.kwargs)
        kwargs.update(more)
        return master.execute(self.slave, self.fct, *self.args, **kwargs)

    def __repr__(self):
        return "execute(%r, %r, *%r, **%r)" % (self.slave, self.fct, self.args, self.kwargs)


READS = (1, 2, 3, 4, 23, 20)
FCTS = (1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 20, 22, 23, 43, "raw")


def word(rng):
    """a value for a register: signed or unsigned"""
    return rng.choice((0, 1, -1, 255, 256, 0x7FFF, 0x8000, 0xFFFF, -0x8000, -2, rng.randrange(0x10000),
                       rng.randrange(0x10000), -rng.randrange(0x8000)))


def sequence(rng, values):
    return rng.choice((list, tuple))(values)


def random_call(rng, fcts=FCTS, small=False, slave=None):
    slave = rng.choice((1, 2, 127, 247, 255, rng.randint(1, 255))) if slave is None else slave
    fct = rng.choice(fcts)
    addr = rng.choice((0, 1, 255, 256, 0x1234, 0xFFFF, rng.randrange(0x10000)))
    args, kwargs = [addr], {}
    if fct in (1, 2):
        qty = rng.choice((1, 7, 8, 9, 16, 17, rng.randint(1, 40)) if small else
                         (1, 7, 8, 9, 15, 16, 17, 1999, 2000, rng.randint(1, 2000)))
        bits = [rng.randrange(2) for _ in range(qty)]
        data = bytearray(wire.pack_bits(bits))
        if qty % 8 and rng.random() < 0.3:
            data[-1] |= (0xFF << (qty % 8)) & 0xFF      # padding has no meaning
        data = bytes(data)
        args.append(qty)
        return Call(slave, fct, args, kwargs, wire.read_pdu(fct, addr, qty), bytes([fct, len(data)]) + data,
                    tuple(bits), data)
    if fct in (3, 4):
        qty = rng.randint(1, 10) if small else rng.choice((1, 2, 124, 125, rng.randint(1, 125)))
        data = wire.regs([word(rng) for _ in range(qty)])
        if rng.random() < 0.5:
            args.append(qty)
        else:
            kwargs["quantity_of_x"] = qty
        return Call(slave, fct, args, kwargs, wire.read_pdu(fct, addr, qty), bytes([fct, len(data)]) + data,
                    struct.unpack(">%dH" % qty, data), data)
    if fct == 5:
        value = rng.choice((0, 1, True, False, 0xFF00, 1, 7))
        kwargs["output_value"] = value
        pdu = wire.write_coil_pdu(addr, value)
        return Call(slave, fct, args, kwargs, pdu, pdu, struct.unpack(">HH", pdu[1:]), pdu[1:])
    if fct == 6:
        value = word(rng)
        kwargs["output_value"] = value
        pdu = wire.write_reg_pdu(addr, value)
        return Call(slave, fct, args, kwargs, pdu, pdu, struct.unpack(">HH", pdu[1:]), pdu[1:])
    if fct == 7:
        status = rng.randrange(256)
        return Call(slave, fct, [0], {}, bytes([7]), bytes([7, status]), (status,), bytes([status]))
    if fct == 8:
        sub = rng.choice((0, 1, 2, 3, 4, 10, 18, 255, 256, rng.randrange(65536)))
        body = bytes(rng.randrange(256) for _ in range(rng.choice((2, 2, 1, 4, rng.randint(1, 60)))))
        kwargs["output_value"] = sequence(rng, body)
        pdu = struct.pack(">BH", 8, sub) + body
        answer = pdu if sub == 0 or rng.random() < 0.5 else struct.pack(">BH", 8, sub) + bytes(
            rng.randrange(256) for _ in body)
        return Call(slave, fct, [sub], kwargs, pdu, answer, struct.unpack(">H%dB" % len(body), answer[1:]), answer[1:])
    if fct == 15:
        qty = rng.randint(1, 40) if small else rng.choice((1, 7, 8, 9, 16, 17, 1967, 1968, rng.randint(1, 1968)))
        bits = [rng.randrange(2) for _ in range(qty)]
        style = rng.random()
        kwargs["output_value"] = sequence(rng, [bool(b) for b in bits] if style < 0.3 else bits if style < 0.8 else
                                          [b and rng.choice((1, 2, 7, 255, 0xFF00)) for b in bits])
        answer = struct.pack(">BHH", 15, addr, qty)
        return Call(slave, fct, args, kwargs, wire.write_coils_pdu(addr, bits), answer, (addr, qty), answer[1:])
    if fct == 16:
        qty = rng.randint(1, 10) if small else rng.choice((1, 2, 122, 123, rng.randint(1, 123)))
        values = [word(rng) for _ in range(qty)]
        kwargs["output_value"] = sequence(rng, values)
        answer = struct.pack(">BHH", 16, addr, qty)
        return Call(slave, fct, args, kwargs, wire.write_regs_pdu(addr, values), answer, (addr, qty), answer[1:])
    if fct == 22:
        and_mask, or_mask = (rng.choice((0, 0xFFFF, 0xF0F0, 1, rng.randrange(65536))) for _ in range(2))
        kwargs.update(and_mask=and_mask, or_mask=or_mask)
        pdu = wire.mask_pdu(addr, and_mask, or_mask)
        return Call(slave, fct, args, kwargs, pdu, pdu, (addr, and_mask, or_mask), pdu[1:])
    if fct == 23:
        rqty = rng.randint(1, 10) if small else rng.choice((1, 124, 125, rng.randint(1, 125)))
        waddr = rng.choice((0, 0xFFFF, addr, rng.randrange(0x10000)))
        values = [word(rng) for _ in range(rng.randint(1, 10) if small else rng.choice((1, 121, rng.randint(1, 121))))]
        kwargs.update(quantity_of_x=rqty, write_starting_address_fc23=waddr, output_value=sequence(rng, values))
        data = wire.regs([word(rng) for _ in range(rqty)])
        return Call(slave, fct, args, kwargs, wire.rw_pdu(addr, rqty, waddr, values), bytes([23, len(data)]) + data,
                    struct.unpack(">%dH" % rqty, data), data)
    if fct == 20:
        count = rng.randint(1, 6)
        files = tuple(rng.choice((1, 4, 0xFFFF, rng.randint(1, 0xFFFF))) for _ in range(count))
        addrs = tuple(rng.choice((0, 9999, rng.randrange(10000))) for _ in range(count))
        lens = tuple(rng.choice((1, 2, 10, rng.randint(1, 18))) for _ in range(count))
        pdu = bytes([20, 7 * count]) + b"".join(struct.pack(">BHHH", 6, f, a, n) for f, a, n in zip(files, addrs, lens))
        records = [tuple(rng.randrange(65536) for _ in range(n)) for n in lens]
        data = b"".join(bytes([1 + 2 * len(r), 6]) + wire.regs(r) for r in records)
        return Call(slave, fct, [addrs, lens], dict(number_file=files), pdu, bytes([20, len(data)]) + data,
                    tuple(records), data)
    if fct == 43:
        code, obj = rng.randint(1, 4), rng.randrange(256)
        body = bytes([0x0E, code, 1, 0, 0, 1, 0]) + bytes(rng.randrange(256) for _ in range(rng.randint(1, 30)))
        return Call(slave, fct, [0], dict(output_value=sequence(rng, (code, obj))), bytes([43, 14, code, obj]),
                    bytes([43]) + body, tuple(body), body)
    # raw
    code = rng.choice((3, 17, 65, 100, 110, rng.randint(1, 127)))
    pdu = bytes([code]) + bytes(rng.randrange(256) for _ in range(rng.randint(0, 20)))
    body = bytes(rng.randrange(256) for _ in range(rng.randint(1, 30)))
    return Call(slave, 0, [0], dict(pdu=pdu, data_format=">%dB" % len(body), expected_length=len(body) + 4), pdu,
                bytes([code]) + body, tuple(body), body)


def longer(rng, call):
    """the same request to a device whose values are wider than the ones of the protocol, which is told to execute() by
    data_format and expected_length (or None)"""
    if call.fct not in (1, 2, 3, 4, 23) or "data_format" in call.kwargs:
        return None
    size = len(call.data)
    if call.fct in (1, 2):
        # padding after the bits
        data = call.data + bytes(rng.randrange(256) for _ in range(rng.choice((1, 1, 2, 3, size))))
        fmt, result = ">%dB" % len(data), call.result
    else:
        data = call.data + bytes(rng.randrange(256) for _ in range(size * rng.choice((1, 1, 3))))
        fmt = ">%d%s" % (len(data) // (len(data) * 2 // size), {4: rng.choice("iI"), 8: rng.choice("qQ")}[len(data) * 2 // size])
        result = struct.unpack(fmt, data)
    if len(data) > 250:
        return None
    return Call(call.slave, call.fct, call.args, dict(call.kwargs, data_format=fmt, expected_length=len(data) + 5), call.pdu,
                bytes([call.fct, len(data)]) + data, result, data)


class Link(object):
    """a master and a slave played by the test: reply(slave id, pdu) gives what is sent back (a list of chunks) """

    def __init__(self):
        self.reply = None
        self.requests = []
        self.problem = None

    def frame(self, tid, slave, pdu):
        raise NotImplementedError()

    def close(self):
        pass


class RtuLink(Link):
    name = "rtu"

    def __init__(self, lib, threading=None, echo=False, **kwargs):
        Link.__init__(self)
        self.serial = FakeSerial(threading=threading, on_write=self._written)
        self.serial.echo = echo
        self.master = lib.modbus_rtu.RtuMaster(self.serial, **kwargs)
        self.master.handle_local_echo = echo

    def _written(self, data):
        self.requests.append(data)
        if len(data) < 4 or wire.crc16(data[:-2]) != data[-2:]:
            self.problem = "the request %s is not a RTU frame" % data.hex()
            return []
        return self.reply(self, None, data[0], data[1:-2])

    def frame(self, tid, slave, pdu):
        return wire.rtu(slave, pdu)

    def close(self):
        self.master.close()


class TcpLink(Link):
    name = "tcp"
    framing = "tcp"

    def __init__(self, lib, timeout=5.0):
        Link.__init__(self)
        self.peer = Peer(self._serve)
        self.master = self.make(lib, timeout)

    def make(self, lib, timeout):
        return lib.modbus_tcp.TcpMaster("127.0.0.1", self.peer.port, timeout)

    def _serve(self, conn):
        while True:
            (tid, proto, length, unit), pdu = conn.request()
            self.requests.append(wire.mbap(tid, unit, pdu, proto, length))
            if proto != 0:
                self.problem = "the protocol id of the request is %d" % proto
            for chunk in self.reply(self, tid, unit, pdu) or ():
                conn.send(chunk)

    def frame(self, tid, slave, pdu):
        return wire.mbap(tid, slave, pdu)

    def close(self):
        self.master.close()
        self.peer.close()


class RtuTcpLink(TcpLink):
    name = "rtu over tcp"
    framing = "rtu"

    def make(self, lib, timeout):
        return lib.modbus_rtu_over_tcp.RtuOverTcpMaster("127.0.0.1", self.peer.port, timeout)

    def _serve(self, conn):
        data = b""
        while True:
            more = conn.sock.recv(1024)
            if not more:
                return
            data += more
            if len(data) >= 4 and wire.crc16(data[:-2]) == data[-2:]:
                frame, data = data, b""
                self.requests.append(frame)
                for chunk in self.reply(self, None, frame[0], frame[1:-2]) or ():
                    conn.send(chunk)
            elif len(data) > 300:
                self.problem = "the request %s is not a RTU frame" % data.hex()
                return

    def frame(self, tid, slave, pdu):
        return wire.rtu(slave, pdu)


LINKS = {"rtu": RtuLink, "tcp": TcpLink, "rtu over tcp": RtuTcpLink}
