"""An independent description of the frames and of the pdus of modbus (nothing comes from modbus_tk)"""
import struct

RC, RDI, RHR, RIR, WSC, WSR, RES, WMC, WMR, MWR, RWM = 1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23
COILS, DISCRETE, HOLDING, INPUTS = 1, 2, 3, 4


def crc16(data):
    """CRC16 of modbus, bit by bit. The low byte is sent first"""
    crc = 0xFFFF
    for byte in bytearray(data):
        crc ^= byte
        for _ in range(8):
            crc = (crc >> 1) ^ 0xA001 if crc & 1 else crc >> 1
    return bytes(bytearray((crc & 0xFF, crc >> 8)))


def rtu(slave, pdu):
    data = struct.pack(">B", slave) + bytes(pdu)
    return data + crc16(data)


def mbap(tid, unit, pdu, protocol=0, length=None):
    return struct.pack(">HHHB", tid, protocol, len(pdu) + 1 if length is None else length, unit) + bytes(pdu)


def pack_bits(bits):
    out = bytearray((len(bits) + 7) // 8)
    for k, bit in enumerate(bits):
        if bit:
            out[k // 8] |= 1 << (k % 8)
    return bytes(out)


def unpack_bits(data, count):
    return [(bytearray(data)[k // 8] >> (k % 8)) & 1 for k in range(count)]


def regs(values):
    return b"".join(struct.pack(">H", v & 0xFFFF) for v in values)


def read_pdu(fct, addr, qty):
    return struct.pack(">BHH", fct, addr, qty)


def write_coil_pdu(addr, on, raw=None):
    return struct.pack(">BHH", WSC, addr, (0xFF00 if on else 0) if raw is None else raw)


def write_reg_pdu(addr, value):
    return struct.pack(">BHH", WSR, addr, value & 0xFFFF)


def write_coils_pdu(addr, bits, qty=None, count=None, data=None):
    data = pack_bits(bits) if data is None else data
    return struct.pack(">BHHB", WMC, addr, len(bits) if qty is None else qty,
                       (len(data) if count is None else count) & 0xFF) + data


def write_regs_pdu(addr, values, qty=None, count=None, data=None):
    data = regs(values) if data is None else data
    return struct.pack(">BHHB", WMR, addr, len(values) if qty is None else qty,
                       (len(data) if count is None else count) & 0xFF) + data


def mask_pdu(addr, and_mask, or_mask):
    return struct.pack(">BHHH", MWR, addr, and_mask, or_mask)


def rw_pdu(raddr, rqty, waddr, values, qty=None, count=None, data=None):
    data = regs(values) if data is None else data
    return struct.pack(">BHHHHB", RWM, raddr, rqty, waddr, len(values) if qty is None else qty,
                       (len(data) if count is None else count) & 0xFF) + data


class RawQuery(object):
    """a Query (the interface documented in modbus_tk.modbus.Query) whose frames are (slave, pdu) pairs"""

    def parse_request(self, request):
        return request

    def build_response(self, response_pdu):
        return response_pdu
