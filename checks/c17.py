"""C17: threads sharing a master each get the answer to their own request"""
import random
import select
import socket
import struct
import threading
import time

from vp import sched, wire
from vp.core import Violation
from vp.fakeserial import FakeSerial, GAP, SerialException
from vp.faulty import Slave

LEVEL = "exploration"
RULE = ("a case runs 2 to 5 threads which call execute on one master (or on two): in the sched shards a RtuMaster on a "
        "scripted port under a controlled scheduler, in the others TcpMaster and RtuOverTcpMaster on real sockets; the answers "
        "are a function of the request, some exchanges fail; each caller must get its own values or its own error, and no "
        "exchange may begin on the line before the end of the previous one; distinct by schedule")
ASSUMPTIONS = ["the threads use execute with its default threadsafe argument"]
FATES = ("good", "good", "good", "good", "pieces", "exception", "silence", "bad crc", "wrong address")


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="sched", n=3000 * k, budget=25 * k, min=100, mode="sched", name="sched-%d" % p) for p in range(4)] +
            [dict(kind="tcp", n=60 * k, budget=25 * k, min=5, stall=90, name="tcp-%d" % p) for p in range(2)] +
            [dict(kind="rtu over tcp", n=60 * k, budget=25 * k, min=5, stall=90, name="rtutcp-%d" % p) for p in range(2)])


def need(tier):
    return {"exchanges": 20000, "failed exchanges": 2000, "socket exchanges": 2000, "switches": 10000, "slow exchanges": 2000}


def value(sid, addr):
    return (sid * 7919 + addr * 31 + 5) & 0xFFFF


def reads(sid, addr, qty):
    return tuple(value(sid, addr + k) for k in range(qty))


class Plan(object):
    """a call with the fate of its exchange. The slave finds it again from its address"""

    def __init__(self, rng, addr, fates=FATES):
        self.addr = addr
        self.sid = rng.choice((1, 2, 3, 200))
        self.fct = rng.choice((3, 3, 4, 1, 16, 6))
        self.qty = rng.randint(1, 5) if self.fct != 6 else 1
        self.fate = rng.choice(fates)
        self.code = rng.choice((1, 2, 3, 4, 6))
        self.delay = rng.choice((0, 0, 0.001, 0.003))
        if self.fct in (3, 4):
            self.pdu = wire.read_pdu(self.fct, addr, self.qty)
            data = wire.regs(reads(self.sid, addr, self.qty))
            self.answer = bytes([self.fct, len(data)]) + data
            self.result = reads(self.sid, addr, self.qty)
        elif self.fct == 1:
            self.pdu = wire.read_pdu(1, addr, self.qty * 8)
            bits = [value(self.sid, addr + k) >> 3 & 1 for k in range(self.qty * 8)]
            self.answer = bytes([1, self.qty]) + wire.pack_bits(bits)
            self.result = tuple(bits)
        elif self.fct == 6:
            self.pdu = self.answer = wire.write_reg_pdu(addr, value(self.sid, addr))
            self.result = (addr, value(self.sid, addr))
        else:
            self.pdu = wire.write_regs_pdu(addr, reads(self.sid, addr, self.qty))
            self.answer = struct.pack(">BHH", 16, addr, self.qty)
            self.result = (addr, self.qty)

    def run(self, master):
        if self.fct in (3, 4):
            return master.execute(self.sid, self.fct, self.addr, self.qty)
        if self.fct == 1:
            return master.execute(self.sid, self.fct, self.addr, self.qty * 8)
        if self.fct == 6:
            return master.execute(self.sid, self.fct, self.addr, output_value=value(self.sid, self.addr))
        return master.execute(self.sid, self.fct, self.addr, output_value=reads(self.sid, self.addr, self.qty))

    def __repr__(self):
        return "(%s slave %d fct %d addr %d x %d)" % (self.fate, self.sid, self.fct, self.addr, self.qty)

    def judge(self, result, error, **witness):
        if self.fate in ("good", "pieces"):
            if error is not None:
                raise Violation("%r raises %s: %s" % (self, type(error).__name__, error), **witness)
            if result != self.result:
                raise Violation("%r returns %r instead of %r" % (self, result, self.result), **witness)
        elif self.fate == "exception":
            if type(error).__name__ != "ModbusError" or error.get_exception_code() != self.code:
                raise Violation("%r must raise the exception %d: %r" % (self, self.code, error or result), **witness)
        elif error is None:
            raise Violation("%r returns %r" % (self, result), **witness)
        elif type(error).__name__ == "ModbusError":
            raise Violation("%r raises the exception of another exchange: %s" % (self, error), **witness)


def case(ctx, rng, i):
    if ctx.kind == "sched":
        return scheduled(ctx, rng)
    return sockets(ctx, rng)


class Line(FakeSerial):
    """a port which knows which thread uses it"""

    def __init__(self, log, **kwargs):
        self.trace = log
        FakeSerial.__init__(self, **kwargs)

    def _note(self, what):
        task = getattr(sched._local, "task", None)
        self.trace.append((self.name, task.name if task else None, what))

    def read(self, size=1):
        self._note("read")
        return FakeSerial.read(self, size)

    def write(self, data):
        self._note("write")
        return FakeSerial.write(self, data)

    def reset_input_buffer(self):
        self._note("reset")
        FakeSerial.reset_input_buffer(self)

    def flush(self):
        self._note("flush")
        FakeSerial.flush(self)


def scheduled(ctx, rng):
    lib = ctx.lib
    plans = {}
    events = []
    fates = FATES + ("write error", "read error")
    # the time a slave takes: a caller may wait for the line a lot longer than any timeout
    slow = rng.choice((0, 0, 0, 2, 8, 45))

    def slave(port):
        def answer(data):
            if len(data) < 4 or wire.crc16(data[:-2]) != data[-2:]:
                return []
            sid, pdu = data[0], data[1:-2]
            plan_ = plans.get(struct.unpack(">H", pdu[1:3])[0])
            if plan_ is None or plan_.pdu != pdu or plan_.sid != sid:
                events.append((port.name, None, "unknown request %s" % data.hex()))
                return []
            frame = wire.rtu(sid, plan_.answer)
            if slow:
                sched.sleep(slow)
                ctx.count("slow exchanges")
            if plan_.fate == "good":
                return [frame]
            if plan_.fate == "pieces":
                return [frame[:2], frame[2:3], frame[3:]]
            if plan_.fate == "exception":
                return [wire.rtu(sid, bytes([pdu[0] | 0x80, plan_.code]))]
            if plan_.fate == "bad crc":
                return [frame[:-1] + bytes([frame[-1] ^ 1])]
            if plan_.fate == "wrong address":
                return [wire.rtu(sid ^ 3, plan_.answer)]
            if plan_.fate == "read error":
                return [SerialException("read")]
            return []
        return answer

    lines, masters = [], []
    for k in range(rng.choice((1, 1, 1, 2))):
        port = Line(events, threading=sched.threading_shim(), name="line%d" % k)
        port.on_write = slave(port)
        lines.append(port)
        masters.append(lib.modbus_rtu.RtuMaster(port))
        masters[-1].set_timeout(5.0)
    results = []
    threads = []
    addr = 0
    for t in range(rng.randint(2, 4)):
        todo = []
        for _ in range(rng.randint(1, 3)):
            addr += 16
            plan_ = Plan(rng, addr, fates)
            plans[addr] = plan_
            todo.append((plan_, rng.randrange(len(masters))))

        def main(name=("t%d" % t), todo=todo):
            for plan_, which in todo:
                port, result, error = lines[which], None, None
                events.append((port.name, name, "call", plan_))
                try:
                    result = plan_.run(masters[which])
                except Exception as exc:  # noqa
                    error = exc
                events.append((port.name, name, "return", plan_))
                results.append((plan_, result, error))
        threads.append(("t%d" % t, main))

    # the errors of the port belong to the exchange which writes that request
    for port in lines:
        write = port.write

        def faulty(data, write=write, port=port):
            if len(data) >= 4:
                plan_ = plans.get(struct.unpack(">H", data[2:4])[0])
                if plan_ is not None and plan_.fate == "write error":
                    port._note("write")
                    raise SerialException("write")
            return write(data)
        port.write = faulty
    run = sched.make_run(rng, horizon=900)
    run.execute(threads)
    witness = dict(calls=[repr(p) for p in plans.values()])
    if run.deadlock:
        raise Violation("deadlock: " + run.deadlock, stacks=run.stacks, **witness)
    for _, error in run.errors():
        raise error
    for event in events:
        if event[2].startswith("unknown"):
            raise Violation("the line has carried an " + event[2], **witness)
    for plan_, result, error in results:
        plan_.judge(result, error, **witness)
        ctx.count("exchanges")
        if error is not None:
            ctx.count("failed exchanges")
    # -- nobody else uses the line between the first and the last operation of an exchange
    for port in lines:
        mine, current, spans = {}, {}, []
        for k, event in enumerate(e for e in events if e[0] == port.name):
            name, what = event[1], event[2]
            if what == "call":
                current[name] = [event[3], None, None]
            elif what == "return":
                spans.append(current.pop(name) + [name])
            else:
                mine[k] = (name, what)
                span = current[name]
                span[1] = k if span[1] is None else span[1]
                span[2] = k
        for plan_, first, last, name in spans:
            for k in range(first or 0, last or 0):
                if k in mine and mine[k][0] != name:
                    raise Violation("%s uses the line (%s) during the exchange %r of %s" % (
                        mine[k][0], mine[k][1], plan_, name), events=[e[:3] for e in events if e[0] == port.name][:200],
                        **witness)
            ctx.count("spans")
    ctx.count("switches", run.switches)
    ctx.key(run.sched_hash)
    ctx.state("schedules", run.sched_hash)
    ctx.sample(dict(calls=[repr(p) for p in plans.values()], events=[e[:3] for e in events][:30]))
    for master in masters:
        master.close()


def sockets(ctx, rng):
    lib = ctx.lib
    framing = "tcp" if ctx.kind == "tcp" else "rtu"
    fates = ("good", "good", "good", "good", "good", "pieces", "exception", "silence", "close",
             "wrong tid" if framing == "tcp" else "bad crc")
    plans = {}
    problems = []

    class Line(Slave):
        pass

    def behave(conn, tid, unit, pdu):
        plan_ = plans.get(struct.unpack(">H", pdu[1:3])[0])
        if plan_ is None or plan_.pdu != pdu or plan_.sid != unit:
            problems.append("unknown request %r %d %s" % (tid, unit, pdu.hex()))
            return
        plan_.seen = getattr(plan_, "seen", 0) + 1
        if plan_.delay:
            time.sleep(plan_.delay)
        # nothing comes before the answer
        if plan_.fate in ("good", "pieces", "exception"):
            if select.select([conn.sock], [], [], 0)[0]:
                try:
                    more = conn.sock.recv(300, socket.MSG_PEEK)
                except OSError:
                    more = b""
                if more:
                    problems.append("%s is received before the answer to %r" % (more.hex(), plan_))
        frame = line.frame(tid, unit, plan_.answer)
        if plan_.fate == "good":
            conn.send(frame)
        elif plan_.fate == "pieces":
            for k in range(0, len(frame), 3):
                conn.send(frame[k:k + 3])
                time.sleep(0.0005)
        elif plan_.fate == "exception":
            conn.send(line.frame(tid, unit, bytes([pdu[0] | 0x80, plan_.code])))
        elif plan_.fate == "close":
            conn.close()
        elif plan_.fate == "wrong tid":
            conn.send(line.frame(tid ^ 0x55, unit, plan_.answer))
        elif plan_.fate == "bad crc":
            conn.send(frame[:-1] + bytes([frame[-1] ^ 1]))

    line = Line(framing)
    line.behave = behave
    master = (lib.modbus_tcp.TcpMaster if framing == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster)(
        "127.0.0.1", line.port, 30.0)
    silent = rng.random() < 0.3
    if silent:
        # some exchanges end by the timeout: the others must be quick
        master.set_timeout(1.0)
    else:
        fates = tuple(f for f in fates if f != "silence")
    results, threads, addr = [], [], 0
    for t in range(rng.randint(2, 5)):
        todo = []
        for _ in range(rng.randint(3, 10)):
            addr += 16
            plans[addr] = Plan(rng, addr, fates)
            if plans[addr].fate == "silence" and sum(1 for p in plans.values() if p.fate == "silence") > 2:
                plans[addr].fate = "good"
            todo.append(plans[addr])

        def main(todo=todo):
            for plan_ in todo:
                result = error = None
                try:
                    result = plan_.run(master)
                except Exception as exc:  # noqa
                    error = exc
                results.append((plan_, result, error))
        threads.append(threading.Thread(target=main, daemon=True))
    try:
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(60)
            if thread.is_alive():
                raise Violation("a thread waits for ever in execute", timing=True)
        witness = dict(order=[repr(p) for p, _, _ in results])
        if problems:
            raise Violation(problems[0], timing="before the answer" in problems[0] and silent, **witness)
        for plan_, result, error in results:
            try:
                plan_.judge(result, error, **witness)
            except Violation as exc:
                exc.timing = silent and "timed out" in str(exc)
                raise
            ctx.count("socket exchanges")
            ctx.count("exchanges")
            if error is not None:
                ctx.count("failed exchanges")
            if plan_.fate in ("good", "pieces") and getattr(plan_, "seen", 0) != 1:
                raise Violation("%r is sent %d times" % (plan_, getattr(plan_, "seen", 0)), **witness)
        ctx.key(framing, [p.addr for p, _, _ in results])
        # it is not locked
        plan_ = Plan(rng, 60000, ("good",))
        plans[60000] = plan_
        plan_.judge(plan_.run(master), None)
    finally:
        master.close()
        line.close()
