"""C35: an interruption goes to the caller, and leaves the master or the slave usable"""
import copy
import gc
import os
import signal
import sys
import threading
import time
import tty

import serial

from vp import boot, faulty, masters, wire
from vp.core import Violation
from vp.fakeserial import FakeSerial, GAP
from vp.net import delivered
from vp.world import World, random_values, valid_write

LEVEL = "exploration"
RULE = ("a case interrupts operations of the main thread: by a signal at a random moment of an exchange of a master (TCP, RTU "
        "over TCP, RTU with pyserial on a pty), of a request handled by a slave or of a local access, or by a KeyboardInterrupt, "
        "a SystemExit or another BaseException which comes out of the serial port or of a hook; the exception must reach the "
        "caller as it is, then another thread must be able to use the object, with right results, and each cell of the slave "
        "must have its value of before or the one of the operation; distinct by (kind, operation, line interrupted)")
ASSUMPTIONS = ["an exception raised between two instructions by other means than a signal is not covered",
               "a slave on a pty may answer an interrupted request after the next one: two extra exchanges are then allowed"]
CALLS = (1, 2, 3, 4, 5, 6, 15, 16, 22, 23)
LIMIT = 20.0


class Stop(BaseException):
    """an interruption (as the ones of gevent or eventlet)"""


RAISED = (KeyboardInterrupt, SystemExit, Stop, GeneratorExit)


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind=kind, n=4000 * k, budget=25 * k, min=100, stall=90, name="%s-%d" % (kind, p))
             for kind in ("tcp", "rtu over tcp", "pty") for p in range(2)] +
            [dict(kind=kind, n=6000 * k, budget=20 * k, min=100, stall=90) for kind in ("port", "hooks", "slave hooks")] +
            [dict(kind="slave", n=6000 * k, budget=25 * k, min=100, stall=90, name="slave-%d" % p) for p in range(2)])


def need(tier):
    return {"interrupted exchanges": 1500, "interrupted requests": 400, "interrupted local accesses": 300, "next exchanges": 4000,
            "stopped by the port": 500, "stopped by a hook": 500, "stopped by a hook of the slave": 500}


class Alarm(object):
    """a signal whose handler raises, when the library is running"""
    armed = None
    where = None

    def __init__(self):
        signal.signal(signal.SIGALRM, self.handler)

    def handler(self, signum, frame):
        exc, inside, where = self.armed, False, None
        if exc is None:
            return
        while frame is not None:
            code = frame.f_code
            if code.co_name == "__del__":
                return
            if code.co_filename.startswith(boot.PKG) or os.path.realpath(code.co_filename).startswith(boot.PKG):
                inside = True
                where = where or "%s:%d" % (os.path.basename(code.co_filename), frame.f_lineno)
            frame = frame.f_back
        if inside:
            self.armed = None
            self.where = where
            raise exc

    def run(self, delay, exc, fct):
        """(result, exception, was it interrupted)"""
        self.where = None
        result = error = None
        gc.disable()        # no destructor here
        try:
            self.armed = exc
            signal.setitimer(signal.ITIMER_REAL, delay)
            try:
                result = fct()
            except BaseException as got:  # noqa
                error = got
            self.armed = None
        finally:
            self.armed = None
            signal.setitimer(signal.ITIMER_REAL, 0)
            gc.enable()
        if error is not None and error is not exc and not isinstance(error, Exception):
            raise error
        return result, error, self.where


def elsewhere(fct, what, **witness):
    """the result of a function called by another thread"""
    out = []

    def main():
        try:
            out.append((fct(), None))
        except BaseException as exc:  # noqa
            out.append((None, exc))
    thread = threading.Thread(target=main, daemon=True)
    thread.start()
    thread.join(LIMIT)
    if not out:
        frame = sys._current_frames().get(thread.ident)
        stack = []
        while frame is not None:
            stack.append("%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            frame = frame.f_back
        raise Violation("%s: another thread is stopped for ever" % what, timing=True, stack=stack[:8], **witness)
    return out[0]


def last_request(data):
    """the beginning of the request at the end of these bytes, or None. What comes before was interrupted"""
    for start in range(max(0, len(data) - 3)):
        if wire.crc16(data[start:-2]) == data[-2:]:
            return start
    return None


class RtuTcpSlave(faulty.Slave):
    def _serve(self, conn):
        self.current = conn
        data = b""
        while True:
            more = conn.sock.recv(1024)
            if not more:
                return
            data += more
            start = last_request(data)
            if start is not None:
                unit, pdu, data = data[start], data[start + 1:-2], b""
                self.requests.append((None, unit, pdu))
                try:
                    self.behave(conn, None, unit, pdu)
                finally:
                    self.finished += 1


class Pty(object):
    """a slave at the other end of a pty, and the port of pyserial"""

    def __init__(self):
        self.fd, other = os.openpty()
        tty.setraw(self.fd)
        tty.setraw(other)
        self.serial = serial.Serial(os.ttyname(other), 115200, timeout=LIMIT)
        self.other = other      # (the pty is over when nobody has its other end)
        self.requests, self.finished = [], 0
        self.behave = None
        threading.Thread(target=self._serve, daemon=True).start()

    def _serve(self):
        data = b""
        while True:
            try:
                more = os.read(self.fd, 1024)
            except OSError:
                return
            if not more:
                return
            data += more
            start = last_request(data)
            if start is None:
                continue
            unit, pdu, data = data[start], data[start + 1:-2], b""
            self.requests.append((None, unit, pdu))
            try:
                self.behave(self, None, unit, pdu)
            finally:
                self.finished += 1

    def send(self, data):
        while data:
            data = data[os.write(self.fd, data):]

    def frame(self, tid, unit, pdu):
        return wire.rtu(unit, pdu)

    def close(self):
        self.serial.close()
        os.close(self.other)
        os.close(self.fd)


def setup(ctx):
    ctx.store["alarm"] = Alarm()
    lib = ctx.lib
    if ctx.kind in ("tcp", "rtu over tcp"):
        slave = ctx.store["slave"] = faulty.Slave("tcp") if ctx.kind == "tcp" else RtuTcpSlave("rtu")
        slave.behave = lambda conn, tid, unit, pdu: behave(ctx, slave, conn, tid, unit, pdu)
        make = lib.modbus_tcp.TcpMaster if ctx.kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
        ctx.store["master"] = make("127.0.0.1", slave.port, 4.0)
    elif ctx.kind == "pty":
        slave = ctx.store["slave"] = Pty()
        slave.behave = lambda conn, tid, unit, pdu: behave(ctx, slave, conn, tid, unit, pdu)
        ctx.store["master"] = lib.modbus_rtu.RtuMaster(slave.serial)
        ctx.store["master"].set_timeout(4.0)
    if "master" in ctx.store:
        lib.hooks.install_hook("modbus.Master.after_send", lambda args: ctx.store.update({"on line": True}))
    ctx.store["calls"], ctx.store["sent"] = [], []


def teardown(ctx):
    if "slave" in ctx.store:
        ctx.store["master"].close()
        ctx.store["slave"].close()


def behave(ctx, slave, conn, tid, unit, pdu):
    """answer to one of the calls"""
    for call, delay in reversed(ctx.store["calls"]):
        if call.slave == unit and call.pdu == bytes(pdu):
            if delay:
                time.sleep(delay)
            conn.send(slave.frame(tid, unit, call.answer))
            ctx.store["sent"].append((call, time.monotonic()))
            return
    ctx.store["problem"] = "an unknown request is received: %d %s" % (unit, bytes(pdu).hex())


def case(ctx, rng, i):
    {"tcp": exchange, "rtu over tcp": exchange, "pty": exchange, "port": port, "hooks": hooks, "slave": slave,
     "slave hooks": slave_hooks}[ctx.kind](ctx, rng)


def exchange(ctx, rng):
    master, slave_, alarm = ctx.store["master"], ctx.store["slave"], ctx.store["alarm"]
    what = "execute"
    if rng.random() < 0.15:
        master.close()
        what = "execute which opens"
    first = masters.random_call(rng, CALLS, small=True)
    # the answer of one can not be taken for the one of the other
    second = masters.random_call(rng, [f for f in CALLS if f != first.fct], small=True)
    delay = rng.choice((0, 0, 0, 0.0005, 0.002))
    ctx.store["calls"].extend([(second, 0), (first, delay)])
    del ctx.store["calls"][:-20]        # (a request of before may come late by a connection which is over)
    del ctx.store["sent"][:]
    known = len(slave_.requests)
    exc = rng.choice(RAISED)("interruption %d" % ctx.i)
    ctx.store["on line"] = False
    result, error, where = alarm.run(rng.uniform(0.00001, 0.0012 + delay), exc, lambda: first.run(master))
    witness = dict(first=repr(first), second=repr(second), where=where)
    if where is None:
        if error is not None:
            raise Violation("%r raises %s: %s" % (first, type(error).__name__, error), timing=True, **witness)
        ctx.count("not interrupted")
    elif error is not exc:
        raise Violation("%s, interrupted in %s, %s instead of raising the interruption" % (
            what, where, "returns %r" % (result,) if error is None else "raises %r" % error), **witness)
    else:
        ctx.count("interrupted exchanges")
        ctx.key(ctx.kind, what, where)
        ctx.state("lines interrupted", where)
    if error is None and result != first.result:
        raise Violation("%r returns %r instead of %r" % (first, result, first.result), **witness)
    if rng.random() < 0.1:
        master.close()
    what = "after %s interrupted in %s" % (what, where)
    for attempt in range(4):
        # what the slave has received is answered
        end = time.monotonic() + 5
        quiet = 0
        while quiet < 2 + 10 * attempt and time.monotonic() < end:
            waiting = slave_.finished != len(slave_.requests) or (ctx.store["on line"] and len(slave_.requests) == known)
            quiet = 0 if waiting else quiet + 1
            time.sleep(0.001)
        if ctx.kind != "pty" and slave_.current is not None:
            delivered(slave_.current.sock)
        got, problem = elsewhere(lambda: second.run(master), what, **witness)
        if problem is None:
            if got != second.result:
                raise Violation("%s, %r returns %r instead of %r" % (what, second, got, second.result), **witness)
            ctx.count("next exchanges")
            break
        # (a late answer of the slave may be the reason)
        witness["attempt %d" % attempt] = [repr(problem), len(slave_.requests), slave_.finished, ctx.store.get("problem")]
        if attempt == 3:
            raise Violation("%s, %r raises %s: %s" % (what, second, type(problem).__name__, problem), timing=True, **witness)
        ctx.count("exchanges which are done again")
    if ctx.store.get("problem"):
        raise Violation(ctx.store.pop("problem"), **witness)
    if where:
        ctx.sample(witness)


class Port(FakeSerial):
    """a port whose methods may be interrupted"""
    at = None

    def _may(self, name, after=False):
        if self.at is not None and self.at[0] == name and self.at[1] == after:
            self.at[2] -= 1
            if self.at[2] < 0:
                exc, self.at = self.at[3], None
                raise exc


def _wrapped(name):
    fct = getattr(FakeSerial, name)

    def new(self, *args, **kwargs):
        self._may(name)
        result = fct(self, *args, **kwargs)
        self._may(name, True)
        return result
    return new


METHODS = ("read", "write", "flush", "reset_input_buffer", "reset_output_buffer", "open", "close")
for _name in METHODS:
    setattr(Port, _name, _wrapped(_name))


def rtu_master(ctx, rng):
    """a master on a Port, whose slave answers to the calls of the list"""
    calls = []

    def answer(data):
        for call in calls:
            frame = wire.rtu(call.slave, call.answer)
            if data == wire.rtu(call.slave, call.pdu):
                cut = rng.randint(1, len(frame) - 1)
                return [frame[:cut], frame[cut:], GAP]
        return []
    ser = Port(on_write=answer)
    master = ctx.lib.modbus_rtu.RtuMaster(ser)
    if rng.random() < 0.3:
        master.handle_local_echo = ser.echo = True
    if rng.random() < 0.3:
        master.set_timeout(5.0, use_sw_timeout=True)
    return ser, master, calls


def after(ctx, master, call, what, **witness):
    """the exchange which follows, by another thread"""
    got, problem = elsewhere(lambda: call.run(master), what, **witness)
    if problem is not None:
        raise Violation("%s, %r raises %s: %s" % (what, call, type(problem).__name__, problem), **witness)
    if got != call.result:
        raise Violation("%s, %r returns %r instead of %r" % (what, call, got, call.result), **witness)
    ctx.count("next exchanges")


def stopped(fct, exc, what, **witness):
    try:
        result = fct()
    except BaseException as got:  # noqa
        if got is not exc:
            raise Violation("%s raises %s: %s instead of the interruption %r" % (what, type(got).__name__, got, exc), **witness)
        return
    raise Violation("%s returns %r instead of raising the interruption %r" % (what, result, exc), **witness)


def port(ctx, rng):
    ser, master, calls = rtu_master(ctx, rng)
    try:
        for _ in range(rng.randint(1, 4)):
            first = masters.random_call(rng, CALLS, small=True)
            second = masters.random_call(rng, [f for f in CALLS if f != first.fct], small=True)
            calls[:] = [first, second]
            name = rng.choice(METHODS)
            late = rng.random() < 0.4
            exc = rng.choice(RAISED)("interruption of %s" % name)
            op, fct = "execute", lambda: first.run(master)
            if name == "close":
                first.run(master)
                op, fct = "close", master.close
            elif name == "open":
                master.close()
                if ser.is_open:
                    ser.is_open = False
                if rng.random() < 0.5:
                    op, fct = "open", master.open
            ser.at = [name, late, rng.randrange(2) if name == "read" else 0, exc]
            what = "%s interrupted %s %s of the port" % (op, "after" if late else "by", name)
            stopped(fct, exc, what, first=repr(first))
            ser.at = None
            ctx.count("stopped by the port")
            ctx.key("port", name, late, op)
            after(ctx, master, second, what, first=repr(first))
        ctx.sample(dict(log=ser.log[-12:]))
    finally:
        ser.at = None
        master.close()


MASTER_HOOKS = {"rtu": ("modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv",
                        "modbus_rtu.RtuMaster.before_send", "modbus_rtu.RtuMaster.after_recv", "modbus_rtu.RtuMaster.before_open"),
                "tcp": ("modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv",
                        "modbus_tcp.TcpMaster.before_send", "modbus_tcp.TcpMaster.after_recv",
                        "modbus_tcp.TcpMaster.before_connect", "modbus_tcp.TcpMaster.after_connect",
                        "modbus_tcp.TcpMaster.before_close"),
                "rtu over tcp": ("modbus.Master.before_send", "modbus.Master.after_recv", "modbus_tcp.TcpMaster.before_send",
                                 "modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", "modbus_tcp.TcpMaster.before_connect",
                                 "modbus_tcp.TcpMaster.after_connect", "modbus_tcp.TcpMaster.before_close")}


def hooks(ctx, rng):
    """the interruption comes out of a hook"""
    lib = ctx.lib
    kind = rng.choice(sorted(MASTER_HOOKS))
    calls = []
    if kind == "rtu":
        ser, master, calls = rtu_master(ctx, rng)
        link = None
    else:
        link = masters.LINKS[kind](lib, LIMIT / 2)
        master = link.master

        def reply(link, tid, unit, pdu):
            for call in calls:
                if call.slave == unit and call.pdu == bytes(pdu):
                    return [link.frame(tid, unit, call.answer)]
        link.reply = reply
    try:
        for _ in range(rng.randint(2, 6)):
            first = masters.random_call(rng, CALLS, small=True)
            second = masters.random_call(rng, [f for f in CALLS if f != first.fct], small=True)
            calls[:] = [first, second]
            name = rng.choice(MASTER_HOOKS[kind])
            exc = rng.choice(RAISED)("interruption of %s" % name)
            op, fct = "execute", lambda: first.run(master)
            if name.endswith("close"):
                first.run(master)
                op, fct = "close", master.close
            elif name.endswith("open") or name.endswith("connect"):
                master.close()
                if kind == "rtu":
                    ser.is_open = False
            seen = []

            def hook(args):
                seen.append(1)
                raise exc
            lib.hooks.install_hook(name, hook)
            what = "%s interrupted by a function of %s" % (op, name)
            witness = dict(first=repr(first), link=kind)
            sent = len(link.requests) if link else 0
            try:
                stopped(fct, exc, what, **witness)
            finally:
                lib.hooks.uninstall_hook(name, hook)
            if len(seen) != 1:
                raise Violation("%s: the function is called %d times" % (what, len(seen)), **witness)
            ctx.count("stopped by a hook")
            ctx.key("hooks", name)
            if link and name == "modbus.Master.after_send":
                # the answer to the first request is on its way
                end = time.monotonic() + 5
                while len(link.requests) == sent and time.monotonic() < end:
                    time.sleep(0.0005)
                time.sleep(0.003)
                for attempt in range(3):
                    got, problem = elsewhere(lambda: second.run(master), what, **witness)
                    if problem is None:
                        break
                    time.sleep(0.05)
                if problem is not None or got != second.result:
                    raise Violation("%s, %r gives %r" % (what, second, problem or got), timing=True, **witness)
                ctx.count("next exchanges")
            else:
                after(ctx, master, second, what, **witness)
    finally:
        master.close()
        if link:
            link.close()


def image(world, sid):
    return {name: list(values) for name, values in world.image(sid).items()}


def judge(ctx, world, sid, before, then, what, done, **witness):
    """the memory, looked at by another thread"""
    now, problem = elsewhere(lambda: image(world, sid), what, **witness)
    if problem is not None:
        raise problem
    wrong = [(name, k, cell, then[name][k], now[name][k]) for name, cells in before.items() for k, cell in enumerate(cells)
             if now[name][k] not in (cell, then[name][k])] if {n: len(c) for n, c in now.items()} == {
                 n: len(c) for n, c in before.items()} else ["lengths"]
    if wrong:
        raise Violation("%s: the memory has changed to something else, at (block, offset, before, after, found): %s" % (
            what, wrong[:5]), **witness)
    ctx.count("memory as before" if now == before else "memory as after" if now == then else "memory partly written")
    world.models[sid] = done
    for name, cells in now.items():
        done.blocks[name].data[:] = cells
    return now == then


def wanted(world, rng, sid):
    """a write by a request, or a local one: (what, function, model of the slave afterwards)"""
    mod = world.models[sid]
    done = copy.deepcopy(mod)
    if rng.random() < 0.65:
        pdu = valid_write(rng, mod)
        out = done.request(pdu)
        good = [o for o in out if o.response is not None and not o.response[0] & 0x80]
        (good or out)[0].apply()
        path = rng.choice(("slave", "db-tcp", "db-rtu"))
        return "request", pdu, lambda: world.paths[path].send(sid, pdu, bytes), done
    blk = rng.choice(list(mod.blocks.values()))
    offset = rng.randrange(blk.size)
    values = random_values(rng, blk.typ, rng.randint(1, min(blk.size - offset, 300)), mod.unsigned)
    done.blocks[blk.name].data[offset:offset + len(values)] = values
    return "set_values", (blk.name, blk.start + offset, len(values)), lambda: world.slaves[sid].set_values(
        blk.name, blk.start + offset, values), done


def slave(ctx, rng):
    """requests and local accesses interrupted by a signal"""
    alarm = ctx.store["alarm"]
    world = World(ctx, rng, slaves=1, paths=("slave", "db-tcp", "db-rtu"), max_blocks=5)
    try:
        sid = list(world.models)[0]
        world.fill(sid)
        for _ in range(30):
            op, detail, fct, done = wanted(world, rng, sid)
            if fct is None:
                continue
            before, then = world.models[sid].image(), done.image()
            exc = rng.choice(RAISED)("interruption")
            _, error, where = alarm.run(rng.uniform(0.000005, 0.00006), exc, fct)
            what = "%s interrupted in %s" % (op, where)
            witness = dict(detail=detail)
            if where is None:
                if error is not None:
                    raise Violation("%s %s raises %r" % (op, detail, error), **witness)
                world.models[sid] = done
                continue
            if error is not exc:
                raise Violation("%s gives %r instead of the interruption" % (what, error), **witness)
            ctx.count("interrupted requests" if op == "request" else "interrupted local accesses")
            ctx.key("slave", op, where)
            ctx.state("lines interrupted", where)
            if judge(ctx, world, sid, before, then, what, done, **witness):
                ctx.count("done before the interruption")
        # the slave works
        got, problem = elsewhere(lambda: world.check_image(sid, "at the end"), "at the end")
        if problem is not None:
            raise problem
        blk = rng.choice(list(world.models[sid].blocks.values()))
        _, problem = elsewhere(lambda: (world.slaves[sid].remove_block(blk.name),
                                        world.slaves[sid].add_block(blk.name, blk.typ, blk.start, blk.size)), "at the end")
        if problem is not None:
            raise Violation("after interruptions, a block can not be removed and added again: %r" % problem)
    finally:
        world.close()


SLAVE_HOOKS = ("modbus.Slave.handle_request", "modbus.ModbusBlock.setitem", "modbus.ModbusBlock.setitem",
               "modbus.Slave.handle_write_multiple_coils_request", "modbus.Slave.handle_write_multiple_registers_request",
               "modbus.Slave.handle_write_single_register_request", "modbus.Slave.handle_write_single_coil_request",
               "modbus.Slave.handle_mask_write_register_request",
               "modbus.Slave.handle_read_write_multiple_registers_request")


def slave_hooks(ctx, rng):
    """the interruption comes out of a hook of the slave"""
    lib = ctx.lib
    world = World(ctx, rng, slaves=1, paths=("slave", "db-tcp", "db-rtu"), max_blocks=5)
    try:
        sid = list(world.models)[0]
        world.fill(sid)
        for _ in range(10):
            op, detail, fct, done = wanted(world, rng, sid)
            name = rng.choice(SLAVE_HOOKS) if op == "request" else "modbus.ModbusBlock.setitem"
            exc = rng.choice(RAISED)("interruption of %s" % name)
            before, then = world.models[sid].image(), done.image()
            seen = []

            def hook(args):
                seen.append(1)
                raise exc
            lib.hooks.install_hook(name, hook)
            what = "%s interrupted by a function of %s" % (op, name)
            got = None
            try:
                fct()
            except BaseException as error:  # noqa
                got = error
            finally:
                lib.hooks.uninstall_hook(name, hook)
            if not seen:
                if got is not None:
                    raise got
                world.models[sid] = done
                continue
            if got is not exc:
                raise Violation("%s: the caller gets %r instead of the interruption" % (what, got), detail=detail)
            ctx.count("stopped by a hook of the slave")
            ctx.key("slave hooks", name, op)
            judge(ctx, world, sid, before, then, what, done, detail=detail)
        got, problem = elsewhere(lambda: world.check_image(sid, "at the end"), "at the end")
        if problem is not None:
            raise problem
    finally:
        world.close()
