"""C20: hooks are called in order, may substitute data, and may fail"""
import socket
import struct
import threading

from vp import lin, model, sched, wire
from vp.core import Violation
from vp.fakeserial import FakeSerial
from vp.masters import RtuTcpLink
from vp.net import Peer, RawClient, tcp_server, stop_server

LEVEL = "exploration"
RULE = ("a case installs functions which record, substitute or fail on the documented hooks (some twice, some uninstalled "
        "again), and makes requests through a databank, a RTU or TCP server with a master, or a RTU over TCP master: the "
        "recorded calls (functions, order, arguments) and the data which come out must be those of the documented "
        "contract; in the sched shards threads and hooks install and uninstall functions during the calls and the history "
        "must be linearizable; distinct by (registrations, behaviours, request)")
ASSUMPTIONS = ["a function uninstalled while a call of the hook is going on may still be called by this one",
               "the value which replaces a request or a response is another well-formed one"]


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="sched", n=4000 * k, budget=20 * k, min=200, mode="sched", name="sched-%d" % p) for p in range(2)] +
            [dict(kind="rtu", n=60 * k, budget=25 * k, min=5, name="rtu-%d" % p) for p in range(2)] +
            [dict(kind="tcp", n=60 * k, budget=25 * k, min=5, name="tcp-%d" % p) for p in range(2)] +
            [dict(kind="db", n=700 * k, budget=20 * k, min=30)] +
            [dict(kind="broadcast", n=400 * k, budget=15 * k, min=30)] +
            [dict(kind="over", n=60 * k, budget=20 * k, min=5)] +
            [dict(kind="empty", n=60 * k, budget=20 * k, min=5)] +
            [dict(kind="kick", n=60 * k, budget=15 * k, min=5)] +
            [dict(kind="errors", n=60 * k, budget=15 * k, min=5)])


def need(tier):
    return {"events": 20000, "substitutions": 1500, "failing requests": 300, "histories": 2000, "uninstalled": 500,
            "several functions": 2000, "dropped": 40, "emptied": 100, "exchanges": 3000,
            "broadcasts handled": 1000, "broadcasts which fail": 500, "broadcasts answered by a hook": 100,
            "closed by a hook": 100, "served after a closing": 200, "false values": 20,
            "errors told": 200, "errors of servers told": 50}


PER_FUNCTION = {1: "read_coils", 2: "read_discrete_inputs", 3: "read_holding_registers", 4: "read_input_registers",
                5: "write_single_coil", 6: "write_single_register", 15: "write_multiple_coils",
                16: "write_multiple_registers", 22: "mask_write_register", 23: "read_write_multiple_registers",
                7: "read_exception_status"}
SLAVE_HOOKS = ["modbus.Slave.handle_%s_request" % n for n in PER_FUNCTION.values()]
MASTER = ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv"]
SERVER = ["modbus.Server.before_handle_request", "modbus.Server.after_handle_request", "modbus.Slave.handle_request",
          "modbus.Slave.on_exception", "modbus.Databank.on_error", "modbus.ModbusBlock.setitem",
          "modbus.Slave.on_handle_broadcast"] + SLAVE_HOOKS
RTU = ["modbus_rtu.RtuMaster.before_open", "modbus_rtu.RtuMaster.after_close", "modbus_rtu.RtuMaster.before_send",
       "modbus_rtu.RtuMaster.after_recv", "modbus_rtu.RtuServer.before_close", "modbus_rtu.RtuServer.after_close",
       "modbus_rtu.RtuServer.before_open", "modbus_rtu.RtuServer.after_open", "modbus_rtu.RtuServer.after_read",
       "modbus_rtu.RtuServer.before_write", "modbus_rtu.RtuServer.after_write", "modbus_rtu.RtuServer.on_error"]
TCP = ["modbus_tcp.TcpMaster.before_connect", "modbus_tcp.TcpMaster.after_connect", "modbus_tcp.TcpMaster.before_close",
       "modbus_tcp.TcpMaster.after_close", "modbus_tcp.TcpMaster.before_send", "modbus_tcp.TcpServer.after_send",
       "modbus_tcp.TcpMaster.after_recv", "modbus_tcp.TcpServer.on_connect", "modbus_tcp.TcpServer.on_disconnect",
       "modbus_tcp.TcpServer.after_recv", "modbus_tcp.TcpServer.before_send", "modbus_tcp.TcpServer.on_error"]
OVER = ["modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv"]
# -- documented as "returns modified request or None" or "returns modified response or None"
REQUESTS = ["modbus.Master.before_send", "modbus_rtu.RtuMaster.before_send", "modbus_rtu.RtuServer.after_read",
            "modbus.Server.before_handle_request"]
RESPONSES = ["modbus.Master.after_recv", "modbus_rtu.RtuMaster.after_recv", "modbus_rtu.RtuServer.before_write",
             "modbus_tcp.TcpServer.before_send", "modbus.Server.after_handle_request"]


class Box(object):
    """the installed functions and what they have seen"""

    def __init__(self, ctx, rng, names):
        self.ctx, self.rng, self.lib = ctx, rng, ctx.lib
        self.names = names
        self.registry = {name: [] for name in names}     # the model: the functions in the order of installation
        self.trace = []                                  # (thread, name, function, args, returned or raised)
        self.plans = {}                                  # function -> what it does, once or more
        self.lock = threading.Lock()
        self.made = 0

    def function(self, name):
        self.made += 1
        num = self.made

        def fct(args):
            plan = self.plans.get(fct)
            value = None
            error = None
            if plan is not None:
                try:
                    value = plan(args)
                except Exception as exc:  # noqa
                    error = exc
            with self.lock:
                self.trace.append((threading.get_ident(), name, fct, freeze(args), freeze_value(value), error))
            if error is not None:
                raise error
            return value
        fct.num = num
        return fct

    def install(self, name, fct=None):
        fct = fct or self.function(name)
        self.lib.hooks.install_hook(name, fct)
        self.registry[name].append(fct)
        return fct

    def shuffle(self):
        """some history of install and uninstall"""
        rng, hooks = self.rng, self.lib.hooks
        for name in self.names:
            if not self.registry[name] or rng.random() < 0.7:
                self.install(name)
            while rng.random() < 0.3 and len(self.registry[name]) < 5:
                if rng.random() < 0.2:
                    # the same function again
                    self.install(name, rng.choice(self.registry[name]))
                else:
                    self.install(name)
            if rng.random() < 0.2:
                what = rng.random()
                if what < 0.3:
                    hooks.uninstall_hook(name)
                    self.registry[name] = []
                else:
                    fct = rng.choice(self.registry[name])
                    if self.registry[name].count(fct) == 1:
                        hooks.uninstall_hook(name, fct)
                        self.registry[name].remove(fct)
                    else:
                        # all of them: which one is removed first is not documented
                        while fct in self.registry[name]:
                            hooks.uninstall_hook(name, fct)
                            self.registry[name].remove(fct)
                self.ctx.count("uninstalled")
                if not self.registry[name]:
                    self.install(name)
            if len(self.registry[name]) > 1:
                self.ctx.count("several functions")

    def clear(self):
        for name in self.names:
            try:
                self.lib.hooks.uninstall_hook(name)
            except KeyError:
                pass
            self.registry[name] = []

    def events(self, thread=None):
        """the trace as a list of (name, args, value, error), after having checked the calls of the functions"""
        with self.lock:
            trace, self.trace = self.trace, []
        out = []
        threads = []
        for entry in trace:
            if entry[0] not in threads:
                threads.append(entry[0])
        for ident in threads:
            mine = [e for e in trace if e[0] == ident]
            pos = 0
            while pos < len(mine):
                name = mine[pos][1]
                expected = self.registry[name]
                args = mine[pos][3]
                value = error = None
                for k, fct in enumerate(expected):
                    if pos >= len(mine) or mine[pos][1] != name:
                        raise Violation("hook %s: %d functions are called out of %d, none having returned a value" % (
                            name, k, len(expected)), trace=show(mine))
                    if mine[pos][2] is not fct:
                        raise Violation("hook %s: the function %d is called instead of %d (installed: %s)" % (
                            name, mine[pos][2].num, fct.num, [f.num for f in expected]), trace=show(mine))
                    if mine[pos][3] != args:
                        raise Violation("hook %s: the functions do not get the same arguments" % name, trace=show(mine))
                    value, error = mine[pos][4], mine[pos][5]
                    pos += 1
                    if value is not None or error is not None:
                        break
                out.append((ident, name, args, value, error))
        self.ctx.count("events", len(out))
        if thread is None:
            return [e[1:] for e in out]
        return out


def freeze(args):
    if not isinstance(args, tuple):
        return ("not a tuple", repr(args))
    return tuple(bytes(a) if isinstance(a, (bytes, bytearray)) else a for a in args)


def freeze_value(value):
    return bytes(value) if isinstance(value, (bytes, bytearray)) else value


def show(entries):
    return [(e[1], e[2].num, e[3], e[4], repr(e[5])) for e in entries]


def random_pdu(rng):
    """on blocks of 20 items of each type at 0"""
    fct = rng.choice((1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 7))
    addr, qty = rng.randrange(10), rng.randint(1, 10)
    if fct <= 4:
        return wire.read_pdu(fct, addr, qty)
    if fct == 5:
        return wire.write_coil_pdu(addr, rng.randrange(2))
    if fct == 6:
        return wire.write_reg_pdu(addr, rng.randrange(65536))
    if fct == 15:
        return wire.write_coils_pdu(addr, [rng.randrange(2) for _ in range(qty)])
    if fct == 16:
        return wire.write_regs_pdu(addr, [rng.randrange(65536) for _ in range(qty)])
    if fct == 22:
        return wire.mask_pdu(addr, rng.randrange(65536), rng.randrange(65536))
    if fct == 23:
        return wire.rw_pdu(addr, qty, rng.randrange(10), [rng.randrange(65536) for _ in range(rng.randint(1, 10))])
    return b"\x07"


def same_kind(rng, pdu):
    """another request of the same function which has an answer of the same form"""
    fct = pdu[0]
    pdu = bytearray(pdu)
    if fct == 7:
        return bytes(pdu)
    if fct == 23:
        pdu[6] = rng.randrange(10)      # write address
    else:
        pdu[2] = rng.randrange(10)      # address
    if fct in (6, 16, 22):
        pdu[-1] = rng.randrange(256)
    return bytes(pdu)


def other_answer(rng, pdu):
    pdu = bytearray(pdu)
    if pdu[0] & 0x80:
        pdu[1] = rng.randint(1, 11)
    elif pdu[0] in (1, 2, 3, 4, 23):
        pdu[-1] ^= rng.randint(1, 255)
    elif len(pdu) >= 3:
        pdu[1] ^= rng.randint(1, 255)
    return bytes(pdu)


class Framing(object):
    def __init__(self, name):
        self.name = name

    def pdu(self, frame):
        return bytes(frame)[7:] if self.name == "tcp" else bytes(frame)[1:-2]

    def again(self, frame, pdu):
        """the same frame with another pdu"""
        frame = bytes(frame)
        if self.name == "tcp":
            return frame[:4] + struct.pack(">HB", len(pdu) + 1, frame[6]) + pdu
        return wire.rtu(frame[0], pdu)


def make_slave(lib, db, sid):
    slave = db.add_slave(sid)
    mod = model.SlaveModel(True)
    for typ in (1, 2, 3, 4):
        slave.add_block("b%d" % typ, typ, 0, 20)
        mod.add("b%d" % typ, typ, 0, 20)
        values = [(k * 7 + typ) % (2 if typ < 3 else 60000) for k in range(20)]
        slave.set_values("b%d" % typ, 0, values)
        mod.blocks["b%d" % typ].data[:] = values
    return slave, mod


def decode(pdu, req):
    """what the master must give"""
    if pdu[0] & 0x80:
        return ("error", pdu[1])
    if pdu[0] in (1, 2):
        bits = []
        for byte in pdu[2:]:
            bits += [(byte >> k) & 1 for k in range(8)]
        return ("ok", tuple(bits[:struct.unpack(">H", req[3:5])[0]]))
    if pdu[0] in (3, 4, 23):
        return ("ok", struct.unpack(">%dH" % ((len(pdu) - 2) // 2), pdu[2:]))
    if pdu[0] == 7:
        return ("ok", tuple(pdu[1:]))
    return ("ok", struct.unpack(">%dH" % ((len(pdu) - 1) // 2), pdu[1:]))


def call(lib, master, sid, req):
    """execute the request given as a pdu"""
    fct = req[0]
    args, kwargs = [0], {}
    if fct != 7:
        args = [struct.unpack(">H", req[1:3])[0]]
    if fct <= 4:
        args.append(struct.unpack(">H", req[3:5])[0])
    elif fct == 5:
        kwargs["output_value"] = req[3]
    elif fct == 6:
        kwargs["output_value"] = struct.unpack(">H", req[3:5])[0]
    elif fct == 15:
        qty = struct.unpack(">H", req[3:5])[0]
        kwargs["output_value"] = [(req[6 + k // 8] >> (k % 8)) & 1 for k in range(qty)]
    elif fct == 16:
        kwargs["output_value"] = list(struct.unpack(">%dH" % (req[5] // 2), req[6:]))
    elif fct == 22:
        kwargs["and_mask"], kwargs["or_mask"] = struct.unpack(">HH", req[3:7])
    elif fct == 23:
        kwargs["quantity_of_x"], kwargs["write_starting_address_fc23"] = struct.unpack(">HH", req[3:7])
        kwargs["output_value"] = list(struct.unpack(">%dH" % (req[9] // 2), req[10:]))
    try:
        return ("ok", master.execute(sid, fct, *args, **kwargs))
    except lib.exceptions.ModbusError as exc:
        return ("error", exc.get_exception_code())


class Chain(object):
    """goes along the events of one side of an exchange"""

    def __init__(self, events, what):
        self.events, self.pos, self.what = events, 0, what

    def next(self, name, *args):
        """the next event must be this one: returns its value"""
        if self.pos >= len(self.events):
            raise Violation("%s: the hook %s is not called" % (self.what, name), events=self.show())
        got, gargs, value, error = self.events[self.pos]
        if got != name:
            raise Violation("%s: the hook %s is called instead of %s" % (self.what, got, name), events=self.show())
        self.pos += 1
        if len(gargs) != len(args) or any((g is not a) if not isinstance(a, bytes) else (g != a)
                                          for g, a in zip(gargs, args) if a is not Ellipsis):
            raise Violation("%s: the arguments of the hook %s are %r instead of %r" % (self.what, name, gargs, args),
                            events=self.show())
        return value

    def peek(self):
        return self.events[self.pos][0] if self.pos < len(self.events) else None

    def end(self):
        if self.pos != len(self.events):
            raise Violation("%s: the hook %s is called without a reason" % (self.what, self.events[self.pos][0]),
                            events=self.show())

    def show(self):
        return [(n, a, v, repr(e)) for n, a, v, e in self.events]


def server_side(ctx, lib, chain, framing, server, slave, mod, frame, failing, sock=None):
    """checks the events of a server (or databank when server is None) for a request: returns the response frame"""
    if server is not None:
        if framing.name == "rtu":
            value = chain.next("modbus_rtu.RtuServer.after_read", server, frame)
            frame = frame if value is None else value
        else:
            seen = chain.events[chain.pos][1][2] if chain.peek() == "modbus_tcp.TcpServer.after_recv" else None
            # the documentation does not tell how much of the request has been received
            if seen is not None and not (isinstance(seen, bytes) and len(seen) >= 6 and frame.startswith(seen)):
                raise Violation("TcpServer.after_recv gets %r instead of the request" % (seen,), events=chain.show())
            value = chain.next("modbus_tcp.TcpServer.after_recv", server, Ellipsis, Ellipsis)
            if value is not None:
                frame = value + frame[len(seen):]
        value = chain.next("modbus.Server.before_handle_request", server, frame)
        frame = frame if value is None else value
    pdu = framing.pdu(frame)
    events = chain.events
    value = chain.next("modbus.Slave.handle_request", slave, pdu)
    error = events[chain.pos - 1][3]
    if error is not None:
        if isinstance(error, lib.exceptions.ModbusError):
            resp = bytes([pdu[0] | 0x80, error.get_exception_code()])
            if chain.peek() == "modbus.Slave.on_exception":
                if chain.next("modbus.Slave.on_exception", slave, Ellipsis, Ellipsis) is not None:
                    pass
                if events[chain.pos - 1][1][1] != pdu[0] or events[chain.pos - 1][1][2] is not error:
                    raise Violation("wrong arguments of on_exception: %r" % (events[chain.pos - 1][1],))
            else:
                raise Violation("on_exception is not called", events=chain.show())
        else:
            resp = bytes([pdu[0] | 0x80, 4])
            chain.next("modbus.Databank.on_error", Ellipsis, error, pdu)
        ctx.count("failing requests")
    elif value is not None:
        resp = value
    else:
        out = mod.request(pdu)
        chain.next("modbus.Slave.handle_%s_request" % PER_FUNCTION[pdu[0]], slave, pdu)
        sets = 0
        while chain.peek() == "modbus.ModbusBlock.setitem":
            chain.next("modbus.ModbusBlock.setitem", Ellipsis, Ellipsis, Ellipsis)
            sets += 1
        if len(out) != 1:
            raise AssertionError("the model hesitates: %r" % out)
        resp = out[0].response
        if resp[0] & 0x80:
            chain.next("modbus.Slave.on_exception", slave, Ellipsis, Ellipsis)
        elif out[0].writes and not sets:
            raise Violation("ModbusBlock.setitem is not called for a write", events=chain.show())
        out[0].apply()
    frame = framing.again(frame, resp)
    if server is not None:
        value = chain.next("modbus.Server.after_handle_request", server, frame)
        frame = frame if value is None else value
        if framing.name == "rtu":
            value = chain.next("modbus_rtu.RtuServer.before_write", server, frame)
            frame = frame if value is None else value
            chain.next("modbus_rtu.RtuServer.after_write", server, frame)
        else:
            value = chain.next("modbus_tcp.TcpServer.before_send", server, Ellipsis, frame)
            frame = frame if value is None else value
            chain.next("modbus_tcp.TcpServer.after_send", server, Ellipsis, frame)
    chain.end()
    return frame


def plans(ctx, rng, box, framing, lib):
    """what the functions do during the next exchange"""
    box.plans.clear()
    shown = []
    failing = None
    names = [n for n in box.names if n in REQUESTS or n in RESPONSES or n == "modbus.Slave.handle_request"]
    for name in names:
        if rng.random() > 0.25:
            continue
        fct = rng.choice(box.registry[name])
        seed = rng.random()
        if name == "modbus.Slave.handle_request":
            what = rng.random()
            if what < 0.4:
                failing = lib.exceptions.ModbusError(rng.choice((1, 2, 3, 4, 5, 6, 8, 10, 11)))
            elif what < 0.7:
                failing = rng.choice((RuntimeError, ValueError, KeyError, IndexError, struct.error, OSError,
                                      ZeroDivisionError))("failing")
            if failing is not None:
                def plan(args, failing=failing):
                    raise failing
                shown.append((name, repr(failing)))
            else:
                def plan(args, mod=box.mod, seed=seed):
                    import random as _r
                    out = mod.request(bytes(args[1]))[0].response
                    return other_answer(_r.Random(seed), out)
                shown.append((name, "answer"))
        else:
            def plan(args, name=name, seed=seed):
                import random as _r
                frame = args[-1]
                pdu = framing.pdu(frame)
                new = (same_kind if name in REQUESTS else other_answer)(_r.Random(seed), pdu)
                return framing.again(frame, new)
            shown.append((name, fct.num))
        box.plans[fct] = plan
        ctx.count("substitutions")
    return shown, failing


def case(ctx, rng, i):
    if ctx.kind == "sched":
        return concurrent(ctx, rng)
    if ctx.kind == "db":
        return databank(ctx, rng)
    if ctx.kind == "broadcast":
        return broadcast(ctx, rng)
    if ctx.kind == "over":
        return over(ctx, rng)
    if ctx.kind == "empty":
        return empty(ctx, rng)
    if ctx.kind == "kick":
        return kick(ctx, rng)
    if ctx.kind == "errors":
        return errors(ctx, rng)
    lib = ctx.lib
    framing = Framing(ctx.kind)
    box = Box(ctx, rng, MASTER + SERVER + (RTU if ctx.kind == "rtu" else TCP))
    db = lib.modbus.Databank()
    sid = rng.randint(1, 255)
    slave, mod = make_slave(lib, db, sid)
    box.mod = mod
    server = master = None
    try:
        box.shuffle()
        # -- both ends
        if ctx.kind == "rtu":
            mport, sport = FakeSerial(is_open=False), FakeSerial(is_open=False)
            sport.on_write = lambda data: mport.feed([data])
            mport.on_write = lambda data: sport.feed([data])
            mport.wait_data = 5.0
            server = lib.modbus_rtu.RtuServer(sport, databank=db, interframe_multiplier=0.02)
            server.start()
            if not sport.wait_idle():
                raise Violation("the RTU server does not start", timing=True)
            chain = Chain(box.events(), "start of the RTU server")
            chain.next("modbus_rtu.RtuServer.before_open", server)
            chain.next("modbus_rtu.RtuServer.after_open", server)
            chain.end()
            master = lib.modbus_rtu.RtuMaster(Patient(mport))
            master.open()
            chain = Chain(box.events(), "opening of the RTU master")
            chain.next("modbus_rtu.RtuMaster.before_open", master)
            chain.end()
        else:
            server, port = tcp_server(lib, databank=db)
            # the client which has waited for the server must be gone
            wait_events(box, "modbus_tcp.TcpServer.on_disconnect")
            box.events()
            master = lib.modbus_tcp.TcpMaster("127.0.0.1", port, 30)
            master.open()
            wait_events(box, "modbus_tcp.TcpServer.on_connect")
            events = box.events(thread=True)
            chain = Chain([e[1:] for e in events if e[0] == threading.get_ident()], "opening of the TCP master")
            chain.next("modbus_tcp.TcpMaster.before_connect", master)
            chain.next("modbus_tcp.TcpMaster.after_connect", master)
            chain.end()
            chain = Chain([e[1:] for e in events if e[0] != threading.get_ident()], "connection")
            chain.next("modbus_tcp.TcpServer.on_connect", server, Ellipsis, Ellipsis)
            args = chain.events[0][1]
            if not isinstance(args[1], socket.socket) or args[2][0] != "127.0.0.1":
                raise Violation("the arguments of on_connect are %r" % (args,))
            chain.end()
        for step in range(25):
            if rng.random() < 0.15:
                box.shuffle()
            shown, failing = plans(ctx, rng, box, framing, lib)
            req = random_pdu(rng)
            witness = dict(plans=shown, request=req, installed={n: [f.num for f in box.registry[n]] for n, _ in shown})
            result = call(lib, master, sid, req)
            ctx.count("exchanges")
            wait_events(box, "modbus_rtu.RtuServer.after_write" if ctx.kind == "rtu" else "modbus_tcp.TcpServer.after_send")
            events = box.events(thread=True)
            mine = Chain([e[1:] for e in events if e[0] == threading.get_ident()], "master")
            theirs = Chain([e[1:] for e in events if e[0] != threading.get_ident()], "server")
            # -- the master sends
            if mine.peek() != "modbus.Master.before_send":
                raise Violation("Master.before_send is not called first", events=mine.show(), **witness)
            frame = mine.events[0][1][1]
            if not isinstance(frame, bytes) or framing.pdu(frame) != req:
                raise Violation("Master.before_send gets %r" % (frame,), **witness)
            value = mine.next("modbus.Master.before_send", master, frame)
            frame = frame if value is None else value
            value = mine.next("modbus_rtu.RtuMaster.before_send" if ctx.kind == "rtu" else
                              "modbus_tcp.TcpMaster.before_send", master, frame)
            frame = frame if value is None else value
            # -- the server gets it
            frame = server_side(ctx, lib, theirs, framing, server, slave, mod, frame, failing)
            # -- the master receives
            mine.next("modbus.Master.after_send", master)
            value = mine.next("modbus_rtu.RtuMaster.after_recv" if ctx.kind == "rtu" else
                              "modbus_tcp.TcpMaster.after_recv", master, frame)
            frame = frame if value is None else value
            value = mine.next("modbus.Master.after_recv", master, frame)
            frame = frame if value is None else value
            mine.end()
            want = decode(framing.pdu(frame), req)
            if result != want:
                raise Violation("the master gives %r instead of %r" % (result, want), **witness)
            check_memory(slave, mod, witness)
            ctx.key(ctx.kind, tuple(n for n, _ in shown), req[0], tuple(len(box.registry[n]) for n, _ in shown))
            if shown:
                ctx.sample(dict(request=req, plans=shown, result=repr(result)))
        box.plans.clear()
        if ctx.kind == "rtu":
            dropped(ctx, rng, box, sport, sid, slave, mod)
        else:
            dropped_tcp(ctx, rng, box, port, sid, slave, mod)
            wait_events(box, "modbus_tcp.TcpServer.on_disconnect")
        dropped_master(ctx, rng, box, master, sid, slave, mod)
        box.events()
        # -- the end
        master.close()
        if ctx.kind == "rtu":
            chain = Chain(box.events(), "closing of the RTU master")
            chain.next("modbus_rtu.RtuMaster.after_close", master)
            chain.end()
            server.stop()
            chain = Chain(box.events(), "stop of the RTU server")
            chain.next("modbus_rtu.RtuServer.before_close", server)
            chain.next("modbus_rtu.RtuServer.after_close", server)
            chain.end()
        else:
            wait_events(box, "modbus_tcp.TcpServer.on_disconnect")
            events = box.events(thread=True)
            chain = Chain([e[1:] for e in events if e[0] == threading.get_ident()], "closing of the TCP master")
            chain.next("modbus_tcp.TcpMaster.before_close", master)
            chain.next("modbus_tcp.TcpMaster.after_close", master)
            chain.end()
            chain = Chain([e[1:] for e in events if e[0] != threading.get_ident()], "disconnection")
            chain.next("modbus_tcp.TcpServer.on_disconnect", server, Ellipsis)
            chain.end()
            # -- a client which is not understood
            client = RawClient(port)
            client.send(b"\0\1\0\0\0")
            client.close()
            wait_events(box, "modbus_tcp.TcpServer.on_connect")
            stop_server(server)
            box.events()
    finally:
        box.plans.clear()
        box.clear()
        if master is not None:
            master.close()
        if server is not None:
            stop_server(server)


def dropped(ctx, rng, box, sport, sid, slave, mod):
    """the functions replace the request or the response by nothing"""
    for name in ("modbus.Server.before_handle_request", "modbus_rtu.RtuServer.after_read",
                 "modbus.Server.after_handle_request", "modbus_rtu.RtuServer.before_write"):
        req = wire.write_reg_pdu(rng.randrange(20), rng.randrange(65536))
        fct = rng.choice(box.registry[name])
        box.plans[fct] = lambda args: rng.choice((b"", bytearray()))
        before = len(sport.writes)
        sport.feed([wire.rtu(sid, req)])
        if not sport.wait_idle():
            raise Violation("the RTU server is stuck", timing=True)
        box.plans.clear()
        if len(sport.writes) != before:
            raise Violation("the response %s is sent although a function of %s has replaced the data by nothing" % (
                sport.writes[-1].hex(), name))
        if name in RESPONSES:
            mod.request(req)[0].apply()
        check_memory(slave, mod, dict(request=req, hook=name))
        ctx.count("dropped")


def dropped_tcp(ctx, rng, box, port, sid, slave, mod):
    """the response which is sent is replaced by nothing"""
    client = RawClient(port)
    for name in ("modbus_tcp.TcpServer.before_send", "modbus.Server.after_handle_request"):
        first = wire.write_reg_pdu(rng.randrange(20), rng.randrange(65536))
        second = wire.write_reg_pdu(rng.randrange(20), rng.randrange(65536))
        box.plans[rng.choice(box.registry[name])] = lambda args: (
            rng.choice((b"", bytearray())) if bytes(args[-1])[:2] == b"\x11\x11" else None)
        client.send(wire.mbap(0x1111, sid, first) + wire.mbap(0x2222, sid, second))
        want = wire.mbap(0x2222, sid, second)
        got = client.frame(20)
        box.plans.clear()
        if got != want:
            raise Violation("the server sends %s instead of %s only, although a function of %s has replaced the first "
                            "response by nothing" % (got.hex(), want.hex(), name), timing=not got)
        for req in (first, second):
            mod.request(req)[0].apply()
        check_memory(slave, mod, dict(request=first, hook=name))
        ctx.count("dropped")
    client.close()
    # the request which is received is replaced by nothing: that one is not executed (what happens to the connection is
    # not documented)
    client = RawClient(port)
    first = wire.write_reg_pdu(rng.randrange(20), rng.randrange(65536))
    name = "modbus_tcp.TcpServer.after_recv"
    box.plans[rng.choice(box.registry[name])] = lambda args: rng.choice((b"", bytearray()))
    client.send(wire.mbap(0x1111, sid, first))
    data = client.closed(1.5)
    box.plans.clear()
    if client.buf or data:
        raise Violation("the server sends %r although a function of %s has replaced the request by nothing" % (
            bytes(client.buf or data), name))
    client.close()
    check_memory(slave, mod, dict(request=first, hook=name))
    ctx.count("dropped")


def dropped_master(ctx, rng, box, master, sid, slave=None, mod=None):
    """the response which is received is replaced by nothing"""
    for name in ("modbus_rtu.RtuMaster.after_recv", "modbus.Master.after_recv"):
        if name not in box.registry:
            continue
        req = wire.write_reg_pdu(rng.randrange(20), rng.randrange(65536))
        box.events()
        box.plans[rng.choice(box.registry[name])] = lambda args: rng.choice((b"", bytearray()))
        try:
            result = call(ctx.lib, master, sid, req)
        except Exception as exc:  # noqa
            result = ("error", repr(exc))
        box.plans.clear()
        if mod is not None:
            wait_events(box, "modbus_rtu.RtuServer.after_write" if ctx.kind == "rtu" else "modbus_tcp.TcpServer.after_send")
        if result[0] != "error":
            raise Violation("the master returns %r although a function of %s has replaced the response by nothing" % (
                result, name))
        if mod is not None:
            mod.request(req)[0].apply()
            check_memory(slave, mod, dict(request=req, hook=name))
        ctx.count("dropped")


class Patient(object):
    """a port on which the master waits for the answer as long as it takes"""

    def __init__(self, port):
        object.__setattr__(self, "_port", port)
        object.__setattr__(self, "_answered", 0)

    def __getattr__(self, name):
        return getattr(self._port, name)

    def __setattr__(self, name, value):
        setattr(self._port, name, value)

    def read(self, size=1):
        port = self._port
        with port.cond:
            if self._answered < len(port.writes):
                port.cond.wait_for(lambda: port.rx, 20)
                object.__setattr__(self, "_answered", len(port.writes))
        return port.read(size)


def wait_events(box, name, limit=20):
    """wait until the hook has been called (in another thread)"""
    import time
    end = time.monotonic() + limit
    while time.monotonic() < end:
        with box.lock:
            mine = [e for e in box.trace if e[1] == name]
        if mine:
            # all of its functions
            fcts = box.registry[name]
            if mine[-1][2] is fcts[-1] and len(mine) >= len(fcts):
                return
        time.sleep(0.0003)
    raise Violation("the hook %s is not called (by all of its functions)" % name, timing=True,
                    trace=show(box.trace[-20:]))


def check_memory(slave, mod, witness):
    for name, blk in mod.blocks.items():
        if list(slave.get_values(name, 0, 20)) != blk.data:
            raise Violation("the memory is not the one of the requests which the hooks have let through", **witness)


def databank(ctx, rng):
    """without any line"""
    lib = ctx.lib
    framing = Framing(rng.choice(("tcp", "rtu")))
    box = Box(ctx, rng, SERVER)
    db = lib.modbus.Databank()
    sid = rng.randint(1, 255)
    slave, mod = make_slave(lib, db, sid)
    box.mod = mod
    try:
        for step in range(15):
            if step == 0 or rng.random() < 0.3:
                box.shuffle()
            shown, failing = plans(ctx, rng, box, framing, lib)
            req = random_pdu(rng)
            if rng.random() < 0.15 and req[0] != 7:
                req = req[:1] + b"\x01" + req[2:]        # outside of the blocks
            witness = dict(plans=shown, request=req)
            frame = wire.mbap(7, sid, req) if framing.name == "tcp" else wire.rtu(sid, req)
            query = lib.modbus_tcp.TcpQuery() if framing.name == "tcp" else lib.modbus_rtu.RtuQuery()
            what = rng.random()
            if what < 0.12 and req[0] in (5, 6, 15, 16, 22) and req[1] == 0 and failing is None and not shown:
                # broadcast
                frame = wire.mbap(7, 0, req) if framing.name == "tcp" else wire.rtu(0, req)
                db.handle_request(query, frame)
                out = mod.request(req)[0]
                out.apply()
                events = [e for e in box.events() if e[0] != "modbus.ModbusBlock.setitem"]
                chain = Chain(events, "broadcast")
                chain.next("modbus.Slave.handle_request", slave, req)
                chain.next("modbus.Slave.handle_%s_request" % PER_FUNCTION[req[0]], slave, req)
                chain.next("modbus.Slave.on_handle_broadcast", slave, Ellipsis)
                chain.end()
                check_memory(slave, mod, witness)
                ctx.count("broadcasts")
                continue
            if what < 0.2 and not shown:
                # the functions of a request hook which return something
                name = "modbus.Slave.handle_%s_request" % PER_FUNCTION[req[0]]
                if name in (PER_RESPONSE):
                    fct = rng.choice(box.registry[name])
                    answer = other_answer(rng, mod.request(req)[0].response)
                    box.plans[fct] = lambda args: answer
                    resp = bytes(db.handle_request(query, frame))
                    box.events()
                    out = mod.request(req)[0]
                    if resp == framing.again(frame, out.response) and answer != out.response:
                        ctx.finding("function-hooks", "the value returned by a function installed on %s does not replace "
                                    "the response" % name)
                        out.apply()
                    elif resp != framing.again(frame, answer):
                        raise Violation("the response %s is neither the one of the slave nor the one of the hook" %
                                        resp.hex(), **witness)
                    else:
                        for bname, blk in mod.blocks.items():
                            blk.data[:] = slave.get_values(bname, 0, 20)
                    box.plans.clear()
                    ctx.count("function hooks")
                    continue
            resp = bytes(db.handle_request(query, frame))
            ctx.count("exchanges")
            chain = Chain(box.events(), "databank")
            bare = server_side(ctx, lib, chain, framing, None, slave, mod, frame, failing)
            if failing is not None and len(resp) == 2:
                resp = framing.again(frame, resp)        # the server adds the header
            if resp != bare:
                raise Violation("the response is %s instead of %s" % (resp.hex(), bare.hex()), **witness)
            check_memory(slave, mod, witness)
            ctx.key("db", tuple(n for n, _ in shown), req[0], tuple(len(box.registry[n]) for n, _ in shown))
    finally:
        box.plans.clear()
        box.clear()


PER_RESPONSE = [n for n in SLAVE_HOOKS if n != "modbus.Slave.handle_write_multiple_coils_request"]


def broadcast(ctx, rng):
    """a broadcast, several slaves: functions fail or answer for some of them"""
    lib = ctx.lib
    box = Box(ctx, rng, SERVER)
    db = lib.modbus.Databank()
    slaves = [(sid,) + make_slave(lib, db, sid) for sid in rng.sample(range(1, 256), rng.randint(2, 4))]
    try:
        for step in range(10):
            if step == 0 or rng.random() < 0.3:
                box.shuffle()
            req = random_pdu(rng)
            while req[0] not in (5, 6, 15, 16, 22):
                req = random_pdu(rng)
            if rng.random() < 0.15:
                req = req[:1] + b"\x01" + req[2:]        # outside of the blocks
            fate = {}
            for sid, slave, mod in slaves:
                what = rng.random()
                if what < 0.25:
                    fate[slave] = rng.choice((RuntimeError, ValueError, KeyError, IndexError, struct.error, OSError,
                                              ZeroDivisionError))("failing %d" % sid)
                elif what < 0.4:
                    fate[slave] = lib.exceptions.ModbusError(rng.choice((1, 2, 3, 4, 5, 6, 8, 10, 11)))
                elif what < 0.5:
                    fate[slave] = bytes([req[0] | 0x80, 6])

            def plan(args):
                todo = fate.get(args[0])
                if isinstance(todo, Exception):
                    raise todo
                return todo
            box.plans.clear()
            box.plans[rng.choice(box.registry["modbus.Slave.handle_request"])] = plan
            # the other hooks fail as well
            late = None
            if rng.random() < 0.3:
                late = rng.choice(("modbus.Slave.on_handle_broadcast",
                                   "modbus.Slave.handle_%s_request" % PER_FUNCTION[req[0]]))
                unlucky = rng.choice(slaves)[1]
                accident = RuntimeError("late")

                def failing(args):
                    if args[0] is unlucky:
                        raise accident
                box.plans[rng.choice(box.registry[late])] = failing
            witness = dict(request=req, fates={s[0]: repr(fate.get(s[1])) for s in slaves}, late=late)
            query = lib.modbus_tcp.TcpQuery() if rng.random() < 0.5 else lib.modbus_rtu.RtuQuery()
            frame = wire.mbap(7, 0, req) if isinstance(query, lib.modbus_tcp.TcpQuery) else wire.rtu(0, req)
            resp = db.handle_request(query, frame)
            if resp:
                raise Violation("a broadcast is answered: %r" % (resp,), **witness)
            parts = []
            for event in box.events():
                if event[0] == "modbus.Slave.handle_request":
                    parts.append([])
                if not parts:
                    raise Violation("the hook %s is called before a slave gets the broadcast" % event[0], **witness)
                parts[-1].append(event)
            seen = [part[0][1][0] for part in parts]
            if sorted(map(id, seen)) != sorted(id(s[1]) for s in slaves):
                raise Violation("modbus.Slave.handle_request is called %d times for the broadcast, there are %d slaves" % (
                    len(seen), len(slaves)), **witness)
            for part in parts:
                slave = part[0][1][0]
                mod = [s[2] for s in slaves if s[1] is slave][0]
                writes = [e for e in part if e[0] == "modbus.ModbusBlock.setitem"]
                chain = Chain([e for e in part if e[0] != "modbus.ModbusBlock.setitem"], "broadcast")
                chain.next("modbus.Slave.handle_request", slave, req)
                todo = fate.get(slave)
                error = None
                done = False
                if isinstance(todo, lib.exceptions.ModbusError):
                    chain.next("modbus.Slave.on_exception", slave, req[0], todo)
                elif isinstance(todo, Exception):
                    error = todo
                elif todo is None:
                    out = mod.request(req)[0]
                    chain.next("modbus.Slave.handle_%s_request" % PER_FUNCTION[req[0]], slave, req)
                    mine = late is not None and slave is unlucky
                    if mine and late != "modbus.Slave.on_handle_broadcast":
                        error = accident
                    elif out.response[0] & 0x80:
                        chain.next("modbus.Slave.on_exception", slave, req[0], Ellipsis)
                    else:
                        done = True
                        out.apply()
                        chain.next("modbus.Slave.on_handle_broadcast", slave, Ellipsis)
                        if mine:
                            error = accident
                if error is not None:
                    chain.next("modbus.Databank.on_error", db, error, req)
                    ctx.count("broadcasts which fail")
                chain.end()
                if bool(writes) != done:
                    raise Violation("ModbusBlock.setitem is called %d times by a slave which %s the broadcast" % (
                        len(writes), "executes" if done else "does not execute"), **witness)
                if isinstance(todo, bytes):
                    ctx.count("broadcasts answered by a hook")
            for sid, slave, mod in slaves:
                check_memory(slave, mod, witness)
            ctx.count("broadcasts handled")
            ctx.key("broadcast", req[0], tuple(sorted(type(f).__name__ for f in fate.values())), late,
                    len(slaves), tuple(len(box.registry[n]) for n in ("modbus.Slave.handle_request",)))
    finally:
        box.plans.clear()
        box.clear()


def over(ctx, rng):
    """the master of RTU over TCP"""
    lib = ctx.lib
    framing = Framing("rtu")
    box = Box(ctx, rng, MASTER + [n for n in TCP if "Master" in n] + OVER)
    sid = rng.randint(1, 255)
    slave, mod = make_slave(lib, lib.modbus.Databank(), sid)
    link = RtuTcpLink(lib, timeout=20)
    got = []

    def reply(link_, tid, unit, pdu):
        got.append(wire.rtu(unit, pdu))
        out = mod.request(pdu)[0]
        out.apply()
        return [wire.rtu(unit, out.response)]
    link.reply = reply
    master = link.master
    try:
        box.shuffle()
        master.open()
        chain = Chain(box.events(), "opening of the RTU over TCP master")
        chain.next("modbus_tcp.TcpMaster.before_connect", master)
        chain.next("modbus_tcp.TcpMaster.after_connect", master)
        chain.end()
        for step in range(20):
            if rng.random() < 0.15:
                box.shuffle()
            shown, _ = plans(ctx, rng, box, framing, lib)
            req = random_pdu(rng)
            witness = dict(plans=shown, request=req)
            del got[:]
            # expected answer: computed before it is executed, on a copy of the frames seen
            result = call(lib, master, sid, req)
            ctx.count("exchanges")
            chain = Chain(box.events(), "RTU over TCP master")
            frame = wire.rtu(sid, req)
            value = chain.next("modbus.Master.before_send", master, frame)
            frame = frame if value is None else value
            value = chain.next("modbus_tcp.TcpMaster.before_send", master, frame)
            frame = frame if value is None else value
            if got != [frame]:
                raise Violation("the request on the line is %s instead of %s" % (got, frame.hex()), **witness)
            chain.next("modbus.Master.after_send", master)
            event = chain.events[chain.pos] if chain.pos < len(chain.events) else (None, ())
            value = chain.next("modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv", master, Ellipsis)
            frame = event[1][1] if value is None else value
            value = chain.next("modbus.Master.after_recv", master, frame)
            frame = frame if value is None else value
            chain.end()
            want = decode(framing.pdu(frame), req)
            if result != want:
                raise Violation("the master gives %r instead of %r" % (result, want), **witness)
            ctx.key("over", tuple(n for n, _ in shown), req[0])
        box.plans.clear()
        dropped_master(ctx, rng, box, master, sid)
        box.events()
        master.close()
        chain = Chain(box.events(), "closing of the RTU over TCP master")
        chain.next("modbus_tcp.TcpMaster.before_close", master)
        chain.next("modbus_tcp.TcpMaster.after_close", master)
        chain.end()
    finally:
        box.plans.clear()
        box.clear()
        link.close()


def kick(ctx, rng):
    """hooks of the TCP server which close connections: the one they are called for, another one, or all of them"""
    lib = ctx.lib
    server, port = tcp_server(lib)
    slave = server.add_slave(1)
    slave.add_block("h", 3, 0, 4)
    socks, clients, order = {}, [], []
    value = [0]

    def known(args):
        socks[args[2]] = args[1]

    # the server calls the functions of after_send when the client may have got its answer
    after = threading.Semaphore(0)

    def sent(args):
        after.release()

    def close(args):
        # once
        if not order:
            return None
        whom = order.pop()
        mine = args[1]
        for sock in list(socks.values()):
            if sock.fileno() >= 0 and (whom == "all" or (whom == "self") == (sock is mine)):
                sock.close()
                if whom == "other":
                    break
        return None

    def ask(client, what):
        """True when it is served, False when the connection is closed"""
        value[0] += 1
        pdu = wire.write_reg_pdu(value[0] % 4, value[0])
        try:
            client.send(wire.mbap(value[0], 1, pdu))
            frame = client.frame(what=what)
        except (ConnectionError, BrokenPipeError):
            return False
        if not frame:
            return False
        if frame != wire.mbap(value[0], 1, pdu):
            raise Violation("the answer is %s" % frame.hex(), plan=trail)
        if not after.acquire(timeout=30):
            raise Violation("the functions of after_send are not called", timing=True, plan=trail)
        return True

    def server_side(client):
        return socks[client.sock.getsockname()].fileno() >= 0

    trail = []
    lib.hooks.install_hook("modbus_tcp.TcpServer.on_connect", known)
    lib.hooks.install_hook("modbus_tcp.TcpServer.after_send", sent)
    try:
        for _ in range(rng.randint(4, 10)):
            while len(clients) < 3:
                client = RawClient(port)
                if not ask(client, "the answer to a new client (after %r)" % (trail,)):
                    raise Violation("a new client is not served", plan=trail)
                clients.append(client)
            name = rng.choice(("on_connect", "after_recv", "before_send", "after_send", "on_disconnect"))
            whom = rng.choice(("self", "self", "other", "all"))
            trail.append((name, whom))
            actor = rng.choice(clients)
            full = "modbus_tcp.TcpServer." + name
            lib.hooks.install_hook(full, close)
            order[:] = [whom]
            try:
                if name == "on_connect":
                    actor = RawClient(port)
                    clients.append(actor)
                    ask(actor, "the answer to a new client, or the end of its connection (%r)" % (trail,))
                elif name == "on_disconnect":
                    actor.close()
                    clients.remove(actor)
                    # the disconnection is seen before this
                    last = RawClient(port)
                    clients.append(last)
                    ask(last, "the answer to a new client (%r)" % (trail,))
                else:
                    served = ask(actor, "the answer to a client, or the end of its connection (%r)" % (trail,))
                    if served != (whom == "other" or name == "after_send"):
                        raise Violation("a client is %s when a function of %s closes %s" % (
                            "served" if served else "not served", full, whom), plan=trail)
            finally:
                lib.hooks.uninstall_hook(full, close)
            ctx.count("closed by a hook")
            # -- the others are served, and those which come
            new = RawClient(port)
            clients.append(new)
            if not ask(new, "the answer to a new client (after %r)" % (trail,)):
                raise Violation("a new client is not served after %r" % (trail[-1],), plan=trail)
            for client in list(clients):
                opened = server_side(client)
                if ask(client, "an answer, or the end of the connection (after %r)" % (trail,)) != opened:
                    raise Violation("a client is %s after %r" % ("not served" if opened else "served", trail[-1]), plan=trail)
                if not opened:
                    client.close()
                    clients.remove(client)
                ctx.count("served after a closing")
            ctx.key("kick", name, whom, len(clients))
            while len(clients) > 4:
                clients.pop(0).close()
    finally:
        lib.hooks.uninstall_hook("modbus_tcp.TcpServer.on_connect", known)
        lib.hooks.uninstall_hook("modbus_tcp.TcpServer.after_send", sent)
        for client in clients:
            client.close()
        stop_server(server)


class Told(object):
    """the calls of an on_error or on_exception hook"""

    def __init__(self, lib, name):
        self.lib, self.name = lib, name
        self.calls = []
        self.some = threading.Semaphore(0)
        lib.hooks.install_hook(name, self.heard)

    def heard(self, args):
        self.calls.append(args)
        self.some.release()

    def one(self, want, what):
        """called once, with these arguments (Ellipsis: anything)"""
        if not self.some.acquire(timeout=30):
            raise Violation("%s is not called after %s" % (self.name, what), timing=True)
        args, self.calls = self.calls[0], self.calls[1:]
        if not isinstance(args, tuple) or len(args) != len(want) or any(
                b is not Ellipsis and a is not (b.raised[0][0] if isinstance(b, raised_later) else b)
                for a, b in zip(args, want)):
            raise Violation("%s is called with %r after %s" % (self.name, args, what), want=repr(want))
        return args

    def none(self, what):
        if self.calls:
            raise Violation("%s is called with %r after %s" % (self.name, self.calls, what))

    def close(self):
        self.lib.hooks.uninstall_hook(self.name, self.heard)


def errors(ctx, rng):
    """what goes wrong in a server, because of another hook or of the system, is told to on_error or on_exception"""
    lib = ctx.lib
    kind = rng.choice(("tcp", "rtu"))
    ended = Told(lib, "modbus.Server.on_exception")
    told = Told(lib, "modbus_tcp.TcpServer.on_error" if kind == "tcp" else "modbus_rtu.RtuServer.on_error")
    server = None
    blocker = None
    raised = []

    def fail(args):
        if not raised:
            raised.append((rng.choice(ERRORS)("told %d" % rng.randrange(1000)), args))
            raise raised[0][0]

    class Failing(object):
        """one call of the hook fails"""

        def __init__(self, name):
            self.name = name

        def __enter__(self):
            raised.clear()
            lib.hooks.install_hook(self.name, fail)

        def __exit__(self, *args):
            lib.hooks.uninstall_hook(self.name, fail)

    try:
        if kind == "tcp":
            server, port = tcp_server(lib)
            server.add_slave(1).add_block("h", 3, 0, 4)
            for step in range(rng.randint(3, 8)):
                name = rng.choice(("on_connect", "on_disconnect", "after_recv"))
                actor = RawClient(port) if name != "on_connect" else None
                if actor:
                    actor.send(wire.mbap(9, 1, wire.read_pdu(3, 0, 1)))
                    actor.frame()
                with Failing("modbus_tcp.TcpServer." + name):
                    what = "an error of a function of modbus_tcp.TcpServer." + name
                    if name == "on_connect":
                        actor = RawClient(port)
                    elif name == "on_disconnect":
                        actor.close()
                    else:
                        actor.send(wire.mbap(9, 1, wire.read_pdu(3, 0, 1)))
                    args = told.one((server, Ellipsis, Ellipsis), what)
                if args[2] is not raised[0][0]:
                    raise Violation("%s is called with another exception, %r, after %s" % (told.name, args[2], what))
                if not isinstance(args[1], socket.socket) or (name != "on_connect" and args[1] is not raised[0][1][1]):
                    raise Violation("%s is called with another socket, %r, after %s" % (told.name, args[1], what))
                actor.close()
                # the others are served
                other = RawClient(port)
                other.send(wire.mbap(10, 1, wire.read_pdu(3, 0, 1)))
                if other.frame() != wire.mbap(10, 1, b"\3\2\0\0"):
                    raise Violation("a new client is not served after %s" % what)
                other.close()
                told.none(what)
                ctx.count("errors told")
                ctx.key("errors", name, type(raised[0][0]).__name__)
            ended.none("errors of connections")
            stop_server(server)
            ended.none("the stop of the server")
            # -- the port is in use
            blocker = socket.socket()
            blocker.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            try:
                blocker.bind(("127.0.0.1", port))
                blocker.listen(1)
            except OSError:
                ctx.count("port taken by others")
                return
            server.start()
            args = ended.one((server, Ellipsis), "the start of a TCP server on a port in use")
            if not isinstance(args[1], OSError):
                raise Violation("%s is called with %r after the start of a TCP server on a port in use" % (ended.name, args[1]))
            blocker.close()
            ctx.count("errors of servers told")
            return
        port = FakeSerial(is_open=False)
        server = lib.modbus_rtu.RtuServer(port, interframe_multiplier=0.02)
        server.add_slave(1).add_block("h", 3, 0, 4)
        for _ in range(rng.randint(2, 4)):
            if rng.random() < 0.7:
                name = rng.choice(("modbus_rtu.RtuServer.before_open", "modbus_rtu.RtuServer.after_open"))
                with Failing(name):
                    server.start()
                    ended.one((server, raised_later(raised)), "an error of a function of " + name)
                ctx.count("errors of servers told")
                stop_server(server)
                if port.is_open:
                    port.close()
                ctx.key("errors", name, type(raised[0][0]).__name__)
            server.start()
            if not port.wait_idle():
                raise Violation("the RTU server does not start", timing=True)
            for step in range(rng.randint(1, 5)):
                name = "modbus_rtu.RtuServer." + rng.choice(("after_read", "before_write", "after_write"))
                what = "an error of a function of " + name
                with Failing(name):
                    port.feed([wire.rtu(1, wire.read_pdu(3, 0, 1))])
                    told.one((server, raised_later(raised)), what)
                if not port.wait_idle():
                    raise Violation("the RTU server does not serve any more after %s" % what, timing=True)
                told.none(what)
                ctx.count("errors told")
                ctx.key("errors", name, type(raised[0][0]).__name__)
            port.writes[:] = []
            port.feed([wire.rtu(1, wire.read_pdu(3, 0, 1))])
            port.wait_idle()
            if b"".join(bytes(w) for w in port.writes) != wire.rtu(1, b"\3\2\0\0"):
                raise Violation("a request is answered by %r after errors" % (port.writes,))
            name = rng.choice(("modbus_rtu.RtuServer.before_close", "modbus_rtu.RtuServer.after_close", None))
            if name:
                with Failing(name):
                    stop_server(server)
                    ended.one((server, raised_later(raised)), "an error of a function of " + name)
                ctx.count("errors of servers told")
                ctx.key("errors", name, type(raised[0][0]).__name__)
                if port.is_open:
                    port.close()
            else:
                stop_server(server)
            ended.none("the stop of a server")
    finally:
        if blocker is not None:
            blocker.close()
        if server is not None:
            stop_server(server)
        told.close()
        ended.close()


class raised_later(object):
    """stands for the exception which a function will raise"""

    def __init__(self, raised):
        self.raised = raised


ERRORS = (RuntimeError, ValueError, KeyError, OSError, struct.error, ZeroDivisionError)


def empty(ctx, rng):
    """functions which replace what a master sends or receives, or the answer of a slave, by nothing"""
    lib = ctx.lib
    hooks = lib.hooks

    def nothing(args):
        return rng.choice((b"", bytearray()))

    def attempt(master, req):
        try:
            return ("ok", call(lib, master, 9, req))
        except Exception as exc:  # noqa
            return ("error", exc)

    slave, mod = make_slave(lib, lib.modbus.Databank(), 9)
    for kind in ("rtu", "tcp", "over"):
        sent = []

        def answer(pdu):
            out = mod.request(pdu)[0]
            out.apply()
            return out.response
        link = port = peer = None
        if kind == "rtu":
            port = FakeSerial()

            def written(data):
                sent.append(bytes(data))
                return [wire.rtu(9, answer(bytes(data)[1:-2]))] if data else None
            port.on_write = written
            master = lib.modbus_rtu.RtuMaster(port)
            names = ("modbus.Master.before_send", "modbus_rtu.RtuMaster.before_send", "modbus.Master.after_recv",
                     "modbus_rtu.RtuMaster.after_recv")
        else:
            def serve(conn):
                while True:
                    data = conn.sock.recv(1000)
                    if not data:
                        return
                    sent.append(data)
                    if kind == "tcp":
                        conn.send(wire.mbap(struct.unpack(">H", data[:2])[0], 9, answer(data[7:])))
                    else:
                        conn.send(wire.rtu(9, answer(data[1:-2])))
            peer = Peer(serve)
            cls = lib.modbus_tcp.TcpMaster if kind == "tcp" else lib.modbus_rtu_over_tcp.RtuOverTcpMaster
            master = cls("127.0.0.1", peer.port, 10)
            names = ("modbus.Master.before_send", "modbus_tcp.TcpMaster.before_send", "modbus.Master.after_recv",
                     "modbus_tcp.TcpMaster.after_recv" if kind == "tcp" else OVER[0])
        try:
            for name in rng.sample(names, len(names)) + ["none"]:
                req = wire.write_reg_pdu(rng.randrange(20), rng.randrange(65536))
                del sent[:]
                if name != "none":
                    if kind != "rtu":
                        master.set_timeout(0.06 if "before" in name else 10)
                    hooks.install_hook(name, nothing)
                try:
                    result = attempt(master, req)
                finally:
                    if name != "none":
                        hooks.uninstall_hook(name, nothing)
                if name == "none":
                    if result[0] == "error":
                        raise Violation("the request which follows fails with %s: %r" % (kind, result[1]), timing=kind != "rtu")
                    continue
                if result[0] != "error" or (isinstance(result[1], tuple) and result[1][0] == "ok"):
                    raise Violation("the master returns %r although a function of %s has replaced the data by nothing" % (
                        result[1], name))
                if "before" in name and any(sent):
                    raise Violation("%s is sent although a function of %s has replaced it by nothing" % (
                        sent[0].hex(), name))
                if kind != "rtu":
                    master.close()
                    master.set_timeout(10)
                ctx.count("emptied")
            # a function which returns something else than None, even False, is the last one which is called
            calls = []
            value = rng.choice((False, 0, "", b"", [], 0.0, ()))

            def first(args):
                calls.append("first")
                return value

            def second(args):
                calls.append("second")
            hooks.install_hook("modbus.Master.after_send", first)
            hooks.install_hook("modbus.Master.after_send", second)
            try:
                result = attempt(master, wire.write_reg_pdu(rng.randrange(20), rng.randrange(65536)))
            finally:
                hooks.uninstall_hook("modbus.Master.after_send", first)
                hooks.uninstall_hook("modbus.Master.after_send", second)
            if calls != ["first"]:
                raise Violation("a function of modbus.Master.after_send has returned %r: %r are called instead of the first "
                                "only" % (value, calls))
            if result[0] == "error":
                raise Violation("the request fails with %s when a function of modbus.Master.after_send returns %r: %r" % (
                    kind, value, result[1]), timing=kind != "rtu")
            ctx.count("false values")
            if peer is not None and peer.errors:
                raise peer.errors[0]
        finally:
            master.close()
            if peer is not None:
                peer.close()
    # -- the slave
    req = wire.write_reg_pdu(3, (slave.get_values("b3", 3, 1)[0] + 1) & 0xFFFF)
    before = list(slave.get_values("b3", 0, 20))
    hooks.install_hook("modbus.Slave.handle_request", nothing)
    try:
        resp = slave.handle_request(req)
    finally:
        hooks.uninstall_hook("modbus.Slave.handle_request", nothing)
    if bytes(resp) or list(slave.get_values("b3", 0, 20)) != before:
        raise Violation("the slave executes a request which a function has answered with nothing: %r" % (resp,))
    ctx.count("emptied")
    ctx.key("empty", req)


# -------------------------------------------------------------------------------------------- concurrency

def step_registry(state, op):
    what = op[0]
    if what == "install":
        return [(lambda r: r == "ok", state + (op[1],))]
    if what == "uninstall":
        if op[1] not in state:
            return [(lambda r: r == "missing", state)]
        out = []
        for pos, name in enumerate(state):
            if name == op[1]:
                out.append((lambda r: r == "ok", state[:pos] + state[pos + 1:]))
        return out
    if what == "clear":
        return [(lambda r: r == "ok", ())]
    if what == "event":
        want = []
        for name in state:
            want.append(name)
            if name.endswith("!"):
                break
        want = tuple(want)
        return [(lambda r: r == want, state)]
    raise AssertionError(op)


def concurrent(ctx, rng):
    """functions are installed, uninstalled and called in several threads, and by the functions themselves"""
    lib = ctx.lib
    hook = rng.choice(("modbus.Slave.handle_request", "modbus.Slave.handle_read_holding_registers_request",
                       "modbus.Server.before_handle_request", "c20.anything",
                       # a name on which nothing has ever been installed
                       "c20.new.%d" % ctx.i))
    slaves = []
    for _ in range(3):
        slave = lib.modbus.Databank().add_slave(1)
        slave.add_block("h", 3, 0, 4)
        slaves.append(slave)
    history = []
    clock = [0]
    local = threading.local()
    nested = {}        # function -> operations it does when it is called
    fcts = {}
    budget = [6]       # nested operations

    def tick():
        clock[0] += 1
        return clock[0]

    def make(name):
        def fct(args):
            # one list for each event in progress in the thread
            local.stack[-1].append(name)
            for op in nested.get(name, ()):
                if len(local.stack) < 3 and budget[0] > 0:
                    budget[0] -= 1
                    do(op)
            if name.endswith("!"):
                return b"\x83\x05" if hook.startswith("modbus.Slave") else None
            return None
        return fct

    def do(op):
        call_t = tick()
        what = op[0]
        if what == "install":
            lib.hooks.install_hook(hook, fcts[op[1]])
            result = "ok"
        elif what == "uninstall":
            try:
                lib.hooks.uninstall_hook(hook, fcts[op[1]])
                result = "ok"
            except (ValueError, KeyError):
                result = "missing"
        elif what == "clear":
            try:
                lib.hooks.uninstall_hook(hook)
            except KeyError:
                pass
            result = "ok"
        else:
            local.stack.append([])
            try:
                if hook.startswith("modbus.Slave"):
                    local.slave.handle_request(wire.read_pdu(3, 0, 1))
                else:
                    lib.hooks.call_hooks(hook, (1, b""))
            finally:
                result = tuple(local.stack.pop())
        history.append(lin.Op(call_t, tick(), op, result, threading.get_ident()))

    # "!" stops the sequence: only where the value is used
    names = ["a", "b", "c", "d"] + (["e!"] if hook.startswith("modbus.Slave.handle_request") else [])
    for name in names:
        fcts[name] = make(name)

    def random_op(deep=False):
        what = rng.random()
        if what < 0.4:
            return ("event",)
        if what < 0.7:
            return ("install", rng.choice(names))
        if what < 0.95:
            return ("uninstall", rng.choice(names))
        return ("clear",)
    if rng.random() < 0.5:
        for name in rng.sample(names, rng.randint(1, 2)):
            nested[name] = [random_op() for _ in range(rng.randint(1, 2))]
    programs = [[random_op() for _ in range(rng.randint(2, 4))] for _ in range(rng.choice((2, 3)))]
    start = [rng.choice(names) for _ in range(rng.randint(0, 3))]
    for name in start:
        lib.hooks.install_hook(hook, fcts[name])

    def thread(ops, slave):
        def run():
            local.stack, local.slave = [], slave
            for op in ops:
                sched.yield_point()
                do(op)
        return run
    run = sched.make_run(rng, horizon=500)
    try:
        run.execute([("thread%d" % k, thread(ops, slaves[k])) for k, ops in enumerate(programs)])
        if run.deadlock:
            raise Violation("deadlock: " + run.deadlock, stacks=run.stacks, programs=programs)
        for name, error in run.errors():
            raise Violation("the hooks fail: %s: %s" % (type(error).__name__, error), programs=programs, nested=nested,
                            hook=hook)
        local.stack, local.slave = [], slaves[0]
        nested.clear()
        do(("event",))
    finally:
        try:
            lib.hooks.uninstall_hook(hook)
        except KeyError:
            pass
    ctx.count("histories")
    ctx.count("switches", run.switches)
    ctx.key(run.sched_hash)
    ctx.state("histories", [(o.op, o.result) for o in history])
    try:
        good = lin.check(history, tuple(start), step_registry)
    except lin.TooLong:
        ctx.count("too long")
        return
    if good is None:
        raise Violation("no order of the operations explains which functions were called", hook=hook, start=start,
                        history=[repr(o) for o in sorted(history, key=lambda o: o.call)])
    ctx.sample([repr(o) for o in history], limit=1)
