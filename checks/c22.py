"""C22: each simulator command is executed once and answered to its sender"""
import os
import random
import socket
import struct
import threading
import time

from vp import lin, model, simu, wire
from vp.core import Violation
from vp.net import RawClient
from vp.world import random_word

LEVEL = "exploration"
RULE = ("a case is a series of commands (valid, refused, malformed, unknown, long) given to a running simulator by RPC "
        "clients, raw RPC connections cut into pieces, and the console, with Modbus requests and local accesses: one at a "
        "time against an exact model with the memories compared after each one, or from several threads at once, the "
        "history being linearizable and each marked command being executed exactly once; distinct by commands")
ASSUMPTIONS = ["the port of the RPC (fixed to 2711) is replaced by a free one when it is bound",
               "the console is a terminal in canonical mode (a pseudo terminal here), or a pipe",
               "names contain no blank; a command which lasts more than 5 s (2 s on the console) may get no answer"]


def plan(tier):
    k = 1 if tier == "quick" else 20
    return ([dict(kind="sequence", n=200 * k, budget=22 * k, min=4, simulator=True, name="sequence-%d" % p) for p in range(2)] +
            [dict(kind="concurrent", n=250 * k, budget=22 * k, min=5, simulator=True, name="concurrent-%d" % p)
             for p in range(4)] +
            [dict(kind="burst", n=80 * k, budget=22 * k, min=3, simulator=True)] +
            [dict(kind="session", n=12 * k, budget=25 * k, min=1, simulator=True)] +
            [dict(kind="late", n=3 * k, budget=25 * k, min=1, simulator=True)])


def need(tier):
    return {"commands": 2000, "refused": 300, "histories": 60, "marks": 300, "console": 500, "rpc": 500,
            "requests": 200, "bursts": 8, "sessions": 2, "hook calls": 20, "abandoned": 20, "hooks uninstalled alone": 3, "undecodable": 20, "late commands": 1, "repeated": 100, "outside": 20}


def setup(ctx):
    if ctx.kind not in ("session", "late"):
        open_host(ctx)


def open_host(ctx, **kwargs):
    host = simu.Host(ctx.lib, **kwargs)
    ctx.store["host"] = host
    marks = ctx.store["marks"] = []

    def mark(args):
        marks.append(args[1])
        return "marked " + args[1]
    host.simulator.add_command("mark", mark)
    host.hook_calls = []
    for name in ("count_it", "count_2", "count_3"):
        def hook(args, name=name):
            host.hook_calls.append(name)
        host.simulator.declare_hook(name, hook)
    host.start()
    return host


def teardown(ctx):
    host = ctx.store.pop("host", None)
    if host is not None:
        host.close()


# ---------------------------------------------------------------------------------------------------- the model

TYPES = (1, 2, 3, 4)
UNKNOWN = "error: unknown command %s\r\n"


def to_int(text):
    try:
        return int(text)
    except ValueError:
        return None


class Model(object):
    """what the slaves should be"""

    def __init__(self, state=()):
        self.slaves = {}
        for sid, blocks in state:
            mod = self.slaves[sid] = model.SlaveModel(True)
            for name, typ, start, data in blocks:
                mod.add(name, typ, start, len(data))
                mod.blocks[name].data[:] = data

    def freeze(self):
        return tuple(sorted((sid, tuple(sorted((b.name, b.typ, b.start, tuple(b.data)) for b in mod.blocks.values())))
                            for sid, mod in self.slaves.items()))

    def command(self, line):
        """executes a command: returns the result (None: any, str: exactly) or raises Refused"""
        args = line.split(" ")
        name = args[0]
        if name == "add_slave":
            sid = need_int(args, 1)
            if not 1 <= sid <= 255 or sid in self.slaves:
                raise Refused()
            self.slaves[sid] = model.SlaveModel(True)
            return str(sid)
        if name == "has_slave":
            return "1" if need_int(args, 1) in self.slaves else "0"
        if name == "remove_slave":
            if self.slaves.pop(need_int(args, 1), None) is None:
                raise Refused()
            return None
        if name == "remove_all_slaves":
            self.slaves.clear()
            return None
        if name == "add_block":
            sid, bname, typ = need_int(args, 1), need_arg(args, 2), need_int(args, 3)
            start, size = need_int(args, 4), need_int(args, 5)
            mod = self.slave(sid)
            if size <= 0 or start < 0 or bname in mod.blocks or typ not in TYPES or mod.overlap(typ, start, size):
                raise Refused()
            mod.add(bname, typ, start, size)
            return bname
        if name == "remove_block":
            sid, bname = need_int(args, 1), need_arg(args, 2)
            if self.slave(sid).blocks.pop(bname, None) is None:
                raise Refused()
            return None
        if name == "remove_all_blocks":
            self.slave(need_int(args, 1)).blocks.clear()
            return None
        if name == "set_values":
            sid, bname, addr = need_int(args, 1), need_arg(args, 2), need_int(args, 3)
            values = [need_int(args, k) for k in range(4, len(args))]
            blk = self.block(sid, bname, addr, len(values))
            blk.data[addr - blk.start:addr - blk.start + len(values)] = values
            return " ".join(str(v) for v in values)
        if name == "get_values":
            sid, bname, addr, size = need_int(args, 1), need_arg(args, 2), need_int(args, 3), need_int(args, 4)
            blk = self.block(sid, bname, addr, size)
            return " ".join(str(v) for v in blk.data[addr - blk.start:addr - blk.start + size])
        if name == "mark":
            return "marked " + need_arg(args, 1)
        if name == "set_verbose":
            return str(need_int(args, 1))
        if name in ("install_hook", "uninstall_hook"):
            need_arg(args, 1)
            if name == "install_hook" and need_arg(args, 2) not in ("count_it", "count_2", "count_3"):
                raise Refused()
            return None
        raise Unknown(name)

    def slave(self, sid):
        if sid not in self.slaves:
            raise Refused()
        return self.slaves[sid]

    def block(self, sid, name, addr, size):
        mod = self.slave(sid)
        if name not in mod.blocks:
            raise Refused()
        blk = mod.blocks[name]
        if addr < blk.start or addr + size > blk.start + blk.size:
            raise Refused()
        return blk


class Refused(Exception):
    pass


class Unknown(Exception):
    pass


def need_arg(args, k):
    if k >= len(args):
        raise Refused()
    return args[k]


def need_int(args, k):
    value = to_int(need_arg(args, k))
    if value is None:
        raise Refused()
    return value


def expected(state, line):
    """(predicate of the answer, new state, kind)"""
    mod = Model(state)
    name = line.split(" ")[0]
    try:
        result = mod.command(line)
    except Refused:
        return (lambda a: a.startswith(name + " error: ") and a.endswith("\r\n")), state, name + " error: ..."
    except Unknown:
        return (lambda a: a == UNKNOWN % name), state, UNKNOWN % name
    want = "%s done: %s\r\n" % (name, "..." if result is None else result)
    if result is None:
        return (lambda a: a.startswith(name + " done: ") and a.endswith("\r\n")), mod.freeze(), want
    return (lambda a: a == want), mod.freeze(), want


def step(state, op):
    if op[0] == "command":
        accept, new, _ = expected(state, op[1])
        return [(accept, new)]
    if op[0] == "request":
        sid, pdu = op[1:]
        mod = Model(state)
        if sid not in mod.slaves:
            return [(lambda r: r == "", state)]
        res = []
        for out in mod.slaves[sid].request(pdu):
            new = Model(state)
            for out2 in new.slaves[sid].request(pdu):
                if out2.response == out.response:
                    out2.apply()
                    break
            res.append((lambda r, e=out.response: r == e, new.freeze()))
        return res
    if op[0] == "app set":
        sid, name, addr, values = op[1:]
        mod = Model(state)
        try:
            mod.block(sid, name, addr, len(values)).data
        except Refused:
            return [(lambda r: r == "refused", state)]
        blk = mod.block(sid, name, addr, len(values))
        blk.data[addr - blk.start:addr - blk.start + len(values)] = values
        return [(lambda r: r == "ok", mod.freeze())]
    raise AssertionError(op)


# -------------------------------------------------------------------------------------------------- the commands

class Commands(object):
    """random commands around a few slaves and blocks"""

    def __init__(self, rng, ids=None, few=False):
        self.rng = rng
        self.ids = ids or [rng.randint(1, 255) for _ in range(2 if few else 3)]
        self.names = ("a", "b") if few else ("a", "b", "block", "é", "x" * 40, "quit", "a-quit")
        self.last = 0
        self.few = few

    def unique(self):
        self.last += 1
        return self.last

    def next(self, state, bad=0.2):
        rng = self.rng
        what = rng.random()
        if what < bad:
            return self.strange(state)
        sid = rng.choice(self.ids)
        slaves = dict(state)
        if rng.random() < 0.8 and slaves:
            sid = rng.choice(sorted(slaves))
        blocks = slaves.get(sid, ())
        pick = rng.random()
        if not slaves or pick < 0.06:
            return "add_slave %d" % sid
        if pick < 0.1:
            return "has_slave %d" % rng.choice(self.ids)
        if pick < 0.12:
            return "remove_slave %d" % sid
        if pick < 0.125:
            return "remove_all_slaves"
        if not blocks or pick < 0.2:
            return "add_block %d %s %d %d %d" % (sid, rng.choice(self.names), rng.choice((1, 2, 3, 3, 4)),
                                                rng.choice((0, 0, 5, 10, 100, 65530)), rng.choice((1, 3, 6, 6, 20)))
        if pick < 0.23:
            return "remove_block %d %s" % (sid, rng.choice(self.names))
        if pick < 0.24:
            return "remove_all_blocks %d" % sid
        if pick < 0.27:
            return "mark %d" % rng.getrandbits(60)
        name, typ, start, data = rng.choice(blocks)
        addr = start + rng.choice((0, 0, 1, len(data) - 1))
        size = rng.choice((1, len(data), len(data) - 1, 2))
        if pick < 0.65:
            if typ in (1, 2):
                values = [rng.randrange(2) for _ in range(size)]
            else:
                values = [self.unique() if self.few or rng.random() < 0.5 else random_word(rng) for _ in range(size)]
            return ("set_values %d %s %d " % (sid, name, addr) + " ".join(str(v) for v in values)).rstrip(" ")
        return "get_values %d %s %d %d" % (sid, name, addr, max(0, size))

    def strange(self, state):
        rng = self.rng
        sid = rng.choice(self.ids)
        good = self.next(state, 0)
        words = good.split(" ")
        what = rng.randrange(8)
        if what == 0:
            return rng.choice(("foo", "FOO 1 2", "done:", "add_slave_ 1", "é 1", "error", "Quit", "x" * 3000, "-", "None", "foo quit"))
        if what == 1:
            return rng.choice(("add_slave %d" % rng.choice((0, 256, -1, 1000)), "has_slave %d" % rng.choice((0, 256, -1)),
                               "remove_slave %d" % rng.choice((0, 256, sid))))
        if what == 2 and len(words) > 1:
            return " ".join(words[:rng.randrange(1, len(words))])
        if what == 3 and len(words) > 1:
            words[rng.randrange(1, len(words))] = rng.choice(("x", "1.5", "", "0x10", "é", "None", "-"))
            return " ".join(words).rstrip(" ")
        if what == 4:
            return "add_block %d n%d %d %d %d" % (sid, rng.randrange(9), rng.choice((0, 5, -1, 3)), rng.choice((-1, 0)),
                                                 rng.choice((0, -1, 3)))
        if what == 5:
            return rng.choice(("install_hook modbus.Server.before_handle_request none", "install_hook", "set_verbose x",
                               "set_verbose 1", "set_verbose 0", "uninstall_hook", "mark"))
        if what == 6:
            # some good values then a bad one, or out of the block
            slaves = dict(state)
            blocks = slaves.get(sid, ())
            if blocks:
                name, typ, start, data = rng.choice(blocks)
                values = [str(rng.randrange(2)) for _ in range(len(data))]
                if rng.random() < 0.5:
                    values[rng.randrange(len(values))] = "z"
                else:
                    values.append("1")
                return "set_values %d %s %d %s" % (sid, name, start, " ".join(values))
        return good + rng.choice((" x", " 1", ""))


def trim(line):
    """what the interfaces remove or what would be ambiguous"""
    return line.strip()


# ----------------------------------------------------------------------------------------------------- sending

def send(ctx, host, line, channel, rng):
    """executes the command through a channel: returns the answer as it is written"""
    ctx.count("commands")
    if channel == "console":
        ctx.count("console")
        host.type(line + "\n")
        answer = host.out.line(30)
        if answer is None:
            raise Violation("the command %r of the console is not answered (console: %r)" % (line[:200], host.out.text),
                            timing=True, stderr=host.err.text[-2000:])
        return answer
    ctx.count("rpc")
    data = line.encode("utf-8")
    if channel == "raw":
        pieces = []
        if rng.random() < 0.4 and len(data) > 2:
            pieces = [rng.randint(1, len(data)) for _ in range(rng.randint(1, 3))]
        newline = rng.random() < 0.8
        try:
            answer = host.rpc(line, pieces, newline)
        except socket.timeout:
            raise Violation("the RPC command %r is not answered" % line[:200], timing=True, stderr=host.err.text[-2000:])
        if answer == "":
            raise Violation("the RPC command %r gets an empty answer" % line[:200], timing=True,
                            stderr=host.err.text[-2000:])
        return answer
    return client_call(ctx, host, line)


class Typed(object):
    """the answer of SimulatorRpcClient"""

    def __init__(self, value=None, error=None):
        self.value, self.error = value, error


def client_call(ctx, host, line):
    """the command with the methods of SimulatorRpcClient when it is well formed: the answer is rebuilt from the value"""
    client = host.client()
    args = line.split(" ")
    name = args[0]
    ints = [to_int(a) for a in args]
    ctx.count("typed")
    try:
        if name in ("add_slave", "remove_slave", "has_slave", "remove_all_blocks") and len(args) == 2 and ints[1] is not None:
            value = getattr(client, name)(ints[1])
            if name == "has_slave":
                if value is not True and value is not False:
                    raise Violation("has_slave returns %r" % (value,))
                value = "1" if value else "0"
            elif name == "add_slave" and str(value) != str(ints[1]):
                raise Violation("add_slave(%d) returns %r" % (ints[1], value))
        elif name == "remove_all_slaves" and len(args) == 1:
            value = client.remove_all_slaves()
        elif name == "add_block" and len(args) == 6 and None not in (ints[1], ints[3], ints[4], ints[5]):
            value = client.add_block(ints[1], args[2], ints[3], ints[4], ints[5])
        elif name == "remove_block" and len(args) == 3 and ints[1] is not None:
            value = client.remove_block(ints[1], args[2])
        elif name == "install_hook" and len(args) == 3:
            value = client.install_hook(args[1], args[2])
        elif name == "uninstall_hook" and len(args) in (2, 3):
            value = client.uninstall_hook(*args[1:])
        elif name == "set_values" and len(args) > 3 and ints[1] is not None and None not in ints[3:]:
            value = client.set_values(ints[1], args[2], ints[3], ints[4:])
        elif name == "get_values" and len(args) == 5 and None not in (ints[1], ints[3], ints[4]):
            value = client.get_values(ints[1], args[2], ints[3], ints[4])
            if not isinstance(value, tuple) or any(type(v) is not int for v in value):
                raise Violation("get_values returns %r" % (value,))
            value = " ".join(str(v) for v in value)
        else:
            return host.rpc(line)
    except Violation:
        raise
    except socket.timeout:
        raise Violation("the RPC command %r is not answered" % line[:200], timing=True, stderr=host.err.text[-2000:])
    except Exception as exc:  # noqa
        if type(exc) is not Exception:
            raise
        return str(exc) + "\r\n"
    return "%s done: %s\r\n" % (name, value)


def request(host, sid, pdu):
    """a Modbus request to the server of the simulator: the response pdu or '' without answer"""
    client = RawClient(host.tcp_port)
    try:
        client.send(wire.mbap(7, sid, pdu))
        client.sock.shutdown(socket.SHUT_WR)
        data = client.closed(30)
    finally:
        client.close()
    if data is None:
        raise Violation("the server of the simulator does not close the connection", timing=True)
    if data[:4] not in (b"", b"\0\7\0\0") or (data and data[6] != sid):
        raise Violation("the server of the simulator sends %s" % data.hex())
    return data[7:] if data else ""


# ------------------------------------------------------------------------------------------------------- cases

def case(ctx, rng, i):
    if ctx.kind == "late":
        return late(ctx, rng)
    if ctx.kind == "session":
        return session(ctx, rng)
    host = ctx.store["host"]
    host.out.text = ""
    host.err.text = ""
    ctx.lib.hooks._HOOKS.clear() if False else None
    reset = host.rpc("remove_all_slaves")
    if not reset.startswith("remove_all_slaves done: "):
        raise Violation("remove_all_slaves is answered by %r" % reset)
    {"sequence": sequence, "concurrent": concurrent, "burst": burst}[ctx.kind](ctx, rng, host)
    if host.out.text:
        raise Violation("the console gets %r in addition to the answers" % host.out.text)
    if "Traceback" in host.err.text:
        text = host.err.text
        if "modbus_tk" in text and "BrokenPipe" not in text and "ConnectionReset" not in text:
            raise Violation("an exception escaped in the simulator: %s" % text[-2500:])


def check_image(host, state, what):
    """the slaves themselves, which are those of the server"""
    db = host.server.get_db()
    mod = Model(state)
    for sid in range(1, 256):
        try:
            slave = db.get_slave(sid)
        except Exception:  # noqa
            slave = None
        if (slave is not None) != (sid in mod.slaves):
            raise Violation("after %s the slave %d is %s" % (what, sid, "missing" if slave is None else "still there"))
        if slave is None:
            continue
        for name, blk in mod.slaves[sid].blocks.items():
            got = list(slave.get_values(name, blk.start, blk.size))
            if got != blk.data:
                raise Violation("after %s the block %s of the slave %d is %r instead of %r" % (
                    what, name, sid, got[:50], blk.data[:50]))


def sequence(ctx, rng, host):
    lib = ctx.lib
    cmds = Commands(rng)
    state = ()
    marks = ctx.store["marks"]
    line, again = "", False
    for k in range(60):
        former = line
        line = trim(cmds.next(state))
        if rng.random() < 0.06:
            line = long_command(rng, state) or line
        if former and (again or rng.random() < 0.08):
            line = former              # exactly the same command again
            ctx.count("repeated")
        again = False
        channel = rng.choice(("console", "client", "client", "raw", "raw"))
        if channel == "console" and len(line.encode("utf-8")) > 3500:
            channel = "client"         # over the limit of a line of a terminal
        if not line:
            continue
        before = len(marks)
        accept, new, want = expected(state, line)
        answer = send(ctx, host, line, channel, rng)
        if not accept(answer):
            raise Violation("the command %r (%s) is answered by %r instead of %r" % (
                line[:300], channel, answer[:300], want[:300]), timing=channel == "raw")
        state = new
        ctx.count("refused", int("error" in want))
        done = marks[before:]
        if done != ([line.split(" ")[1]] if line.startswith("mark ") else []):
            raise Violation("the command %r was executed as %r" % (line[:300], done))
        ctx.count("marks", len(done))
        check_image(host, state, "%r" % line[:200])
        ctx.key(line)
        if rng.random() < (0.3 if line.startswith("get_values") else 0.1):
            again = rng.random() < 0.5
            slaves = [(s, b) for s, b in state if b]
            if slaves:
                sid, blocks = rng.choice(slaves)
                pdu = some_request(rng, blocks)
                got = request(host, sid, pdu)
                outs = step(state, ("request", sid, pdu))
                ok = [n for a, n in outs if a(got)]
                if not ok:
                    raise Violation("the request %s to the slave %d of the simulator is answered by %r" % (pdu.hex(), sid, got))
                state = ok[0]
                ctx.count("requests")
        if rng.random() < 0.08:
            outside(ctx, rng, host, state)
            check_image(host, state, "values which no request can write")
        if rng.random() < 0.05:
            hooked(ctx, rng, host)
        if rng.random() < 0.03:
            undecodable(ctx, rng, host)
            check_image(host, state, "bytes which are not a text")
    ctx.sample(dict(last=line, answer=answer))


def long_command(rng, state):
    """more than the size of a buffer"""
    blocks = [(sid, b) for sid, bs in state for b in bs if len(b[3]) >= 20]
    sid = rng.choice(sorted(dict(state))) if state else None
    if sid is None:
        return None
    big = [(s, b) for s, b in blocks if len(b[3]) > 1000]
    if not big:
        return "add_block %d big%d 3 %d 2500" % (sid, rng.randrange(1000), rng.choice((1000, 4000, 8000)))
    sid, (name, typ, start, data) = rng.choice(big)
    count = rng.choice((340, 341, 342, 1000, 2500, 1700, 170))
    if rng.random() < 0.5:
        return "get_values %d %s %d %d" % (sid, name, start, count)
    return "set_values %d %s %d %s" % (sid, name, start, " ".join(str(rng.randrange(65536)) for _ in range(count)))


def some_request(rng, blocks):
    name, typ, start, data = rng.choice(blocks)
    size = min(len(data), 100)
    addr = min(start, 65535)
    if typ in (3, 4) and (typ == 4 or rng.random() < 0.5):
        return wire.read_pdu(typ, addr, size)
    if typ == 3:
        return wire.write_regs_pdu(addr, [rng.randrange(65536) for _ in range(min(size, 5))])
    if typ == 2 or rng.random() < 0.5:
        return wire.read_pdu(typ, addr, size)
    return wire.write_coil_pdu(addr, rng.random() < 0.5)


def outside(ctx, rng, host, state):
    """values which are not those of a register (negative, big) are stored and returned as they are"""
    blocks = [(sid, b) for sid, bs in state for b in bs if b[1] in (3, 4)]
    if not blocks:
        return
    sid, (name, typ, start, data) = rng.choice(blocks)
    size = min(len(data), rng.choice((1, 2, 5)))
    values = [rng.choice((-1, -32768, 65536, -rng.randrange(1, 10 ** 6), 10 ** 12, rng.randrange(65536), 7)) for _ in range(size)]
    text = " ".join(str(v) for v in values)
    for line, want in (("set_values %d %s %d %s" % (sid, name, start, text), text),
                       ("get_values %d %s %d %d" % (sid, name, start, size), text),
                       ("set_values %d %s %d %s" % (sid, name, start, " ".join(str(v) for v in data[:size])),
                        " ".join(str(v) for v in data[:size]))):
        channel = rng.choice(("console", "client", "client", "raw"))
        answer = send(ctx, host, line, channel, rng)
        if answer != "%s done: %s\r\n" % (line.split(" ")[0], want):
            raise Violation("the command %r (%s) is answered by %r instead of the values %r" % (
                line[:300], channel, answer[:300], want[:300]), timing=channel == "raw")
    ctx.count("outside")


def hooked(ctx, rng, host):
    """the declared functions are called while they are installed, and only then"""
    name = "modbus.Server.before_handle_request"
    installed = []

    def check(what):
        del host.hook_calls[:]
        request(host, 1, b"\3\0\0\0\1")
        if host.hook_calls != installed:
            raise Violation("after %s the functions %s are installed and a request calls %s" % (
                what, installed, host.hook_calls))
    for _ in range(rng.randint(1, 3)):
        fct = rng.choice(("count_it", "count_2", "count_3"))
        answer = send(ctx, host, "install_hook %s %s" % (name, fct), rng.choice(("client", "console")), rng)
        if not answer.startswith("install_hook done: "):
            raise Violation("install_hook is answered by %r" % answer)
        installed.append(fct)
        check("install_hook")
    while rng.random() < 0.4:
        # one function
        fct = rng.choice(("count_it", "count_2", "count_3", "none"))
        if installed.count(fct) > 1:
            continue               # which one is removed first is not documented
        answer = send(ctx, host, "uninstall_hook %s %s" % (name, fct), rng.choice(("client", "raw", "console")), rng)
        if fct in installed:
            if not answer.startswith("uninstall_hook done: "):
                raise Violation("uninstall_hook is answered by %r" % answer)
            installed.remove(fct)
            ctx.count("hooks uninstalled alone")
        check("uninstall_hook of one function")
    answer = send(ctx, host, "uninstall_hook %s" % name, rng.choice(("raw", "client", "console")), rng)
    if not answer.startswith("uninstall_hook done: "):
        raise Violation("uninstall_hook is answered by %r" % answer)
    del installed[:]
    check("uninstall_hook")
    ctx.count("hook calls")


def undecodable(ctx, rng, host):
    """bytes which are not a text are an unknown command, or a refused one"""
    junk = bytes(rng.choice((0xFF, 0xFE, 0xC3, 0x80, 0xE9, rng.randrange(0x80, 0x100))) for _ in range(rng.randint(1, 5)))
    data = rng.choice((junk, b"foo " + junk, b"add_slave " + junk, b"set_values 1 " + junk + b" 0 1", junk + b" mark 1"))
    if not data.strip():
        return
    ctx.count("commands")
    if rng.random() < 0.5:
        os.write(host.master_fd, data + b"\n")
        answer = host.out.line(30)
        if answer is None:
            raise Violation("the command %r of the console is not answered" % data, timing=True, stderr=host.err.text[-2000:])
    else:
        answer = host.rpc(data)
    if "error: " not in answer or not answer.endswith("\r\n") or answer.count("\r\n") != 1:
        raise Violation("the command %r is answered by %r" % (data, answer), stderr=host.err.text[-2000:])
    ctx.count("undecodable")


def late(ctx, rng):
    """a command which lasts more than what its sender waits: the others get their own answers"""
    host = open_host(ctx, terminal=rng.random() < 0.5)
    release = threading.Event()
    executed = []

    def slow(args):
        executed.append(args[1])
        release.wait(60)
        return "late " + args[1]
    host.simulator.add_command("slow", slow)
    try:
        channel = rng.choice(("console", "raw", "both"))
        answers = {}

        def ask(line):
            try:
                answers[line] = host.rpc(line)
            except Exception as exc:  # noqa
                answers[line] = exc
        threads = []

        def rpc(line):
            threads.append(threading.Thread(target=ask, args=(line,), daemon=True))
            threads[-1].start()
        tokens = ["%d" % rng.getrandbits(60) for _ in range(3)]
        if channel != "raw":
            host.type("slow %s\n" % tokens[0])
        if channel != "console":
            rpc("slow " + tokens[1])
        # neither waits any more
        time.sleep(0.3)
        if rng.random() < 0.5:
            rpc("mark " + tokens[2])
        time.sleep({"console": 2.5, "raw": 5.5, "both": 7.6}[channel])
        release.set()
        for thread in threads:
            thread.join(60)
        said = host.out.text
        if "late" in said and channel == "raw" or "marked" in said:
            raise Violation("the console writes %r: it has asked nothing of the kind" % said)
        for line, answer in answers.items():
            if isinstance(answer, Exception) or not answer:
                continue           # nobody waits any more
            good = "slow done: late %s\r\n" % tokens[1] if line.startswith("slow") else "mark done: marked %s\r\n" % tokens[2]
            if answer != good and "error" not in answer:
                raise Violation("the command %r is answered by %r" % (line, answer), answers=answers)
        time.sleep(0.2)
        host.out.text = ""
        # -- the next commands get their own answers, on each interface
        for channel in rng.sample(("console", "raw", "client", "raw", "console"), 5):
            token = "%d" % rng.getrandbits(60)
            answer = send(ctx, host, "mark " + token, channel, rng)
            if answer != "mark done: marked %s\r\n" % token:
                raise Violation("after a command which has lasted, 'mark %s' (%s) is answered by %r" % (token, channel, answer),
                                timing=not answer)
        marks = ctx.store["marks"]
        if len(set(marks)) != len(marks) or len(set(executed)) != len(executed):
            raise Violation("a command is executed twice: %r %r" % (marks, executed))
        ctx.count("late commands")
        ctx.key("late", channel, tuple(sorted(answers)))
    finally:
        release.set()
        if host.thread.is_alive():
            # by an interface: its answer is not left to the next simulator
            host.rpc("quit")
            host.ended.wait(30)
        host.close()
        ctx.store.pop("host", None)


def concurrent(ctx, rng, host):
    """several senders at once"""
    ids = [1, 2]
    state = ()
    for line in ("add_slave 1", "add_block 1 a 3 0 4", "add_block 1 b 1 0 4"):
        accept, state, want = expected(state, line)
        answer = host.rpc(line)
        if not accept(answer):
            raise Violation("the command %r is answered by %r" % (line, answer))
    marks = ctx.store["marks"]
    before = len(marks)
    history, errors, tokens, abandoned = [], [], [], []
    lock = threading.Lock()
    start = threading.Barrier(5)

    def record(op, fct, thread):
        call = time.monotonic()
        result = fct()
        with lock:
            history.append(lin.Op(call, time.monotonic(), op, result, thread))

    def sender(channel, seed, thread):
        rng = random.Random(seed)
        cmds = Commands(rng, ids, few=True)
        cmds.last = thread * 1000
        start.wait()
        for _ in range(rng.randint(3, 6)):
            line = trim(cmds.next(state, bad=0.1))
            if line.startswith(("set_verbose", "install", "uninstall")) or len(line) > 1000 or not line:
                continue
            if line.startswith("mark "):
                with lock:
                    tokens.append(line.split(" ")[1])
            if channel == "raw" and rng.random() < 0.15:
                # a client which does not wait for the answer
                token = "%d" % rng.getrandbits(60)
                with lock:
                    abandoned.append(token)
                sock = socket.create_connection(("127.0.0.1", host.rpc_port), 30)
                sock.sendall(b"mark " + token.encode() + b"\n")
                sock.close()
            record(("command", line), lambda: send(ctx, host, line, channel, rng), thread)

    def other(seed, thread):
        rng = random.Random(seed)
        start.wait()
        for _ in range(rng.randint(3, 6)):
            if rng.random() < 0.5:
                sid = rng.choice(ids)
                pdu = rng.choice((wire.read_pdu(3, 0, 4), wire.read_pdu(1, 0, 4),
                                  wire.write_regs_pdu(0, [rng.randrange(10000, 60000)] * 4),
                                  wire.write_reg_pdu(rng.randrange(4), rng.randrange(10000, 60000))))
                record(("request", sid, pdu), lambda: request(host, sid, pdu), thread)
                ctx.count("requests")
            else:
                values = [rng.randrange(10000, 60000)] * 4

                def app_set():
                    try:
                        host.server.get_slave(1).set_values("a", 0, values)
                    except Exception as exc:  # noqa
                        return "refused"
                    return "ok"
                # the slave may be removed between the two calls: then the values are set in a slave nobody sees
                if rng.random() < 0.5:
                    record(("app set", 1, "a", 0, values), app_set, thread)

    def guarded(fct, *args):
        def run():
            try:
                fct(*args)
            except BaseException as exc:  # noqa
                errors.append(exc)
                start.abort()
        return run
    channels = ["console", "client", "client", "raw"]
    threads = [threading.Thread(target=guarded(sender, c, rng.random(), k + 1)) for k, c in enumerate(channels)]
    threads.append(threading.Thread(target=guarded(other, rng.random(), 9)))
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join(120)
        if thread.is_alive():
            raise Violation("a command is not answered", timing=True, stderr=host.err.text[-2000:])
    if errors:
        errors = [e for e in errors if not isinstance(e, threading.BrokenBarrierError)] or errors
        raise errors[0]
    # the removal of a slave makes the local accesses ambiguous
    if any(op.op[0] == "command" and op.op[1].startswith("remove_") and "block" not in op.op[1] for op in history):
        for op in history:
            if op.op[0] == "app set":
                op.open = True
    end = time.monotonic() + 10
    while time.monotonic() < end:
        done = marks[before:]
        if all(t in done for t in abandoned):
            break
        time.sleep(0.01)
    done = marks[before:]
    for token in tokens + abandoned:
        if done.count(token) != (tokens + abandoned).count(token):
            raise Violation("the command 'mark %s' was executed %d times" % (token, done.count(token)),
                            timing=token in abandoned)
    if len(done) != len(tokens) + len(abandoned):
        raise Violation("commands were executed which nobody sent: %r" % (set(done) - set(tokens) - set(abandoned)))
    ctx.count("marks", len(done))
    ctx.count("abandoned", len(abandoned))
    try:
        order = lin.check(history, state, step)
    except lin.TooLong:
        ctx.count("too long")
        return
    if order is None:
        raise Violation("no order of the commands and requests gives these answers", history=[repr(o) for o in sorted(
            history, key=lambda o: o.call)])
    ctx.count("histories")
    ctx.key(tuple((o.thread, o.op[1:]) for o in order))


def burst(ctx, rng, host):
    """many commands at once on the console, and as many connections as there may be"""
    count = rng.randint(2, 12)
    state = ()
    cmds = Commands(rng)
    lines, wants = [], []
    while len(lines) < count:
        line = trim(cmds.next(state))
        if not line or len(line) > 300 or line.startswith(("install", "uninstall")):
            continue
        accept, state, want = expected(state, line)
        lines.append(line)
        wants.append((accept, want))
    host.type("".join(line + "\n" for line in lines))
    for line, (accept, want) in zip(lines, wants):
        answer = host.out.line(30)
        if answer is None:
            raise Violation("the command %r in a burst on the console is not answered" % line, lines=lines, timing=True)
        if not accept(answer):
            raise Violation("the command %r in a burst on the console is answered by %r instead of %r" % (
                line, answer, want), lines=lines)
    check_image(host, state, "a burst of commands")
    ctx.count("commands", count)
    ctx.count("console", count)
    # -- silent clients do not matter
    silent = [socket.create_connection(("127.0.0.1", host.rpc_port), 30) for _ in range(rng.randint(0, 3))]
    try:
        tokens = ["%d" % rng.getrandbits(60) for _ in range(rng.randint(2, 20))]
        answers = {}
        before = len(ctx.store["marks"])

        def call(token):
            try:
                answers[token] = host.rpc("mark " + token)
            except Exception as exc:  # noqa
                answers[token] = exc
        threads = [threading.Thread(target=call, args=(t,)) for t in tokens]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(60)
        for token in tokens:
            if answers.get(token) != "mark done: marked %s\r\n" % token:
                raise Violation("the command 'mark %s', sent with %d others%s, is answered by %r" % (
                    token, len(tokens) - 1, " and silent clients" if silent else "", answers.get(token)),
                    timing=not isinstance(answers.get(token), str) or not answers.get(token), stderr=host.err.text[-2000:])
        if sorted(ctx.store["marks"][before:]) != sorted(tokens):
            raise Violation("the commands executed are %r instead of %r" % (ctx.store["marks"][before:], tokens))
    finally:
        for sock in silent:
            sock.close()
    ctx.count("rpc", len(tokens))
    ctx.count("commands", len(tokens))
    ctx.count("marks", len(tokens))
    ctx.count("bursts")
    ctx.key("burst", tuple(lines))


def session(ctx, rng):
    """a simulator from its start to its end"""
    lib = ctx.lib
    host = open_host(ctx, terminal=rng.random() < 0.5)
    try:
        client_port = lib.simulator_rpc_client.SimulatorRpcClient().port
        if host.asked[1] != client_port:
            raise Violation("the simulator listens on the port %s and the RPC client calls the port %s" % (
                host.asked[1], client_port))
        for channel in ("console", "client"):
            answer = send(ctx, host, "has_slave 1", channel, rng)
            if answer != "has_slave done: 0\r\n":
                raise Violation("has_slave is answered by %r" % answer)
        # several lines which are read at once by a pipe
        tokens = ["%d" % rng.getrandbits(60) for _ in range(rng.randint(2, 5))]
        host.type("".join("mark %s\n" % t for t in tokens))
        for token in tokens:
            answer = host.out.line(20)
            if answer != "mark done: marked %s\r\n" % token:
                raise Violation("the command 'mark %s', given with others to the %s, is answered by %r" % (
                    token, "terminal" if host.terminal else "pipe", answer), timing=answer is None)
        if rng.random() < 0.3 and not host.terminal:
            # the end of the input is not a command
            os.close(host.master_fd)
            host.master_fd = -1
            time.sleep(1.5)
            if host.out.text:
                raise Violation("after the end of the input the console writes %r" % host.out.text[:200])
            ctx.count("ends of input")
        if rng.random() < 0.5 and host.master_fd >= 0:
            host.type("quit\n")
            answer = host.out.line(30)
        else:
            answer = host.rpc("quit")
        if answer != "bye-bye\r\n":
            raise Violation("quit is answered by %r" % answer, timing=not answer)
        if not host.ended.wait(30):
            raise Violation("the simulator does not end after quit", timing=True)
        if host.error is not None:
            raise Violation("the simulator ended with %r" % host.error)
    finally:
        host.close()
        ctx.store.pop("host", None)
    end = time.monotonic() + 30
    while time.monotonic() < end and (host.simulator.console.is_alive() or host.simulator.rpc.is_alive()):
        time.sleep(0.05)
    for thread in (host.simulator.console, host.simulator.rpc):
        if thread.is_alive():
            raise Violation("%s is still running after close()" % type(thread).__name__, timing=True)
    for port, what in ((host.rpc_port, "RPC"), (host.tcp_port, "Modbus")):
        try:
            socket.create_connection(("127.0.0.1", port), 5).close()
        except OSError:
            continue
        raise Violation("the %s port is still open after close()" % what, timing=True)
    ctx.count("sessions")
    ctx.key("session", rng.random())
