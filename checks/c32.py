"""C32: the log of the verbose mode tells exactly the bytes exchanged"""
import contextlib
import io
import logging
import os
import re
import socket
import stat
import struct
import threading
import time

from vp import masters, net, wire
from vp.core import Violation, Inconclusive
from vp.fakeserial import FakeSerial, GAP

LEVEL = "exploration"
RULE = ("a case is a series of 15 exchanges of a master with a scripted slave, or of clients with a running server (good, "
        "refused, corrupted, unanswered, broadcast, to a missing slave), the verbose mode and the level of the logger being "
        "switched between them: the records found in the logger are compared with the bytes seen on the line; or a series of "
        "records at any level and with any text given to the console and UDP loggers: the lines and datagrams are compared "
        "with an independent formatting; distinct by (link, operations)")
ASSUMPTIONS = ["a response of no byte may be logged as an empty one or not at all",
               "the texts given to the loggers are ASCII and fit in a datagram"]
PREFIXES = ("-> ", "<- ", "-->", "<--")


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="master", n=600 * k, budget=16 * k, min=40, name="master-%d" % p) for p in range(3)] +
            [dict(kind="server", n=300 * k, budget=22 * k, min=8, stall=90, name="server-%d" % p) for p in range(3)] +
            [dict(kind="loggers", n=800 * k, budget=12 * k, min=50, name="loggers-%d" % p) for p in range(2)])


def need(tier):
    return {"requests logged": 2000, "responses logged": 1500, "quiet exchanges": 1000, "unanswered": 200, "broadcasts": 20,
            "corrupted": 200, "switched": 500, "lines": 3000, "datagrams": 1000, "filtered": 1000, "hooked": 300,
            "long records": 200}


class Records(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.items = []

    def emit(self, record):
        self.items.append(record.getMessage())

    def take(self, atleast=0):
        """the records of the exchanges; those which come after the answer are waited for"""
        end = time.monotonic() + 5
        while len(self.items) < atleast and time.monotonic() < end:
            time.sleep(0.001)
        items, self.items = self.items, []
        return [i for i in items if i.startswith(PREFIXES) or i in ("->", "<-", "--", "<-")]


@contextlib.contextmanager
def recorded(ctx):
    """the records of the library"""
    log, handler = ctx.lib.logger, Records()
    level = log.level
    log.addHandler(handler)
    log.setLevel(logging.DEBUG)
    try:
        yield handler
    finally:
        log.setLevel(level)
        log.removeHandler(handler)


def decimal(prefix, data):
    return prefix + "-".join(str(b) for b in bytearray(data))


def judge(ctx, what, got, sent, received, prefixes, verbose, **witness):
    """got: the records; sent: bytes of the request; received: bytes of the response or None"""
    want = []
    if verbose:
        want = [decimal(prefixes[0], sent)]
        if received:
            want.append(decimal(prefixes[1], received))
    elif not got:
        ctx.count("quiet exchanges")
    if verbose and not received and len(got) == len(want) + 1 and not re.search(r"\d", got[-1]):
        got = got[:-1]            # an empty response
    if got != want:
        raise Violation("%s: the log is not the one of the exchange" % what, got=got, expected=want, verbose=verbose, **witness)
    if verbose:
        ctx.count("requests logged")
        ctx.count("responses logged" if received else "unanswered")


def case(ctx, rng, i):
    {"master": master_case, "server": server_case, "loggers": loggers_case}[ctx.kind](ctx, rng)


# -- masters

def substitute(args):
    return args[1][:2] + b"\x55\xaa" + args[1][4:]


def master_case(ctx, rng):
    name = rng.choice(sorted(masters.LINKS))
    link = masters.LINKS[name](ctx.lib)
    verbose = False
    done = []
    try:
        with recorded(ctx) as records:
            for _ in range(15):
                if rng.random() < 0.3:
                    verbose = rng.random() < 0.7
                    link.master.set_verbose(verbose)
                    ctx.count("switched")
                level = rng.choice((logging.DEBUG,) * 5 + (logging.INFO, logging.ERROR))
                ctx.lib.logger.setLevel(level)
                what = rng.choice(("good",) * 5 + ("refused", "corrupted", "silent"))
                call = masters.random_call(rng, fcts=(1, 2, 3, 4, 5, 6, 15, 16, 22, 23))
                sent = [None]

                def reply(link, tid, slave, pdu):
                    if what == "silent":
                        return []
                    answer = call.answer if what != "refused" else bytes([pdu[0] + 0x80, 2])
                    frame = link.frame(tid, slave, answer)
                    if what == "corrupted":
                        frame = (frame[:-1] + bytes([frame[-1] ^ 0x55]) if name != "tcp"
                                 else bytes([frame[0] ^ 0x80]) + frame[1:])
                    sent[0] = frame
                    return [frame]
                link.reply = reply
                before = len(link.requests)
                # what is sent is what the application makes of the request
                hooked = name == "tcp" and rng.random() < 0.25
                if hooked:
                    ctx.lib.hooks.install_hook("modbus.Master.before_send", substitute)
                if what == "silent" and name != "rtu":
                    link.master.set_timeout(0.05)
                try:
                    call.run(link.master)
                except Exception as exc:
                    if what == "good":
                        raise Violation("a good exchange fails: %r" % exc)
                else:
                    if what != "good":
                        raise Violation("an exchange (%s) does not fail" % what)
                if hooked:
                    ctx.lib.hooks.uninstall_hook("modbus.Master.before_send", substitute)
                    link.problem = None
                    ctx.count("hooked")
                if what == "silent" and name != "rtu":
                    link.master.set_timeout(20.0)
                    end = time.monotonic() + 20
                    while len(link.requests) == before and time.monotonic() < end:
                        time.sleep(0.001)
                if what == "corrupted":
                    ctx.count("corrupted")
                requests = link.requests[before:]
                if len(requests) != 1:
                    raise Violation("harness: %d requests" % len(requests))
                done.append((what, verbose, level))
                got = records.take((1 if sent[0] is None else 2) if verbose and level <= logging.DEBUG else 0)
                if level > logging.DEBUG:
                    ctx.count("filtered")
                judge(ctx, "master " + name, got, requests[0], sent[0], ("-> ", "<- "), verbose and level <= logging.DEBUG,
                      operations=done)
    finally:
        link.close()
    ctx.key("master", name, tuple(done))


# -- servers

def server_case(ctx, rng):
    lib = ctx.lib
    name = rng.choice(("rtu", "tcp"))
    if name == "tcp":
        server, port = net.tcp_server(lib)
        clients = [net.RawClient(port) for _ in range(2)]
    else:
        port = FakeSerial()
        server = lib.modbus_rtu.RtuServer(port)
        server.start()
        port.wait_idle()
    done, hooks = [], []

    def fail(args):
        raise KeyError("the application")

    def replace(args):
        # the values of the response are others: only the end of the frame changes with TCP
        frame = bytes(args[1])
        body = frame[:-2] + b"\x12\x34"
        return body if name == "tcp" else wire.rtu(frame[0], body[1:-2])

    try:
        server.add_slave(1).add_block("h", 3, 0, 200)
        server.add_slave(9, unsigned=False).add_block("c", 1, 0, 2000)
        verbose = False
        with recorded(ctx) as records:
            for k in range(15):
                if rng.random() < 0.3:
                    verbose = rng.random() < 0.7
                    server.set_verbose(verbose)
                    ctx.count("switched")
                level = rng.choice((logging.DEBUG,) * 5 + (logging.INFO, logging.ERROR))
                lib.logger.setLevel(level)
                what = rng.choice(("good",) * 4 + ("refused", "missing", "broadcast", "corrupted", "failing", "replaced"))
                slave, pdu = rng.choice(((1, wire.read_pdu(3, rng.randrange(75), rng.choice((1, 125, 125, rng.randint(1, 125))))),
                                         (1, wire.write_reg_pdu(rng.randrange(200), rng.randrange(65536))),
                                         (9, wire.read_pdu(1, 0, rng.choice((2000, rng.randint(1, 2000))))),
                                         (9, wire.write_coil_pdu(rng.randrange(2000), True))))
                if what == "refused":
                    pdu = rng.choice((bytes([rng.randint(24, 127)]), wire.read_pdu(3, 60000, 9), wire.read_pdu(1, 0, 0)))
                elif what == "missing":
                    slave = rng.choice((2, 8, 255))
                elif what == "broadcast":
                    slave = 0
                    ctx.count("broadcasts")
                elif what == "failing":
                    hooks.append(("modbus.Slave.handle_request", fail))
                elif what == "replaced":
                    hooks.append(("modbus.Server.after_handle_request", replace))
                for hook in hooks:
                    lib.hooks.install_hook(*hook)
                answered = what in ("good", "refused", "failing", "replaced")
                if name == "tcp":
                    if what == "corrupted":
                        pdu, answered = bytes([rng.randint(100, 127)]), True
                    client = rng.choice(clients)
                    frame = wire.mbap(rng.randrange(65536), slave, pdu)
                    client.send(frame)
                    if answered:
                        response = client.frame()
                    else:
                        # answered after the other: the log of the first is complete
                        response = None
                        quiet = wire.mbap(7, 1, wire.read_pdu(3, 0, 1))
                        client.send(quiet)
                        second = client.frame()
                else:
                    frame = wire.rtu(slave, pdu)
                    if what == "corrupted":
                        frame = frame[:-1] + bytes([frame[-1] ^ 1])
                        ctx.count("corrupted")
                    del port.writes[:]
                    port.feed([frame, GAP])
                    if not port.wait_idle(30):
                        raise Inconclusive("the server does not come back to the line")
                    end = time.monotonic() + 30
                    while port.waiting == 0 and time.monotonic() < end:
                        time.sleep(0.0005)
                    response = b"".join(port.writes) or None
                    if answered != (response is not None):
                        raise Violation("the response of the server to %s is %r" % (frame.hex(), response))
                while hooks:
                    lib.hooks.uninstall_hook(*hooks.pop())
                    ctx.count("hooked")
                done.append((what, verbose, level))
                loud = verbose and level <= logging.DEBUG
                got = records.take((2 if answered else 3 if name == "tcp" else 1) if loud else 0)
                if level > logging.DEBUG:
                    ctx.count("filtered")
                if name == "tcp" and not answered:
                    if loud:
                        if got[-2:] != [decimal("-->", quiet), decimal("<--", second)]:
                            raise Violation("server tcp: the log is not the one of the exchange", got=got, operations=done)
                        got = got[:-2]
                judge(ctx, "server " + name, got, frame, response, ("-->", "<--"), loud, operations=done)
    finally:
        while hooks:
            lib.hooks.uninstall_hook(*hooks.pop())
        if name == "tcp":
            for client in clients:
                client.close()
        net.stop_server(server)
    ctx.key("server", name, tuple(done))


# -- loggers

LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}


def loggers_case(ctx, rng):
    lib, log = ctx.lib, ctx.lib.logger
    former, level0 = list(log.handlers), log.level
    kind = rng.choice(("console", "udp", "dummy", "both"))
    sock = None
    texts = []
    out = io.StringIO()
    fmt = rng.choice((None, "%(levelname)s|%(message)s", "%(message)s", "[%(threadName)s] %(levelname)s %(message)s"))
    level = rng.choice(sorted(LEVELS.values()))
    try:
        with contextlib.redirect_stdout(out):
            if kind in ("udp", "both"):
                sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
                sock.settimeout(20)
                try:
                    # the documented port: shared by nobody else here, as the shards take it in turn
                    sock.bind(("127.0.0.1", 1975))
                except OSError:
                    sock.bind(("127.0.0.1", 0))
                    handler = lib.utils.LogitHandler(sock.getsockname())
                    handler.setFormatter(logging.Formatter(fmt or "%(message)s"))
                    log.addHandler(handler)
                    log.setLevel(level)
                    shown = fmt or "%(message)s"
                else:
                    got = (lib.utils.create_logger("udp", level, fmt) if fmt else
                           lib.utils.create_logger(name="udp") if level == logging.DEBUG else
                           lib.utils.create_logger(name="udp", level=level))
                    ctx.check(got is log, "create_logger does not return the logger of the library")
                    shown = fmt
            if kind in ("console", "both"):
                if level == logging.DEBUG and not fmt:
                    lib.utils.create_logger(name="console")
                else:
                    lib.utils.create_logger("console", level, fmt) if fmt else lib.utils.create_logger(name="console", level=level)
            if kind == "dummy":
                lib.utils.create_logger(rng.choice(("dummy", "dummy")), level)
            big = [520, 1030, 1100, 5000]        # a whole frame in decimal is more than 1000 characters
            rng.shuffle(big)
            for k in range(rng.randint(5, 40)):
                name = rng.choice(sorted(LEVELS))
                size = big.pop() if big and rng.random() < 0.1 else rng.choice((0, 3, 30, 300))
                text = "".join(rng.choice("abc %z-09{}<>\t") for _ in range(size))
                if size > 500:
                    ctx.count("long records")
                if rng.random() < 0.3:
                    log.log(LEVELS[name], "%s-%d", text, k)
                    text = "%s-%d" % (text, k)
                else:
                    log.log(LEVELS[name], text)
                if LEVELS[name] >= level:
                    texts.append((name, text))
                else:
                    ctx.count("filtered")
        lines = out.getvalue().split("\n")
        if lines.pop() != "":
            raise Violation("the last line of the console is not ended")
        if kind in ("console", "both"):
            compare("console", lines, texts, fmt)
            ctx.count("lines", len(texts))
        elif lines:
            raise Violation("a %s logger prints %r" % (kind, lines[:2]))
        if kind in ("udp", "both"):
            grams, ours = [], own_ports()

            def receive():
                while True:
                    data, source = sock.recvfrom(65536)
                    # another process of this machine may log on the same port
                    if source[1] in ours or len(ours) < 2:
                        return data
            for _ in texts:
                try:
                    data = receive()
                except socket.timeout:
                    raise Violation("%d datagrams are received for %d records" % (len(grams), len(texts)))
                text = decode(data)
                if not text.endswith("\r\n"):
                    raise Violation("a datagram does not end with the end of a line: %r" % data)
                grams.append(text[:-2])
            compare("udp", grams, texts, shown)
            ctx.count("datagrams", len(grams))
            sock.setblocking(False)
            try:
                data = receive()
            except OSError:
                pass
            else:
                raise Violation("a datagram more than the records: %r" % data)
    finally:
        for handler in list(log.handlers):
            if handler not in former:
                log.removeHandler(handler)
                if hasattr(handler, "_sock"):
                    handler._sock.close()
        log.setLevel(level0)
        if sock is not None:
            sock.close()
    ctx.key("loggers", kind, fmt, level, len(texts))


def own_ports():
    """the UDP ports of this process, the one of the receiver included"""
    ports = set()
    for name in os.listdir("/proc/self/fd"):
        try:
            if not stat.S_ISSOCK(os.fstat(int(name)).st_mode):
                continue
            sock = socket.socket(fileno=os.dup(int(name)))
        except OSError:
            continue
        try:
            if sock.type == socket.SOCK_DGRAM and sock.family == socket.AF_INET:
                ports.add(sock.getsockname()[1])
        except OSError:
            pass
        sock.close()
    return ports


def decode(data):
    for encoding in ("utf-8", "latin-1"):
        try:
            return data.decode(encoding)
        except UnicodeDecodeError:
            continue
    return repr(data)


def ascii_only(text):
    return re.sub(r"[^\x20-\x7e\t]+", "?", text)


def compare(what, got, texts, fmt):
    """the lines (or datagrams) are those of the records, in order"""
    if len(got) != len(texts):
        raise Violation("%s: %d lines for %d records" % (what, len(got), len(texts)), got=got[:10], texts=texts[:10])
    thread = threading.current_thread().name
    for line, (name, text) in zip(got, texts):
        line, text = ascii_only(line), ascii_only(text)
        if fmt is None:
            good = line.endswith("\t" + text) and "\t%s\t" % name in line
        else:
            good = line == fmt % dict(levelname=name, message=text, threadName=thread)
        if not good:
            raise Violation("%s: the record is shown as %r" % (what, line), level=name, text=text, format=fmt)
