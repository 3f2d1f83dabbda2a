"""C10: a misbehaving TCP client harms neither the server nor the other clients"""
import os
import random
import resource
import select
import socket
import struct
import threading
import time

from vp import model, wire
from vp.core import Violation, Inconclusive
from vp.net import RawClient, tcp_server, stop_server, nfds
from vp.world import World, valid_write, valid_read

LEVEL = "exploration"
RULE = ("a case connects good clients to a TcpServer and clients which misbehave (garbage, wrong lengths, frames cut at any "
        "byte, resets, silence, answers which are not read, floods of connections); the good clients must get the answers "
        "of the model within a bounded time, new connections must be accepted, the memory must only have changed by "
        "complete valid requests, and the file descriptors of the process must come back to their number; other shards "
        "exhaust the file descriptors, use those above 1024, or make all clients send many requests at once and"
        " count how many are executed before the one of the last client; distinct by the list of misbehaviours")
ASSUMPTIONS = ["the bound of an exchange of a good client is 10 s plus 2 s for each client which has begun a request without "
               "ending it (the server waits 1 s for the next byte)"]


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="hostile", n=40 * k, budget=40 * k, min=3, stall=150, name="hostile-%d" % p) for p in range(5)] +
            [dict(kind="flood", n=6 * k, budget=40 * k, min=1, stall=150)] +
            [dict(kind="nofd", n=6 * k, budget=40 * k, min=1, stall=150)] +
            [dict(kind="highfd", n=4 * k, budget=40 * k, min=1, stall=150)] +
            [dict(kind="notreading", n=4 * k, budget=40 * k, min=1, stall=150)] +
            [dict(kind="busy", n=5 * k, budget=40 * k, min=1, stall=150)] +
            [dict(kind="drip", n=1, budget=40, min=1, stall=100)])


def need(tier):
    return {"good exchanges": 800, "bad clients": 300, "accept failures": 1, "high descriptors": 50, "held sockets": 100,
            "busy clients": 10, "exchanges among busy clients": 10}


def setup(ctx):
    ctx.store["server"], ctx.store["port"] = tcp_server(ctx.lib)


def teardown(ctx):
    stop_server(ctx.store["server"])


class Good(object):
    """a client which behaves"""

    def __init__(self, ctx, rng, world, sid):
        self.ctx, self.rng, self.world, self.sid = ctx, rng, world, sid
        self.client = RawClient(ctx.store["port"])
        self.tid = rng.randrange(60000)
        self.worst = 0

    def exchange(self, limit=10.0, sent=None):
        rng, mod = self.rng, self.world.models[self.sid]
        self.tid = (self.tid + 1) & 0xFFFF
        pdu = valid_write(rng, mod) if rng.random() < 0.5 else valid_read(rng, mod)
        start = time.monotonic()
        try:
            self.client.send(wire.mbap(self.tid, self.sid, pdu))
            if sent is not None:
                sent()
            frame = self.client.frame(limit + 30, "the answer to another client")
        except OSError as exc:
            raise Violation("the connection of another client is lost: %s" % exc)
        took = time.monotonic() - start
        if not frame:
            raise Violation("the connection of another client is closed")
        if took > limit:
            raise Violation("another client waits %.1f s for its answer" % took, timing=True)
        self.worst = max(self.worst, took)
        out = model.match(mod.request(pdu), frame[7:])
        if frame[:7] != wire.mbap(self.tid, self.sid, frame[7:])[:7] or out is None:
            raise Violation("another client receives %s in answer to %s" % (frame.hex(), pdu.hex()))
        out.apply()
        self.ctx.count("good exchanges")


def misbehave(ctx, rng, world, sid, port):
    """one bad client. Returns (name, stalls, client to be closed later or None)"""
    what = rng.choice(("garbage", "garbage", "wrong length", "half", "half", "half", "reset", "reset", "silent", "close",
                       "huge", "zero", "flood of refused", "half and reset", "headers", "text", "answer not read"))
    client = RawClient(port)
    mod = world.models[sid]
    pdu = valid_write(rng, mod)
    frame = wire.mbap(rng.randrange(65536), sid, pdu)
    stall = 0
    keep = False
    sent = b""

    def send(data):
        nonlocal sent
        sent += data
        try:
            client.send(data)
        except OSError:
            pass

    if what == "garbage":
        data = bytes(rng.randrange(256) for _ in range(rng.randint(1, 60)))
        send(data)
        stall, keep = 1, rng.random() < 0.3
    elif what == "wrong length":
        # a write which announces something else than what follows
        length = rng.choice((0, 1, 2, len(pdu), len(pdu) + 2, len(pdu) + 50, 0xFFFF, rng.randrange(300)))
        send(wire.mbap(7, sid, pdu, length=length))
        stall, keep = 1, rng.random() < 0.3
    elif what in ("half", "half and reset"):
        send(frame[:rng.randint(1, len(frame) - 1)])
        stall, keep = 1, what == "half" and rng.random() < 0.3
        if what == "half and reset":
            if rng.random() < 0.5:
                time.sleep(0.01)
            client.reset()
    elif what == "reset":
        if rng.random() < 0.6:
            send(frame * rng.randint(1, 3))
            if rng.random() < 0.5:
                time.sleep(0.005)
        # a request may be lost with the connection: these are executed or not, in order
        client.reset()
        ctx.count("bad clients")
        return what, 0, None, sent, True
    elif what == "silent":
        keep = True
    elif what == "huge":
        send(struct.pack(">HHHB", 1, 0, 0xFFFF, sid) + pdu + b"\0" * rng.choice((0, 10, 70000)))
        stall = 1
    elif what == "zero":
        send(wire.mbap(3, sid, b"", length=rng.choice((0, 1))) * rng.randint(1, 3))
        keep = rng.random() < 0.3
    elif what == "flood of refused":
        send(wire.mbap(5, sid, bytes([rng.choice((0x80, 0xFF, 0x64, 0x2B, 0))]) + b"\0" * 4) * rng.randint(1, 200))
    elif what == "headers":
        send(wire.mbap(5, sid, wire.read_pdu(3, 0, 1), protocol=rng.randrange(65536)) * 3)
        send(frame[:rng.randint(1, 7)])
        stall = 1
    elif what == "text":
        send(b"GET / HTTP/1.1\r\nHost: localhost\r\n\r\n")
        stall = 1
    elif what == "answer not read":
        send(wire.mbap(5, sid, valid_read(rng, mod)) * rng.randint(1, 20))
        stall, keep = 0, rng.random() < 0.5
    if not keep:
        if rng.random() < 0.3:
            time.sleep(rng.choice((0.001, 0.02)))
        if rng.random() < 0.3 and what not in ("half and reset",):
            client.reset()
            client = None
            ctx.count("bad clients")
            return what, stall, None, sent, True
        client.close()
        client = None
    ctx.count("bad clients")
    ctx.state("misbehaviours", what, len(sent))
    return what, stall, client, sent, False


def case(ctx, rng, i):
    world = World(ctx, rng, slaves=26 if ctx.kind == "hostile" else 2, paths=(), max_blocks=5, db=ctx.store["server"].get_db())
    for sid in world.models:
        world.fill(sid)
    good_sid, bad_sid = sorted(world.models)[:2]
    # an application may keep the sockets it gets from the hook: the end of the connection does not depend on it
    held = [] if ctx.kind in ("hostile", "flood", "notreading") and rng.random() < 0.5 else None

    def on_connect(args):
        held.append(args[1])
    if held is not None:
        ctx.lib.hooks.install_hook("modbus_tcp.TcpServer.on_connect", on_connect)
    try:
        run(ctx, rng, world, good_sid, bad_sid)
    finally:
        if held is not None:
            ctx.lib.hooks.uninstall_hook("modbus_tcp.TcpServer.on_connect", on_connect)
            ctx.count("held sockets", len(held))


def run(ctx, rng, world, good_sid, bad_sid):
    {"hostile": hostile, "flood": flood, "nofd": nofd, "highfd": highfd, "notreading": notreading, "drip": drip, "busy": busy}[ctx.kind](
        ctx, rng, world, good_sid, bad_sid)


def busy(ctx, rng, world, good_sid, bad_sid):
    """clients which always have many requests waiting: the others have their turn"""
    base = nfds()
    goods = [Good(ctx, rng, world, good_sid)]
    bads = [RawClient(ctx.store["port"]) for _ in range(rng.choice((1, 2, 5, 9, 12, 20, 40)))]
    goods.append(Good(ctx, rng, world, good_sid))
    for good in goods:
        good.exchange()
    backlog = 40000 // len(bads)
    status = wire.mbap(1, bad_sid, b"\x07")
    size = len(wire.mbap(1, bad_sid, b"\x07\0"))
    executed = [0]
    at = [0, 0]        # how many were executed when the request of the good one was there, and when it was executed
    bad = world.slaves[bad_sid]

    def on_request(args):
        if args[0] is bad:
            executed[0] += 1
        else:
            at[1] = executed[0]

    def sent():
        at[0] = executed[0]

    over = threading.Event()
    received = dict((c, 0) for c in bads)

    def reader():
        left = dict((c.sock.fileno(), c) for c in bads)
        poller = select.poll()
        for fil in left:
            poller.register(fil, select.POLLIN)
        while left and not over.is_set():
            for fil, _ in poller.poll(200):
                try:
                    data = left[fil].sock.recv(65536)
                except OSError:
                    data = b""
                if not data:
                    poller.unregister(fil)
                    left.pop(fil)
                else:
                    received[left[fil]] += len(data)

    def sender():
        try:
            for _ in range(0, backlog, 500):
                for client in bads:
                    client.send(status * 500)
        except OSError:
            pass
    threads = [threading.Thread(target=fct, daemon=True) for fct in (reader, sender)]
    for client in bads:
        client.sock.settimeout(60)
    ctx.lib.hooks.install_hook("modbus.Slave.handle_request", on_request)
    try:
        for thread in threads:
            thread.start()
        done = 0
        while executed[0] < 40000 * 0.9 and done < 60:
            good = rng.choice(goods) if rng.random() < 0.7 else Good(ctx, rng, world, good_sid)
            before = executed[0]
            good.exchange(30, sent)
            waited = at[1] - at[0]
            if good not in goods:
                good.client.close()
            if waited > 300 * len(bads) + 300:
                raise Violation("%d requests of %d busy clients are executed before the one of another client" % (
                    waited, len(bads)))
            done += 1
            if 0 < before and executed[0] < 40000 * 0.9:
                ctx.count("exchanges among busy clients")
            time.sleep(rng.choice((0, 0.01, 0.05)))
        ctx.count("bad clients", len(bads))
        ctx.count("busy clients", len(bads))
    finally:
        over.set()
        ctx.lib.hooks.uninstall_hook("modbus.Slave.handle_request", on_request)
        for client in bads:
            client.reset()
        for thread in threads:
            thread.join(60)
        for good in goods:
            good.client.close()
    settle(ctx, base, 0)
    for sid in world.models:
        world.check_image(sid, "after busy clients")
    ctx.key("busy", ctx.i)


def settle(ctx, base, extra, limit=30):
    """the descriptors of the ended connections are released"""
    end = time.monotonic() + limit
    while nfds() > base + extra:
        if time.monotonic() > end:
            raise Violation("the connections which have ended are not released: %d descriptors instead of %d" % (
                nfds(), base + extra), timing=True)
        time.sleep(0.01)


def newcomer(ctx, rng, world, sid, limit=10.0):
    good = Good(ctx, rng, world, sid)
    good.exchange(limit)
    good.client.close()


def hostile(ctx, rng, world, good_sid, bad_sid):
    base = nfds()
    goods = [Good(ctx, rng, world, good_sid) for _ in range(rng.choice((1, 2)))]
    bads = [sid for sid in world.models if sid != good_sid]
    kept, names, streams = [], [], []
    stalls = 0
    try:
        for _ in range(rng.randint(2, 6)):
            for good in goods:
                good.exchange(10 + 2 * stalls)
            stalls = 0
            for _ in range(rng.choice((1, 1, 2, 4))):
                # each bad client writes to a slave of its own
                sid = bads.pop()
                name, stall, client, sent, maybe = misbehave(ctx, rng, world, sid, ctx.store["port"])
                names.append(name)
                streams.append((sid, sent, name))
                stalls += stall
                if client is not None:
                    kept.append(client)
            for good in goods:
                good.exchange(10 + 2 * stalls)
            ctx.count("stalls", stalls)
        newcomer(ctx, rng, world, good_sid, 10 + 2 * stalls)
        for client in kept:
            client.close()
        kept = []
        settle(ctx, base, 2 * len(goods), 30 + 2 * len(names))
        for good in goods:
            good.exchange(10 + 2 * stalls)
        for sid, sent, name in streams:
            judge_stream(ctx, world, sid, sent, name)
        for sid in world.models:
            world.check_image(sid, "after " + ", ".join(names))
        ctx.key(names)
        ctx.sample(dict(misbehaviours=names, worst=max(g.worst for g in goods)))
    finally:
        for client in kept:
            client.close()
        for good in goods:
            good.client.close()
    settle(ctx, base, 0)


def judge_stream(ctx, world, sid, stream, name):
    """the complete requests of a stream have been executed, or the first ones if the connection was lost"""
    mod = world.models[sid]
    rest = stream
    while not same(world, sid):
        (length,) = struct.unpack(">H", rest[4:6]) if len(rest) >= 7 else (0xFFFF,)
        size = 6 + max(length, 1)
        if len(rest) < size:
            world.check_image(sid, "after a misbehaving client (%s)" % name, sent=stream[:300])
            return
        unit, pdu, rest = rest[6], rest[7:size], rest[size:]
        if unit == sid and pdu:
            outs = mod.request(pdu)
            if outs and outs[0].writes:
                outs[0].apply()
                ctx.count("complete requests of bad clients")


def same(world, sid):
    return all(list(world.slaves[sid].get_values(name, blk.start, blk.size)) == blk.data
               for name, blk in world.models[sid].blocks.items())


def flood(ctx, rng, world, good_sid, bad_sid):
    """many connections, which do nothing or come and go"""
    base = nfds()
    good = Good(ctx, rng, world, good_sid)
    kept = []
    try:
        for _ in range(rng.choice((100, 250, 400))):
            kept.append(RawClient(ctx.store["port"]))
            ctx.count("bad clients")
            if rng.random() < 0.1:
                good.exchange()
            if rng.random() < 0.3:
                kept.pop(rng.randrange(len(kept))).close()
        good.exchange()
        newcomer(ctx, rng, world, good_sid)
        for _ in range(10):
            Good.exchange(good)
    finally:
        for client in kept:
            client.close()
    settle(ctx, base, 2)
    good.exchange()
    good.client.close()
    settle(ctx, base, 0)
    ctx.key("flood", ctx.i)


def nofd(ctx, rng, world, good_sid, bad_sid):
    """connections when the process has no descriptor left"""
    failures = []

    def on_error(args):
        if args[1].fileno() >= 0 and args[1].getsockopt(socket.SOL_SOCKET, socket.SO_ACCEPTCONN):
            failures.append(1)
    base = nfds()
    goods = [Good(ctx, rng, world, good_sid) for _ in range(2)]
    for good in goods:
        good.exchange()
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    eaten, late = [], []
    ctx.lib.hooks.install_hook("modbus_tcp.TcpServer.on_error", on_error)
    try:
        resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, nfds() + 60), hard))
        try:
            while True:
                eaten.append(os.open("/dev/null", os.O_RDONLY))
        except OSError:
            pass
        for _ in range(rng.choice((1, 2, 5))):
            # room for the client but not for the server
            while True:
                try:
                    os.close(eaten.pop())
                    late.append(RawClient(ctx.store["port"]))
                    break
                except OSError:
                    # the server has taken it for the previous one
                    if len(eaten) < 10:
                        raise Inconclusive("no descriptor for the client")
        for _ in range(5):
            for good in goods:
                good.exchange()
            time.sleep(0.02)
        ctx.count("accept failures", 1 if failures else 0)
        while len(eaten) > 5:
            os.close(eaten.pop())
        # those which were waiting are served now
        for client in late:
            pdu = valid_read(rng, world.models[good_sid])
            client.send(wire.mbap(77, good_sid, pdu))
            frame = client.frame(30, "the answer to a client accepted when descriptors are available")
            if not frame or model.match(world.models[good_sid].request(pdu), frame[7:]) is None:
                raise Violation("a client which connected without descriptors left receives %r" % (frame,))
        newcomer(ctx, rng, world, good_sid)
        for good in goods:
            good.exchange()
    finally:
        ctx.lib.hooks.uninstall_hook("modbus_tcp.TcpServer.on_error", on_error)
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
        for fil in eaten:
            os.close(fil)
        for client in late:
            client.close()
        for good in goods:
            good.client.close()
    settle(ctx, base, 0)
    ctx.key("nofd", ctx.i)


def highfd(ctx, rng, world, good_sid, bad_sid):
    """more than 1024 open files"""
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    if hard != resource.RLIM_INFINITY and hard < 2000:
        raise Inconclusive("not enough descriptors")
    base = nfds()
    low = Good(ctx, rng, world, good_sid)
    low.exchange()
    eaten, goods = [], []
    try:
        resource.setrlimit(resource.RLIMIT_NOFILE, (2000, hard))
        while nfds() < 1030:
            eaten.append(os.open("/dev/null", os.O_RDONLY))
        for _ in range(10):
            goods.append(Good(ctx, rng, world, good_sid))
            goods[-1].exchange()
            ctx.count("high descriptors")
            ctx.count("bad clients")
        for _ in range(5):
            for good in goods + [low]:
                good.exchange()
                ctx.count("high descriptors")
        for good in goods[:5]:
            good.client.reset()
        for good in goods[5:] + [low]:
            good.exchange()
    finally:
        for fil in eaten:
            os.close(fil)
        for good in goods + [low]:
            good.client.close()
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))
    settle(ctx, base, 0)
    ctx.key("highfd", ctx.i)


def notreading(ctx, rng, world, good_sid, bad_sid):
    """a client which sends requests and never reads the answers"""
    base = nfds()
    good = Good(ctx, rng, world, good_sid)
    bad = RawClient(ctx.store["port"], rcvbuf=2048)
    over = threading.Event()
    reads = wire.mbap(1, bad_sid, wire.read_pdu(3, *pick(world, bad_sid)))

    def sender():
        bad.sock.settimeout(0.2)
        while not over.is_set():
            try:
                bad.sock.sendall(reads * 50)
            except OSError as exc:
                if "timed out" not in str(exc):
                    return
                time.sleep(0.05)
    thread = threading.Thread(target=sender, daemon=True)
    thread.start()
    ctx.count("bad clients")
    try:
        end = time.monotonic() + 6
        while time.monotonic() < end:
            good.exchange(10)
            time.sleep(0.01)
        newcomer(ctx, rng, world, good_sid)
        over.set()
        thread.join(10)
        # now it reads: whole answers one after the other, the last one may be cut if the connection is closed
        data = b""
        bad.sock.settimeout(1.5)
        try:
            while len(data) < 3000000:
                piece = bad.sock.recv(65536)
                if not piece:
                    break
                data += piece
        except OSError:
            pass
        if len(data) > 9:
            (length,) = struct.unpack(">H", data[4:6])
            one = data[:6 + length]
            if model.match(world.models[bad_sid].request(reads[7:]), one[7:]) is None or one[:4] != reads[:4]:
                raise Violation("the first answer to a client which reads late is %s" % one.hex(), timing=True)
            k = next((k for k in range(0, len(data), len(one)) if not one.startswith(data[k:k + len(one)])), None)
            if k is not None:
                raise Violation("after %d answers a client which reads late gets %s instead of the answer %s or the end of the "
                                "connection" % (k // len(one), data[k:k + 300].hex(), one.hex()), timing=True)
            ctx.count("read late", len(data) // len(one))
    finally:
        over.set()
        thread.join(10)
        bad.close()
        good.client.close()
    settle(ctx, base, 0)
    for sid in world.models:
        world.check_image(sid, "after a client which does not read")
    ctx.key("notreading", ctx.i)


def pick(world, sid):
    blk = max((b for b in world.models[sid].blocks.values() if b.typ == 3), key=lambda b: b.size)
    return blk.start, min(blk.size, 125)


def drip(ctx, rng, world, good_sid, bad_sid):
    """a client which sends a long frame one byte at a time"""
    good = Good(ctx, rng, world, good_sid)
    good.exchange()
    bad = RawClient(ctx.store["port"])
    over = threading.Event()

    def sender():
        try:
            bad.send(struct.pack(">HHHB", 1, 0, 0xFFFF, bad_sid))
            while not over.wait(0.25):
                bad.send(b"\0")
        except OSError:
            pass
    thread = threading.Thread(target=sender, daemon=True)
    thread.start()
    ctx.count("bad clients")
    stop = threading.Timer(14.0, over.set)
    stop.daemon = True
    stop.start()
    time.sleep(0.3)
    try:
        start = time.monotonic()
        good.exchange(60)
        if time.monotonic() - start > 10:
            ctx.finding("slow-drip", "a client which sends a frame of 65535 bytes one byte at a time (one each 0.25 s) "
                        "prevents the others from being answered as long as it lasts")
    finally:
        over.set()
        thread.join(10)
        bad.close()
        good.client.close()
    ctx.key("drip")
