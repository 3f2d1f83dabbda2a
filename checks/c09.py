"""C09: the TCP server answers each request once, in order, with its own header"""
import collections
import struct
import threading
import time

from vp import model, wire
from vp.core import Violation, Inconclusive
from vp.net import RawClient, tcp_server, stop_server
from vp.world import World, valid_write, valid_read

LEVEL = "exploration"
RULE = ("a case opens 1 to 200 connections to a TcpServer on the loopback; each sends a stream of requests (valid, refused, "
        "to missing slaves, broadcasts) cut into random segments or all at once; the bytes received on each connection "
        "must be exactly the answers of the model of its slave with the header of each request, in order; distinct by "
        "(connections, cut, functions)")
ASSUMPTIONS = ["the client sends each request within the second the server allows, and reads its answers without pausing: "
               "a connection on which the harness itself was slower is not judged"]


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="streams", n=300 * k, budget=25 * k, min=8, stall=90, name="streams-%d" % p) for p in range(3)] +
            [dict(kind="many", n=12 * k, budget=25 * k, min=1, stall=120)] +
            [dict(kind="threads", n=60 * k, budget=25 * k, min=2, stall=90)] +
            [dict(kind="volume", n=12 * k, budget=25 * k, min=1, stall=120)] +
            [dict(kind="cuts", n=40 * k, budget=25 * k, min=2, stall=90)] +
            [dict(kind="idle", n=1 if k == 1 else 6, budget=25 * k, min=1, stall=200)])


def need(tier):
    return {"answers": 5000, "connections": 150, "segments": 5000, "unanswered": 300, "executed": 4000,
            "repeated": 100, "idle": 8}


SLOW = 0.4      # s: the harness was slow


def setup(ctx):
    ctx.store["server"], ctx.store["port"] = tcp_server(ctx.lib)


def teardown(ctx):
    stop_server(ctx.store["server"])


class Script(object):
    """what a connection sends, and the judge of what it receives"""

    def __init__(self, ctx, rng, world, sid, client):
        self.ctx, self.rng, self.world, self.sid, self.client = ctx, rng, world, sid, client
        self.requests = []      # (frame, header, pdu, answered)
        self.tid = rng.randrange(65536)
        self.pending = b""
        self.slow = self.half = False
        self.last = None
        self.received = []
        self.history = []       # every request

    def make(self, count):
        rng = self.rng
        mod = self.world.models[self.sid]
        style = rng.randrange(4)
        for k in range(count):
            if style == 0:
                self.tid = (self.tid + 1) & 0xFFFF
            elif style == 1:
                self.tid = rng.choice((0, 1, 0xFFFF, 0x0100, 0x1234))
            elif style == 2:
                self.tid = rng.randrange(65536)
            proto = 0 if rng.random() < 0.95 else rng.choice((1, 0xFFFF, 0x0102))
            unit = self.sid
            # when the last one is answered nothing is left to be done
            what = rng.random() * (1 if k < count - 1 else 0.9)
            if what < 0.45:
                pdu = valid_write(rng, mod)
            elif what < 0.8:
                pdu = valid_read(rng, mod)
            elif what < 0.9:
                pdu = rng.choice((valid_write(rng, mod)[:-1] or b"\x07", b"\x07", b"\x08\0\0\0\0",
                                  wire.read_pdu(3, rng.randrange(65536), rng.randrange(200)),
                                  wire.read_pdu(1, rng.randrange(65536), rng.randrange(2100))))
            elif what < 0.97:
                # nothing comes back
                unit = self.world.missing
                pdu = valid_write(rng, mod) if rng.random() < 0.7 else b""
            else:
                unit = 0
                pdu = valid_read(rng, mod)
            frame = wire.mbap(self.tid, unit, pdu, protocol=proto)
            self.requests.append((frame, frame[:4] + bytes([unit]), pdu, unit == self.sid))
            while rng.random() < 0.06:
                # the same bytes again
                self.requests.append(self.requests[-1])
                self.ctx.count("repeated")
        self.history += self.requests
        self.pending = b"".join(r[0] for r in self.requests)
        return self

    def segment(self, style):
        """the next piece to be sent"""
        rng = self.rng
        size = {"bytes": 1, "small": rng.randint(1, 9), "medium": rng.randint(1, 300), "all": len(self.pending)}[style]
        piece, self.pending = self.pending[:size], self.pending[size:]
        return piece

    def send(self, piece):
        now = time.monotonic()
        if self.last is not None and now - self.last > SLOW:
            self.slow = True
        try:
            self.client.send(piece)
        except OSError as exc:
            if not self.slow:
                raise Violation("the connection is lost in the middle of a request (%s)" % exc, timing=True,
                                requests=[r[0] for r in self.requests][:6])
            self.pending = b""
        self.last = now
        self.ctx.count("segments")

    def judge(self, frames):
        """frames: what was received, in order"""
        mod = self.world.models[self.sid]
        frames = list(frames)
        for k, (frame, head, pdu, answered) in enumerate(self.requests):
            if not answered:
                self.ctx.count("unanswered")
                continue
            outs = mod.request(pdu)
            got = frames.pop(0) if frames else b""
            witness = dict(request=frame, answer=got, number=k, requests=[r[0] for r in self.requests][:k + 1][-6:])
            if not got:
                raise Violation("the connection is closed before the answer to a request", **witness)
            (length,) = struct.unpack(">H", got[4:6])
            if len(got) < 8 or got[:4] != head[:4] or got[6:7] != head[4:] or length != len(got) - 6:
                raise Violation("the header of the answer %s is not the one of the request %s" % (
                    got.hex(), frame.hex()), **witness)
            out = model.match(outs, got[7:])
            if out is None:
                raise Violation("the answer %s to %s is not one of %s" % (got.hex(), frame.hex(), outs[:3]), **witness)
            out.apply()
            self.ctx.count("answers")
        if frames:
            raise Violation("%d answers too many: %s" % (len(frames), frames[0].hex()))

    def expected(self):
        return sum(1 for r in self.requests if r[3])


def make_world(ctx, rng, count, max_blocks=5):
    world = World(ctx, rng, slaves=count, paths=(), max_blocks=max_blocks, db=ctx.store["server"].get_db())
    world.missing = next(s for s in range(1, 256) if s not in world.models)
    for sid in world.models:
        world.fill(sid)
    return world


def case(ctx, rng, i):
    count = {"many": rng.choice((60, 120, 200)), "volume": 1, "threads": rng.choice((2, 4, 8)), "idle": 8}.get(
        ctx.kind, rng.choice((1, 1, 2, 3, 5, 8, 20)))
    world = make_world(ctx, rng, count)
    scripts = []
    ids = {id(slave): sid for sid, slave in world.slaves.items()}
    executed = {sid: collections.Counter() for sid in world.slaves}

    def on_request(args):
        if id(args[0]) in ids:
            executed[ids[id(args[0])]][bytes(args[1])] += 1
    ctx.lib.hooks.install_hook("modbus.Slave.handle_request", on_request)
    try:
        for sid in sorted(world.models):
            scripts.append(Script(ctx, rng, world, sid, RawClient(ctx.store["port"])))
        ctx.count("connections", count)
        if ctx.kind == "threads":
            threads(ctx, rng, scripts)
        elif ctx.kind == "volume":
            volume(ctx, rng, world, scripts)
        elif ctx.kind == "cuts":
            cuts(ctx, rng, scripts)
        elif ctx.kind == "idle":
            idle(ctx, rng, scripts)
        else:
            streams(ctx, rng, scripts)
        for script in scripts:
            if not script.slow:
                world.check_image(script.sid, "at the end")
                if script.half:
                    rest = script.client.closed()
                    if rest is None:
                        raise Violation("the connection ended by the client is not closed", timing=True)
                    if rest:
                        raise Violation("bytes are received without a request: %r" % (rest,))
                elif not script.client.quiet():
                    raise Violation("bytes are received without a request: %r" % (script.client.buf,))
            else:
                ctx.count("slow harness")
        if not any(script.slow for script in scripts) and not ctx.store.get("slow"):
            check_executed(ctx, executed, scripts)
        ctx.store["slow"] = any(script.slow for script in scripts)
    finally:
        ctx.lib.hooks.uninstall_hook("modbus.Slave.handle_request", on_request)
        for script in scripts:
            script.client.close()


def check_executed(ctx, executed, scripts):
    """each request is executed once by its slave"""
    # the read requests to everybody are refused by the first slave which sees them
    common = {pdu for script in scripts for _, head, pdu, _ in script.history if head[4] == 0}
    for script in scripts:
        want = collections.Counter(pdu for _, head, pdu, _ in script.history if head[4] == script.sid)
        got = executed[script.sid]
        for pdu in set(got) | set(want):
            if pdu not in common and got[pdu] != want[pdu]:
                raise Violation("the request %s to the slave %d is executed %d times instead of %d" % (
                    pdu.hex(), script.sid, got[pdu], want[pdu]))
        ctx.count("executed", sum(got.values()))


def collect(script):
    frames = []
    for _ in range(script.expected()):
        try:
            frame = script.client.frame()
        except Violation:
            if script.slow:
                return None
            raise
        if not frame:
            break
        frames.append(frame)
    return frames


def finish(ctx, rng, scripts):
    order = list(scripts)
    rng.shuffle(order)
    for script in order:
        frames = collect(script)
        if script.slow:
            continue
        script.judge(frames)


def streams(ctx, rng, scripts):
    """everything from one thread: pieces of all the connections, mixed"""
    style = rng.choice(("bytes", "small", "medium", "all", "all"))
    for script in scripts:
        script.make(rng.randint(1, 6) if style == "bytes" or len(scripts) > 20 else rng.randint(5, 30))
    if rng.random() < 0.15:
        half = True
    else:
        half = False
    active = list(scripts)
    while active:
        # the server waits for the end of a started request: do not leave it for long
        script = rng.choice(active[:4])
        script.send(script.segment(style))
        if not script.pending:
            active.remove(script)
            if half:
                script.half = True
                script.client.sock.shutdown(1)
        elif style in ("bytes", "small") and rng.random() < 0.02:
            time.sleep(0.001)
    finish(ctx, rng, scripts)
    ctx.key(len(scripts), style, [bytes(r[2][:1]) for r in scripts[0].requests], half)
    ctx.sample(dict(connections=len(scripts), style=style, first=scripts[0].requests[0][0]))


def cuts(ctx, rng, scripts):
    """a request cut in two at each byte, answered before the next one"""
    script = scripts[0]
    for other in scripts[1:]:
        other.make(0)
    pdu = rng.choice((valid_write, valid_read))(rng, script.world.models[script.sid])
    size = 7 + len(pdu)
    where = range(1, size) if size < 40 else sorted(rng.sample(range(1, size), 25) + [6, 7, 8])
    for cut in where:
        if rng.random() < 0.6 or not script.requests:
            frame = wire.mbap(rng.randrange(65536), script.sid, pdu)
            script.requests = [(frame, frame[:4] + bytes([script.sid]), pdu, True)]
        else:
            # the same bytes again, while the values have changed
            (frame, _, _, _), = script.requests
            script.world.fill(script.sid)
            ctx.count("repeated")
        script.history += script.requests
        script.last = None
        script.send(frame[:cut])
        if rng.random() < 0.5:
            time.sleep(0.002)
        script.send(frame[cut:])
        frames = collect(script)
        if script.slow:
            return
        script.judge(frames)
        ctx.key(pdu[0], cut)


def idle(ctx, rng, scripts):
    """connections which do nothing for a long time between two requests"""
    pauses = [2, 4, 6, 9, 12, 15, 18, 21] if ctx.tier == "quick" else [5, 15, 25, 31, 45, 61, 75, 90]
    pauses = pauses[:len(scripts)]
    start = time.monotonic()
    for script in scripts:
        script.make(2)
        script.send(script.segment("all"))
    finish(ctx, rng, scripts)
    for pause, script in zip(pauses, scripts[1:] + scripts[:1]):
        while time.monotonic() < start + pause:
            # the server has something to do, or not
            if rng.random() < 0.5 and script is not scripts[0]:
                scripts[0].requests = []
                scripts[0].make(1)
                scripts[0].last = None
                scripts[0].send(scripts[0].segment("all"))
                finish(ctx, rng, scripts[:1])
            time.sleep(0.2)
        script.requests = []
        script.make(3)
        script.last = None
        script.send(script.segment("all"))
        finish(ctx, rng, [script])
        ctx.count("idle")
        ctx.key("idle", pause)


def threads(ctx, rng, scripts):
    """each connection in its own thread, one request at a time or pipelined"""
    seeds = [rng.random() for _ in scripts]
    for script in scripts:
        script.make(rng.randint(20, 60))
    errors = []

    def main(script, seed):
        import random
        rnd = random.Random(seed)
        try:
            todo = list(script.requests)
            while todo:
                size = rnd.choice((1, 1, 3, 10))
                batch, todo = todo[:size], todo[size:]
                data = b"".join(r[0] for r in batch)
                pos = 0
                script.last = None
                while pos < len(data):
                    size = rnd.choice((1, 5, 7, 50, 1000))
                    script.send(data[pos:pos + size])
                    pos += size
                for req in batch:
                    if req[3]:
                        script.received.append(script.client.frame())
        except Exception as exc:  # noqa
            errors.append((script, exc))

    workers = [threading.Thread(target=main, args=(s, seed), daemon=True) for s, seed in zip(scripts, seeds)]
    for thread in workers:
        thread.start()
    for thread in workers:
        thread.join()
    for script, exc in errors:
        if not script.slow:
            raise exc
    for script in scripts:
        if not script.slow:
            script.judge(script.received)
    ctx.key("threads", ctx.i)


def volume(ctx, rng, world, scripts):
    """a lot of requests sent without waiting, the answers being read meanwhile through a small buffer"""
    script = scripts[0]
    script.client.close()
    script.client = RawClient(ctx.store["port"], rcvbuf=rng.choice((2048, 8192)))
    script.make(rng.choice((1000, 2000)))
    errors = []

    def sender():
        try:
            while script.pending:
                script.client.sock.sendall(script.segment(rng.choice(("medium", "all"))))
        except OSError as exc:
            errors.append(exc)
    thread = threading.Thread(target=sender, daemon=True)
    thread.start()
    frames = []
    last = time.monotonic()
    for _ in range(script.expected()):
        try:
            frame = script.client.frame()
        except Violation:
            if script.slow:
                break
            raise
        now = time.monotonic()
        if not frame:
            break
        frames.append(frame)
        if rng.random() < 0.01:
            time.sleep(0.003)
        if now - last > SLOW:
            script.slow = True
        last = now
    thread.join(30)
    if script.slow:
        return
    script.judge(frames)
    ctx.count("pipelined", len(frames))
    ctx.key("volume", ctx.i)
