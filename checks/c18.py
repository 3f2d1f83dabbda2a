"""C18: transaction ids are unique among threads, on 16 bits, and roll over"""
import struct
import sys
import threading

from vp import masters, sched, wire
from vp.core import Violation

LEVEL = "exploration"
RULE = ("a case builds requests in 2 to 5 threads (under a controlled scheduler, at each bytecode instruction; free threads "
        "with a tiny switch interval; masters on sockets) from positions all over the range, most of them around the "
        "roll-over; the ids found in the bytes must be different from each other and from those of the 65534 requests before; "
        "distinct by (schedule, position)")
ASSUMPTIONS = ["the order of concurrent requests is unknown: the distance of two equal ids is only judged when it is too short "
               "for every order"]
WINDOW = 65535


def plan(tier):
    k = 1 if tier == "quick" else 15
    return ([dict(kind="sched", n=4000 * k, budget=20 * k, min=100, mode="sched", name="sched-%d" % p) for p in range(5)] +
            [dict(kind="free", n=40 * k, budget=20 * k, min=3), dict(kind="wire", n=60 * k, budget=20 * k, min=3)])


def need(tier):
    return {"ids": 500000, "roll-overs": 20, "concurrent roll-overs": 5, "sched ids": 5000, "wire ids": 200}


class History(object):
    """the last time each id was seen"""

    def __init__(self):
        self.last = {}
        self.base = 0

    def add(self, ids, ctx, **witness):
        """ids: those of requests built in an unknown order, after all the ones of the previous calls"""
        end = self.base + len(ids) - 1
        seen = set()
        for one in ids:
            if not 0 <= one <= 0xFFFF:
                raise Violation("the transaction id %d has not 16 bits" % one, **witness)
            if one in seen and len(ids) <= WINDOW:
                raise Violation("the transaction id %d is used twice" % one, ids=sorted(ids)[:300], **witness)
            seen.add(one)
            before = self.last.get(one)
            if before is not None and end - before < WINDOW:
                raise Violation("the transaction id %d is used again after %d requests at most" % (one, end - before),
                                ids=sorted(ids)[:300], **witness)
        for one in ids:
            self.last[one] = self.base
        if len(ids) > 1 and max(ids) - min(ids) > 40000:
            ctx.count("roll-overs")
            if ids is not None and witness.get("concurrent"):
                ctx.count("concurrent roll-overs")
        self.base += len(ids)
        ctx.count("ids", len(ids))
        return max(ids) if ids else None


def build(lib, query=None, pdu=b"\x03\0\0\0\1", slave=1):
    frame = bytes((query or lib.modbus_tcp.TcpQuery()).build_request(pdu, slave))
    (tid, proto, length, unit) = struct.unpack(">HHHB", frame[:7])
    if frame[7:] != pdu or proto != 0 or length != len(pdu) + 1 or unit != slave:
        raise Violation("the request %s is not the frame of %s" % (frame.hex(), pdu.hex()))
    return tid


def forward(ctx, history, count):
    """one thread, without interruption"""
    lib = ctx.lib
    query = lib.modbus_tcp.TcpQuery()
    for _ in range(count):
        tid = build(lib, query)
        history.add([tid], ctx)
    ctx.store["tid"] = tid


def position(ctx, rng, history, often):
    """go somewhere, often just before the end of the range"""
    if "tid" not in ctx.store:
        forward(ctx, history, 1)
    todo = (0xFFFF - ctx.store["tid"]) & 0xFFFF
    if todo < 3000 or rng.random() < often:
        forward(ctx, history, max(1, todo - rng.randint(0, 12)))
    elif rng.random() < 0.1:
        forward(ctx, history, rng.randint(1, 500))


def case(ctx, rng, i):
    history = ctx.store.setdefault("history", History())
    lib = ctx.lib
    if ctx.kind == "wire":
        return on_wire(ctx, rng, history)
    if ctx.kind == "free":
        return free(ctx, rng, history)
    position(ctx, rng, history, 0.002)
    ids = []
    count = rng.randint(2, 5)
    pdus = [bytes([3, 0, k, 0, 1]) for k in range(count)]
    shared = lib.modbus_tcp.TcpQuery() if rng.random() < 0.2 else None

    def maker(k, n):
        def main():
            for _ in range(n):
                # a query per request, as the masters do
                frame = bytes(lib.modbus_tcp.TcpQuery().build_request(pdus[k], k + 1))
                ids.append(struct.unpack(">H", frame[:2])[0])
                if frame[6:] != bytes([k + 1]) + pdus[k]:
                    raise Violation("the request %s is not the one of the thread" % frame.hex())
        return main
    del shared
    run = sched.make_run(rng, opcodes=rng.random() < 0.8, horizon=120)
    start = ctx.store["tid"]
    run.execute([("t%d" % k, maker(k, rng.randint(1, 5))) for k in range(count)])
    if run.deadlock:
        raise Violation("deadlock: " + run.deadlock, stacks=run.stacks)
    for _, error in run.errors():
        raise error
    history.add(ids, ctx, concurrent=True, start=start)
    ctx.store["tid"] = ids[-1] if max(ids) - min(ids) > 40000 else max(ids)
    ctx.count("sched ids", len(ids))
    ctx.count("switches", run.switches)
    ctx.key(run.sched_hash, start)
    ctx.state("schedules", run.sched_hash)
    ctx.sample(dict(start=start, ids=ids))


def free(ctx, rng, history):
    lib = ctx.lib
    ids, threads, errors = [], [], []
    total = rng.choice((500, 20000, 60000))
    count = rng.choice((2, 4, 8))
    if rng.random() < 0.5:
        position(ctx, rng, history, 1)
    start = ctx.store.get("tid")

    def main():
        mine = []
        try:
            for _ in range(total // count):
                mine.append(build(lib))
        except BaseException as exc:  # noqa
            errors.append(exc)
        ids.extend(mine)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(count):
            threads.append(threading.Thread(target=main))
            threads[-1].start()
        for thread in threads:
            thread.join()
    finally:
        sys.setswitchinterval(interval)
    if errors:
        raise errors[0]
    history.add(ids, ctx, concurrent=True, threads=count, start=start)
    forward(ctx, history, 1)
    ctx.key("free", start, total, count)


def on_wire(ctx, rng, history):
    """masters in threads around the roll-over: every exchange succeeds"""
    lib = ctx.lib
    position(ctx, rng, history, 0.5)
    links = [masters.TcpLink(lib) for _ in range(rng.randint(1, 4))]
    start = ctx.store["tid"]
    ids, errors, threads = [], [], []

    def main(link, calls):
        try:
            for call in calls:
                link.reply = lambda one, tid, slave, pdu, call=call: ids.append(tid) or [wire.mbap(tid, slave, call.answer)]
                got = call.run(link.master)
                if got != call.result:
                    raise Violation("%r returns %r instead of %r" % (call, got, call.result))
        except BaseException as exc:  # noqa
            errors.append(exc)
    try:
        for link in links:
            calls = [masters.random_call(rng, (1, 3, 6, 16), small=True) for _ in range(rng.randint(5, 20))]
            threads.append(threading.Thread(target=main, args=(link, calls), daemon=True))
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        if errors:
            raise errors[0]
    finally:
        for link in links:
            link.close()
    history.add(ids, ctx, concurrent=True, start=start)
    ctx.count("wire ids", len(ids))
    forward(ctx, history, 1)
    ctx.key("wire", start, len(ids))
