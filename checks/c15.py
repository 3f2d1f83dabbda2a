"""C15: the RTU master returns only an intact answer from the slave it asked"""
import time

from vp import masters, wire
from vp.core import Violation
from vp.fakeserial import GAP, SerialException, TooManyReads
from vp.faulty import poison

LEVEL = "exploration"
RULE = ("a case is a session of 20 exchanges of a RtuMaster with a scripted slave on a stand-in for the serial port: good "
        "answers in any pieces, exception responses, corrupted, truncated, foreign, late, duplicated answers, silence, noise "
        "before the request, errors of the port, slow but steady answers, with or without local echo, expected length and software timeout; values "
        "must be those of an intact answer received after the request, everything else must raise in a bounded number of "
        "reads, and a good answer is accepted whatever happened before; distinct by (behaviour, options, request)")
ASSUMPTIONS = ["the port is a stand-in for pyserial which gives the bytes and the silences of a script",
               "with local echo handling, one read of the length of the request returns the echo (as pyserial does)",
               "a slave which talks for ever is only bounded with an expected length or with the software timeout"]
WORDS = (1, 2, 3, 4, 5, 6, 15, 16, 22, 23)
KINDS = ("good", "good", "good", "good", "good pieces", "good pieces", "good and more", "exception", "exception", "bad crc",
         "corrupted", "corrupted", "crc swapped", "wrong address", "wrong address", "wrong function", "truncated", "truncated",
         "silence", "silence inside", "late", "noise", "garbage", "bad count", "short with crc", "read error", "write error",
         "babble", "slow", "shifted", "no crc")


def plan(tier):
    k = 1 if tier == "quick" else 15
    return [dict(kind="session", n=700 * k, budget=25 * k, min=20, stall=90, name="session-%d" % p) for p in range(6)]


def need(tier):
    return {"values": 5000, "errors": 5000, "exceptions": 400, "recoveries": 2000, "stale data ignored": 1500, "echoes": 2000,
            "steady": 10, "wide values": 300}


def pieces(rng, data):
    out = []
    while data:
        size = rng.choice((1, 1, 2, 3, 7, 50, 300))
        out.append(data[:size])
        data = data[size:]
    return out


def items(rng, kind, call, code):
    """what comes after the request: (items, expected)"""
    good = wire.rtu(call.slave, call.answer)
    bad = poison(rng, call) if call.fct in WORDS else None
    if kind in ("good", "slow", "steady"):
        return [good], "value"
    if kind == "good pieces":
        return pieces(rng, good), "value"
    if kind == "good and more":
        # the answer, a silence and things nobody has asked for
        more = rng.choice((good, wire.rtu(call.slave, bad or b"\x03\x02\0\0"), b"\0\1\2"))
        return pieces(rng, good) + [GAP] + [more], "value"
    if kind == "exception":
        return pieces(rng, wire.rtu(call.slave, bytes([call.pdu[0] | 0x80, code]))), code
    if kind == "bad crc":
        frame = bytearray(good)
        frame[-rng.randint(1, 2)] ^= 1 << rng.randrange(8)
        return pieces(rng, bytes(frame)), "error"
    if kind == "corrupted":
        frame = bytearray(good)
        for bit in rng.sample(range(8 * len(frame)), rng.choice((1, 1, 2, 3))):
            frame[bit // 8] ^= 1 << (bit % 8)
        return pieces(rng, bytes(frame)), "error"
    if kind == "crc swapped":
        crc = good[-2:]
        return pieces(rng, good[:-2] + (crc[::-1] if crc[0] != crc[1] else bytes([crc[0] ^ 1, crc[1]]))), "error"
    if kind == "no crc":
        return pieces(rng, good[:-2] + rng.choice((b"\0\0", b"\xff\xff", b""))), "error"
    if kind == "wrong address":
        return pieces(rng, wire.rtu(call.slave ^ rng.choice((1, 2, 128, 255)), rng.choice((call.answer, bad or b"\1\2\3")))), "error"
    if kind == "wrong function":
        other = rng.choice([f for f in WORDS if f != call.pdu[0]])
        return pieces(rng, wire.rtu(call.slave, bytes([other]) + call.answer[1:])), "error"
    if kind == "truncated":
        return pieces(rng, good[:rng.randrange(1, len(good))]), "error"
    if kind == "shifted":
        return pieces(rng, good[rng.randrange(1, len(good)):]), "error"
    if kind == "silence inside":
        cut = rng.randrange(1, len(good))
        return pieces(rng, good[:cut]) + [GAP] * rng.randint(1, 2) + pieces(rng, good[cut:]), "error"
    if kind == "noise":
        return pieces(rng, bytes(rng.randrange(256) for _ in range(rng.randint(1, 4))) + good), "error"
    if kind == "garbage":
        return pieces(rng, bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 5, 9, 30, 400))))), "error"
    if kind == "bad count":
        if call.fct in (1, 2, 3, 4, 23):
            return pieces(rng, wire.rtu(call.slave, bytes([call.answer[0], call.answer[1] ^ rng.choice((1, 2, 4, 128))])
                                        + call.answer[2:])), "error"
        return [], "error"
    if kind == "short with crc":
        if call.fct in WORDS:
            return pieces(rng, wire.rtu(call.slave, call.answer[:rng.randrange(0, len(call.answer))])), "error"
        return [], "error"
    # silence, late, read error, write error, babble
    return [], "error"


def case(ctx, rng, i):
    echo = rng.random() < 0.4
    link = masters.RtuLink(ctx.lib, echo=False)
    port, master = link.serial, link.master
    master.handle_local_echo = echo
    port.gather = rng.random() < 0.5
    software = rng.random() < 0.3
    master.set_timeout(30.0, use_sw_timeout=software)
    trail = []
    if rng.random() < 0.3:
        master.set_verbose(True)
    try:
        for step in range(20):
            kind = rng.choice(KINDS)
            if trail and trail[-1][1] == "error" and rng.random() < 0.5:
                kind = "good"
            if rng.random() < 0.0012:
                kind = "steady"
            call = masters.random_call(rng, small=rng.random() < 0.7,
                                       fcts=masters.FCTS if kind.startswith("good") or kind == "exception" else WORDS)
            if kind in ("good", "good pieces", "good and more") and rng.random() < 0.15:
                wide = masters.longer(rng, call)
                if wide:
                    call = wide
                    ctx.count("wide values")
            code = rng.choice((1, 2, 3, 4, 5, 6, 8, 10, 11))
            todo, expect = items(rng, kind, call, code)
            more = {}
            if expect == "value" and rng.random() < 0.2:
                more["expected_length"] = 2 + len(call.answer) + 1
            if kind == "good and more" and call.fct == 43:
                more["expected_length"] = 2 + len(call.answer) + 1
            # -- what is there before
            stale = None
            if rng.random() < 0.3:
                stale = rng.choice((wire.rtu(call.slave, poison(rng, call) if call.fct in WORDS else call.pdu),
                                    wire.rtu(call.slave, call.answer), b"\0", b"\xff" * rng.choice((1, 300, 5000)),
                                    wire.rtu(call.slave, bytes([call.pdu[0] | 0x80, 2]))))
                port.feed(rng.choice(([stale], pieces(rng, stale)[:400], [GAP, stale])))
            seed = rng.random()

            def reply(one, tid, slave, pdu):
                import random
                rnd = random.Random(seed)
                out = list(todo)
                if echo:
                    sent = wire.rtu(slave, pdu)
                    if port.gather and rnd.random() < 0.5:
                        out = pieces(rnd, sent) + out
                    elif out and isinstance(out[0], bytes) and rnd.random() < 0.5:
                        out[0] = sent + out[0]
                    else:
                        out = [sent] + out
                if kind == "read error":
                    out.append(rnd.choice((SerialException("failure"), OSError(5, "Input/output error"))))
                if kind == "babble":
                    port.babble = lambda: bytes(rnd.randrange(256) for _ in range(rnd.choice((1, 5, 40))))
                return out
            link.reply = reply
            if kind == "write error":
                port.fault(rng.choice(("write", "write", "read") if not echo else ("write",)), SerialException("failure"))
            timeout = None
            if kind == "steady":
                # the bytes come one by one during the most part of the timeout
                timeout = 0.2
                todo = [bytes([b]) for b in todo[0]]
                port.delay = 0.75 * timeout / (len(todo) + (len(call.pdu) + 3 if echo else 0))
                master.set_timeout(timeout, use_sw_timeout=True)
                port.gather, gather = False, port.gather
            elif kind == "slow":
                if software and len(call.answer) > 4:
                    # each byte takes 10 ms: the whole answer does not come within the timeout
                    timeout, expect = 0.02, "error"
                    todo = [bytes([b]) for b in todo[0]]
                    port.delay = 0.01
                    master.set_timeout(timeout, use_sw_timeout=True)
                    port.gather, gather = False, port.gather
                else:
                    kind = "good"
            elif rng.random() < 0.1 and not echo and kind not in ("babble", "good and more") and not software:
                # a port which never waits
                timeout = 0
                master.set_timeout(0)
            if rng.random() < 0.05:
                master.close()
            before, reads = len(link.requests), port.reads
            available = sum(len(x) for x in todo if isinstance(x, bytes)) + 3 * len(todo) + 300
            port.max_reads = port.reads + (2000 if kind == "babble" else available)
            result = error = None
            began = time.time()
            try:
                result = call.run(master, **more)
            except Exception as exc:  # noqa
                error = exc
            except TooManyReads as exc:
                raise Violation("the exchange (%s) does not end: %s" % (kind, exc), call=repr(call)[:300], trail=trail[-5:])
            lasted = time.time() - began
            trail.append((kind, "error" if error is not None else "ok"))
            if kind == "steady":
                if lasted < timeout - 0.001:
                    ctx.count("steady")
                elif error is not None:
                    # too slow
                    expect = "error"
            witness = dict(trail=trail[-6:], call=repr(call)[:300], todo=todo, stale=stale, echo=echo, software=software,
                           timeout=timeout, more=more, gather=port.gather, error=repr(error), result=repr(result)[:300])
            port.babble, port.delay, port.max_reads = None, 0, None
            del port.faults[:]
            if timeout is not None:
                master.set_timeout(30.0, use_sw_timeout=software)
                if timeout:
                    port.gather = gather
            if link.problem:
                raise Violation(link.problem, **witness)
            if expect == "value":
                if error is not None:
                    raise Violation("a good answer (%s) raises %s: %s" % (kind, type(error).__name__, error), **witness)
                if result != call.result:
                    raise Violation("the result is %r instead of %r" % (result, call.result), **witness)
                ctx.count("values")
                if len(trail) > 1 and trail[-2][1] == "error":
                    ctx.count("recoveries")
                if stale:
                    ctx.count("stale data ignored")
                if echo:
                    ctx.count("echoes")
                if not more and call.fct != 43 and call.kwargs.get("expected_length") is None and len(todo) == 1 and \
                        port.reads - reads > len(todo[0]) + 5 + len(call.pdu):
                    raise Violation("%d reads for an answer of %d bytes" % (port.reads - reads, len(todo[0])), **witness)
            elif expect == "error":
                if error is None:
                    raise Violation("the exchange (%s) returns %r" % (kind, result), **witness)
                if type(error).__name__ == "ModbusError" and kind not in ("corrupted", "garbage"):
                    raise Violation("the exchange (%s) raises a modbus exception which was not received: %s" % (
                        kind, error), **witness)
                ctx.count("errors")
            else:
                if type(error).__name__ != "ModbusError" or error.get_exception_code() != expect:
                    raise Violation("the exception response %d gives %r" % (
                        expect, error if error is not None else result), **witness)
                ctx.count("exceptions")
            sent = link.requests[before:]
            if (kind != "write error" and sent != [wire.rtu(call.slave, call.pdu)]) or len(sent) > 1:
                raise Violation("the bytes sent are %s instead of %s" % (
                    [s.hex() for s in sent], wire.rtu(call.slave, call.pdu).hex()), **witness)
            if kind == "late":
                # the answer comes between the two requests
                port.feed(pieces(rng, wire.rtu(call.slave, call.answer)))
            ctx.state("behaviours", kind, call.fct, echo, software)
            ctx.key(kind, call.pdu, echo, software, bool(stale))
        ctx.count("exchanges", len(trail))
        ctx.sample(dict(trail=trail, echo=echo, software=software))
    finally:
        link.close()
