"""C12: the master encodes the requests and decodes the responses as the protocol says"""
import struct

from vp import masters, wire
from vp.core import Violation

LEVEL = "exploration"
RULE = ("a case is a call of Master.execute with random valid arguments on one of the three masters; the bytes received by "
        "the slave played by the test must be those of an independent encoder, and the value returned for its answer (valid, "
        "exception, wrong byte count, wrong function) what an independent decoder gives; distinct by (function, arguments, "
        "kind of answer)")
ASSUMPTIONS = ["device identification is not called over RTU over TCP, where the master does not know the length of the answer"]
CODES = (1, 2, 3, 4, 5, 6, 8, 10, 11, 0, 0x55, 255)


def plan(tier):
    k = 1 if tier == "quick" else 20
    return [dict(kind=kind, n=(2500 if kind == "rtu" else 2000) * k, budget=22 * k, min=100, name="%s-%d" % (kind, p))
            for kind, count in (("rtu", 3), ("tcp", 3), ("rtu over tcp", 2)) for p in range(count)]


def need(tier):
    return {"valid": 3000, "exceptions": 400, "rejected": 400, "functions": 15 * 3, "wide values": 200}


def setup(ctx):
    ctx.store["link"] = masters.LINKS[ctx.kind](ctx.lib)
    ctx.store["fcts"] = set()


def teardown(ctx):
    ctx.count("functions", len(ctx.store["fcts"]))
    ctx.store["link"].close()


def case(ctx, rng, i):
    lib, link = ctx.lib, ctx.store["link"]
    fcts = masters.FCTS if ctx.kind != "rtu over tcp" else [f for f in masters.FCTS if f != 43]
    call = masters.random_call(rng, fcts)
    if ctx.kind == "tcp" and rng.random() < 0.03:
        # over TCP the unit 0 is also the device itself, which answers
        call.slave = 0
        ctx.count("unit 0")
    what = rng.choice(("valid",) * 6 + ("exception", "exception", "count", "function"))
    raw = rng.random() < 0.1
    if what == "valid" and rng.random() < 0.4:
        wide = masters.longer(rng, call)
        if wide:
            call = wide
            ctx.count("wide values")
    answer = call.answer
    if what == "exception":
        code = rng.choice(CODES)
        answer = bytes([call.pdu[0] | 0x80, code])
    elif what == "count":
        if call.fct not in masters.READS:
            what = "valid"
        else:
            # the byte count is not the number of bytes
            wrong = rng.choice([n for n in (answer[1] - 1, answer[1] + 1, 0, 255, answer[1] ^ 0x80) if
                                0 <= n <= 255 and n != answer[1]])
            answer = bytes([answer[0], wrong]) + answer[2:]
    elif what == "function":
        other = rng.choice([f for f in (1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 0, 127, call.pdu[0] ^ 1, call.pdu[0] + 1)
                            if f != call.pdu[0] and f < 0x80])
        answer = bytes([other]) + answer[1:]
    got = []

    def reply(lnk, tid, slave, pdu):
        got.append((slave, pdu))
        frame = lnk.frame(tid, slave, answer)
        return [frame]

    link.reply = reply
    link.problem = None
    count = len(link.requests)
    witness = dict(call=repr(call)[:600], answer=answer, kind=ctx.kind, what=what)
    error = result = None
    try:
        result = call.run(link.master, **(dict(returns_raw=True) if raw else {}))
    except Exception as exc:  # noqa
        error = exc
    if link.problem:
        raise Violation(link.problem, **witness)
    if len(got) != 1 or len(link.requests) != count + 1:
        raise Violation("%d requests are sent instead of one (%r)" % (len(got), error), **witness)
    if got[0] != (call.slave, call.pdu):
        raise Violation("the request sent to slave %d is %s instead of %s" % (got[0][0], got[0][1].hex(), call.pdu.hex()),
                        **witness)
    if what == "valid":
        want = bytes(call.data) if raw else call.result
        if error is not None:
            raise Violation("a valid response raises %s: %s" % (type(error).__name__, error), **witness)
        have = bytes(result) if raw else result
        if have != want or (not raw and not isinstance(result, tuple)):
            raise Violation("the result is %r instead of %r" % (have, want), **witness)
        ctx.count("valid")
    elif what == "exception":
        if not isinstance(error, lib.modbus.ModbusError) or error.get_exception_code() != code:
            raise Violation("the exception response %s gives %r" % (answer.hex(), error if error is not None else result),
                            **witness)
        if str(code) not in str(error):
            raise Violation("the message of the error does not tell the exception code %d: %r" % (code, str(error)), **witness)
        ctx.count("exceptions")
    else:
        if not isinstance(error, lib.modbus.ModbusInvalidResponseError):
            raise Violation("a response with a wrong %s gives %r" % (
                what, "%s %s" % (type(error).__name__, error) if error is not None else result), **witness)
        ctx.count("rejected")
    ctx.store["fcts"].add((call.pdu[0] if call.fct else "raw"))
    ctx.key(call.fct, call.pdu, what)
    ctx.state("functions", call.fct, what)
    ctx.sample(dict(call=repr(call)[:200], pdu=call.pdu, answer=answer, result=result))
