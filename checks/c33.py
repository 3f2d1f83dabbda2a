"""C33: a master refuses the arguments it can not encode, before anything is sent"""
import threading

from vp import masters, wire
from vp.core import Violation

LEVEL = "exploration"
RULE = ("a case is a call of Master.execute with one argument which no request can carry (address, quantity, value, mask, file "
        "number or slave out of range, wrong type, missing, sequences of different lengths, function which is not supported), "
        "followed by a valid call, from the same thread or another one: the first raises an exception (the documented one when "
        "there is one) and puts nothing on the line, the second gets its answer on the same connection; distinct by "
        "(function, argument, value, master)")
ASSUMPTIONS = ["a value which fits in its field is not refused by the master, even if no slave accepts it"]


def plan(tier):
    k = 1 if tier == "quick" else 20
    return [dict(kind=kind, n=3000 * k, budget=20 * k, min=100, stall=90, name="%s-%d" % (kind, p))
            for kind, count in (("rtu", 2), ("tcp", 3), ("rtu over tcp", 2)) for p in range(count)]


def need(tier):
    return {"refused": 3000, "documented": 400, "next exchanges": 3000, "other threads": 200, "functions": 3 * 10}


BIG = (0x10000, 0x10001, 100000, 1 << 31, 1 << 32, (1 << 32) + 3, 1 << 64)
LOW = (-1, -2, -0x8000, -0x10000, -(1 << 40))


def setup(ctx):
    ctx.store["link"] = masters.LINKS[ctx.kind](ctx.lib)
    ctx.store["fcts"] = set()


def teardown(ctx):
    ctx.count("functions", len(ctx.store["fcts"]))
    ctx.store["link"].close()


def spoil(ctx, rng, call):
    """replace an argument by one which can not be sent: returns (what, documented exceptions or None)"""
    exc = ctx.lib.exceptions
    fct = call.fct
    ways = ["slave"] * 1
    if fct in (1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 8):
        ways += ["address"] * 2
    if fct in (1, 2, 3, 4, 23):
        ways += ["quantity"] * 2
    if fct == 6:
        ways += ["value"] * 4
    if fct in (15, 16, 23, 43):
        ways += ["no values"]
    if fct in (16, 23, 8):
        ways += ["one value"] * 3
    if fct in (15, 16, 23):
        ways += ["too many"] * 2
    if fct == 22:
        ways += ["mask"] * 4
    if fct == 23:
        ways += ["write address"] * 2
    if fct == 20:
        ways += ["file"] * 5
    ways += ["function"]
    what = rng.choice(ways)
    documented = None
    big = rng.choice(BIG + LOW)
    if what == "slave":
        call.slave = rng.choice((-1, 256, 257, 1000, 65537, -255))
        documented = exc.InvalidArgumentError
    elif what == "address":
        call.args[0] = rng.choice((big, None, "1", 1.5))
    elif what == "quantity":
        value = rng.choice((big if big < 100001 else 0x10000, None, "2"))
        if "quantity_of_x" in call.kwargs:
            call.kwargs["quantity_of_x"] = value
        else:
            call.args[1] = value
    elif what == "value":
        call.kwargs["output_value"] = rng.choice((0x10000, 0x10001, 1 << 32, -0x8001, -0x10000, None, "3"))
    elif what == "no values":
        if rng.random() < 0.5:
            call.kwargs.pop("output_value")
        else:
            call.kwargs["output_value"] = rng.choice((None, 3, 0x10000))
    elif what == "one value":
        values = list(call.kwargs["output_value"])
        bad = rng.choice((0x10000, 1 << 32, -0x8001, -0x10000, None, "4"))
        if fct == 8:
            bad = rng.choice((256, 1000, -1, None, "4"))
        where = rng.choice((0, len(values) - 1, rng.randrange(len(values))))
        values[where] = bad
        call.kwargs["output_value"] = masters.sequence(rng, values)
        big = (where, bad)
    elif what == "too many":
        # the number of bytes does not fit in a byte
        count = rng.choice((128, 129, 255, 256, 1000, 40000)) if fct != 15 else rng.choice((2041, 2048, 4096, 65535, 65536, 70000))
        call.kwargs["output_value"] = [rng.randrange(2) for _ in range(count)]
        big = count
    elif what == "mask":
        name = rng.choice(("and_mask", "or_mask"))
        if rng.random() < 0.3:
            call.kwargs.pop(name)
            documented = exc.ModbusInvalidRequestError
        else:
            call.kwargs[name] = big
            if big < 0:
                documented = exc.ModbusInvalidRequestError
        big = (name, big)
    elif what == "write address":
        call.kwargs["write_starting_address_fc23"] = rng.choice((big, None))
    elif what == "file":
        # three tuples of the same length
        addrs, lens, files = call.args[0], call.args[1], call.kwargs["number_file"]
        how = rng.choice(("list", "short", "long", "empty", "missing", "int", "range"))
        which = rng.randrange(3)
        items = [addrs, lens, files]
        one = items[which]
        documented = exc.ModbusInvalidRequestError
        if how == "list":
            items[which] = list(one)
        elif how == "short":
            items[which] = one[:-1]
        elif how == "long":
            items[which] = one + (1,)
        elif how == "empty":
            items = [(), (), ()]
        elif how == "missing":
            items[2] = None
        elif how == "int":
            items[which] = one[0]
        else:
            documented = None
            pos = rng.randrange(len(one))
            items[which] = one[:pos] + (big if which != 1 or big < 100001 else 0x10000,) + one[pos + 1:]
        call.args[:2] = items[:2]
        if items[2] is None:
            call.kwargs.pop("number_file")
        else:
            call.kwargs["number_file"] = items[2]
        big = (how, which)
    else:
        # not a function of the library
        call.fct = rng.choice((9, 10, 11, 12, 13, 14, 17, 18, 19, 21, 24, 25, 42, 44, 99, 101, 127, 128, 131, 255, 256, -1, None, "3"))
        documented = exc.ModbusFunctionNotSupportedError
        big = call.fct
    return (what, big), documented


def case(ctx, rng, i):
    link = ctx.store["link"]
    fcts = [f for f in masters.FCTS if f not in ("raw", 43) or ctx.kind != "rtu over tcp" and f != "raw"]
    call = masters.random_call(rng, fcts, small=rng.random() < 0.8)
    fct = call.fct
    (what, value), documented = spoil(ctx, rng, call)
    witness = dict(call=repr(call)[:600], kind=ctx.kind, what=what)
    seen = []

    def reply(lnk, tid, slave, pdu):
        seen.append((slave, pdu))
        return [lnk.frame(tid, slave, good.answer)]
    good = masters.random_call(rng, [f for f in fcts if f != 43], small=True)
    link.reply, link.problem = reply, None
    try:
        result = call.run(link.master)
    except Exception as exc:  # noqa
        error = exc
    else:
        raise Violation("%r returns %r" % (call, result), **witness)
    if documented is not None:
        if not isinstance(error, documented):
            raise Violation("%s raises %r instead of %s" % (repr(call)[:300], error, documented.__name__), **witness)
        ctx.count("documented")
    ctx.count("refused")
    # -- the next exchange
    conns = len(link.peer.conns) if hasattr(link, "peer") else 0
    outcome = []

    def other():
        try:
            outcome.append(good.run(link.master))
        except Exception as exc:  # noqa
            outcome.append(exc)
    if rng.random() < 0.2:
        thread = threading.Thread(target=other, daemon=True)
        thread.start()
        thread.join(40)
        ctx.count("other threads")
    else:
        other()
    witness["next"] = repr(good)[:300]
    if not outcome:
        raise Violation("the exchange of another thread does not end after a refused call", timing=True, **witness)
    if link.problem:
        raise Violation(link.problem, **witness)
    if seen != [(good.slave, good.pdu)]:
        raise Violation("the slave receives %s (expected: only the request %s of the valid call)" % (
            [(s, p.hex()) for s, p in seen], good.pdu.hex()), **witness)
    if isinstance(outcome[0], Exception) or tuple(outcome[0]) != tuple(good.result):
        raise Violation("the valid call which follows gives %r instead of %r" % (outcome[0], good.result), **witness)
    if conns and len(link.peer.conns) != conns:
        raise Violation("the connection is not kept", **witness)
    ctx.count("next exchanges")
    ctx.store["fcts"].add(fct)
    ctx.key(fct, what, value, ctx.kind)
    ctx.state("ways", fct, what, value if not isinstance(value, tuple) else value[0])
    ctx.sample(dict(call=repr(call)[:200], error=repr(error)))
