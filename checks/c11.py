"""C11: the TCP master only returns the answer to its own request"""
from vp import faulty

LEVEL = "exploration"
RULE = ("a case is a session of 6 to 14 exchanges of a TcpMaster with a scripted slave which answers well or not (wrong "
        "transaction, protocol, unit, length or function, truncated, cut by the end of the connection, late, duplicated, unsolicited, closed, reset, silent, "
        "switched off), with data left in the connection before some requests; values are returned only for a right "
        "response, everything else raises within the timeout and the next good exchange succeeds; distinct by (behaviour, "
        "request)")
ASSUMPTIONS = ["an exchange may last 8 s over its timeout (a loaded machine), not 1.5 s several times running"]
FRAMING = "tcp"


def plan(tier):
    k = 1 if tier == "quick" else 15
    return [dict(kind="session", n=400 * k, budget=25 * k, min=10, stall=120, name="session-%d" % p) for p in range(8)]


def need(tier):
    return {"values": 1500, "errors": 800, "recoveries": 500, "stale data ignored": 200, "exceptions": 100,
            "answers cut by the end of the connection": 50}


def case(ctx, rng, i):
    faulty.session(ctx, rng, "tcp", lambda port: ctx.lib.modbus_tcp.TcpMaster("127.0.0.1", port, faulty.LONG))
