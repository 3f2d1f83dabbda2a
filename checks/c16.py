"""C16: the RTU over TCP master is bounded and returns only intact answers"""
from vp import faulty

LEVEL = "exploration"
RULE = ("a case is a session of 6 to 14 exchanges of a RtuOverTcpMaster with a scripted slave which answers well or not "
        "(corrupted, wrong CRC, address or function, short, late, closed, reset, silent, exception responses), with data "
        "left in the connection before some requests; values are returned only for an intact response, exception responses "
        "are raised without waiting, everything else raises within the timeout and the next good exchange succeeds; "
        "distinct by (behaviour, request)")
ASSUMPTIONS = ["an exchange may last 8 s over its timeout (a loaded machine), not 1.5 s several times running"]


def plan(tier):
    k = 1 if tier == "quick" else 15
    return [dict(kind="session", n=400 * k, budget=25 * k, min=10, stall=120, name="session-%d" % p) for p in range(8)]


def need(tier):
    return {"values": 1500, "errors": 800, "recoveries": 500, "stale data ignored": 200, "exceptions": 100}


def case(ctx, rng, i):
    faulty.session(ctx, rng, "rtu",
                   lambda port: ctx.lib.modbus_rtu_over_tcp.RtuOverTcpMaster("127.0.0.1", port, faulty.LONG))
