"""A linearizability checker (Wing & Gong, with the memoization of Lowe) for small histories"""
import time


class Op(object):
    __slots__ = ("call", "ret", "op", "result", "thread", "open")

    def __init__(self, call, ret, op, result, thread=0, is_open=False):
        # open: the operation has no known result; it may have been executed at any time after its call, or never
        self.call, self.ret, self.op, self.result, self.thread, self.open = call, ret, op, result, thread, is_open

    def __repr__(self):
        return "[%s..%s] t%s %r -> %s" % (self.call, "?" if self.open else self.ret, self.thread, self.op,
                                          "?" if self.open else repr(self.result))


class TooLong(Exception):
    pass


def check(history, init, step, limit_s=20.0, max_nodes=400000):
    """step(state, op) -> list of (accept(result) -> bool, new state), states being hashable.
    Returns a linearization (list of indexes) or None. Raises TooLong when the search is over its limits."""
    ops = sorted(history, key=lambda o: o.call)
    n = len(ops)
    must = frozenset(k for k in range(n) if not ops[k].open)
    seen = set()
    nodes = [0]
    end = time.monotonic() + limit_s
    order = []

    def search(done, state):
        if must <= done:
            return True
        if (done, state) in seen:
            return False
        seen.add((done, state))
        nodes[0] += 1
        if nodes[0] > max_nodes or (nodes[0] % 256 == 0 and time.monotonic() > end):
            raise TooLong("%d nodes for %d operations" % (nodes[0], n))
        # an operation may come next if no remaining one has returned before its call
        first_ret = min((ops[k].ret for k in range(n) if k not in done and not ops[k].open), default=None)
        for k in range(n):
            if k in done:
                continue
            op = ops[k]
            if first_ret is not None and op.call > first_ret:
                break
            for accept, new in step(state, op.op):
                if op.open or accept(op.result):
                    order.append(k)
                    if search(done | {k}, new):
                        return True
                    order.pop()
        return False

    import sys
    if sys.getrecursionlimit() < 5000:
        sys.setrecursionlimit(5000)
    if search(frozenset(), init):
        return [ops[k] for k in order]
    return None
