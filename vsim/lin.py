"""Search for a total order of overlapping calls that a sequential object explains."""
from __future__ import annotations


def linearize(ops, init, step, final=None, limit=200_000):
    """ops: objects with s0 < s1 (call and return moments); step(state, op) -> the next state, or None when the
    outcome of op is impossible in state.  True / False, or None when the search gave up."""
    ops = sorted(ops, key=lambda o: o.s0)
    n = len(ops)
    seen = set()
    stack = [(0, init)]      # bit mask of the calls placed so far
    count = 0
    full = (1 << n) - 1
    while stack:
        mask, st = stack.pop()
        if mask == full:
            if final is None or final(st):
                return True
            continue
        if (mask, st) in seen:
            continue
        seen.add((mask, st))
        count += 1
        if count > limit:
            return None
        # a call can come next when no other open call returned before it began
        horizon = min(o.s1 for i, o in enumerate(ops) if not mask >> i & 1)
        for i in range(n - 1, -1, -1):
            o = ops[i]
            if mask >> i & 1 or o.s0 > horizon:
                continue
            nx = step(st, o)
            if nx is not None:
                stack.append((mask | 1 << i, nx))
    return False
