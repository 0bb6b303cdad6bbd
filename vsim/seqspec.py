"""Sequential specification of one task, and the search for an order that explains a history.

A history of one task is a set of management calls (each with its call and return moment) and the
chronological list of hand-overs the scheduler made.  `explain` looks for a total order of both that
respects real time and in which every step is one the sequential specification allows.
"""
from __future__ import annotations

import sys
from collections import namedtuple

from .kernel import US
from .workload import chain

# pend: next run time the task had when a run executed inside the hand-over itself began
# up: the store is currently added to the scheduler
# ex: task exists; nxt: next run time (µs or None = paused); ref: key of the trigger; co: coalesce; val: payload tag
State = namedtuple("State", "ex nxt ref co val pend up", defaults=(None, True))
GONE = State(False, None, None, False, None)


class Op:
    __slots__ = ("n", "kind", "task", "store", "a", "s0", "s1", "t0", "t1", "res", "exc", "thread", "subs", "maybe")

    def __repr__(self):
        return f"<{self.kind} {self.task} {self.a} -> {self.exc or self.res}>"


class Ops:
    """Records management calls."""

    def also(self, o, kind, task, res=None, **a):
        """The same call seen from another task."""
        p = Op()
        p.n = len(self.ops)
        p.kind, p.task, p.a, p.store = kind, task, a, o.store
        p.res, p.exc, p.subs, p.thread = res, o.exc, [], o.thread
        p.t0, p.s0, p.t1, p.s1 = o.t0, o.s0, o.t1, o.s1
        p.maybe = o.maybe
        self.ops.append(p)
        return p

    def __init__(self, w):
        self.w = w
        self.ops = []
        self.refs = {}

    def ref(self, ref):
        k = len(self.refs)
        self.refs[k] = ref
        return k

    def call(self, kind, task, fn, expected=(), store="default", **a):
        """Runs fn(); returns the Op. Exceptions listed in `expected` are recorded, others propagate."""
        w = self.w
        o = Op()
        o.n = len(self.ops)
        o.kind, o.task, o.a, o.store = kind, task, a, store
        o.res = o.exc = None
        o.subs = []
        o.thread = w.sim.cur.name
        o.t0, o.s0 = w.wall(), w.seq()
        o.t1 = o.s1 = None
        o.maybe = False
        self.ops.append(o)
        w.sim.note("op", o.n, kind, task, a)
        try:
            o.res = fn()
        except expected as e:
            o.exc = type(e).__name__
        finally:
            o.t1, o.s1 = w.wall(), w.seq()
            w.sim.note("op-end", o.n, o.exc or "ok")
        return o


def firsts(ref, lo, hi):
    """All values ref.first(now) can have for now in [lo, hi]."""
    a, b = ref.first(lo), ref.first(hi)
    if a == b:
        return [a]
    out = []
    if a is not None:
        out = list(ref.instants(a, b if b is not None else max(hi, a)))
        if a not in out:
            out.insert(0, a)
    if b not in out:
        out.append(b)
    return out


def finish(refs, st, at):
    """An inline run has ended: its own changes of the task survive, otherwise the schedule advances."""
    if not st.ex:
        return st
    if st.nxt != st.pend:
        return st._replace(pend=None)
    nxt = refs[st.ref].after(at.times[-1])
    if nxt is None:
        return GONE
    return st._replace(nxt=nxt, pend=None)


def step_attempt(refs, st, at, part=None):
    """The state after hand-over `at` (or None when the state does not allow it)."""
    if part == "end":
        return finish(refs, st, at)
    if not st.ex or st.nxt is None or not st.up:
        return None
    times = at.times
    if not times or st.nxt > times[0] or times[-1] > at.t0:
        return None
    ref = refs[st.ref]
    seq = chain(ref, st.nxt, times[-1])
    if seq is None or seq[-1] != times[-1]:
        return None
    if st.co:
        if len(times) != 1:
            return None
    elif seq != times:
        return None
    nxt = ref.after(times[-1])
    if part == "begin":
        return st._replace(pend=st.nxt)
    if nxt is None:
        return GONE
    if at.pass_now is not None and nxt <= at.pass_now:
        return None
    return st._replace(nxt=nxt)


def step_op(refs, st, o):
    """All states after op o from st (empty when its outcome is impossible there)."""
    k, a = o.kind, o.a
    if k == "mount":
        if o.exc is not None:
            return [st] if st.up and o.exc == "ValueError" else []
        return [] if st.up else [(st if a.get("keeps") else GONE)._replace(up=True)]
    if k == "unmount":
        if o.exc is not None:
            return [st] if not st.up and o.exc == "KeyError" else []
        return [st._replace(up=False)] if st.up else []
    if not st.up:
        if k == "add":
            return [st] if o.exc == "KeyError" else []
        if k in ("get", "getn", "has"):
            return [st] if o.exc is None and o.res is None else []
        if k == "clear":
            return [st] if o.exc is None else []
        return [st] if o.exc == "TaskLookupError" else []
    if k == "clear":
        return [GONE] if o.exc is None else []
    if k == "has":
        return [st] if o.exc is None and st.ex == (o.res is not None) else []
    if k == "getn":
        if o.res is None:
            return [] if st.ex else [st]
        return [st] if st.ex and o.res == (st.nxt,) else []
    if k == "add":
        new = [State(True, x, a["ref"], a["co"], a.get("val")) for x in
               ([a["next"]] if "next" in a else firsts(refs[a["ref"]], o.t0, o.t1))]
        new = [GONE if False else s for s in new]
        if o.exc is None:
            if st.ex and not a.get("replace"):
                return []
            return new
        if o.exc == "ConflictIdError":
            return [st] if st.ex and not a.get("replace") else []
        return []
    if o.exc == "TaskLookupError":
        return [] if st.ex else [st]
    if k == "get":
        if o.res is None:
            return [] if st.ex else [st]
        return [st] if st.ex and o.res == (st.nxt, st.val) else []
    if not st.ex:
        return []
    if o.exc is not None and not (k == "run" and o.exc == "MaximumInstancesError"):
        return []
    if k == "pause":
        return [st._replace(nxt=None)]
    if k == "delete":
        return [GONE]
    if k == "resume":
        out = []
        for x in firsts(refs[st.ref], o.t0, o.t1):
            if x is None:
                if o.res is None or a.get("blind"):      # the caller can not tell
                    out.append(GONE)
            elif o.res is not None or a.get("blind"):
                out.append(st._replace(nxt=x))
        return out
    if k == "reschedule":
        return [st._replace(ref=a["ref"], nxt=x) for x in firsts(refs[a["ref"]], o.t0, o.t1)]
    if k == "update":
        s = st
        if "ref" in a:
            s = s._replace(ref=a["ref"])
        if "next" in a:
            s = s._replace(nxt=a["next"])
        if "co" in a:
            s = s._replace(co=a["co"])
        if "val" in a:
            s = s._replace(val=a["val"])
        return [s]
    if k == "run":
        return step_run(refs, st, o)
    raise AssertionError(k)


def step_run(refs, st, o):
    ref = refs[st.ref]
    if len(o.subs) > 1:
        return []
    if not o.subs:
        # nothing due and not forced
        if o.a.get("force", True) or o.exc:
            return []
        if st.nxt is not None and st.nxt <= o.t0:
            return []
        return [st]
    sub = o.subs[0]
    times = sub.times
    if not times:
        return []
    last = times[-1]
    seq = chain(ref, st.nxt, last) if st.nxt is not None and st.nxt <= o.t1 else None
    ok = False
    # the due backlog at some moment of the call
    if seq is not None and seq[-1] == last and last <= sub.t0:
        follow = ref.after(last)
        if (seq[-1:] if st.co else seq) == times and (follow is None or follow > o.t0):
            ok = True
    # a forced run for now
    if not ok and o.a.get("force", True) and len(times) == 1 and o.t0 <= last <= sub.t0 and \
            (st.nxt is None or st.nxt > o.t0):
        if st.nxt is None or st.nxt > last:
            ok = True
    if not ok:
        return []
    if sub.result == "max":
        return [st] if o.exc == "MaximumInstancesError" else []
    if o.exc is not None:
        return []
    nxt = ref.after(last)
    if nxt is None:
        if o.a.get("remove", True):
            return [GONE] if o.res is None else []
        return [st._replace(nxt=None)] if o.res is not None else []
    if nxt <= o.t1:
        # always strictly forward; what counts as now is some moment of the call
        if nxt <= o.t0:
            return []
    return [st._replace(nxt=nxt)] if o.res is not None else []


def explain(refs, ops, atts, init, final, limit=200_000, maybe=()):
    """True if some order explains the history.  final(state) -> bool decides the end state.

    Calls marked `maybe` and hand-overs whose number is in `maybe` were cut short by a crash: they
    may have been recorded or not.

    Returns (ok, best) where best describes how far the search got."""
    ops = sorted(ops, key=lambda o: o.s0)
    atts = sorted(atts, key=lambda a: a.s0)
    # a hand-over that ran the function inline may contain calls: it begins, the calls happen, it ends
    items = []
    for at in atts:
        if any(o.thread == at.thread and at.s0 < o.s0 and at.s1 is not None and o.s0 < at.s1 for o in ops):
            items += [(at, "begin", at.s0, at.s0), (at, "end", at.s1, at.s1)]
        else:
            items.append((at, None, at.s0, at.s1))
    items.sort(key=lambda x: x[2])
    n, m = len(ops), len(items)
    before = []          # ops that must precede op i
    for o in ops:
        b = 0
        for j, p in enumerate(ops):
            if p.s1 is not None and p.s1 < o.s0:
                b |= 1 << j
        before.append(b)
    need_ops = []        # ops that must precede item k
    for _, _, lo, _ in items:
        b = 0
        for j, p in enumerate(ops):
            if p.s1 is not None and p.s1 < lo:
                b |= 1 << j
        need_ops.append(b)
    need_att = [sum(1 for it in items if it[3] is not None and it[3] < o.s0) for o in ops]
    seen = set()
    best = [-1, None]
    full = (1 << n) - 1
    stack = [(0, 0, s) for s in init]
    while stack:
        key = stack.pop()
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > limit:
            return None, "too many orders"
        mask, k, st = key
        prog = bin(mask).count("1") + k
        if prog > best[0]:
            best = [prog, key]
        if mask == full and k == m:
            if final(st):
                return True, None
            best = [prog + 1, key]
            continue
        if k < m and need_ops[k] & ~mask == 0:
            s2 = step_attempt(refs, st, items[k][0], items[k][1])
            if s2 is not None:
                stack.append((mask, k + 1, s2))
                if items[k][0].n in maybe and items[k][1] != "begin":
                    stack.append((mask, k + 1, st._replace(pend=None)))
        for i in range(n):
            if mask >> i & 1 or before[i] & ~mask or need_att[i] > k:
                continue
            for s2 in step_op(refs, st, ops[i]):
                stack.append((mask | 1 << i, k, s2))
            if ops[i].maybe:
                stack.append((mask | 1 << i, k, st))
    mask, k, st = best[1] if best[1] else (0, 0, None)
    rest_ops = [ops[i] for i in range(n) if not mask >> i & 1]
    return False, (st, rest_ops[:4], [it[0] for it in items[k:k + 2]])


def check_task(w, refs, spec_id, store, ops, atts, final_get, t_end, kind="order", slack=1 * US, init=None,
               maybe=()):
    """Checks one task's history; final_get: (next, val) or None as read at the end."""
    def final(st):
        if final_get is not Ellipsis:
            if final_get is None:
                return not st.ex or not st.up
            if not st.ex or not st.up or (st.nxt, st.val) != final_get:
                return False
        return not (st.ex and st.up and st.nxt is not None and t_end is not None and st.nxt <= t_end - slack)
    ok, best = explain(refs, ops, atts, [GONE] if init is None else init, final, maybe=maybe)
    if ok is None:
        w.sim.probe("explain_gave_up")
        return
    if not ok:
        st, ro, ra = best
        def show(s):
            if s is None:
                return "-"
            r = refs.get(s.ref)
            return f"store={s.up} exists={s.ex} next={w.rel(s.nxt)} trigger={getattr(r, 'desc', r and r.kind)} coalesce={s.co}" \
                   f" value={s.val}"
        fin = "" if ro or ra else f"; at the end the store says {final_get and (w.rel(final_get[0]), final_get[1])}" \
                                  f" (processed until {w.rel(t_end)})"
        w.fail(kind, f"{spec_id}: no order of the calls explains the history; got to state [{show(st)}], then calls "
                     f"{ro} and hand-overs {[([w.rel(t) for t in a.times], a.result) for a in ra]} can not follow{fin}")


def attach_runs(w, ops):
    """Connects each run_task call with the hand-overs made inside it."""
    for o in ops:
        if o.kind == "run":
            o.subs = [s for s in w.subs if s.manual and s.task_id == o.task and s.thread == o.thread
                      and s.s0 > o.s0 and s.s0 < o.s1 and not any(
                          p is not o and p.kind == "run" and p.thread == o.thread and o.s0 < p.s0 <= s.s0 <= p.s1 <= o.s1
                          for p in ops)]
