"""Independent reference triggers: schedules as exact functions of integer microseconds."""
from __future__ import annotations

from datetime import datetime, timedelta, timezone

US = 1_000_000
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


def to_us(d):
    delta = d - EPOCH
    return (delta.days * 86400 + delta.seconds) * US + delta.microseconds


def from_us(us, tz=timezone.utc):
    return (EPOCH + timedelta(microseconds=us)).astimezone(tz)


class RDate:
    kind = "date"

    def __init__(self, at):
        self.at = at

    def first(self, now):
        return self.at  # a date trigger names its instant even when it has passed

    def after(self, prev):
        return None

    def instants(self, lo, hi):
        return [self.at] if lo <= self.at <= hi else []


class RInterval:
    kind = "interval"

    def __init__(self, start, step, end=None):
        self.start, self.step, self.end = start, step, end

    def _chk(self, t):
        return t if self.end is None or t <= self.end else None

    def first(self, now):
        if self.start > now:
            return self._chk(self.start)
        k = -(-(now - self.start) // self.step)
        return self._chk(self.start + k * self.step)

    def after(self, prev):
        return self._chk(prev + self.step)

    def instants(self, lo, hi):
        out = []
        if hi < self.start:
            return out
        t = self.start if lo <= self.start else self.start + -(-(lo - self.start) // self.step) * self.step
        while t <= hi and (self.end is None or t <= self.end):
            out.append(t)
            t += self.step
        return out


class RCron:
    """Subset: explicit sets of seconds / minutes / hours in a fixed-offset (UTC) zone."""
    kind = "cron"

    def __init__(self, seconds, minutes=None, hours=None, end=None, start=None):
        self.s, self.m, self.h = sorted(seconds), minutes, hours
        self.end, self.start = end, start

    def _scan(self, t):
        """First matching instant >= t (whole seconds), or None within two days."""
        sec = -(-t // US)
        if self.start is not None:
            sec = max(sec, -(-self.start // US))
        limit = sec + 2 * 86400
        while sec < limit:
            if self.h is not None and (sec // 3600) % 24 not in self.h:
                sec = (sec // 3600 + 1) * 3600
                continue
            if self.m is not None and (sec // 60) % 60 not in self.m:
                sec = (sec // 60 + 1) * 60
                continue
            in_min = sec % 60
            nxt = next((x for x in self.s if x >= in_min), None)
            if nxt is None:
                sec = (sec // 60 + 1) * 60
                continue
            r = (sec - in_min + nxt) * US
            return r if self.end is None or r <= self.end else None
        return None

    def first(self, now):
        return self._scan(now)

    def after(self, prev):
        return self._scan(prev + 1)

    def instants(self, lo, hi):
        out = []
        t = self._scan(lo)
        while t is not None and t <= hi:
            out.append(t)
            t = self._scan(t + 1)
        return out


class RZoneCron:
    """Cron over the wall clock of a zone: the instants whose local second, minute and hour match.

    Both passes of a repeated hour match; wall times which are skipped never match."""
    kind = "cron"

    def __init__(self, zone, seconds, minutes=None, hours=None, end=None, start=None):
        self.zone = zone
        self.s, self.m, self.h = sorted(seconds), minutes, hours
        self.end, self.start = end, start

    def _scan(self, t):
        sec = -(-t // US)
        if self.start is not None:
            sec = max(sec, -(-self.start // US))
        limit = sec + 3 * 86400
        while sec < limit:      # offsets are whole minutes
            d = datetime.fromtimestamp(sec - sec % 60, self.zone)
            if (self.h is not None and d.hour not in self.h) or (self.m is not None and d.minute not in self.m):
                sec = sec - sec % 60 + 60
                continue
            nxt = next((x for x in self.s if x >= sec % 60), None)
            if nxt is None:
                sec = sec - sec % 60 + 60
                continue
            r = (sec - sec % 60 + nxt) * US
            return r if self.end is None or r <= self.end else None
        return None

    first = RCron.first
    after = RCron.after
    instants = RCron.instants


def next_after(p, t):
    """The earliest instant p names after t, whatever happened before."""
    if p.kind == "date":
        return p.at if p.at > t else None
    if p.kind in ("or", "and"):
        return p.after(t)
    return p.first(t + 1)


class ROr:
    kind = "or"

    def __init__(self, parts):
        self.parts = parts

    def first(self, now):
        c = [t for t in (p.first(now) for p in self.parts) if t is not None]
        return min(c) if c else None

    def after(self, prev):
        c = [t for t in (next_after(p, prev) for p in self.parts) if t is not None]
        return min(c) if c else None

    def instants(self, lo, hi):
        return sorted({t for p in self.parts for t in p.instants(lo, hi)})


class RAnd:
    """Common instants, searched as sets within a horizon (the parts are periodic with short periods)."""
    kind = "and"
    HORIZON = 1300 * US

    def __init__(self, parts):
        self.parts = parts

    def first(self, now):
        f = [p.first(now) for p in self.parts]
        if None in f:
            return None
        return f[0] if len(set(f)) == 1 else self.after(max(f) - 1)

    def after(self, prev):
        for k in (30 * US, self.HORIZON):
            r = self.instants(prev + 1, prev + k)
            if r:
                return r[0]
        return None

    def instants(self, lo, hi):
        sets = [set(p.instants(lo, hi)) for p in self.parts]
        return sorted(set.intersection(*sets))


class RNever:
    kind = "shutdown"

    def first(self, now):
        return None

    def after(self, prev):
        return None

    def instants(self, lo, hi):
        return []
