"""Functions executed as tasks inside simulations (module level, so they can be persisted)."""
import asyncio

from . import kernel

WORLD = None


class JobError(Exception):
    """Raised on purpose by a simulated task function."""


class JobBaseError(BaseException):
    """A BaseException that is not an Exception."""


def job(tag, *args, **kwargs):
    w = WORLD
    rec = w.call_begin(tag, args, kwargs)
    try:
        d = rec.duration
        if d:
            kernel.CURRENT.sleep(d)
        w.call_hook(rec)
        return w.call_finish(rec)
    finally:
        w.call_end(rec)


async def ajob(tag, *args, **kwargs):
    w = WORLD
    rec = w.call_begin(tag, args, kwargs)
    try:
        d = rec.duration
        if d:
            await asyncio.sleep(d / kernel.US)
        w.call_hook(rec)
        return w.call_finish(rec)
    finally:
        w.call_end(rec)


def plain(*args, **kwargs):
    return None


async def aplain(*args, **kwargs):
    return None


class Obj:
    """Something with methods and state, used as argument and bound-method owner."""

    def __init__(self, v=0):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Obj) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"Obj({self.v})"

    def method(self, *args, **kwargs):
        return self.v

    @classmethod
    def cmethod(cls, *args, **kwargs):
        return None

    @staticmethod
    def smethod(*args, **kwargs):
        return None
