""" Steps shared by the checks: run the model, run the implementation, compare. """
from pyulog import ULog
from .alpha import stream
from .engine import Violation
from .model import diff, observe, run
from .ulg import encode


def load(msgs, start=0, version=1, **kw):
    return ULog(stream(encode(msgs, start, version)), **kw)


def compare(ref, u, ctx, skip=(), what=''):
    """ the public result of u against the model's """
    ctx.executions += 1
    got = observe(u)
    ctx.outcome(got)
    d = diff(ref, got, skip)
    if d:
        raise Violation(what + d)


def check(msgs, ctx, start=0, version=1, data=None, skip=(), what=''):
    """ load the encoded messages (or the given bytes) and expect the model's result """
    ref = run(msgs, start).result()
    ctx.state(ref)
    ctx.transitions += len(msgs)
    u = ULog(stream(encode(msgs, start, version) if data is None else data))
    compare(ref, u, ctx, skip, what)
    return u
