"""
C26: the list of value changes has every change of a field exactly once.
"""
import itertools
import struct
from pyulog import ULog
from pyulog.db import DatabaseULog
from vlib import dbtools
from vlib.alpha import F, VALUES, stream
from vlib.engine import Family, Violation
from vlib.ulg import BASIC, encode

ID, LEVEL = 'C26', 'model_checking'
RULE = 'every sequence of samples stated; outcomes are distinct lists of changes'
ASSUMPTIONS = ['values are numbers (a NaN is different from every value)']


def changes(samples):
    """ [(ts, value)] of the samples with a time stamp, whenever the value differs from the one before """
    out, last = [], None
    for ts, v in samples:
        if ts and (last is None or v != last[0]):
            out.append((ts, v))
        if ts:
            last = (v,)
    return out


def check_list(data, field, samples, ctx, what=''):
    got = [(int(t), v) for t, v in data.list_value_changes(field)]
    want = changes(samples)
    ctx.executions += 1
    ctx.outcome((field, [(t, str(v)) for t, v in got]))
    ctx.state((field, want))
    if len(got) != len(want) or any(a[0] != b[0] or not same(a[1], b[1]) for a, b in zip(want, got)):
        raise Violation(f'{what}changes of {field}: expected {want}, got {got}')


def same(want, got):
    if isinstance(want, bytes):
        return int(got) in (want[0], want[0] - 256)
    return bool(got == want)


# ------------------------------------------------------------ sequences

FMT = F('t', 'uint8_t v', 'uint64_t timestamp', 'float[2] w', 'bool b')


def gen_seqs(tier):
    for n in range(1, 8 if tier == 'quick' else 9):
        yield from itertools.product(((1, 0), (1, 1), (1, 2), (0, 1), (0, 2)), repeat=n)


def run_seqs(s, ctx):
    """ samples with and without a time stamp x values, in any order of time """
    for step in (1000, -1000, 0, 2**61):
        in_order(s, step, ctx)


def in_order(s, step, ctx):
    msgs = [FMT, ('A', 0, 1, 't')]
    rows = []
    for k, (stamped, v) in enumerate(s):
        rows.append(((10000 + k * step) if stamped else 0, v, v / 4, (k // 2) / 4, v > 0))
        msgs.append(('D', 1, struct.pack('<BQff?', v, rows[-1][0], *rows[-1][2:])))
    d = ULog(stream(encode(msgs))).data_list[0]
    ctx.transitions += len(msgs)
    for i, field in ((1, 'v'), (2, 'w[0]'), (3, 'w[1]'), (4, 'b'), (0, 'timestamp')):
        check_list(d, field, [(r[0], r[i]) for r in rows], ctx)
    # asking does not change the data
    for i, field in ((1, 'v'), (2, 'w[0]')):
        check_list(d, field, [(r[0], r[i]) for r in rows], ctx, 'again: ')
    if len(d.data['timestamp']) != len(s):
        raise Violation('asking for changes changed the samples')


# ------------------------------------------------------------ types and values

def gen_values(_tier):
    for typ in BASIC:
        yield typ


def run_values(typ, ctx):
    """ all triples of boundary values; no NaN """
    vals = [v for v in VALUES[typ] if v == v]
    code = {'char': 'c', 'bool': '?'}.get(typ, BASIC[typ][0])
    for triple in itertools.product(vals, repeat=3):
        msgs = [F('t', 'uint64_t timestamp', f'{typ} v'), ('A', 0, 1, 't')]
        samples = [(k + 1, struct.unpack('<f', struct.pack('<f', v))[0] if typ == 'float' else v) for k, v in enumerate(triple)]
        msgs += [('D', 1, struct.pack(f'<Q{code}', t, v)) for t, v in samples]
        check_list(ULog(stream(encode(msgs))).data_list[0], 'v', samples, ctx)
        ctx.transitions += len(msgs)


# ------------------------------------------------------------ nothing, errors, database

def gen_sources(_tier):
    for n in (1, 2, 5, 50, 1000):
        for zeros in (0, 1, 3):
            for source in ('file', 'database', 'dataset'):
                yield n, zeros, source


def run_sources(case, ctx):
    n, zeros, source = case
    msgs = [FMT, ('A', 2, 1, 't')]
    rows = []
    for k in range(n):
        rows.append((0 if zeros and k % zeros == 0 else 5 + k, k // 3 % 4, k % 2 / 2, 1., k % 5 > 2))
        msgs.append(('D', 1, struct.pack('<BQff?', rows[-1][1], rows[-1][0], *rows[-1][2:])))
    u = ULog(stream(encode(msgs)))
    if source != 'file':
        handle = dbtools.fresh(ctx)
        u = DatabaseULog(handle, log_file=stream(encode(msgs)))
        u.save()
        u = DatabaseULog(handle, primary_key=u.primary_key, lazy=source == 'dataset')
    d = u.get_dataset('t', 2) if source == 'dataset' else u.data_list[0]
    ctx.transitions += len(msgs)
    for i, field in ((1, 'v'), (2, 'w[0]'), (3, 'w[1]'), (4, 'b')):
        check_list(d, field, [(r[0], r[i]) for r in rows], ctx)
    try:
        d.list_value_changes('nofield')
    except KeyError:
        return
    raise Violation('a missing field must raise KeyError')


def families():
    return [
        Family('sequences', gen_seqs, run_seqs, 'samples with and without time stamps x values'),
        Family('values', gen_values, run_values, 'triples of boundary values of every type'),
        Family('sources', gen_sources, run_sources, 'sizes x files and databases'),
    ]
