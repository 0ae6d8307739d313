"""
C03: a log that is cut at any byte reports exactly the complete messages before the cut.

Crash points: every byte offset of every log of the enumerated set (all short message sequences and a few
long logs).  The model's state after the complete messages is the oracle for every cut.
"""
import bisect
import struct
from pyulog import ULog
from vlib.alpha import F, FA, FB, FC, FN, da, db, dc, seqs, stream
from vlib.common import compare
from vlib.engine import Family, Violation
from vlib.model import Ref, diff, observe, run
from vlib.ulg import MAGIC, boundaries, encode, header

ID, LEVEL = 'C03', 'fault_enumeration'
RULE = ('every byte offset of every enumerated log is one crash point; a case is one log with all of its '
        'cuts; outcomes are distinct results after a cut')
ASSUMPTIONS = ['the bytes before the cut are as written (torn writes inside the file are C04)']


def cuts(msgs, ctx, start=0, points=None, load=None, what=''):
    """ cut at every byte (or at the given points), compare with the model after the complete messages """
    data = encode(msgs, start)
    ends = boundaries(msgs, start)
    ref, states = Ref(start), []
    states.append(ref.result())
    for m in msgs:
        ref.apply(m)
        states.append(ref.result())
    ctx.transitions += len(msgs)
    for n in (range(16, len(data) + 1) if points is None else points):
        if not 16 <= n <= len(data):
            continue
        want = states[bisect.bisect_right(ends, n) - 1]
        ctx.state(want)
        ctx.count('crash_points')
        try:
            u = ULog(stream(data[:n])) if load is None else load(data[:n])
        except Exception as e:
            raise Violation(f'{what}cut at byte {n} of {len(data)}: {type(e).__name__}: {e}') from e
        compare(want, u, ctx, what=f'{what}cut at byte {n} of {len(data)}: ')


OPS = [
    ('I', 'char[3]', 'k', 'abc'), ('I', 'uint32_t', 'ver', 1), ('M', 'char[2]', 'm', 'ab', 1),
    ('P', 'float', 'PAR', 0.5), ('Q', 3, 'int32_t', 'PAR', 1), ('X', ord('z'), b'123456789ab'),
    ('A', 0, 0, 'a'), da(0, 10, 1.5), da(0, 3, 2.5), db(1, 4, 30), ('L', 48, 25, 'msg'),
    ('C', 49, 7, 26, 'tag'), ('O', 100), ('S',), ('R', 1),
]
PRE = [FA, FB, ('A', 0, 0, 'a'), ('A', 1, 1, 'b')]


def gen_short(tier):
    for s in seqs(OPS, 3 if tier == 'quick' else 4, 1):
        yield s, 1
    for s in seqs([o for o in OPS[:7] + OPS[10:12] + OPS[13:14]], 3 if tier == 'quick' else 4, 1):
        if sum(m[0] == 'A' for m in s) <= 1 and s[0][0] != 'S':
            yield s, 0


def run_short(case, ctx):
    s, with_data = case
    if with_data:
        msgs = PRE + [m for m in s if m[0] != 'A']
    else:
        msgs = [FA] + list(s)
        if any(m[0] == 'A' for m in s):
            msgs.append(da(0, 5))
    # only the part that differs has to be cut, the prefix is cut once
    first = 16 if len(s) == 1 or not with_data else boundaries(PRE)[-1] - 1
    cuts(msgs, ctx, 3, range(first, len(encode(msgs)) + 1))


RICH = [('B', (1, 0, 0, 0, 0, 0, 0, 0), (0,) * 8, (0, 0, 0)), FN, FA, FB, FC, ('I', 'char[5]', 'sys_name', 'PX4 é'),
        ('M', 'char[3]', 'm', 'abc', 0), ('M', 'char[3]', 'm', 'def', 1), ('M', 'uint8_t[4]', 'r', b'\0\1\2\3', 0),
        ('P', 'int32_t', 'P1', 5), ('P', 'float', 'P2', 0.5), ('Q', 1, 'int32_t', 'P1', 6), ('Q', 3, 'float', 'P2', 1.0),
        ('A', 0, 0, 'a'), ('A', 1, 1, 'a'), ('A', 0, 2, 'b'), ('A', 0, 0x4444, 'c'), ('L', ord('6'), 9, 'hello'),
        da(0, 10, 1.0), da(1, 11, 2.0), db(2, -1, 12), dc(0x4444, 13), ('O', 12), da(0, 14, 5.0), ('S',),
        ('P', 'int32_t', 'P1', 9), ('C', ord('4'), 3, 15, 'tagged'), ('I', 'int32_t', 'late', 3), ('X', 0x7a, b'abc'),
        ('M', 'char[3]', 'm', 'ghi', 1), dc(0x4444, 16, b'\xff\xff\xff\xff'), ('R', 2), ('O', 1), da(1, 17, 9.0)]


def gen_rich(_tier):
    n = len(encode(RICH))
    for how in ('stream', 'path', 'file', 'header', 'filter', 'strict'):
        for lo in range(16, n + 1, 16):
            yield how, lo


def run_rich(case, ctx):
    how, lo = case
    points = range(lo, lo + 16)
    path = ctx.tmp + '/cut.ulg'

    def load(data):
        with open(path, 'wb') as f:
            f.write(data)
        return ULog(path if how == 'path' else open(path, 'rb'))

    if how == 'stream':
        cuts(RICH, ctx, 77, points)
    elif how == 'strict':
        cuts(RICH, ctx, 77, points, lambda d: ULog(stream(d), disable_str_exceptions=False))
    elif how in ('path', 'file'):
        cuts(RICH, ctx, 77, points, load)
    else:
        data, ends = encode(RICH, 77), boundaries(RICH)
        for n in points:
            if n > len(data):
                continue
            done = RICH[:bisect.bisect_right(ends, n) - 1]
            ctx.count('crash_points')
            ctx.executions += 1
            if how == 'header':
                u = ULog(stream(data[:n]), parse_header_only=True)
                want = run([m for i, m in enumerate(done) if i < 13], 77).result()
                skip = ()
            else:
                u = ULog(stream(data[:n]), ['a', 'c'])
                want = run(done, 77).result(['a', 'c'])
                skip = ('last', 'dropouts', 'changed')
            got = observe(u)
            ctx.outcome(got)
            d = diff(want, got, skip)
            if d:
                raise Violation(f'{how}: cut at byte {n}: {d}')


# ------------------------------------------------------------ large messages (buffer sizes of files)

def gen_large(_tier):
    for size in (100, 500, 512, 4000, 4096, 8000, 8192, 16384, 65000):
        for kind in 'ILCD':
            if kind != 'D' or size <= 16384:
                yield size, kind


def run_large(case, ctx):
    size, kind = case
    big = {'I': ('I', f'char[{size}]', 'k', 'y' * size), 'L': ('L', 48, 5, 'w' * size),
           'C': ('C', 48, 2, 5, 'w' * size), 'D': ('D', 1, struct.pack('<Q', 6) + b'\x77' * (size // 8 * 8 + max(size % 8, 1)))}[kind]
    msgs = [FA, F('t', 'uint64_t timestamp', f'double[{size // 8}] v', f'uint8_t[{max(size % 8, 1)}] w'),
            ('A', 0, 0, 'a')] + ([('A', 0, 1, 't')] if kind == 'D' else []) + \
        [da(0, 1), big, da(0, 7, 1.0), big, ('O', 3)]
    ends = boundaries(msgs)
    points = sorted({p for e in ends for p in range(e - 4, e + 5)} |
                    {p for b in range(0, ends[-1], 4096) for p in (b - 1, b, b + 1)})
    if kind == 'D' and size > 4096:
        points = points[::8]
    path = ctx.tmp + '/large.ulg'

    def load(data):
        with open(path, 'wb') as f:
            f.write(data)
        return ULog(path)
    cuts(msgs, ctx, 0, points, load)


# ------------------------------------------------------------ the 16 byte header

def gen_header(_tier):
    for n in range(17):
        yield 'cut', n, 0
    for i in range(7):
        for v in range(256):
            yield 'byte', i, v


def run_header(case, ctx):
    kind, i, v = case
    data = bytearray(header(5) + (encode(RICH)[16:] if kind == 'byte' else b''))
    if kind == 'cut':
        data = data[:i]
        bad = i < 16
    else:
        bad = data[i] != v
        data[i] = v
    ctx.executions += 1
    for kw in ({}, {'parse_header_only': True}, {'message_name_filter_list': []}):
        try:
            ULog(stream(bytes(data)), **kw)
            ok = not bad
        except TypeError:
            ok = bad
        ctx.outcome((kind, bad, ok))
        if not ok:
            raise Violation(f'{kind} {i} {v:#x} {kw}: header is {"invalid" if bad else "valid"}, '
                            f'but loading it {"succeeded" if bad else "failed"}')
    assert bytes(header(5)[:7]) == MAGIC


def families():
    return [
        Family('short', gen_short, run_short, 'all message sequences x all cuts'),
        Family('rich', gen_rich, run_rich, 'a log with every message type x all cuts x ways to load'),
        Family('large', gen_large, run_large, 'large messages, cuts around message and buffer boundaries'),
        Family('header', gen_header, run_header, 'all cuts and byte values of the file header'),
    ]
