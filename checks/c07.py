"""
C07: writing a loaded log and loading it again preserves its content.

Every log of the enumerated spaces is loaded by the implementation and written with write_ulog; the bytes
are decoded by an independent decoder, checked for being well-formed and in time order, and their content
(according to the reference model) is compared with what was loaded; then the implementation loads them.
"""
import io
import itertools
import struct
from pyulog import ULog
from pyulog.db import DatabaseULog
from vlib.alpha import F, FA, FB, FC, FN, NAMES, U64, VALUES, da, gen_repeats, named, repeats, seqs, stream
from vlib.engine import Family, Violation, expect
from vlib.model import diff, observe, run
from vlib.ulg import BASIC, Malformed, decode, encode
from vlib import dbtools

ID, LEVEL = 'C07', 'model_checking'
RULE = 'every log of the enumerated spaces is written and read back; outcomes are distinct results'
ASSUMPTIONS = ['parameters are int32_t or float, as the format requires',
               'the samples of each topic, and the logged strings, are in time order',
               'an information key keeps its type']


def nan_free(r):
    """ NaN values compare equal whatever their payload bits are """
    r = dict(r)
    data = []
    for name, multi, msg_id, fields, ts, cols in r['data']:
        out = []
        for col, (kind, size, raw) in cols:
            if kind == 'f':
                vals = struct.unpack(f'<{len(raw) // size}{"f" if size == 4 else "d"}', raw)
                raw = tuple('nan' if v != v else struct.pack('<d', v) for v in vals)
            out.append((col, (kind, size, raw)))
        data.append((name, multi, msg_id, fields, ts, tuple(out)))
    r['data'] = data
    return r


def written(u, how='stream', ctx=None):
    if how == 'path':
        path = ctx.tmp + '/written.ulg'
        u.write_ulog(path)
        with open(path, 'rb') as f:
            return f.read()
    out = io.BytesIO()
    u.write_ulog(out)
    return out.getvalue()


def check_written(data, want, ctx, source, skip=()):
    """ the bytes are a well-formed log with the wanted content """
    try:
        version, start, msgs = decode(data)
    except Malformed as e:
        raise Violation(f'what was written is not a log: {e}') from e
    ctx.transitions += len(msgs)
    expect((source[1], source[2]), (version, start), 'version and start time')
    expect('B', msgs[0][0], 'first message')
    expect((source[3], (0,) * 8, (0, 0, 0)), msgs[0][1:], 'flags')
    seen, last, section = set(), {}, 0
    top = 0
    for m in msgs:
        if m[0] in 'BF' and section:
            raise Violation(f'definition {m} in the data section')
        if m[0] in 'ALC':
            section = 1
        if m[0] == 'A':
            seen.add(m[2])
        elif m[0] == 'D':
            if m[1] not in seen:
                raise Violation(f'data of id {m[1]} without subscription')
        t = m[2] if m[0] == 'L' else m[3] if m[0] == 'C' else None
        if t is not None:
            if t < top:
                raise Violation(f'{m} after a message of time {top}')
            top = t
    no_data = not want['data']
    got = nan_free(run(msgs, start).result())
    ctx.outcome(got)
    want = nan_free(want)
    d = diff(want, got, skip)
    if d:
        key = None
        if no_data and not diff(want, got, tuple(skip) + ('init', 'changed', 'dropouts')):
            key = 'no-dataset'
        raise Violation('after writing: ' + d, key)
    again = observe(ULog(stream(data)))
    ctx.executions += 1
    d = diff(want, nan_free(again), skip)
    if d:
        raise Violation('after writing and loading: ' + d)


def check(msgs, ctx, start=0, version=1, how='stream', names=None, **kw):
    compat = next((m[1] for m in msgs if m[0] == 'B'), (0,) * 8)
    u = ULog(stream(encode(msgs, start, version)), names, **kw)
    before = observe(u)
    ctx.state(before)
    ctx.transitions += len(msgs)
    ctx.executions += 1
    if names is None:
        d = diff(run(msgs, start).result(), before)
        if d:
            raise Violation('first load: ' + d)
    data = written(u, how, ctx)
    d = diff(before, observe(u))
    if d:
        raise Violation('writing changed the log object: ' + d)
    want = dict(before)
    want['appended'] = False
    check_written(data, want, ctx, (None, version, start, tuple(compat)))
    return u, data


# ------------------------------------------------------------ definitions

DEFS = [
    ('I', 'char[3]', 'k', 'abc'), ('I', 'char[5]', 'k', 'abcdé'[:4]), ('I', 'uint32_t', 'ver', 0xfedcba98), ('I', 'float', 'fl', 0.1),
    ('I', 'uint8_t[3]', 'arr', b'\1\0\xff'),
    ('M', 'char[2]', 'm', 'ab', 0), ('M', 'char[2]', 'm', 'cd', 1), ('M', 'uint8_t[3]', 'n', b'\1\0\xff', 0),
    ('M', 'int16_t', 'o', -300, 0), ('M', 'int16_t', 'o', 7, 1),
    ('P', 'int32_t', 'PAR', 5), ('P', 'float', 'PAR', 0.1), ('P', 'int32_t', 'QAR', -1),
    ('Q', 1, 'int32_t', 'PAR', 1), ('Q', 3, 'float', 'QAR', 2.5), ('Q', 2, 'int32_t', 'PAR', 9),
    F('a', 'uint64_t timestamp', 'float x'), F('a', 'uint64_t timestamp', 'b[2] y'),
    F('b', 'uint8_t q', 'char[300] _padding0'),
]
DTAIL = [F('zz', 'uint64_t timestamp'), ('A', 0, 5, 'zz'), ('D', 5, struct.pack('<Q', 3)),
         ('P', 'int32_t', 'PAR', 6), ('O', 3), ('M', 'char[2]', 'm', 'z', 1)]


def gen_defs(tier):
    yield from seqs(DEFS, 3 if tier == 'quick' else 5)


def run_defs(s, ctx):
    check(list(s) + DTAIL, ctx, 1)


# ------------------------------------------------------------ data

# (kind, time step): every clock only moves forward, but the clocks of the topics differ
DATA = [('a', 0), ('a', 5), ('a1', 1), ('b', 0), ('b', 2), ('c', 1), ('L', 0), ('L', 2), ('C', 1), ('C2', 0), ('O', 0), ('P', 0),
        ('M', 0), ('I', 0), ('Q', 0), ('S', 0)]
CLOCK = {'a': 100, 'a1': 103, 'b': 96, 'c': 1, 'L': 101, 'C': 95, 'C2': 95}
PRE = [FN, FA, FB, FC, ('P', 'int32_t', 'PAR', 5), ('A', 0, 9, 'a'), ('A', 1, 2, 'a'), ('A', 0, 0x102, 'b'),
       ('A', 0, 65535, 'c')]


def timed(s, base=0):
    clock, out = {k: t + base for k, t in CLOCK.items()}, []
    for i, (k, step) in enumerate(s):
        if k in clock:
            clock[k] += step
            t = clock[k]
        if k == 'a':
            out.append(('D', 9, struct.pack('<Qf', t, i + 0.5)))
        elif k == 'a1':
            out.append(('D', 2, struct.pack('<Qf', t, -i)))
        elif k == 'b':
            out.append(('D', 0x102, struct.pack('<hQ3B', -i, t, i, 255 - i, 128) + b'\x99' * (i % 4)))
        elif k == 'c':
            out.append(('D', 65535, struct.pack('<Q4s?dbHHbHH', t, b'a\xff\x80\0', i & 1, i / 3, -i, 1, 2, i, 65535, i)))
        elif k == 'L':
            out.append(('L', 48 + i % 8, t, f'é{i}'))
        elif k == 'C':
            out.append(('C', 48 + i % 8, 3, t, f'tag {i}'))
        elif k == 'C2':
            out.append(('C', 48 + i % 8, 65535, t, ''))
        elif k == 'O':
            out.append(('O', 65535 - i))
        elif k == 'P':
            out.append(('P', 'float' if i & 1 else 'int32_t', 'PAR', i / 4 if i & 1 else -i))
        elif k == 'M':
            out.append(('M', 'char[2]', 'm', f'm{i}', i & 1))
        elif k == 'I':
            out.append(('I', 'char[2]', f'k{i % 3}', f'{i}'))
        elif k == 'Q':
            out.append(('Q', 1 + i % 3, 'int32_t', 'PAR', i))
        else:
            out.append(('S',))
    return out


def gen_data(tier):
    yield from seqs(DATA, 4 if tier == 'quick' else 5)


def run_data(s, ctx):
    for start in ((0, 98) if len(s) < 4 else (98,)):
        msgs = PRE + timed(s)
        check(msgs, ctx, start)
    if len(s) < 4:
        for base in (2**32, 2**53, 2**63):
            check(PRE + timed(s, base), ctx, base + 98)


# ------------------------------------------------------------ filters, appended data, targets, flags

def gen_kinds(_tier):
    for s in seqs(DATA, 2):
        for names in ([], ['a'], ['b', 'c'], ['x']):
            yield s, 'filter', names
        yield s, 'appended', None
        yield s, 'path', None
    for byte in range(8):
        for v in (1, 2, 0x80, 255):
            yield tuple(DATA), 'compat', (byte, v)
    for start in U64:
        yield tuple(DATA), 'start', start
    for version in (0, 1, 2, 255):
        yield tuple(DATA), 'version', version


def run_kinds(case, ctx):
    s, kind, arg = case
    msgs = PRE + timed(s)
    if kind == 'filter':
        check(msgs, ctx, 98, names=arg)
    elif kind == 'path':
        check(msgs, ctx, 98, how='path')
    elif kind == 'compat':
        c = [0] * 8
        c[arg[0]] = arg[1]
        check([('B', tuple(c), (0,) * 8, (0, 0, 0))] + msgs, ctx, 98)
    elif kind == 'start':
        check(msgs, ctx, arg)
    elif kind == 'version':
        check(msgs, ctx, 98, version=arg)
    else:
        flags = ('B', (1,) + (0,) * 7, (1,) + (0,) * 7, (0, 0, 0))
        n = len(encode([flags] + PRE + timed(s[:1])))
        check([flags[:3] + ((n, 0, 0),)] + PRE + timed(s), ctx, 98)


# ------------------------------------------------------------ values and sizes

def gen_values(_tier):
    for typ, vals in VALUES.items():
        for v in vals:
            yield typ, v
    for s in ('', 'a', 'a b', 'é', '日本', '\0', 'a\0b', 'a:b;c', '\n', '\U0001f600', 'ÿ' * 130, b'\xff', b'a\xffb'):
        yield 'str', s
    for n in (0, 1, 2, 100, 254, 255, 256, 257, 1000, 9000, 9999, 10000, 10001, 30000, 65000):
        yield 'len', n
    for n in range(1, 240):
        yield 'key', n
    for n in NAMES:
        yield 'name', n
    for n in range(1, 256):
        yield 'bits', n
    for n in (1, 2, 255, 256, 257, 1000, 3000):
        yield 'samples', n
    for n in (1, 2, 255, 256, 300):
        yield 'topics', n
    for n in (1, 2, 50, 255, 1000):
        yield 'array', n


def run_values(case, ctx):
    typ, v = case
    if typ == 'str':
        n = len(v if isinstance(v, bytes) else v.encode())
        msgs = [('I', f'char[{n}]', 'k', v), ('M', f'char[{n}]', 'k', v, 0), ('L', 48, 1, v), ('C', 49, 2, 3, v)]
    elif typ == 'len':
        msgs = [('I', f'char[{v}]', 'k', 'y' * v), ('M', f'char[{v}]', 'k', 'w' * v, 0),
                ('M', f'uint8_t[{v}]', 'l', b'\xfe' * v, 0), ('L', 48, 1, 'w' * v), ('C', 49, 2, 3, 'e' * v)]
    elif typ == 'key':
        k = 'k' * v
        msgs = [('I', 'uint8_t', k, 3), ('P', 'int32_t', k, 4), ('M', 'char[1]', k, 'a', 0), ('Q', 1, 'float', k, 1.0),
                F('t' * v, 'uint64_t timestamp', 'uint8_t ' + k), ('A', 0, 1, 't' * v),
                ('D', 1, struct.pack('<QB', 2, 3)), ('P', 'float', k, 4.5)]
    elif typ == 'name':
        msgs = named(v)
    elif typ == 'bits':
        msgs = [('Q', v, 'int32_t', 'PAR', 1), ('Q', v >> 1, 'float', 'PAR', 1.5), ('Q', v, 'float', 'QAR', 2.5)]
    elif typ == 'samples':
        msgs = [FA, ('A', 0, 1, 'a')] + [('D', 1, struct.pack('<Qf', 5 + i // 2, i * 0.5)) for i in range(v)]
    elif typ == 'topics':
        msgs = [FA] + [F(f't{i}', 'uint64_t timestamp', 'uint16_t v') for i in range(v)]
        msgs += [('A', i % 256, 3 * i, 'a') for i in range(min(v, 256))] + [('A', 0, 3 * i + 1, f't{i}') for i in range(v)]
        for i in range(v):
            if i < 256:
                msgs.append(('D', 3 * i, struct.pack('<Qf', i + 1, i)))
            msgs.append(('D', 3 * i + 1, struct.pack('<QH', 2 * i, i)))
    elif typ == 'array':
        msgs = [F('t', f'float[{v}] v', 'uint64_t timestamp'), ('A', 0, 1, 't'),
                ('D', 1, struct.pack(f'<{v}fQ', *[i * 0.1 for i in range(v)], 9))]
    else:
        code, _, _ = BASIC[typ]
        msgs = [('I', typ, 'key', v), ('M', typ, 'key', v, 0), ('M', typ, 'key', v, 1), ('M', typ, 'key', v, 0)]
        par = [('P', typ, 'PAR', v), ('Q', 3, typ, 'PAR', v)] if typ in ('int32_t', 'float') else []
        msgs += par + [F('t', 'uint8_t o', f'{typ} v', 'uint64_t timestamp', f'{typ}[2] w'), ('A', 0, 3, 't'),
                       ('D', 3, struct.pack(f'<B{code}Q{code}{code}', 9, v, 1, v, v)),
                       ('D', 3, struct.pack(f'<B{code}Q{code}{code}', 8, v, 2, VALUES[typ][0], v))] + par[:1]
        if typ == 'uint64_t':
            msgs.append(('D', 3, struct.pack('<BQQQQ', 8, v, max(v, 2), v, v)))
    check(msgs, ctx)


# ------------------------------------------------------------ layouts

def gen_layouts(tier):
    from checks.c02 import TYPES
    for i, a in enumerate(TYPES):
        for j, b in enumerate(TYPES):
            for pos in range(3):
                yield a, b, pos


def run_layouts(case, ctx):
    from checks.c02 import NESTED
    from vlib.model import flatten
    a, b, pos = case
    fields = [(a[0], a[1], 'f0'), (b[0], b[1], 'f1')]
    fields.insert(pos, ('uint64_t', 0, 'timestamp'))
    fields.append(('uint8_t', 3, '_padding0'))
    fmts = NESTED + [('F', 't', tuple(fields))]
    flat = flatten({f[1]: f[2] for f in fmts}, 't')
    msgs = list(fmts) + [('A', 0, 7, 't')]
    for k in range(3):
        out = b''
        for i, (f, t) in enumerate(flat):
            if f == 'timestamp':
                out += struct.pack('<Q', 5 + k // 2)
            elif t == 'bool':
                out += bytes([(i + k) & 1])
            else:
                out += bytes((i * 37 + j * 11 + k * 101 + 128) & 0xff for j in range(BASIC[t][1]))
        msgs.append(('D', 7, out))
    check(msgs, ctx)


# ------------------------------------------------------------ logs without data sets

def gen_empty(_tier):
    ops = [('L', 2), ('C', 1), ('O', 0), ('P', 0), ('I', 0), ('M', 0), ('Q', 0)]
    yield from seqs(ops, 3)


def run_empty(s, ctx):
    known = [('P', 'int32_t', 'PAR', 5), FA]
    check(known, ctx, 98)
    check(known + timed((('L', 0),) + s), ctx, 98)


# ------------------------------------------------------------ logs loaded from a database

def gen_db(tier):
    yield from seqs(DATA[:12], 1 if tier == 'quick' else 2)


def run_db(s, ctx):
    msgs = [('B', (1,) + (0,) * 7, (0,) * 8, (0, 0, 0))] + DEFS[:8] + DEFS[10:16] + PRE + timed(s + tuple(DATA[:12]))
    handle = dbtools.fresh(ctx)
    u = DatabaseULog(handle, log_file=stream(encode(msgs, 98)))
    u.save()
    v = DatabaseULog(handle, primary_key=u.primary_key, lazy=False)
    ctx.executions += 2
    data = written(v)
    check_written(data, run(msgs, 98).result(), ctx, (None, 1, 98, (1,) + (0,) * 7))


# ------------------------------------------------------------ the same message again and again

def run_repeats(case, ctx):
    msgs, times = [], {}
    for m in repeats(case):     # what is behind its time is left out
        at = {'L': lambda m: ('L', m[2]), 'C': lambda m: ('C', m[2], m[3]),
              'D': lambda m: ('D', m[1], struct.unpack_from('<Q', m[2], 2 if m[1] == 2 else 0)[0])}.get(m[0], lambda m: ('', 0))(m)
        if at[-1] >= times.get(at[:-1], 0):
            times[at[:-1]] = at[-1]
            msgs.append(m)
    if case[0] == 1:
        msgs = [m for m in repeats(case) if m != da(0, 10, 1.5)]
    check(msgs, ctx)


# ------------------------------------------------------------ the sizes that the types of texts and arrays state

TEXTS = ['a', 'ab', 'é', 'aé', '€€', '\U0001d11e', 'x' * 100, '\0', 'é\0é']


def gen_sizes(_tier):
    for how in (1, 2, 3):
        yield from itertools.product(('char', 'uint8_t', 'int8_t'), itertools.product(range(len(TEXTS)), repeat=how))


def run_sizes(case, ctx):
    typ, texts = case
    raws = [TEXTS[i].encode() for i in texts]
    vals = [TEXTS[i] if typ == 'char' else r for i, r in zip(texts, raws)]
    msgs = [('I', f'{typ}[{len(r)}]', f'k{i}', v) for i, (r, v) in enumerate(zip(raws, vals))]
    msgs += [('M', f'{typ}[{len(r)}]', 'm', v, int(i > 0)) for i, (r, v) in enumerate(zip(raws, vals))]
    ctx.executions += 1
    ctx.transitions += len(msgs)
    ctx.state(case)
    data = written(ULog(stream(encode([FA] + msgs + [('A', 0, 0, 'a'), da(0, 1)]))))
    pos = 16
    while pos < len(data):
        size, kind = struct.unpack('<HB', data[pos:pos + 3])
        body = data[pos + 3:pos + 3 + size]
        pos += 3 + size
        if kind in b'IM':
            part = kind == ord('M')
            n = body[part]
            key = body[part + 1:part + 1 + n].decode()
            got, stated = size - part - 1 - n, int(key.split('[')[1].split(']')[0])
            if got != stated:
                raise Violation(f'a value of {got} bytes is written as {key}',
                                'part-size' if part and len(set(map(len, raws))) > 1 else None)
    ctx.outcome(case)


def families():
    return [
        Family('definitions', gen_defs, run_defs, 'sequences of definitions'),
        Family('data', gen_data, run_data, 'sequences of data section messages with per-topic clocks'),
        Family('kinds', gen_kinds, run_kinds, 'filtered, appended, other targets, flags, start times, versions'),
        Family('values', gen_values, run_values, 'boundary values, sizes and counts'),
        Family('layouts', gen_layouts, run_layouts, 'pairs of field types and time stamp positions'),
        Family('empty', gen_empty, run_empty, 'logs without data sets'),
        Family('database', gen_db, run_db, 'logs that were loaded from a database'),
        Family('sizes', gen_sizes, run_sizes, 'sizes of texts and arrays in the types that are written'),
        Family('repeats', gen_repeats, run_repeats, 'one message many times'),
    ]
