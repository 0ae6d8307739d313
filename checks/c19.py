"""
C19: extracting a topic returns exactly its samples within the time window.
"""
import itertools
import os
import struct
from pyulog.extract_message import extract_message
from checks.c02 import NESTED, TYPES, topic
from checks.c18 import SEC, TIMES, field_log, gen_fields, gen_values
from vlib.alpha import F, VALUES
from vlib.cli import export_columns, put, raw, require, same, scratch, window
from vlib.engine import Family, Violation, expect
from vlib.model import run
from vlib.ulg import BASIC, encode

ID, LEVEL = 'C19', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every case of the stated spaces; states are distinct expected records, outcomes distinct returned ones'
ASSUMPTIONS = ['time stamps of a topic increase']


def write(msgs, ctx):
    return put(os.path.join(scratch(ctx), 'log.ulg'), encode(msgs))


def check_records(path, ref, name, ctx, start=None, end=None):
    ctx.executions += 1
    what = f'{name} from {start} to {end}'
    topics = [t for t in ref.topics.values() if t.rows and t.name == name and t.multi_id == 0]
    try:
        got = extract_message(path, name, start, end)
    except AttributeError:
        require(not topics, f'{what}: not found')
        ctx.outcome(what)
        return
    require(topics, f'{what}: must raise AttributeError, got {got!r:.300}')
    cols = export_columns(topics[0], False)
    rows = window(topics[0], start, end)
    ctx.state((name, rows))
    expect(len(rows), len(got), f'{what}: number of records')
    for n, (row, rec) in enumerate(zip(rows, got)):
        expect([c[0] for c in cols], list(rec), f'{what}: keys of record {n}')
        for col, _, typ in cols:
            b = raw(topics[0], row, col)
            require(same(typ, b, rec[col]), f'{what}: {col} of record {n}: expected {typ} {b!r}, got {rec[col]!r}')
    ctx.outcome([[(k, str(v)) for k, v in r.items()] for r in got])


# ------------------------------------------------------------ layouts and values

def gen_layouts(tier):
    yield from itertools.product(TYPES, repeat=2)
    yield from itertools.product(TYPES[::2] if tier == 'quick' else TYPES, repeat=3)
    if tier == 'deep':
        yield from itertools.product(TYPES[::2], repeat=4)


def run_layouts(combo, ctx):
    for pos in (0, 1, len(combo)):
        fields = [(t, n, f'f{i}') for i, (t, n) in enumerate(combo)]
        fields.insert(pos, ('uint64_t', 0, 'timestamp'))
        fmts = NESTED + [('F', 't', tuple(fields))]
        msgs = fmts + topic(fmts, 't', [(5, 1, 0), (70, 2, 0), (2**63 + 9, 3, 0)])
        check_records(write(msgs, ctx), run(msgs), 't', ctx)
        ctx.transitions += len(msgs)


def run_values(case, ctx):
    typ, n = case
    f = F('t', 'uint64_t timestamp', f'{typ}[{n}] v' if n else f'{typ} v', 'int8_t end')
    msgs = [f, ('A', 0, 1, 't')]
    code = {'char': 'c', 'bool': '?'}.get(typ, BASIC[typ][0])
    for i, vals in enumerate(itertools.product(VALUES[typ], repeat=n or 1)):
        msgs.append(('D', 1, struct.pack(f'<Q{n or 1}{code}b', i, *vals, -i % 100)))
    check_records(write(msgs, ctx), run(msgs), 't', ctx)
    ctx.transitions += len(msgs)


def run_fields(case, ctx):
    for msgs in field_log(*case):
        check_records(write(msgs, ctx), run(msgs), 't', ctx)
        ctx.transitions += len(msgs)


# ------------------------------------------------------------ time windows

def gen_windows(tier):
    for n in range(0, 8 if tier == 'quick' else 9):
        yield from itertools.combinations(TIMES, n)


def run_windows(times, ctx):
    rest = [t for t in TIMES if t not in times]
    msgs = [F('a', 'uint64_t timestamp', 'uint8_t v'), F('b', 'uint8_t v', 'uint64_t timestamp'),
            ('A', 0, 0, 'a'), ('A', 0, 1, 'b'), ('A', 1, 2, 'a')]
    msgs += [('D', 0, struct.pack('<QB', t, i)) for i, t in enumerate(times)]
    msgs += [('D', 1, struct.pack('<BQ', i, t)) for i, t in enumerate(rest)]
    msgs += [('D', 2, struct.pack('<QB', t, i + 100)) for i, t in enumerate(TIMES)]
    path, ref = write(msgs, ctx), run(msgs)
    ctx.transitions += len(msgs)
    for start in (None, 0, 1, 2, 3, 6, 0.5, 1.5, 0.000001):
        for end in (None, 0, 1, 2, 3, 6, 1.5, 2.000001):
            for name in 'ab':
                check_records(path, ref, name, ctx, start, end)


# ------------------------------------------------------------ names

NAMES = ['a', 'aa', 'ab', 'b', 'a_b', 'A']


def gen_names(_tier):
    for n in range(0, 5):
        for names in itertools.permutations(NAMES, n):
            for multi in (0, 1):
                yield names, multi


def run_names(case, ctx):
    """ topics with names that contain each other; the first one has the given instance number """
    names, multi = case
    msgs = [F(n, 'uint64_t timestamp', f'int16_t f{i}') for i, n in enumerate(NAMES)]
    msgs += [('A', multi if i == 0 else 0, i, n) for i, n in enumerate(names)]
    msgs += [('D', i, struct.pack('<Qh', SEC * k + i, 9 * i - k)) for k in (1, 2) for i in range(len(names))]
    path, ref = write(msgs, ctx), run(msgs)
    ctx.transitions += len(msgs)
    for name in NAMES + ['', 'x', 'aab', ' a', 'a ', 'a,b', 'a\n', 'a\0', '*', 'a[0]', 'a:0']:
        check_records(path, ref, name, ctx)
    for bad in (None, 5, ['a'], b'a', ('a',)):
        try:
            got = extract_message(path, bad)
        except AttributeError:
            continue
        raise Violation(f'{bad!r} must be refused, got {got!r:.200}')


def gen_sizes(tier):
    for samples in (1, 2, 9, 10, 11, 100, 1000, 65537):
        for size in (1, 9, 10, 11, 99, 101, 256):
            if samples * size <= 101000 * (1 if tier == 'quick' else 10):
                yield samples, size


def run_sizes(case, ctx):
    samples, size = case
    msgs = [F('t', 'uint64_t timestamp', f'uint16_t[{size}] v', f'char[{size}] s'), ('A', 0, 1, 't')]
    for i in range(samples):
        msgs.append(('D', 1, struct.pack(f'<Q{size}H{size}s', i, *[(i * 7 + j) & 0xffff for j in range(size)],
                                         bytes(65 + (i + j) % 26 for j in range(size))[:i % (size + 1)])))
    check_records(write(msgs, ctx), run(msgs), 't', ctx)
    ctx.transitions += len(msgs)


def families():
    return [
        Family('layouts', gen_layouts, run_layouts, 'pairs (thorough: triples) of field types, positions of the time stamp'),
        Family('fields', gen_fields, run_fields, 'confusable names of fields'),
        Family('values', gen_values, run_values, 'boundary values of every type, also in arrays'),
        Family('windows', gen_windows, run_windows, 'time stamps x start x end of the window'),
        Family('sizes', gen_sizes, run_sizes, 'numbers of samples and fields'),
        Family('names', gen_names, run_names, 'sets of topics with similar names'),
    ]
