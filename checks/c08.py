"""
C08: loading selected topics is the projection of loading everything.

Every log of the enumerated spaces x every filter: the filtered load must report the chosen topics exactly
as the reference model has them, no other topic, and everything that is not topic data unchanged.
"""
import itertools
import struct
from pyulog import ULog
from vlib.alpha import F, FA, FB, da, db, seqs, stream
from vlib.common import compare
from vlib.engine import Family, expect
from vlib.model import observe, run
from vlib.ulg import encode

ID, LEVEL = 'C08', 'model_checking'
RULE = 'every message sequence x every subset of topic names; outcomes are distinct filtered results'
ASSUMPTIONS = ['an id stands for one topic instance (the format requires it)',
               'the time stamps that a reader derives from the data it reads (end of the log, times of '
               'dropouts and of parameter changes) are those of the selected topics']

DERIVED = ('last', 'dropouts', 'changed')
FAA = F('aa', 'uint64_t timestamp', 'a in', 'uint8_t q', 'uint8_t[2] _padding0')
PRE = [FA, FB, FAA, ('P', 'int32_t', 'PAR', 5), ('I', 'char[1]', 'k', 'v'), ('A', 0, 0, 'a'), ('A', 1, 1, 'a'),
       ('A', 0, 2, 'b'), ('A', 3, 300, 'aa')]
OPS = [da(0, 10, 1.0), da(1, 8, 2.0), db(2, 1, 20), db(2, 2, 9), ('D', 300, struct.pack('<QQfB', 15, 1, 0.5, 7)),
       ('D', 300, struct.pack('<QQfB', 16, 1, 0.5, 7) + b'\x01'), ('O', 4), ('L', 50, 3, 'text'),
       ('C', 51, 1, 3, 'tagged'), ('P', 'int32_t', 'PAR', 6), ('M', 'char[1]', 'm', 'x', 1), ('S',),
       ('Q', 1, 'float', 'PAR', 1.0), ('I', 'char[1]', 'k', 'w'), ('X', ord('z'), b'unknown'),
       ('A', 2, 5, 'a'), ('A', 1, 6, 'b'), da(5, 12, 3.0), db(6, 4, 18)]
NAMES = ['a', 'b', 'aa', 'x']
FILTERS = [None] + [list(c) for n in range(5) for c in itertools.combinations(NAMES, n)] + \
    [['b', 'a'], ['a', 'a'], ['', 'aa']]


def gen_seqs(tier):
    yield from seqs(OPS, 3 if tier == 'quick' else 4)


def run_seqs(s, ctx):
    msgs = PRE + list(s)
    ref = run(msgs, 2)
    data = encode(msgs, 2)
    full = ref.result()
    ctx.state(full)
    ctx.transitions += len(msgs)
    for names in FILTERS:
        u = ULog(stream(data), names)
        what = f'filter {names}: '
        compare(full if names is None else ref.result(names), u, ctx,
                () if names is None else DERIVED, what)
        if names is not None:
            expect([(k, v) for _, k, v in full['changed']], [(k, v) for _, k, v in observe(u)['changed']],
                   what + 'changed parameters')
            expect([d for _, d in full['dropouts']], [d.duration for d in u.dropouts], what + 'dropouts')
            want = max([2] + [ts for ts in times(msgs, names)])
            expect(want, u.last_timestamp, what + 'last time stamp')


ID_NAME = {0: 'a', 1: 'a', 2: 'b', 300: 'aa', 5: 'a', 6: 'b'}
TS_OFF = {0: 0, 1: 0, 2: 2, 300: 0, 5: 0, 6: 2}


def times(msgs, names):
    known = set()
    for m in msgs:
        if m[0] == 'A':
            known.add(m[2])
        elif m[0] == 'D' and m[1] in known and ID_NAME[m[1]] in names:
            yield struct.unpack_from('<Q', m[2], TS_OFF[m[1]])[0]


def gen_many(_tier):
    for n in (1, 2, 5, 100, 300):
        for step in (1, 2, 3, 50):
            yield n, step


def run_many(case, ctx):
    n, step = case
    msgs = [F(f't{i}', 'uint64_t timestamp', 'uint16_t v') for i in range(n)]
    msgs += [('A', 0, i, f't{i}') for i in range(n)] + [('A', 1, 1000 + i, f't{i}') for i in range(n)]
    for k in range(3):
        msgs += [('D', i + j, struct.pack('<QH', 7 + k, i)) for i in range(n) for j in (0, 1000)]
    names = [f't{i}' for i in range(0, n, step)]
    for f in (names, tuple(names), set(names)):
        compare(run(msgs).result(names), ULog(stream(encode(msgs)), message_name_filter_list=f), ctx, DERIVED)
    ctx.transitions += len(msgs)


def families():
    return [
        Family('sequences', gen_seqs, run_seqs, f'sequences of {len(OPS)} messages x {len(FILTERS)} filters'),
        Family('many', gen_many, run_many, 'many topics'),
    ]
