"""
C02: the columns of a topic follow its format.

Enumerates topic layouts (every combination of three fields over all types, arrays and nested types,
every position of the time stamp, every order of the format messages, padding and sample sizes) and
compares the columns of the real loader with the reference model's flattening.
"""
import itertools
import struct
from vlib.alpha import F
from vlib.common import check
from vlib.engine import Family
from vlib.model import flatten, run
from vlib.ulg import BASIC

ID, LEVEL = 'C02', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = ('every layout of the stated shape; two or more samples with distinct bytes in every field; '
        'outcomes are distinct loaded data sets')
ASSUMPTIONS = ['every format has a timestamp field of type uint64_t at its top level']

NESTED = [F('n', 'int8_t k', 'uint16_t[2] w'), F('o', 'uint64_t timestamp', 'n[2] i', 'float z'),
          F('p', 'uint8_t q', 'uint8_t[3] _padding0')]
TYPES = [(t, n) for t in BASIC for n in (0, 2)] + [('n', 0), ('n', 2), ('o', 0), ('p', 1)]


def payload(size, seed):
    """ bytes that differ in every position; 0x7f/0xff runs make NaNs in float fields """
    return bytes((seed * 89 + i * 151 + (i * i) // 7) & 0xff for i in range(size))


def sample(formats, name, ts, seed, extra=0):
    """ a full sample of a topic, `extra` bytes longer or shorter """
    fields = flatten(formats, name)
    size = sum(BASIC[t][1] for _, t in fields)
    out = bytearray(payload(size, seed))
    off = 0
    for f, t in fields:
        if f == 'timestamp':
            struct.pack_into('<Q', out, off, ts)
        off += BASIC[t][1]
    return bytes(out[:size + extra] if extra < 0 else out + b'\x33' * extra)


def topic(fmts, name, samples, multi=0, msg_id=7):
    formats = {f[1]: f[2] for f in fmts}
    return [('A', multi, msg_id, name)] + \
        [('D', msg_id, sample(formats, name, ts, seed, extra)) for ts, seed, extra in samples]


# ------------------------------------------------------------ three fields and a time stamp

def gen_triples(tier):
    for combo in itertools.product(TYPES, repeat=2):
        for pos in range(3):
            yield combo, pos
    for combo in itertools.product(TYPES, repeat=3):
        for pos in range(4):
            yield combo, pos
    if tier in ('thorough', 'deep'):
        for combo in itertools.product(TYPES[:24:2] + TYPES[24:] if tier == 'thorough' else TYPES, repeat=4):
            for pos in range(5):
                yield combo, pos


def run_triples(case, ctx):
    combo, pos = case
    fields = [(t, n, f'f{i}') for i, (t, n) in enumerate(combo)]
    fields.insert(pos, ('uint64_t', 0, 'timestamp'))
    fmts = NESTED + [('F', 't', tuple(fields))]
    check(fmts + topic(fmts, 't', [(5, 1, 0), (2**63 + 9, 2, 0), (7, 3, 0)]), ctx)


# ------------------------------------------------------------ order of the formats, nesting

DEEP = [F('t', 'l1 a', 'uint64_t timestamp', 'l1[2] b', 'float c'), F('l1', 'l2[2] x', 'uint8_t y'),
        F('l2', 'l3 u', 'int16_t[3] v', 'uint64_t timestamp'), F('l3', 'bool g', 'char[2] h', 'l4[1] i'),
        F('l4', 'double timestamp', 'int64_t e')]


def gen_nesting(_tier):
    for order in itertools.permutations(range(len(DEEP))):
        yield order


def run_nesting(order, ctx):
    fmts = [DEEP[i] for i in order]
    msgs = list(fmts)
    for k, name in enumerate(['t', 'l2']):  # every format with a time stamp of its own can be a topic
        msgs += topic(fmts, name, [(4, 1 + k, 0), (6, 5 + k, 0)], multi=k, msg_id=k * 300)
    check(msgs, ctx)


# ------------------------------------------------------------ padding and sample sizes

def gen_padding(_tier):
    for last in ('uint8_t', 'float', 'p'):
        for pads in ([], [1], [2], [5], [7], [3, 4], [1, 1, 1]):
            for middle in (0, 3):
                for extra in range(-12, 5):
                    yield last, tuple(pads), middle, extra
    # padding of other types
    for pads in (['uint16_t'], ['float'], ['double'], ['int16_t[3]'], ['char[2]', 'uint32_t'], ['bool'], ['uint8_t', 'uint64_t[2]'], ['int32_t', 1]):
        for middle in (0, 3):
            for extra in range(-28, 4):
                yield 'uint8_t', tuple(pads), middle, extra


def run_padding(case, ctx):
    last, pads, middle, extra = case
    fields = ['uint64_t timestamp', 'int16_t x']
    if middle:
        fields.append(f'uint8_t[{middle}] _padding0')
    fields.append(f'{last} y')
    fields += [f'{n} _padding{i + 1}' if isinstance(n, str) else f'uint8_t[{n}] _padding{i + 1}' if n > 1 else f'uint8_t _padding{i + 1}'
               for i, n in enumerate(pads)]
    fmts = NESTED + [F('t', *fields)]
    other = [F('u', 'uint64_t timestamp', 'uint8_t v'), ('A', 0, 9, 'u'),
             ('D', 9, struct.pack('<QB', 3, 77))]
    # the odd sample is first, in the middle, last, and on its own
    for sizes in ((extra, 0, 0), (0, extra, 0), (0, 0, extra), (extra,), (extra, extra)):
        samples = [(10 + i, i, e) for i, e in enumerate(sizes)]
        check(fmts + other[:2] + topic(fmts, 't', samples) + other[2:] +
              [('O', 4), ('P', 'int32_t', 'p', 1)], ctx)


# ------------------------------------------------------------ names and positions of the time stamp

NAMES = ['timestamp', 'timestamp_sample', 'xtimestamp', '_padding0', '_padding', 'padding', 'x_padding0',
         '_paddingx', 'x']


def gen_names(tier):
    for n in (1, 2, 3, 4) if tier != 'deep' else (1, 2, 3, 4, 5, 6):
        for combo in itertools.permutations(NAMES, n):
            if 'timestamp' in combo and (tier != 'quick' or n < 4 or hash_index(combo) % 2 == 0):
                yield combo


def hash_index(combo):
    return sum(NAMES.index(x) * (i + 1) for i, x in enumerate(combo))


def run_names(combo, ctx):
    fmts = [F('t', *[('uint64_t ' if n == 'timestamp' else 'uint8_t ') + n for n in combo])]
    check(fmts + topic(fmts, 't', [(5, 1, 0), (4, 2, 0)]), ctx)


# ------------------------------------------------------------ several instances share one format

def gen_instances(_tier):
    for ids in itertools.permutations((0, 1, 256, 65535), 3):
        for order in itertools.product(range(3), repeat=4):
            yield ids, order


def run_instances(case, ctx):
    ids, order = case
    fmts = NESTED + [F('t', 'uint8_t a', 'n[2] b', 'uint64_t timestamp', 'uint8_t[5] _padding0')]
    msgs = list(fmts) + [('A', m, i, 't') for m, i in enumerate(ids)]
    for k, which in enumerate(order):
        msgs += [topic(fmts, 't', [(k + 1, k, -5 if k % 2 else 0)], which, ids[which])[1]]
    check(msgs, ctx)


# ------------------------------------------------------------ arrays

def gen_arrays(_tier):
    for t, n in TYPES[::2]:
        for size in (1, 2, 3, 9, 10, 11, 99, 100, 101, 255, 256, 257, 1000):
            if size * sum(BASIC[x][1] for _, x in flatten({f[1]: f[2] for f in NESTED} |
                                                          {'q': ((t, 0, 'v'),)}, 'q')) < 60000:
                yield t, size


def run_arrays(case, ctx):
    t, size = case
    fmts = NESTED + [F('t', f'{t}[{size}] v', 'uint64_t timestamp', 'uint8_t end')]
    check(fmts + topic(fmts, 't', [(1, 1, 0), (2, 2, 0)]), ctx)


def families():
    return [
        Family('triples', gen_triples, run_triples, 'pairs and triples of field types, all time stamp positions'),
        Family('nesting', gen_nesting, run_nesting, 'all orders of five mutually nested formats'),
        Family('padding', gen_padding, run_padding, 'padding layouts x sample sizes'),
        Family('names', gen_names, run_names, 'orders of fields with confusable names'),
        Family('instances', gen_instances, run_instances, 'instances of one format, interleaved'),
        Family('arrays', gen_arrays, run_arrays, 'array sizes of every type'),
    ]
