"""
C01: loading a well-formed log reports exactly its content.

Explicit-state exploration of the ULog reader's state machine: every message sequence over the
alphabets below is a path of the reference model (vlib.model.Ref); each path is executed on the real
loader, and the complete public result is compared with the model's state.
"""
import struct
from pyulog import ULog
from vlib.alpha import F, FA, FB, FC, FN, NAMES, U64, VALUES, da, db, dc, gen_repeats, named, repeats, seqs, stream
from vlib.common import check, load
from vlib.engine import Family, Violation, expect
from vlib.model import diff, observe, run
from vlib.ulg import BASIC, encode

ID, LEVEL = 'C01', 'model_checking'
RULE = ('every sequence of messages over the alphabet up to the depth, and every element of the value '
        'and size ladders, encoded with an independent encoder; outcomes are distinct public results')
ASSUMPTIONS = ['message ids are not reused, formats precede subscriptions, and the data of a topic '
               'follows its subscription (well-formed logs)']


# ------------------------------------------------------------ sequences in the definitions section

DEFS = [
    ('I', 'char[3]', 'k', 'abc'),
    ('I', 'int32_t', 'k', -7),
    ('I', 'uint32_t', 'ver', 0xfedcba98),
    ('I', 'float', 'fl', 0.1),
    ('M', 'char[2]', 'm', 'ab', 0),
    ('M', 'char[2]', 'm', 'cd', 1),
    ('M', 'uint8_t[3]', 'n', b'\1\0\xff', 1),
    ('P', 'int32_t', 'PAR', 5),
    ('P', 'float', 'PAR', 0.25),
    ('P', 'int32_t', 'QAR', -1),
    ('Q', 1, 'int32_t', 'PAR', 1),
    ('Q', 3, 'float', 'QAR', 2.0),
    ('Q', 2, 'int32_t', 'PAR', 9),
    F('a', 'uint64_t timestamp', 'float x'),
    F('a', 'uint64_t timestamp', 'int32_t[2] y', 'b z'),
    F('b', 'uint8_t q'),
    ('X', ord('z'), b'12345'),
]
TAIL = [('L', ord('6'), 77, 'end'), ('P', 'int32_t', 'PAR', 6), ('O', 3),
        ('M', 'char[1]', 'm', 'z', 1)]


def gen_defs(tier):
    for s in seqs(DEFS, 4 if tier == 'quick' else 5):
        yield s, (len(s) + sum(map(DEFS.index, s[-1:]))) % 2


def run_defs(case, ctx):
    msgs, tail = case
    check(list(msgs) + (TAIL if tail else []), ctx, start=5)


# ------------------------------------------------------------ sequences in the data section

PRE = [FN, FA, FB, FC, ('P', 'int32_t', 'PAR', 5), ('A', 0, 0, 'a'), ('A', 1, 1, 'a'),
       ('A', 0, 0x102, 'b'), ('A', 0, 65535, 'c')]
DATA = [
    da(0, 10, 1.5), da(0, 10, -2.5), da(0, 3, 9.0), da(1, 20, 0.5), da(1, 11, float('nan')),
    db(0x102, -5, 30), db(0x102, 6, 2, (255, 0, 128)), dc(65535, 40),
    dc(65535, 40, b'\xff\xfe\0a', 0, -1.0, (-128, 65535, 0, 127, 1, 2)),
    ('L', ord('6'), 25, 'msg'), ('L', ord('3'), 1, 'err\t'), ('L', ord('6'), 25, 'msg'),
    ('C', ord('4'), 1, 26, 'tag1'), ('C', ord('4'), 513, 27, 'tag513'),
    ('O', 100), ('O', 65535),
    ('P', 'int32_t', 'PAR', 7), ('P', 'float', 'NEW', 0.5),
    ('I', 'char[3]', 'k', 'abc'), ('M', 'char[2]', 'm', 'ab', 0), ('M', 'char[2]', 'm', 'cd', 1),
    ('Q', 1, 'int32_t', 'PAR', 1), ('S',), ('X', ord('z'), b'12345'), ('R', 1),
    ('A', 2, 7, 'a'),
]
REST = [da(0, 12, 3.0), db(0x102, 1, 35)]


def gen_data(tier):
    for s in seqs(DATA, 3 if tier == 'quick' else 4):
        yield s
    if tier == 'quick':
        small = [DATA[i] for i in (0, 3, 5, 9, 12, 14, 16, 18, 19, 20, 22, 23)]
        yield from seqs(small, 4, 4)


def run_data(msgs, ctx):
    # a second subscription with the same id would be a reuse: only use the first one
    seen = False
    out = []
    for m in msgs:
        if m[0] == 'A':
            if seen:
                continue
            seen = True
            out.append(m)
            out.append(da(7, 50, 4.0))
        else:
            out.append(m)
    check(PRE + out, ctx, start=8)


# ------------------------------------------------------------ values

def gen_values(_tier):
    for typ, vals in VALUES.items():
        for v in vals:
            for where in 'IMPQ':
                yield where, typ, v
            yield 'D', typ, v
    for s in ('', 'a', 'a b', 'x' * 255, 'x' * 256, 'x' * 300, 'é', '日本', '\0', 'a\0b', 'a:b;c',
              '\n', ' ', '\U0001f600', 'ÿ' * 130):
        yield 'S', 'char', s
    for raw in (b'\xff', b'a\xffb', b'\xc3', b'\xe6\x97', b'\xc3\x28ok', b'\x80\x80'):
        yield 'S', 'char', raw
    for typ in BASIC:
        for n in (1, 2, 3, 5):
            yield 'ARR', typ, n
    for name in NAMES:
        yield 'NAME', '', name


def run_values(case, ctx):
    where, typ, v = case
    if where == 'I':
        for section in (0, 1):
            check([('L', 48, 1, '')] * section + [('I', typ, 'key', v)], ctx)
    elif where == 'M':
        check([('M', typ, 'key', v, 0), ('M', typ, 'key', v, 1), ('M', typ, 'key', v, 0)], ctx)
    elif where == 'P':
        check([('P', typ, 'key', v), ('L', 48, 1, ''), ('P', typ, 'key', v)], ctx)
    elif where == 'Q':
        for bits in [*range(18), 32, 64, 128, 255]:
            check([('Q', bits, typ, 'key', v)], ctx)
    elif where == 'D':
        code, _, _ = BASIC[typ]
        check([F('t', 'uint8_t o', f'{typ} v', 'uint64_t timestamp', f'{typ}[2] w'), ('A', 0, 3, 't'),
               ('D', 3, struct.pack(f'<B{code}Q{code}{code}', 9, v, 1, v, v)),
               ('D', 3, struct.pack(f'<B{code}Q{code}{code}', 8, v, 2, VALUES[typ][0], v))], ctx)
    elif where == 'S':
        n = len(v if isinstance(v, bytes) else v.encode())
        check([('I', f'char[{n}]', 'k', v), ('M', f'char[{n}]', 'k', v, 0), ('L', 48, 1, v),
               ('C', 49, 2, 3, v)], ctx)
    elif where == 'NAME':
        check(named(v), ctx)
    else:
        code, size, _ = BASIC[typ]
        raw = bytes((37 * i + 200) % 256 for i in range(size * v))
        if typ == 'char':
            raw = b'q' * v
        check([('I', f'{typ}[{v}]', 'k', raw), ('M', f'{typ}[{v}]', 'm', raw, 0),
               ('L', 48, 1, ''), ('I', f'{typ}[{v}]', 'l', raw)], ctx)


# ------------------------------------------------------------ sizes

LADDER = (0, 1, 2, 3, 7, 8, 15, 16, 31, 63, 100, 127, 128, 200, 254, 255, 256, 257, 300, 509, 510, 511,
          512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 9990, 9999, 10000, 10001, 10010, 16384,
          20000, 32767, 32768, 40000, 65000)


def gen_sizes(tier):
    for n in LADDER:
        for k in 'IMLCD':
            yield k, n
    for n in range(1, 240):
        yield 'key', n
        if n % 8 == 0 or tier != 'quick':
            yield 'name', n
    for n in (1, 2, 3, 10, 255, 256, 257, 1000, 4096, 32767, 65535, 65536, 70000):
        yield 'samples', n
    for n in (1, 2, 100, 255, 256, 257, 300, 1001, 5000, 20001) + (() if tier == 'quick' else (65537,)):
        if n <= 30000:
            yield 'topics', n
        yield 'messages', n
        yield 'params', n
        yield 'lists', n
    for n in (1, 2, 3, 50, 255, 256, 1000, 5000):
        yield 'array', n


def run_sizes(case, ctx):
    k, n = case
    if k == 'I':
        check([('I', f'char[{n}]', 'k', 'y' * n), ('L', 48, 1, ''), ('I', f'char[{n}]', 'l', 'z' * n)], ctx)
    elif k == 'M':
        check([('M', f'char[{n}]', 'k', 'y' * n, 0), ('L', 48, 1, ''),
               ('M', f'uint8_t[{n}]', 'l', b'\xfe' * n, 0)], ctx)
    elif k == 'L':
        check([('L', 48, 1, 'w' * n), ('L', 49, 2, 'end')], ctx)
    elif k == 'C':
        check([('C', 48, 7, 1, 'w' * n), ('C', 49, 7, 2, 'end')], ctx)
    elif k == 'D':
        check([F('t', 'uint64_t timestamp', f'uint8_t[{max(n, 1)}] v') if n < 9000 else
               F('t', 'uint64_t timestamp', f'p[{n // 1000}] v'),
               F('p', *[f'uint8_t f{i}' for i in range(1000)]), ('A', 0, 1, 't'),
               ('D', 1, struct.pack('<Q', 1) + b'\x11' * (max(n, 1) if n < 9000 else n // 1000 * 1000)),
               ('D', 1, struct.pack('<Q', 2) + b'\xee' * (max(n, 1) if n < 9000 else n // 1000 * 1000))], ctx)
    elif k == 'key':
        key = ('k' * n)
        check([('I', 'uint8_t', key, 3), ('P', 'int32_t', key, 4), ('M', 'char[1]', key, 'a', 0),
               ('Q', 1, 'float', key, 1.0), ('L', 48, 1, ''), ('P', 'float', key, 4.5)], ctx)
    elif k == 'name':
        name = 'n' * n
        check([F(name, 'uint64_t timestamp', 'uint8_t ' + name), ('A', 3, 4, name),
               ('D', 4, struct.pack('<QB', 1, 2))], ctx)
    elif k == 'samples':
        check([FA, ('A', 0, 1, 'a')] + [da(1, 1000 + i, i * 0.5) for i in range(n)], ctx)
    elif k == 'topics':
        msgs = [FA] + [F(f't{i}', 'uint64_t timestamp', 'uint16_t v') for i in range(n)]
        for i in range(n):
            msgs += [('A', i % 256, 3 * i, 'a'), ('A', 0, 3 * i + 1, f't{i}')] if i < 256 else \
                [('A', 0, 3 * i + 1, f't{i}')]
        for i in range(n):
            if i < 256:
                msgs.append(da(3 * i, i + 1, float(i)))
            msgs.append(('D', 3 * i + 1, struct.pack('<QH', 2 * i + 1, i)))
        check(msgs, ctx)
    elif k == 'messages':
        check([FA, ('A', 0, 1, 'a')] + [m for i in range(n) for m in (
            ('L', 48 + i % 8, i, f'm{i}'), ('C', 48 + i % 8, i % 65536, i, f't{i}'), ('O', i % 65536), da(1, i),
            ('P', 'int32_t', f'p{i % 7}', i), ('S',))], ctx)
    elif k == 'params':
        check([('P', 'int32_t', f'p{i}', i) for i in range(n)] + [('Q', 1 + i % 3, 'float', f'p{i}', i / 4)
              for i in range(n)] + [('I', 'uint32_t', f'i{i}', i) for i in range(n)], ctx)
    elif k == 'lists':
        check([('M', 'char[4]', f'k{i % 3}', f'{i:04d}', int(i % 5 != 0)) for i in range(n)], ctx)
    elif k == 'array':
        check([F('t', f'float[{n}] v', 'uint64_t timestamp'), ('A', 0, 1, 't'),
               ('D', 1, struct.pack(f'<{n}fQ', *[i * 0.5 for i in range(n)], 9))], ctx)


# ------------------------------------------------------------ header and flags

def gen_header(tier):
    for start in U64:
        for ts in U64:
            yield start, 1, None, ts
    for version in range(256):
        yield 1234, version, None, 5
    for byte in range(8):
        for v in (range(256) if byte == 0 or tier != 'quick' else (1, 2, 128, 255)):
            c = [0] * 8
            c[byte] = v
            yield 7, 1, tuple(c), 5


def run_header(case, ctx):
    start, version, compat, ts = case
    msgs = [] if compat is None else [('B', compat, (0,) * 8, (0, 0, 0))]
    msgs += [FA, ('I', 'int8_t', 'k', 1), ('A', 0, 1, 'a'), ('O', 5), da(1, ts), ('O', 6),
             ('P', 'int32_t', 'p', 1), ('L', 48, ts, 'x'), ('C', 48, 65535, ts, 'x')]
    check(msgs, ctx, start, version)


# ------------------------------------------------------------ input sources and dataset look-up

SRC = [FA, FB, ('A', 0, 0, 'a'), ('A', 3, 1, 'a'), ('A', 0, 2, 'b'), da(0, 1), ('L', 48, 1, 'é'),
       db(2, 1, 4), da(1, 7, 2.0), ('S',), ('O', 1)]


def gen_sources(_tier):
    for how in ('path', 'file', 'raw', 'bytesio', 'keyword'):
        for strict in (None, False, True):
            yield how, strict


def run_sources(case, ctx):
    how, strict = case
    data = encode(SRC)
    path = ctx.tmp + '/src.ulg'
    with open(path, 'wb') as f:
        f.write(data)
    kw = {} if strict is None else {'disable_str_exceptions': strict}
    arg = {'path': lambda: path, 'file': lambda: open(path, 'rb'),
           'raw': lambda: open(path, 'rb', buffering=0), 'bytesio': lambda: stream(data),
           'keyword': lambda: None}[how]()
    ctx.executions += 1
    u = ULog(log_file=path, **kw) if how == 'keyword' else ULog(arg, **kw)
    got = observe(u)
    ctx.outcome(got)
    d = diff(run(SRC).result(), got)
    if d:
        raise Violation(d)
    if how not in ('path', 'keyword') and not arg.closed:
        raise Violation('the file is still open')
    with open(path, 'rb') as f:
        expect(data, f.read(), 'the log file itself')


INST = [('a', 0), ('a', 1), ('a', 2), ('a', 255), ('b', 0), ('b', 1), ('ab', 0)]


def gen_lookup(_tier):
    for mask in range(1 << len(INST)):
        for order in (0, 1):
            yield mask, order


def run_lookup(case, ctx):
    mask, order = case
    have = [x for i, x in enumerate(INST) if mask >> i & 1]
    if order:
        have.reverse()
    msgs = [F(n, 'uint64_t timestamp', 'uint8_t v') for n in ('a', 'b', 'ab', 'empty')]
    msgs += [('A', m, 10 + i, n) for i, (n, m) in enumerate(have)] + [('A', 0, 99, 'empty')]
    msgs += [('D', 10 + i, struct.pack('<QB', i + 1, i)) for i in range(len(have))]
    u = load(msgs)
    ctx.executions += 1
    ctx.transitions += len(msgs)
    ctx.state(tuple(have))
    names = [(d.name, d.multi_id) for d in u.data_list]
    expect(sorted(have), sorted(names), 'datasets')
    ctx.outcome(tuple(names))
    for n, m in INST + [('empty', 0), ('c', 0), ('a', 3), ('', 0)]:
        try:
            d = u.get_dataset(n, m)
            ok = (n, m) in have and (d.name, d.multi_id) == (n, m) and \
                list(d.data['v']) == [have.index((n, m))]
            if m == 0:
                expect(True, u.get_dataset(n) is d, 'get_dataset without instance is the first')
        except (KeyError, IndexError, ValueError):
            ok = (n, m) not in have
        if not ok:
            raise Violation(f'get_dataset({n!r}, {m}) with datasets {have}')


# ------------------------------------------------------------ version information

def gen_version(_tier):
    for t in range(256):
        yield 0x01020300 | t
    for v in (0, 0xff, 0x010000ff, 0xffffffff, 0x00ff00ff, 0x0000ff40, 0x7f80c0c0):
        yield v


def run_version(v, ctx):
    ctx.executions += 1
    u = load([('I', 'uint32_t', 'ver_sw_release', v), ('I', 'uint32_t', 'other', v ^ 0x55)])
    parts = tuple(v.to_bytes(4, 'big'))
    expect(parts, u.get_version_info(), 'version')
    expect(tuple((v ^ 0x55).to_bytes(4, 'big')), u.get_version_info('other'), 'version of other key')
    expect(None, u.get_version_info('none'), 'version of missing key')
    expect(None, u.get_version_info_str('none'), 'version text of missing key')
    t = parts[3]
    kind = None if t < 64 else ' (alpha)' if t < 128 else ' (beta)' if t < 192 else ' (RC)' if t < 255 else ''
    want = None if kind is None else 'v%d.%d.%d%s' % (*parts[:3], kind)
    expect(want, u.get_version_info_str(), 'version text')
    ctx.outcome(want)


# ------------------------------------------------------------ the same message again and again

def run_repeats(case, ctx):
    check(repeats(case), ctx, start=5)


def families():
    return [
        Family('definitions', gen_defs, run_defs, f'{len(DEFS)} definition messages, all sequences'),
        Family('data', gen_data, run_data, f'{len(DATA)} data section messages, all sequences'),
        Family('values', gen_values, run_values, 'boundary values of every type in every message'),
        Family('sizes', gen_sizes, run_sizes, 'size and count ladders of every message'),
        Family('header', gen_header, run_header, 'start times, versions, compat flags, time stamps'),
        Family('sources', gen_sources, run_sources, 'kinds of input'),
        Family('lookup', gen_lookup, run_lookup, 'all subsets of 7 topic instances'),
        Family('version', gen_version, run_version, 'version numbers'),
        Family('repeats', gen_repeats, run_repeats, 'one message many times'),
    ]
