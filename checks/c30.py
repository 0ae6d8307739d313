"""
C30: any bytes after a valid header.

Every short byte string over an alphabet of significant bytes, every short sequence of arbitrary messages and
every triple of offsets of appended data is put into a log: loading must end, must not fail if the
definitions are intact, and must not report anything that is not in the file.
"""
import itertools
import struct
from pyulog import ULog
from vlib.alpha import FA, FB, F, da, db, stream
from vlib.engine import Family, Violation, expect
from vlib.model import cv, flatten, observe, text
from vlib.ulg import BASIC, SYNC, encode, header, message

ID, LEVEL = 'C30', 'model_checking'
RULE = 'every byte string or sequence of arbitrary messages stated, in every context; outcomes are distinct results'
ASSUMPTIONS = ['the log is far smaller than the memory']

FR = F('r', 'uint64_t timestamp', 'r in')       # refers to itself
DEFS = [FA, FB, ('P', 'int32_t', 'PAR', 1), ('I', 'char[2]', 'sys', 'ab')]
SUBS = [('A', 0, 0x4144, 'a'), ('A', 1, 0, 'b')]
BODY = [da(0x4144, 100, 1.5), db(0, 7, 102), ('S',), ('O', 2), da(0x4144, 103, 2.5)]
# where the bytes are: (before, after, are the definitions intact)
CONTEXTS = {
    'only': (b'', b'', False),
    'definitions': (b''.join(map(message, DEFS[:2])), b''.join(map(message, DEFS[2:] + SUBS + BODY)), False),
    'subscriptions': (b''.join(map(message, DEFS + SUBS[:1])), b''.join(map(message, SUBS[1:] + BODY)), True),
    'data': (b''.join(map(message, DEFS + SUBS + BODY)), b''.join(map(message, BODY)), True),
    'end': (b''.join(map(message, DEFS + SUBS + BODY[:2])), b'', True),
}
KEYED = ('info', 'init', 'formats')


class Physical:
    """ every message that is in the file at any offset """

    def __init__(self, data, reach=None):
        self.items = {}
        self.names = set()
        for pos in range(16, len(data) - 2):
            size, typ = struct.unpack_from('<HB', data, pos)
            if pos + 3 + size > len(data):
                continue
            p = data[pos + 3:pos + 3 + size]
            k = chr(typ)
            if k == 'D' and size >= 2:
                self.add('D', p[0] | p[1] << 8, p[2:])
            elif k == 'L' and size >= 9:
                self.add('logged', struct.unpack_from('<BQ', p) + (text(p[9:]),))
            elif k == 'C' and size >= 11:
                level, tag, ts = struct.unpack_from('<BHQ', p)
                self.add('tagged', tag, (level, ts, text(p[11:])))
            elif k == 'O' and size >= 2:
                self.add('dropouts', struct.unpack_from('<H', p)[0])
            elif k in 'IPMQ' and size >= 1:
                self.keyed(k, p)
            elif k == 'F':
                self.add('format', text(p).split(':')[0])
            elif k == 'A' and size >= 3:
                self.add('A', (p[0], p[1] | p[2] << 8, text(p[3:])))

    def add(self, kind, *item):
        self.items.setdefault(kind, set()).add(item)

    def keyed(self, k, p):
        if k in 'MQ':
            p = p[1:]
        if not p:
            return
        words = text(p[1:1 + p[0]]).split(' ')
        if len(words) > 1:
            raw = p[1 + p[0]:]
            typ = words[0]
            if typ.startswith('char['):
                v = text(raw)
            elif typ in BASIC:
                if len(raw) != BASIC[typ][1]:
                    return
                v, = struct.unpack('<' + BASIC[typ][0], raw)
            else:
                v = bytes(raw)
            self.add(k, words[1], cv(v))

    def has(self, kind, *item):
        return item in self.items.get(kind, ())


def check_load(data, intact, ctx, kinds=(), **kw):
    """ load the bytes; nothing may be invented """
    ctx.executions += 1
    ctx.transitions += 1
    try:
        u = ULog(stream(data), **kw)
    except Exception as e:      # pylint: disable=broad-except
        ctx.outcome((type(e).__name__, str(e)[:60]))
        if intact:
            raise Violation(f'loading fails with {type(e).__name__}: {e} ({data[16:]!r})') from e
        return
    got = observe(u)
    ctx.outcome(got)
    file = Physical(data)
    ctx.state(tuple(sorted((k, len(v)) for k, v in file.items.items())))

    def want(ok, what):
        if not ok:
            raise Violation(f'{what} is reported but not in the file {data[16:]!r}')
    for k, v in got['info'].items():
        want(file.has('I', k, v), f'information {k}={v}')
    for k, v in got['init'].items():
        want(file.has('P', k, v), f'parameter {k}={v}')
    for _, k, v in got['changed']:
        want(file.has('P', k, v), f'changed parameter {k}={v}')
    for d in got['defaults'].values():
        for k, v in d.items():
            want(file.has('Q', k, v), f'default {k}={v}')
    for k, lists in got['multi'].items():
        for v in itertools.chain(*lists):
            want(file.has('M', k, v), f'multi information {k}={v}')
    for k in got['formats']:
        want(file.has('format', k), f'format {k}')
    for m in got['logged']:
        want(file.has('logged', m), f'string {m}')
    for tag, ms in got['tagged'].items():
        for m in ms:
            want(file.has('tagged', tag, m), f'tagged string {m}')
    for _, n in got['dropouts']:
        want(file.has('dropouts', n), f'dropout {n}')
    for name, multi, mid, fields, _, cols in got['data']:
        want(file.has('A', (multi, mid, name)), f'topic {name}.{multi}')
        cols = dict(cols)
        n = max(len(c[2]) // c[1] for c in cols.values())
        size = sum(cols[f][1] for f, _ in fields)
        samples = {p[:size] for i, p in file.items.get('D', ()) if i == mid}
        for r in range(n):
            row = b''.join(cols[f][2][r * cols[f][1]:(r + 1) * cols[f][1]] for f, _ in fields)
            want(row in samples, f'sample {row!r} of {name}.{multi}')


# ------------------------------------------------------------ byte strings

SYMBOLS = [0, 1, 2, 3, 4, 11, 255] + [ord(c) for c in 'ABCDFILMOPQRS'] + [0x2f, 32, 58]
FEW = [0, 2, 3, 255] + [ord(c) for c in 'ADILMOPS']


def gen_bytes(tier):
    for c in CONTEXTS:
        for n in (0, 1):
            for s in itertools.product(SYMBOLS, repeat=n):
                yield c, s, SYMBOLS, 0
        for s in itertools.product(SYMBOLS, repeat=2):
            yield c, s, SYMBOLS, 1 if tier == 'quick' else 2
        if tier == 'quick':
            for s in itertools.product(FEW, repeat=3):
                yield c, s, FEW, 1
        else:
            for s in itertools.product(FEW, repeat=4):
                yield c, s, FEW, 1


def run_bytes(case, ctx):
    c, s, symbols, more = case
    before, after, intact = CONTEXTS[c]
    for n in range(more + 1):
        for t in itertools.product(symbols, repeat=n):
            check_load(header() + before + bytes(s) + bytes(t) + after, intact, ctx)


# ------------------------------------------------------------ arbitrary messages

PATTERNS = [b'', b'\0', b'\x01', b'\xff', b'\0\0', b'DA', b'\0\0\0', b'\0DAa', b'\0\0\x01x', b'\x00\x00\x00a', b'\x01\x02\x00b',
            b'\x03a b\x01\0\0\0', b'\x09int32_t Z\x05\0\0\0', b'\x00\x09int32_t Z\x05\0\0\0', b'\xff\x09int32_t Z\x05\0\0\0',
            b'\x09int32_t Z\x05\0', b'\x07float Y\0\0\x80\x3f', b'\x09char[2] cxy', b'\x0bchar[200] cxy', b'\x07char[ cxy',
            b'\x04int  q', b'\x03 k\0', b'\x08uint8_t\x01', b'\x0auint8_t  k\x01', b'\xfe\x03a bz', b'4' + bytes(8) + b'text', b'4' + bytes(7),
            b'4\x01\x00' + bytes(8) + b'tag', b'4\x01\x00' + bytes(7), b'DA' + struct.pack('<Qf', 7, 1.), b'DA' + struct.pack('<Qf', 7, 1.) + b'\0',
            b'DA' + struct.pack('<Q', 7), b'\0\0' + struct.pack('<hQ3B', 5, 7, 1, 2, 3), b'\0\0' + bytes(16), b'\0\0' + bytes(17),
            SYNC, SYNC[:7], b'x' + SYNC, SYNC + SYNC, SYNC[1:], b'a:', b'a', b':', b'z:uint8_t;', b'z:int7_t x;', b'z:uint8_t[ x;',
            b'z:uint8_t[3 x;', b'z:uint8_t[] x;', b'z:uint8_t[-1] x;', b'z:uint8_t x', b'z:uint8_t  x;', b'r:uint64_t timestamp;r x;',
            b'z:uint8_t x;uint8_t x;', b'a:float x;', bytes(40), bytes(8) + b'\x01' + bytes(31), bytes(8) + b'\x02' + bytes(31),
            bytes(8) + b'\0\x01' + bytes(30), bytes(16) + b'\xff' * 24, bytes(8) + b'\x01' + bytes(7) + b'\x20' + bytes(23), bytes(39)]
TYPES = [0, 1, ord('z'), 255] + [ord(c) for c in 'ABCDFILMOPQRS']
SIZES = [None, 0, 1, 2, 65535]     # stated size; None: the true one


def raw(typ, pattern, size):
    return struct.pack('<HB', len(pattern) if size is None else size, typ) + pattern


def gen_messages(tier):
    for c in CONTEXTS:
        for typ in TYPES:
            for p in range(len(PATTERNS)):
                yield c, typ, p, tier


def run_messages(case, ctx):
    c, typ, p, tier = case
    before, after, intact = CONTEXTS[c]
    for size in SIZES + list(range(3, len(PATTERNS[p]) + 3)):
        m = raw(typ, PATTERNS[p], size)
        for kw in ({}, {'message_name_filter_list': ['a']}, {'parse_header_only': True}):
            check_load(header() + before + m + after, intact, ctx, **kw)
    m = raw(typ, PATTERNS[p], None)
    for t2 in TYPES if tier != 'quick' else TYPES[p % 3::3]:
        for p2 in PATTERNS if tier != 'quick' else PATTERNS[(p + typ) % 7::7]:
            check_load(header() + before + m + raw(t2, p2, None) + after, intact, ctx)


# ------------------------------------------------------------ offsets of appended data

def flag_log(offsets):
    return encode([('B', (0,) * 8, (1,) + (0,) * 7, offsets)] + DEFS + SUBS + BODY)


def gen_offsets(tier):
    n = len(flag_log((0, 0, 0)))
    first = list(range(0, n + 3)) + [n + 100, 2**31, 2**32, 2**40, 2**62]
    step = 1 if tier != 'quick' else 5
    for a in first:
        yield a, first[a % step::step] if a < n else first


def run_offsets(case, ctx):
    a, second = case
    for b in second:
        for offsets in ((a, b, 0), (b, a, b)):
            check_load(flag_log(offsets), a == 0 or b == 0 or min(a, b) > len(encode(
                [('B', (0,) * 8, (1,) + (0,) * 7, offsets)] + DEFS + SUBS)), ctx)


# ------------------------------------------------------------ first bytes

def gen_headers(_tier):
    good = header(5)
    for n in range(17):
        yield good[:n], n == 16
    for i in range(16):
        for v in range(256):
            yield good[:i] + bytes([v]) + good[i + 1:], i >= 7 or v == good[i]
    for n in (0, 1, 5, 6, 7, 15, 16, 17, 100):
        for v in (0, 1, 0x55, 255):
            yield bytes([v]) * n, False
    yield good[1:] + b'\0', False
    yield b'\0' + good, False


def run_headers(case, ctx):
    first, valid = case
    for rest in (b'', message(FA) + message(('A', 0, 1, 'a')) + message(da(1, 9))):
        if len(first) < 16 and rest:
            continue
        ctx.executions += 1
        try:
            u = ULog(stream(first + rest))
        except TypeError as e:
            expect(valid, False, f'a valid header is refused ({e})')
            ctx.outcome(str(e))
            continue
        expect(valid, True, 'a wrong header is accepted')
        expect(struct.unpack_from('<Q', first, 8)[0], u.start_timestamp, 'start')
        expect(1 if rest else 0, len(u.data_list), 'topics')
        ctx.outcome(observe(u))
    ctx.state(first)
    ctx.transitions += 1


def families():
    return [
        Family('headers', gen_headers, run_headers, 'first 16 bytes: every value of every byte, every length'),
        Family('messages', gen_messages, run_messages,
               f'{len(CONTEXTS)} contexts x {len(TYPES)} types x {len(PATTERNS)} bodies x stated sizes, and pairs'),
        Family('offsets', gen_offsets, run_offsets, 'offsets of appended data: pairs of positions'),
        Family('bytes', gen_bytes, run_bytes,
               f'{len(CONTEXTS)} contexts x all strings over {len(SYMBOLS)} bytes up to 3 (thorough 4), over {len(FEW)} up to 4 (5)'),
    ]
