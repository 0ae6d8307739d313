"""
C05: logs of newer writers load; logs that cannot be understood are refused.

Unknown message types of every type byte and many sizes at every position of a log must not change the
result; every incompatible flag that is not known must be refused.
"""
import struct
from pyulog import ULog
from vlib.alpha import F, FA, FB, da, db, stream
from vlib.common import check, compare
from vlib.engine import Family, Violation, expect
from vlib.model import run
from vlib.ulg import SYNC, encode

ID, LEVEL = 'C05', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every unknown type byte, size and position; every flag byte value; outcomes are distinct results'
ASSUMPTIONS = ['unknown messages are at most 10000 bytes long, have a type byte other than 0, and do not '
               'contain the sync marker']

KNOWN_DEF = set(b'FIMPQALCB')
KNOWN_DATA = set(b'FDIMPQARSOLCB')
BASE = [FA, FB, ('P', 'int32_t', 'PAR', 1), ('I', 'char[2]', 'k', 'ab'), ('Q', 1, 'float', 'PAR', 2.0),
        ('M', 'char[2]', 'm', 'ab', 0), ('A', 0, 0, 'a'), ('A', 1, 1, 'b'), ('L', 48, 1, 'one'), da(0, 5, 1.0),
        db(1, 1, 6), ('M', 'char[2]', 'm', 'cd', 1), ('O', 2), ('P', 'int32_t', 'PAR', 3), ('S',), da(0, 7, 2.0),
        ('C', 49, 3, 8, 'two'), ('I', 'int8_t', 'l', 4), db(1, 2, 9)]
FIRST_DATA = 6
INNER = encode([('L', 50, 99, 'no'), da(0, 99), ('P', 'int32_t', 'PAR', 99)])[16:]


def body(size, kind):
    if kind == 'msgs':
        return (INNER * (size // len(INNER) + 1))[:size]
    if kind == 'sync':
        return ((b'\x01' + SYNC[:7]) * (size // 8 + 1))[:size]      # never the whole marker
    return bytes([kind]) * size


def insert(pos, extra):
    return BASE[:pos] + list(extra) + BASE[pos:]


# ------------------------------------------------------------ unknown messages

def gen_unknown(tier):
    for typ in range(1, 256):
        for pos in range(len(BASE) + 1):
            if typ not in (KNOWN_DEF if pos < FIRST_DATA else KNOWN_DATA):
                for size in ((1, 2, 3, 8, 11, 20, 40, 255, 600) if tier == 'quick' else (*range(1, 41 if tier != 'deep' else 260), 254, 255, 256, 600, 9000)):
                    yield typ, pos, size, 'msgs'
    for size in list(range(1, 60)) + [255, 256, 257, 511, 512, 513, 520, 1000, 1024, 4096, 8191, 8192, 9999, 10000]:
        for kind in ('msgs', 'sync', 0, 0xff, 0x2f, 0x4c):
            for pos in range(len(BASE) + 1):
                yield ord('z'), pos, size, kind


def run_unknown(case, ctx):
    typ, pos, size, kind = case
    check(insert(pos, [('X', typ, body(size, kind))]), ctx)


# ------------------------------------------------------------ several of them

def gen_several(tier):
    for p1 in range(len(BASE) + 1):
        for p2 in range(p1, len(BASE) + 1):
            for s1 in (1, 11, 300):
                for s2 in (2, 513):
                    yield p1, p2, s1, s2


def run_several(case, ctx):
    p1, p2, s1, s2 = case
    msgs = insert(p2, [('X', 0x01, body(s2, 'sync'))])
    msgs = msgs[:p1] + [('X', 0xff, body(s1, 'sync')), ('X', ord('Z'), SYNC[:7])] + msgs[p1:]
    check(msgs, ctx)


# ------------------------------------------------------------ flags

LOADS = [{}, {'parse_header_only': True}, {'message_name_filter_list': ['a']},
         {'message_name_filter_list': []}, {'disable_str_exceptions': False}]


def gen_incompat(tier):
    for byte in range(8):
        for v in range(256):
            yield ((byte, v),)
    for b1 in range(8):
        for b2 in range(b1 + 1, 8):
            for v1 in (1, 2, 0x80):
                for v2 in (1, 2, 0x80):
                    yield ((b1, v1), (b2, v2))


def run_incompat(flags, ctx):
    inc = [0] * 8
    for byte, v in flags:
        inc[byte] = v
    unknown = inc[0] & ~1 or any(inc[1:])
    for where in (0, 1):
        msgs = [('B', (0,) * 8, tuple(inc), (0, 0, 0))] + BASE
        if where:  # a definition message of a newer version before anything else
            msgs = msgs[:1] + [('X', ord('z'), b'new')] + msgs[1:]
        for kw in LOADS:
            ctx.executions += 1
            try:
                u = ULog(stream(encode(msgs)), **kw)
                refused = False
            except (ValueError, NotImplementedError):
                refused = True
            ctx.outcome((bool(unknown), refused))
            if refused != bool(unknown):
                raise Violation(f'incompatible flags {inc} {kw}: ' +
                                ('accepted' if unknown else 'refused, although the flags are known'))
            if not refused and not kw:
                compare(run(msgs).result(), u, ctx)


def gen_compat(tier):
    for byte in range(8):
        for v in range(256):
            yield byte, v, 1
    for version in range(256):
        yield 0, version & 1, version


def run_compat(case, ctx):
    byte, v, version = case
    compat = [0] * 8
    compat[byte] = v
    check([('B', tuple(compat), (0,) * 8, (0, 0, 0))] + BASE, ctx, 9, version)


# ------------------------------------------------------------ a longer flags message

def gen_longer(_tier):
    for extra in list(range(1, 70)) + [255, 256, 500, 1000, 10000]:
        for fill in (0, 1, 0xff):
            for bit in (0, 1):
                yield extra, fill, bit


def run_longer(case, ctx):
    extra, fill, bit = case
    flags = ('B', (bit, 0, 0, 0, 0, 0, 0, 0x40), (0,) * 8, (0, 0, 0))
    ref = run([flags] + BASE).result()
    data = encode([('X', ord('B'), bytes(flags[1]) + bytes(32) + bytes([fill]) * extra)] + BASE)
    ctx.state(ref)
    ctx.transitions += len(BASE) + 1
    compare(ref, ULog(stream(data)), ctx)


def gen_longer_appended(_tier):
    for extra in (0, 1, 7, 8, 23, 24, 25, 100, 1000):
        for fill in (0, 1, 0x20, 0xff):
            for n in (1, 2, 3):
                for rest in (b'', b'\x40\0D\0', b'\x0c'):
                    yield extra, fill, n, rest


def run_longer_appended(case, ctx):
    """ the offsets of appended data are where they are in a flags message of the known length """
    extra, fill, n, rest = case
    head = [FA, ('A', 0, 0, 'a'), da(0, 1)]
    tail = [[da(0, 5 + k), ('L', 54, 7 + k, 'late')] for k in range(n)]

    def build(offsets):
        out = encode([('X', ord('B'), bytes(8) + b'\1' + bytes(7) + struct.pack('<QQQ', *offsets) + bytes([fill]) * extra)] + head)
        starts = []
        for part in tail:
            out += rest     # the part before ends within a message
            starts.append(len(out))
            out += encode(part)[16:]
        return out, tuple(starts + [0] * (3 - n))
    data, _ = build(build((0, 0, 0))[1])
    _, offsets = build((0, 0, 0))
    ref = run([('B', (0,) * 8, (1,) + (0,) * 7, offsets)] + head + sum(tail, [])).result()
    ctx.state(ref)
    ctx.transitions += len(head) + 2 * n
    compare(ref, ULog(stream(data)), ctx)


# ------------------------------------------------------------ fields of the format that are to be ignored

def gen_extra_types(_tier):
    """ information and multi-information values of types that are not known """
    for typ in ('newtype', 'newtype[3]', 'float[4]', 'uint8_t[0]', 'char16_t', 'string', 'vec3', 'uint128_t[2]'):
        for pos in range(len(BASE) + 1):
            for raw in (b'', b'\0', b'abcd', b'\xff' * 300):
                yield typ, pos, raw


def run_extra_types(case, ctx):
    typ, pos, raw = case
    check(insert(pos, [('I', typ, 'new', raw), ('M', typ, 'newm', raw, 0), ('M', typ, 'newm', raw, 1)]), ctx)


def families():
    return [
        Family('unknown', gen_unknown, run_unknown, 'unknown messages: type x position x size x content'),
        Family('several', gen_several, run_several, 'three unknown messages at all pairs of positions'),
        Family('incompat', gen_incompat, run_incompat, 'incompatible flags x ways to load'),
        Family('compat', gen_compat, run_compat, 'compatible flags and file versions'),
        Family('longer appended', gen_longer_appended, run_longer_appended, 'longer flags messages of logs with appended data'),
        Family('longer', gen_longer, run_longer, 'longer flags messages'),
        Family('types', gen_extra_types, run_extra_types, 'values of unknown types'),
    ]
