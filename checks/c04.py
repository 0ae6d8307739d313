"""
C04: damage in the data section is contained.

Faults: every substitution of one byte, every message header out of a large set, and damaged stretches of
many kinds, lengths and distances to the next sync marker, at every message boundary.  The oracle is the
reference model run on what the damage cannot have touched.
"""
import struct
from pyulog import ULog
from vlib.alpha import FA, FB, F, da, db, pad, seqs, stream
from vlib.engine import Family, Violation, expect
from vlib.model import observe, run
from vlib.ulg import SYNC, boundaries, encode, message

ID, LEVEL = 'C04', 'fault_enumeration'
RULE = ('every case is one damaged log; non-trivial are the distinct results after damage')
ASSUMPTIONS = ['the damage is not in a subscription message (what a topic is cannot be recovered)',
               'unless it is a stretch that can be noticed, damage may hide what follows it until a sync '
               'marker is found']

DEFS = [FA, FB, F('c', 'uint64_t timestamp', 'uint8_t v'), ('P', 'int32_t', 'PAR', 1), ('I', 'char[2]', 'sys', 'ab')]
SUBS = [('A', 0, 0, 'a'), ('A', 1, 0x101, 'b'), ('A', 0, 0x3333, 'c')]
BODY = [da(0, 100, 1.5), ('L', 54, 101, 'first'), db(0x101, 7, 102, (9, 8, 7)), ('O', 10),
        ('P', 'int32_t', 'PAR', 2), ('C', 52, 3, 103, 'tag'), ('S',), ('I', 'char[4]', 'late', 'wxyz'),
        ('M', 'char[2]', 'multi', 'aa', 0), ('M', 'char[2]', 'multi', 'bb', 1), ('Q', 3, 'float', 'DEF', 1.5),
        ('D', 0x3333, struct.pack('<QB', 104, 5)), ('X', ord('z'), b'unknown!data'), ('R', 0x3333),
        da(0, 105, 2.5), ('L', 51, 106, 'second'), ('O', 20), ('P', 'float', 'OTHER', 0.25),
        db(0x101, 8, 107), ('C', 50, 3, 108, 'more'), da(0, 109, 3.5)]


def lists(r):
    """ the ordered parts of a result as {name: list of items}, time stamps of derived items apart """
    out = {'logged': r['logged'], 'dropouts': [d for _, d in r['dropouts']],
           'changed': [(k, v) for _, k, v in r['changed']]}
    for tag, v in r['tagged'].items():
        out['tag', tag] = v
    for key, v in r['multi'].items():
        out['multi', key] = [x for l in v for x in l]
    for d in r['data']:
        out['rows', d[0], d[1]] = rows(d)
    return out


def rows(d):
    cols = [c for _, c in d[5]]
    n = max((len(c[2]) // c[1] for c in cols), default=0)
    return [tuple(c[2][i * c[1]:(i + 1) * c[1]] for c in cols) for i in range(n)]


def is_subseq(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def load(data, ctx):
    ctx.executions += 1
    try:
        u = ULog(stream(data))
    except Exception as e:
        raise Violation(f'load failed: {type(e).__name__}: {e}') from e
    got = observe(u)
    ctx.outcome(got)
    return got


def check_prefix(before, got):
    """ nothing of the messages before the damage is lost """
    ref = run(before).result()
    for k in ('start', 'init', 'formats', 'appended', 'has_defaults'):
        expect(ref[k], got[k], k)
    for k in ('info', 'defaults'):
        for key in ref[k]:
            if key not in got[k]:
                raise Violation(f'{k} {key} from before the damage is lost')
    expect(ref['dropouts'], got['dropouts'][:len(ref['dropouts'])], 'dropouts before the damage')
    expect(ref['changed'], got['changed'][:len(ref['changed'])], 'changed parameters before the damage')
    want, have = lists(ref), lists(got)
    for k, v in want.items():
        if have.get(k, [])[:len(v)] != v:
            raise Violation(f'{k} from before the damage: expected {v}, got {have.get(k)}')


# ------------------------------------------------------------ one byte, whole log

def gen_single(tier):
    for first in range(0, len(BODY) if tier != 'quick' else 1):
        body = BODY[first:]
        start = len(encode(DEFS + SUBS))
        for pos in range(start, start + sum(len(message(m)) for m in body)):
            for tail in (0, 1):
                yield first, pos, tail


TAIL = [m for i in range(8) for m in (('X', 0x79, bytes([i]) * 9999),)]


def run_single(case, ctx):
    first, pos, tail = case
    msgs = DEFS + SUBS + BODY[first:]
    data = bytearray(encode(msgs + (TAIL if tail else [])))
    ends = boundaries(msgs)
    hit = next(i for i, e in enumerate(ends) if e > pos) - 1
    orig = data[pos]
    for v in range(256):
        if v == orig or (tail and v not in (0, 1, 0x27, 0x28, 0x7f, 0x80, 0xff)):
            continue
        data[pos] = v
        try:
            check_prefix(msgs[:hit], load(bytes(data), ctx))
        except Violation as e:
            raise Violation(f'byte {pos} = {v:#x} (in {msgs[hit]}): {e}') from e


# ------------------------------------------------------------ one byte, size of the message intact

def gen_intact(tier):
    for i, m in enumerate(BODY):
        for off in range(2, len(message(m))):
            yield i, off


def run_intact(case, ctx):
    i, off = case
    msgs = DEFS + SUBS + BODY
    pos = boundaries(msgs)[len(DEFS + SUBS) + i] + off
    data = bytearray(encode(msgs))
    orig = data[pos]
    without = run(DEFS + SUBS + BODY[:i] + BODY[i + 1:]).result()
    want = lists(without)
    for v in range(256):
        if v == orig or (off == 2 and v == 0):
            continue
        data[pos] = v
        got = load(bytes(data), ctx)
        have = lists(got)
        where = f'byte {off} of {BODY[i]} = {v:#x}: '
        extra = 0
        for k in set(want) | set(have):
            w, h = want.get(k, []), have.get(k, [])
            if not is_subseq(w, h):
                raise Violation(f'{where}{k}: expected {w} and at most one more, got {h}')
            extra += len(h) - len(w)
        if extra > 1:
            raise Violation(f'{where}{extra} items instead of one: {have}')
        for k in ('start', 'init', 'formats'):
            expect(without[k], got[k], where + k)
        expect(without['info'], {k: x for k, x in got['info'].items() if k in without['info']}, where + 'info')
        w = {(t, k): x for t, d in without['defaults'].items() for k, x in d.items()}
        h = {(t, k): x for t, d in got['defaults'].items() for k, x in d.items()}
        expect(w, {k: x for k, x in h.items() if k in w}, where + 'defaults')
        if len(set(got['info']) - set(without['info'])) + len({k for _, k in set(h) - set(w)}) + extra > 1:
            raise Violation(f'{where}more than one item: {got}')
        if sum(len(x) for k, x in have.items() if k[0] == 'rows') == \
                sum(len(x) for k, x in want.items() if k[0] == 'rows'):
            if BODY[i][0] == 'D' and off > 2 and not got['corrupt']:
                raise Violation(f'{where}the sample was dropped, but the log is not flagged as corrupt')
            for k in ('last', 'dropouts', 'changed'):
                if BODY[i][0] not in 'DOP' and off > 2 and len(got[k] if k != 'last' else '') == \
                        len(without[k] if k != 'last' else ''):
                    expect(without[k], got[k], where + k)


# ------------------------------------------------------------ any message header

SIZES = list(range(0, 34)) + [63, 64, 255, 256, 257, 511, 512, 513, 1000, 4096, 9999, 10000, 10001, 16384,
                              32768, 65534, 65535]
KNOWN = set(b'FDIMPQARSOLCB')


def gen_headers(tier):
    for i in range(len(BODY)):
        for size in SIZES:
            for tail in (0, 1):
                yield i, size, tail


def run_headers(case, ctx):
    i, size, tail = case
    msgs = DEFS + SUBS + BODY
    data = bytearray(encode(msgs + (TAIL if tail else [])))
    pos = boundaries(msgs)[len(DEFS + SUBS) + i]
    types = range(256) if not tail else (0, 1, ord('z'), ord('D'), ord('L'), ord('A'), ord('I'), ord('P'),
                                         ord('S'), ord('O'), 255)
    orig = bytes(data[pos:pos + 3])
    for typ in types:
        head = struct.pack('<HB', size, typ)
        if head == orig:
            continue
        data[pos:pos + 3] = head
        try:
            got = load(bytes(data), ctx)
            check_prefix(msgs[:len(DEFS + SUBS) + i], got)
        except Violation as e:
            raise Violation(f'header {head.hex()} instead of {BODY[i]}: {e}') from e


# ------------------------------------------------------------ stretches that are noticed

PRE = [da(0, 500, 1.0), ('L', 54, 101, 'p1'), ('O', 1), ('S',), db(0x101, 1, 102), ('C', 49, 1, 5, 'p2'),
       ('P', 'int32_t', 'PAR', 5), ('M', 'char[1]', 'm', 'p', 0)]
GAP = [da(0, 50, 2.0), ('L', 54, 50, 'gap'), ('O', 2), ('P', 'int32_t', 'PAR', 6), ('C', 49, 1, 50, 'gap')]
POST = [da(0, 40, 3.0), ('L', 54, 201, 's1'), ('O', 3), ('S',), db(0x101, 2, 202), ('C', 49, 2, 6, 's2'),
        ('P', 'int32_t', 'PAR', 7), ('I', 'char[1]', 'post', 'x'), ('M', 'char[1]', 'm', 's', 1), da(0, 600, 4.0),
        ('L', 48, 202, 's3')]
NOISE = {
    'zero': lambda n: bytes(n), 'ff': lambda n: b'\xff' * n,
    'size0': lambda n: b'\0\0z' + b'\x55' * (n - 3), 'big': lambda n: b'\x11\x27z' + b'\x01' * (n - 3),
    'type0': lambda n: struct.pack('<HB', n, 0) + b'\x41' * (n - 3),
    'partial': lambda n: b'\0\0\0' + (SYNC[:7] * (n // 7 + 1))[:n - 3],
}


def expect_between(want_min, want_max, got, where):
    """ at least everything in want_min, at most what is in want_max, nothing twice """
    lo, hi, have = lists(want_min), lists(want_max), lists(got)
    for k in set(lo) | set(hi) | set(have):
        if not is_subseq(lo.get(k, []), have.get(k, [])):
            raise Violation(f'{where}{k}: {lo.get(k)} lost, got {have.get(k)}')
        if not is_subseq(have.get(k, []), hi.get(k, [])):
            raise Violation(f'{where}{k}: got {have.get(k)}, more than {hi.get(k)}')
    for k in ('start', 'last', 'init', 'formats', 'info', 'defaults'):
        expect(want_min[k], got[k], where + k)
    for k in ('dropouts', 'changed'):
        if not is_subseq(want_min[k], got[k]):
            raise Violation(f'{where}{k}: {want_min[k]} lost, got {got[k]}')
    expect(True, got['corrupt'], where + 'flagged as corrupt')


def gen_noticed(tier):
    for kind in NOISE:
        for n in (3, 4, 5, 8, 16, 17, 40, 100, 511, 512, 513, 600, 1030):
            for gap in (0, 1):
                yield kind, n, gap, 0
    for kind in ('zero', 'ff', 'size0', 'partial'):
        for dist in range(4, 1700 if tier == 'quick' else 6000):
            if kind == 'zero' or tier != 'quick' or dist % 512 < 30 or dist % 512 > 480:
                yield kind, 3, 0, dist
    for i in range(len(PRE) + 1):
        for kind in NOISE:
            yield kind, 20, 1, -i


def run_noticed(case, ctx):
    kind, n, gap, dist = case
    where = f'{n} bytes of {kind}, gap {gap}, distance {dist}: '
    pre, gapm = PRE, GAP if gap else []
    if dist < 0:
        pre, gapm = PRE[:dist], PRE[dist:] + GAP
        gapm = [m for m in gapm if m[0] in 'LOC']
    noise = NOISE[kind](n)
    filler = pad(dist) if dist > 0 else []
    head = DEFS + SUBS + pre
    data = encode(head + [('RAW', noise)] + gapm + filler + [('S',)] + POST + TAIL)
    got = load(data, ctx)
    expect_between(run(head + POST).result(), run(head + gapm + POST).result(), got, where)


# ------------------------------------------------------------ what was read before must not matter

EVENTS = {
    'unknown': message(('X', ord('z'), b'something new')), 'long': message(('X', ord('y'), b'\x55' * 700)),
    'short': message(('X', 0xff, b'\x01')), 'removed': message(('R', 0x7777)), 'sync': message(('S',)),
    'swallowed': message(('X', ord('z'), b'\x55' * 9 + message(('S',)))),
    'sample': message(('D', 0, b'\x01\x02')), 'nobody': message(('D', 0x4444, b'12345678')),
    'key': struct.pack('<HB', 5, ord('I')) + b'\x04text', 'empty': struct.pack('<HB', 1, ord('L')) + b'6',
    'stretch': bytes(20) + message(('S',)), 'late': message(F('late', 'uint64_t timestamp')),
    'stranger': message(('A', 0, 0x4545, 'stranger')),
}


def gen_history(tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        yield from seqs(list(EVENTS), n, n)


def run_history(events, ctx):
    raw = [('RAW', EVENTS[e]) for e in events]
    for kind in ('zero', 'size0', 'partial'):
        for n in (3, 30, 520):
            for at in (0, 3, len(PRE)):
                head = DEFS + SUBS + PRE
                pre = PRE[:at] + raw + PRE[at:]
                data = encode(DEFS + SUBS + pre + [('RAW', NOISE[kind](n))] + GAP + [('S',)] + POST + TAIL)
                expect_between(run(head + POST).result(), run(head + GAP + POST).result(), load(data, ctx),
                               f'{events} at {at}, then {n} bytes of {kind}: ')


# ------------------------------------------------------------ two stretches

def gen_twice(tier):
    kinds = list(NOISE)
    for k1 in kinds:
        for k2 in kinds:
            for n1 in (3, 20, 512):
                for n2 in (3, 7, 600):
                    for between in (0, 1, 2):
                        yield k1, n1, k2, n2, between


def run_twice(case, ctx):
    k1, n1, k2, n2, between = case
    where = f'{case}: '
    mid = [da(0, 30, 7.0), ('L', 54, 99, 'mid'), ('O', 9)][:between + (between > 0)]
    head = DEFS + SUBS + PRE
    data = encode(head + [('RAW', NOISE[k1](n1))] + GAP + [('S',)] + mid + [('RAW', NOISE[k2](n2))] + GAP +
                  [('S',)] + POST + TAIL)
    got = load(data, ctx)
    expect_between(run(head + mid + POST).result(), run(head + GAP + mid + GAP + POST).result(), got, where)


# ------------------------------------------------------------ an unknown message that swallows a sync marker

def gen_swallow(tier):
    for size in list(range(60, 160)) + [500, 512, 1000, 5000, 10000]:
        for typ in (1, ord('z'), ord('F'), ord('B'), 0x80, 255):
            yield size, typ
    for before in range(0, 30):
        yield before, -1


def run_swallow(case, ctx):
    size, typ = case
    if typ < 0:     # the marker is anywhere within the swallowed bytes
        before, size, typ = size, 60, ord('z')
    else:
        before = 20
    head = DEFS + SUBS + PRE
    gap = b'\x55' * before
    rest = [('S',)] + POST + pad(10000) + TAIL
    data = encode(head + [('RAW', struct.pack('<HB', size, typ) + gap)] + rest)
    got = load(data, ctx)
    expect_between(run(head + POST).result(), run(head + POST).result(), got, f'{case}: ')


# ------------------------------------------------------------ damage in a log with appended data

def gen_appended(tier):
    for kind in NOISE:
        for n in (3, 10, 600):
            for sync_main in (0, 1):
                for sync_app in (0, 1):
                    for big in (0, 1):
                        for parts in (1, 2):
                            yield kind, n, sync_main, sync_app, big, parts


def run_appended(case, ctx):
    kind, n, sync_main, sync_app, big, parts = case
    app1 = [da(0, 700, 8.0), ('L', 54, 300, 'app1'), ('M', 'char[1]', 'app', 'z', 0), ('O', 7)]
    app2 = [('L', 54, 301, 'app2'), da(0, 701, 9.0)]
    if sync_app:
        app1 = app1[:2] + [('S',)] + app1[2:]
    tail = TAIL if big else []
    main = PRE + [('RAW', NOISE[kind](n))] + ([('S',)] + POST if sync_main else []) + tail

    def build(offs):
        return [('B', (0,) * 8, (1,) + (0,) * 7, tuple(offs) + (0,) * (3 - len(offs)))] + DEFS + SUBS + main
    o1 = len(encode(build([1])))
    offs = [o1] + ([o1 + sum(len(message(m)) for m in app1 + tail)] if parts == 2 else [])
    msgs = build(offs)
    data = encode(msgs + app1 + tail + (app2 if parts == 2 else []) + (tail if parts == 2 else []))
    got = load(data, ctx)
    head = msgs[:1] + DEFS + SUBS + PRE
    apps = app1 + (app2 if parts == 2 else [])
    # 0xff.. claims 65535 bytes: noticed in time only if that many follow within the file
    where = f'{case}: '
    keep = POST if sync_main and (big or kind not in ('ff', 'big')) else []
    lo = run(head + apps).result() if not keep else run(head + keep + apps).result()
    hi = run(head + POST + apps).result()
    lists_lo, lists_hi, have = lists(lo), lists(hi), lists(got)
    for k in set(lists_lo) | set(lists_hi) | set(have):
        if not is_subseq(lists_lo.get(k, []), have.get(k, [])):
            raise Violation(f'{where}{k}: {lists_lo.get(k)} lost, got {have.get(k)}')
        if not is_subseq(have.get(k, []), lists_hi.get(k, [])):
            raise Violation(f'{where}{k}: got {have.get(k)}, more than {lists_hi.get(k)}')
    expect(hi['last'], got['last'], where + 'last')


def families():
    return [
        Family('single', gen_single, run_single, 'all one byte substitutions in the data section'),
        Family('intact', gen_intact, run_intact, 'all substitutions that keep the size of a message'),
        Family('headers', gen_headers, run_headers, 'all message types x many sizes at every message'),
        Family('noticed', gen_noticed, run_noticed, 'damaged stretches, lengths, distances to the sync marker'),
        Family('history', gen_history, run_history, 'what was read before the damage'),
        Family('twice', gen_twice, run_twice, 'two damaged stretches'),
        Family('swallow', gen_swallow, run_swallow, 'an unknown message that contains a sync marker'),
        Family('appended', gen_appended, run_appended, 'damage in a log with appended data'),
    ]
