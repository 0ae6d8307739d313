"""
C06: appended data is loaded completely, in order and once.

A log with appended data has a main part (possibly torn by the crash) and one to three appended parts at
given offsets.  All combinations of short message sequences, torn tails and offsets are loaded and
compared with the model run over the complete messages.
"""
import itertools
import struct
from pyulog import ULog
from vlib.alpha import FA, FB, da, db, seqs, stream
from vlib.common import compare
from vlib.engine import Family, Violation
from vlib.model import diff, observe, run
from vlib.ulg import encode, message

ID, LEVEL = 'C06', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every combination of main part, torn tail and appended parts; outcomes are distinct results'
ASSUMPTIONS = ['appended parts start at the offsets stored in the flags message']

DEFS = [FA, FB, ('P', 'int32_t', 'PAR', 1), ('A', 0, 0, 'a'), ('A', 1, 1, 'b')]
OPS = [da(0, 10, 1.0), da(0, 4, 2.0), db(1, 3, 12), ('L', 54, 9, 'text'), ('C', 53, 2, 9, 'tag'), ('O', 5),
       ('P', 'int32_t', 'PAR', 3), ('I', 'char[2]', 'k', 'zz'), ('M', 'char[2]', 'm', 'ab', 1), ('S',),
       ('A', 2, 7, 'a'), da(7, 20, 3.0), ('Q', 3, 'float', 'D', 1.5), ('X', ord('z'), b'new message')]


def build(parts, torn, start=0, incompat=1, extra_offsets=0, version=1):
    """ (bytes, complete messages) of a log whose parts[1:] are appended; torn is what remains of a message
    at the end of the main part, or of each part """
    torn = [torn] if isinstance(torn, bytes) else list(torn)
    torn += [b''] * (len(parts) - len(torn))
    def flags(offs):
        return ('B', (0,) * 8, (incompat,) + (0,) * 7, tuple(offs) + (0,) * (3 - len(offs)))
    offs, pos = [], len(encode([flags([])] + DEFS + parts[0], start)) + len(torn[0])
    for p, t in zip(parts[1:], torn[1:]):
        offs.append(pos)
        pos += sum(len(message(m)) for m in p) + len(t)
    offs += [pos] * extra_offsets
    head = [flags(offs)] + DEFS
    data = encode(head + [m for p, t in zip(parts, torn) for m in p + [('RAW', t)]], start, version)
    return data, head + [m for p in parts for m in p]


def try_load(data, msgs, ctx, what, start=0, **kw):
    ref = run(msgs, start).result()
    ctx.state(ref)
    ctx.transitions += len(msgs)
    try:
        u = ULog(stream(data), **kw)
    except Exception as e:
        raise Violation(f'{what}{type(e).__name__}: {e}') from e
    compare(ref, u, ctx, what=what)


def clean(parts):
    """ one subscription of id 7, before its data """
    seen, out = False, []
    for p in parts:
        q = []
        for m in p:
            if m[0] == 'A':
                if seen:
                    continue
                seen = True
            if m[0] == 'D' and m[1] == 7 and not seen:
                seen = True
                q.append(('A', 2, 7, 'a'))
            q.append(m)
        out.append(q)
    return out


def gen_parts(tier):
    short = list(seqs(OPS, 1))
    two = list(seqs(OPS, 2))
    for main in two:
        for app in two:
            yield (main, app)
    for main in short:
        for a1 in short:
            for a2 in short:
                yield (main, a1, a2)
    few = [()] + [(OPS[i],) for i in ((0, 5, 8, 11) if tier == 'quick' else (0, 1, 2, 3, 5, 6, 8, 10, 11) if tier != 'deep' else range(len(OPS)))]
    for combo in itertools.product(few, repeat=4):
        yield combo


def run_parts(parts, ctx):
    parts = clean([list(p) for p in parts])
    data, msgs = build(parts, b'', 3)
    try_load(data, msgs, ctx, '', 3)


def gen_versions(_tier):
    for version in range(256):
        for parts in (1, 2, 3):
            yield version, parts


def run_versions(case, ctx):
    version, n = case
    parts = [[OPS[0], OPS[5]]] + [[OPS[3 + k], OPS[1], OPS[2]] for k in range(n)]
    for torn in (b'', b'\x40\0D\0'):
        data, msgs = build(parts, torn, 3, version=version)
        try_load(data, msgs, ctx, f'version {version}: ', 3)


# ------------------------------------------------------------ torn tail of the main part

TORN = [da(0, 77, 5.0), db(1, 9, 78), ('L', 54, 79, 'torn message'), ('C', 54, 1, 79, 'torn message'),
        ('O', 3), ('P', 'int32_t', 'PAR', 9), ('I', 'char[4]', 'torn', 'abcd'), ('M', 'char[4]', 'torn', 'abcd', 0),
        ('S',), ('A', 5, 9, 'a'), ('L', 54, 79, 'x' * 300), ('X', ord('z'), b'y' * 50)]
APPS = [[da(0, 100, 7.0), ('L', 54, 90, 'app')], [], [('O', 1)], [('S',), da(0, 101, 8.0)],
        [('M', 'char[1]', 'm', 'a', 0), ('L', 54, 91, 'q' * 400), da(0, 102, 9.0)]]


def gen_torn(tier):
    for t, m in enumerate(TORN):
        n = len(message(m))
        for cut in (range(1, n) if n < 70 or tier != 'quick' else list(range(1, 20)) + [n - 2, n - 1]):
            for a, b in itertools.product(range(len(APPS)), repeat=2):
                yield t, cut, a, b


def run_torn(case, ctx):
    t, cut, a, b = case
    torn = message(TORN[t])[:cut]
    main = [da(0, 50, 1.0), ('L', 54, 40, 'main'), ('O', 2)]
    for parts in ((main, APPS[a]), (main, APPS[a], APPS[b]), (main[:1], APPS[a], APPS[b], APPS[a])):
        data, msgs = build([list(p) for p in parts], torn)
        try_load(data, msgs, ctx, f'torn {TORN[t]} at {cut}, {len(parts) - 1} appended part(s): ')


def gen_several(tier):
    few = range(len(TORN)) if tier != 'quick' else (0, 2, 4, 5, 7, 9)
    for t in itertools.product([None, *few], repeat=3):
        if any(x is not None for x in t[1:]):
            for a, b in ((0, 3), (1, 0), (4, 2)) if tier == 'quick' else itertools.product(range(len(APPS)), repeat=2):
                yield t, a, b


def run_several(case, ctx):
    """ every part but the last can end within a message """
    t, a, b = case
    main = [da(0, 50, 1.0), ('L', 54, 40, 'main'), ('O', 2)]
    parts = [main, APPS[a], APPS[b], APPS[3]]
    whole = [b'' if x is None else message(TORN[x]) for x in t]
    for cut in (1, 2, 3, 4, 9, -1) if ctx.tier != 'deep' else (*range(1, 24), -1):
        torn = [w[:cut] if cut < len(w) else w[:-1] for w in whole]
        for k in (3, 4):
            data, msgs = build([list(p) for p in parts[:k]], torn[:k - 1])
            try_load(data, msgs, ctx, f'torn {t} at {cut}, {k - 1} appended parts: ')


# ------------------------------------------------------------ flag and offset combinations

def gen_flags(_tier):
    for incompat in (0, 1):
        for nparts in (0, 1, 2, 3):
            for extra in range(0, 4 - nparts):
                for a, b, c in itertools.product(range(len(APPS)), repeat=3):
                    yield incompat, nparts, extra, a, b, c


def run_flags(case, ctx):
    incompat, nparts, extra, a, b, c = case
    main = [da(0, 50, 1.0), ('L', 54, 40, 'main'), ('O', 2)]
    parts = [main] + [APPS[a], APPS[b], APPS[c]][:nparts]
    data, msgs = build([list(p) for p in parts], b'', 5, incompat, extra)
    try_load(data, msgs, ctx, f'{case}: ', 5)


# ------------------------------------------------------------ cut at the end, files, filters

def gen_cut(_tier):
    for a, b in itertools.product(range(len(APPS)), repeat=2):
        for how in ('stream', 'path', 'filter', 'strict'):
            yield a, b, how


def run_cut(case, ctx):
    a, b, how = case
    main = [da(0, 50, 1.0), ('L', 54, 40, 'main'), ('O', 2), db(1, 1, 60)]
    parts = [main, APPS[a], APPS[b]]
    data, msgs = build([list(p) for p in parts], b'')
    ends, e = [], 16
    for m in msgs:
        e += len(message(m))
        ends.append(e)
    for n in range(ends[5], len(data) + 1):
        done = [m for m, e in zip(msgs, ends) if e <= n]
        ctx.count('crash_points')
        what = f'{case} cut at {n} of {len(data)}: '
        if how == 'path':
            with open(ctx.tmp + '/app.ulg', 'wb') as f:
                f.write(data[:n])
            ctx.transitions += len(done)
            compare(run(done).result(), ULog(ctx.tmp + '/app.ulg'), ctx, what=what)
        elif how == 'filter':
            got = observe(ULog(stream(data[:n]), ['b']))
            ctx.executions += 1
            d = diff(run(done).result(['b']), got, ('last', 'dropouts', 'changed'))
            if d:
                raise Violation(what + d)
        else:
            try_load(data[:n], done, ctx, what, disable_str_exceptions=how != 'strict')


def gen_offsets(_tier):
    """ where the appended part starts in the file """
    for n in list(range(0, 40)) + [500, 511, 512, 513, 4096, 8192, 65536, 70000, 200000]:
        for torn in (0, 2, 5):
            yield n, torn


def run_offsets(case, ctx):
    n, torn = case
    main = [da(0, 50, 1.0)]
    while n >= 4:
        k = min(n, 9000)
        main.append(('X', ord('z'), b'\x33' * (k - 3)))
        n -= k
    main += [da(0, 51, 2.0)] * n
    app = [('O', 1), da(0, 99, 3.0)] + [('L', 54, i, 'y' * (i * 40)) for i in range(12)]
    data, msgs = build([main, app, app], struct.pack('<HB', 12, ord('D'))[:torn] + b'\0' * max(torn - 3, 0))
    try_load(data, msgs, ctx, f'{case}: ')
    with open(ctx.tmp + '/off.ulg', 'wb') as f:
        f.write(data)
    compare(run(msgs).result(), ULog(ctx.tmp + '/off.ulg'), ctx, what=f'{case} from a file: ')


def families():
    return [
        Family('parts', gen_parts, run_parts, 'message sequences in the main part and 1-3 appended parts'),
        Family('versions', gen_versions, run_versions, 'file versions x number of appended parts'),
        Family('torn', gen_torn, run_torn, 'torn message x cut x appended parts'),
        Family('several', gen_several, run_several, 'torn messages at the ends of several parts'),
        Family('flags', gen_flags, run_flags, 'flag and offset combinations'),
        Family('cut', gen_cut, run_cut, 'file cut at every byte of the data section'),
        Family('offsets', gen_offsets, run_offsets, 'offsets of the appended part'),
    ]
