"""
C18: the CSV files hold exactly the samples of the log.

Every log and option of the enumerated spaces is converted by the real code (function and command line);
the files are read back with Python's csv module and compared with the reference model.
"""
import csv
import itertools
import os
import struct
from pyulog import ulog2csv
from checks.c02 import NESTED, TYPES, topic
from vlib.alpha import F, VALUES
from vlib.cli import cli, export_columns, put, quiet, raw, require, same, scratch, string, window
from vlib.engine import Family, expect
from vlib.model import run
from vlib.ulg import BASIC, encode

ID, LEVEL = 'C18', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = ('every case of the stated spaces, converted and read back; states are distinct expected sets of files, '
        'outcomes distinct written ones')
ASSUMPTIONS = ['time stamps of a topic increase', 'different topics have different names if / is read as _',
               'texts do not contain parts of a delimiter of several characters']
SEC = 1000000


def check_files(where, prefix, ref, ctx, names=None, delim=',', start=None, end=None,
                own=('log.ulg',)):
    """ the directory `where` holds exactly the expected files (and the log itself) """
    topics = [t for t in ref.topics.values() if t.rows and (names is None or t.name in names)]
    want = {f'{prefix}_{t.name.replace("/", "_")}_{t.multi_id}.csv': t for t in topics}
    got = {f for f in os.listdir(where) if f not in own}
    expect(sorted(want), sorted(got), 'files')
    seen = []
    for fname, t in want.items():
        with open(os.path.join(where, fname), newline='', encoding='utf-8') as f:
            rows = list(csv.reader(f, delimiter=delim, strict=True)) if len(delim) == 1 else \
                [line.split(delim) for line in f.read().splitlines()]
        cols = export_columns(t, True)
        expect([c[0] for c in cols], rows[0], f'{fname}: header')
        samples = window(t, start, end)
        expect(len(samples), len(rows) - 1, f'{fname}: number of rows')
        for n, (sample, row) in enumerate(zip(samples, rows[1:])):
            expect(len(cols), len(row), f'{fname}: number of cells in row {n}')
            for (name, fields, typ), cell in zip(cols, row):
                if fields is not None:
                    expect(string(t, sample, fields), cell, f'{fname}: {name} in row {n}')
                else:
                    b = raw(t, sample, name)
                    require(same(typ, b, cell), f'{fname}: {name} in row {n}: expected {typ} {b!r}, got {cell!r}')
        seen.append((fname, rows))
    ctx.outcome(sorted(seen))
    ctx.state((sorted(want), [[r for r in window(t, start, end)] for t in topics]))
    ctx.executions += 1


def convert(msgs, ctx, name='log.ulg', **kw):
    """ convert by the function into the directory of the log """
    d = scratch(ctx)
    path = put(os.path.join(d, name), encode(msgs))
    names = kw.get('names')
    with quiet():
        ulog2csv.convert_ulog2csv(path, ','.join(names) if names else None, None, kw.get('delim', ','),
                                  kw.get('start'), kw.get('end'))
    prefix = name[:-4] if name.lower().endswith('.ulg') else name
    check_files(d, prefix, run(msgs), ctx, **kw)
    ctx.transitions += len(msgs)


# ------------------------------------------------------------ layouts and values

def gen_layouts(tier):
    types = TYPES[:-1]      # padding within nested types is left open
    yield from itertools.product(types, repeat=2)
    if tier != 'quick':
        for c in itertools.product(types[::2] if tier == 'thorough' else types, repeat=3):
            yield c


def run_layouts(combo, ctx):
    for pos in (0, 1, len(combo)):
        fields = [(t, n, f'f{i}') for i, (t, n) in enumerate(combo)]
        fields.insert(pos, ('uint64_t', 0, 'timestamp'))
        fields.insert(len(combo), ('uint8_t', 3, '_padding0'))
        fmts = NESTED + [('F', 't', tuple(fields))]
        convert(fmts + topic(fmts, 't', [(5, 1, 0), (70, 2, 0), (2**63 + 9, 3, 0)]), ctx)


FIELDS = ['_padding0', '_padding', 'padding0', 'x_padding0', '_x', 'timestamp_sample', 'xtimestamp', 'Timestamp', 'x', 'x_', 'X']


def gen_fields(tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3) if tier == 'thorough' else (1, 2, 3, 4):
        for names in itertools.permutations(FIELDS, n):
            for typ in ('uint8_t', 'char[3]', 'float[2]', 'uint64_t'):
                yield names, typ


def field_log(names, typ):
    """ fields with confusable names, before and after the time stamp """
    for pos in range(len(names) + 1):
        fields = [f'{typ} {n}' for n in names]
        fields.insert(pos, 'uint64_t timestamp')
        fmts = [F('t', *fields, 'uint8_t end')]
        yield fmts + topic(fmts, 't', [(5, 1, 0), (70, 2, 0), (2**63 + 9, 3, 0)])


def run_fields(case, ctx):
    for msgs in field_log(*case):
        convert(msgs, ctx)


NEST = ['char[3] s', 'char[11] t', 'char c', 'uint8_t k', 'float[2] w']


def gen_nested(tier):
    for n in (1, 2) if tier != 'deep' else (1, 2, 3):
        for inner in itertools.permutations(NEST, n):
            for size in (0, 1, 2, 11):
                for outer in (0, 1, 2):
                    if tier != 'quick' or n == 1 or size < 3:
                        yield inner, size, outer


def run_nested(case, ctx):
    """ texts in nested types and arrays of them, also next to fields of the same name """
    inner, size, outer = case
    arr = lambda t, n: f'{t}[{n}]' if n else t      # noqa: E731
    fmts = [F('i', *inner), F('j', 'uint8_t k', arr('i', size) + ' s', 'char[2] k2'),
            F('t', 'char[2] s', arr('j', outer) + ' t', 'uint64_t timestamp', 'i s_', 'char[4] c')]
    msgs = fmts + topic(fmts, 't', [(5, 1, 0), (70, 2, 0), (71, 3, 0)])
    n = len(msgs[-1][2]) - 2
    at = fmts and run(msgs).topics
    off = next(iter(at.values())).ts_off
    for k in range(4):
        b = bytearray(65 + (i * (k + 1) + k) % 26 if i % 5 or k % 2 else 0 for i in range(n + 2))
        b[off:off + 8] = struct.pack('<Q', 100 + k)
        msgs.append(('D', 7, bytes(b)))
    convert(msgs, ctx)


def gen_values(_tier):
    for typ in BASIC:
        for n in (0, 1, 2):
            if typ != 'char' or n == 0:
                yield typ, n


def run_values(case, ctx):
    typ, n = case
    f = F('t', 'uint64_t timestamp', f'{typ}[{n}] v' if n else f'{typ} v', 'int8_t end')
    msgs = [f, ('A', 0, 1, 't')]
    code = {'char': 'c', 'bool': '?'}.get(typ, BASIC[typ][0])
    for i, vals in enumerate(itertools.product(VALUES[typ], repeat=n or 1)):
        msgs.append(('D', 1, struct.pack(f'<Q{n or 1}{code}b', i, *vals, -i % 100)))
    convert(msgs, ctx)


CHARS = [b'\0', b'a', b',', b';', b'"', b'\n', b'\r', b' ', b'\xc3', b'\xa9', b'\xff']


def gen_strings(tier):
    for n in range(1, 4 if tier == 'quick' else 5 if tier == 'thorough' else 6):
        yield from itertools.product(range(len(CHARS)), repeat=n - 1)
    for s in ('\ufeff', 'x\ufeff', '\ufeffx\ufeff', '\t', ' \t', '\u2028', '\x0b', '\x85', '\x1a', "'", '=1', '#', '€', '\U0001d11e'):
        yield s.encode()


def run_strings(head, ctx):
    """ all strings that start with these characters, one per sample; a string is rarely the last column """
    if isinstance(head, tuple):
        head = b''.join(CHARS[k] for k in head)
    n = len(head) + 1
    for tail in (True, False):
        fields = ['uint64_t timestamp', f'char[{n}] s'] + (['uint8_t e', 'char c'] if tail else [])
        msgs = [F('t', *fields), ('A', 0, 1, 't')]
        for i, last in enumerate(CHARS):
            s = head + last
            msgs.append(('D', 1, struct.pack(f'<Q{n}s', i + 1, s) + (struct.pack('<Bc', i, last) if tail else b'')))
        for delim in (',', ';', '\t'):
            convert(msgs, ctx, delim=delim)


# ------------------------------------------------------------ time windows

TIMES = [0, 1, SEC - 1, SEC, SEC + 1, 2 * SEC, 3 * SEC - 1, 3 * SEC, 5 * SEC]


def gen_windows(tier):
    for n in range(0, 4 if tier == 'quick' else 6 if tier == 'thorough' else 8):
        yield from itertools.combinations(TIMES, n)


def run_windows(times, ctx):
    """ one topic with these times, one with all the others, and one instance with both """
    rest = [t for t in TIMES if t not in times]
    msgs = [F('a', 'uint64_t timestamp', 'uint8_t v'), F('b', 'uint8_t v', 'uint64_t timestamp'),
            ('A', 0, 0, 'a'), ('A', 0, 1, 'b'), ('A', 1, 2, 'a')]
    msgs += [('D', 0, struct.pack('<QB', t, i)) for i, t in enumerate(times)]
    msgs += [('D', 1, struct.pack('<BQ', i, t)) for i, t in enumerate(rest)]
    msgs += [('D', 2, struct.pack('<QB', t, i)) for i, t in enumerate(TIMES)]
    for start in (None, 0, 1, 2, 3, 6):
        for end in (None, 0, 1, 2, 3, 6):
            convert(msgs, ctx, start=start, end=end)


FRACTIONS = [0, 1, 2, 250000, 499999, 500000, 500001, SEC - 1, SEC, 1499999, 1500000, 1500001, 1999999, 2 * SEC, 2 * SEC + 1, 3 * SEC]


def gen_fractions(_tier):
    yield from itertools.product((None, 0.000001, 0.25, 0.5, 1, 1.5, 2.000001), (None, 0.000002, 0.5, 1.5, 2, 2.000001))


def run_fractions(case, ctx):
    msgs = [F('a', 'uint64_t timestamp', 'uint8_t v'), ('A', 0, 0, 'a')]
    msgs += [('D', 0, struct.pack('<QB', t, i)) for i, t in enumerate(FRACTIONS)]
    convert(msgs, ctx, start=case[0], end=case[1])


# ------------------------------------------------------------ options, names, command line

def option_log():
    msgs = [F(n, 'uint64_t timestamp', 'char[3] s', f'float {v}') for n, v in
            (('a', 'x'), ('aa', 'y'), ('b/c', 'z'), ('d_0', 'w'), ('/e//f/', 'v'), ('Aa', 'u'), ('a b', 't'))]
    msgs += [('A', 0, 0, 'a'), ('A', 1, 1, 'a'), ('A', 12, 2, 'a'), ('A', 0, 3, 'aa'), ('A', 3, 4, 'b/c'),
             ('A', 0, 5, 'd_0'), ('A', 1, 6, 'aa'), ('A', 0, 7, '/e//f/'), ('A', 2, 8, 'Aa'), ('A', 0, 9, 'a b')]
    for k in range(3):
        msgs += [('D', i, struct.pack('<Q3sf', SEC * (k + 1), b'i%d' % i, k + i / 8)) for i in (0, 1, 2, 3, 4, 5, 7, 8, 9)]
    return msgs


NAMES = ['a', 'aa', 'b/c', 'd_0', '/e//f/', 'Aa', 'a b', 'nope']


def gen_options(_tier):
    for n in range(0, 4):
        for names in itertools.combinations(NAMES, n):
            for delim in (',', '|', '::', ' '):
                for out in ('', 'new', 'old', '.', 'old/er'):
                    for log in ('log.ulg', 'LOG.ULG', 'x.y.ulg', 'a.ulg.ulg.ulg', 'a.log', 'ulg', 'a.ulg.log', 'd.ulg/x.log', 'd/log.Ulg'):
                        for inside in (False, True):
                            if n < 2 or delim == ',' and not inside and out in ('', 'new', 'old') and '/' not in log:
                                yield names, delim, out, log, inside


def run_options(case, ctx):
    """ inside: the paths are relative to the working directory """
    names, delim, out, log, inside = case
    if delim == ' ' and 'a b' in names:
        return
    msgs = option_log()
    ref = run(msgs)
    home = os.getcwd()
    for k, (start, end) in enumerate(((None, None), (2, None), (None, 3), (2, 3))):
        d = scratch(ctx)
        os.makedirs(os.path.dirname(os.path.join(d, log)), exist_ok=True)
        path = put(os.path.join(d, log), encode(msgs))
        argv = [log if inside else path]
        if names:
            argv += ['-m' if k % 2 else '--messages', ','.join(names)]
        if delim != ',' or k == 1:
            argv += ['-d' if k % 2 else '--delimiter', delim]
        if out:
            argv += ['-o' if k % 2 else '--output', out if inside else os.path.join(d, out)]
            if 'old' in out:
                os.makedirs(os.path.join(d, out))
        if start:
            argv += ['-ts' if k % 2 else '--time_s', start]
        if end:
            argv += ['-te' if k % 2 else '--time_e', end]
        if k > 1:
            argv.append('-i')
        try:
            if inside:
                os.chdir(d)
            _, code = cli(ulog2csv.main, *argv)
        finally:
            os.chdir(home)
        require(not code, f'exit status {code}')
        where = os.path.join(d, out) if out else os.path.dirname(path)
        own = (os.path.basename(log), log.split('/')[0], out.split('/')[0])
        name = os.path.basename(log)
        check_files(where, name[:-4] if name.lower().endswith('.ulg') else name, ref, ctx, names or None, delim, start, end, own)
        for place in {d, os.path.dirname(path)} - {os.path.normpath(where)}:
            expect([], [f for f in os.listdir(place) if f not in own], 'other files')
    ctx.transitions += 4 * len(msgs)


# ------------------------------------------------------------ many samples and fields

def gen_sizes(tier):
    for samples in (1, 2, 9, 10, 11, 100, 1000) + (() if tier == 'quick' else (20000,) if tier == 'thorough' else (20000, 100000)):
        for size in (1, 9, 10, 11, 99, 101, 256):
            if samples * size <= 101000:
                yield samples, size
    yield 65537, 1
    yield 'topics', 100
    yield 'topics', 1001
    for n in (*range(1, 260), 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096):
        yield 'text', n


def run_sizes(case, ctx):
    samples, size = case
    if samples == 'topics':
        msgs = [F(f't{i}', 'uint64_t timestamp', 'uint16_t v') for i in range(size)]
        msgs += [('A', i % 256, i, f't{i % 7}' if i % 3 else f't{i}') for i in range(size) if i % 3 == 0 or i < 256]
        msgs += [('D', i, struct.pack('<QH', 2 * i + k, i * k)) for k in range(2) for i in range(size) if i % 3 == 0 or i < 256]
        convert(msgs, ctx)
        return
    if samples == 'text':   # filled, not quite filled, half filled, empty; ending within a character, quoted
        msgs = [F('t', 'uint64_t timestamp', f'char[{size}] s', 'uint8_t e'), ('A', 0, 1, 't')]
        for i, text in enumerate((b'a' * size, b'b' * (size - 1), b'c' * (size // 2) + b'\0' + b'd' * size, b'', 'é'.encode() * size, b'"' * size,
                                  b'a' * (size - 1) + b',', b' ' * size)):
            msgs.append(('D', 1, struct.pack(f'<Q{size}sB', i, text, i)))
        convert(msgs, ctx)
        return
    msgs = [F('t', 'uint64_t timestamp', f'uint16_t[{size}] v', f'char[{size}] s'), ('A', 0, 1, 't')]
    for i in range(samples):
        s = bytes(65 + (i + j) % 26 for j in range(size))
        msgs.append(('D', 1, struct.pack(f'<Q{size}H{size}s', i, *[(i * 7 + j) & 0xffff for j in range(size)],
                                         s[:i % (size + 1)])))
    convert(msgs, ctx)


def families():
    return [
        Family('layouts', gen_layouts, run_layouts, 'pairs (thorough: triples) of field types, positions of the time stamp'),
        Family('fields', gen_fields, run_fields, 'confusable names of fields'),
        Family('nested', gen_nested, run_nested, 'texts in nested types'),
        Family('values', gen_values, run_values, 'boundary values of every type, also in arrays'),
        Family('strings', gen_strings, run_strings, f'all strings over {len(CHARS)} characters x delimiters'),
        Family('windows', gen_windows, run_windows, 'time stamps x start x end of the window'),
        Family('fractions', gen_fractions, run_fractions, 'windows that start and end within a second'),
        Family('options', gen_options, run_options, 'command line options x file names'),
        Family('sizes', gen_sizes, run_sizes, 'numbers of samples and fields'),
    ]
