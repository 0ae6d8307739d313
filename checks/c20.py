"""
C20: exported parameters are the parameters of the log.

Every message sequence x every format and option is exported by the real command line entry point, and
the output is read back and compared with the reference model.
"""
import itertools
import os
import struct
from pyulog import params
from vlib.alpha import FA, VALUES, da, seqs
from vlib.cli import cli, put, require, scratch
from vlib.engine import Family, Violation, expect
from vlib.model import run
from vlib.ulg import encode

ID, LEVEL = 'C20', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = ('every message sequence x every output format and option; states are distinct sets of parameters, '
        'outcomes distinct outputs')
ASSUMPTIONS = ['parameters are of type int32_t or float and have no delimiter in their names',
               'timestamps are not combined with initial or default values']


def same(want, got, what):
    try:
        if isinstance(want, float):
            got = float(got)
            ok = got == want and str(got) == str(want) or got != got and want != want
        else:
            ok = int(got) == want
    except ValueError:
        ok = False
    require(ok, f'{what}: expected {want!r}, got {got!r}')


def lists_of(ref, name):
    return [(0, ref.init[name])] + [(t, v) for t, k, v in ref.changed if k == name]


def check_lists(want, got, what):
    """ want: [(name, [values])]; got: the same as text """
    expect([n for n, _ in want], [n for n, _ in got], f'{what}: names')
    for (name, values), (_, texts) in zip(want, got):
        expect(len(values), len(texts), f'{what}: number of values of {name} ({values!r} {texts!r})')
        for v, t in zip(values, texts):
            same(v, t, f'{what}: {name}')


def check_all(msgs, ctx, delims=(',', ';')):
    ref = run(msgs)
    ctx.state((sorted(ref.init.items(), key=str), ref.changed, sorted(ref.defaults, key=str)))
    ctx.transitions += len(msgs)
    d = scratch(ctx)
    log, out_file = put(os.path.join(d, 'log.ulg'), encode(msgs)), os.path.join(d, 'out.txt')

    def export(*argv, to_file=False):
        ctx.executions += 1
        out, code = cli(params.main, log, *([out_file] if to_file else []), *argv)
        require(not code, f'{argv}: exit status {code}')
        if to_file:
            expect('', out, f'{argv}: standard output')
            with open(out_file, newline='', encoding='utf-8') as f:
                out = f.read()
        ctx.outcome(out)
        require(out == '' or out.endswith('\n'), f'{argv}: incomplete last line')
        return out.split('\n')[:-1]

    names = sorted(ref.init)
    full = [(n, [v for _, v in lists_of(ref, n)]) for n in names]
    init = [(n, [ref.init[n]]) for n in names]

    def csv(delim, *argv, **kw):
        return [(row[0], row[1:]) for row in (l.split(delim) for l in export('-l', delim, *argv, **kw))]

    check_lists(full, csv(delims[0]), 'csv')
    check_lists(full, csv(delims[1], '-f', 'csv', to_file=True), 'csv in a file')
    check_lists(init, csv(delims[0], '-i'), 'initial csv')
    # with time stamps
    rows = csv(delims[1], '-t')
    check_lists(full, rows[::2], 'csv with time stamps')
    stamps = [('timestamp', [t for t, _ in lists_of(ref, n)]) for n in names]
    check_lists(stamps, rows[1::2], 'time stamps')
    # octave
    check_octave(full, export('-f', 'octave', to_file=True), 'octave')
    check_octave(init, export('-f', 'octave', '-i'), 'initial octave')
    check_qgc(init, export('-f', 'qgc'), 'qgc')
    # defaults
    for arg in ('', 'System', 'default', '0'):
        try:
            out = export('-d', arg)
        except (AssertionError, ValueError, KeyError, Violation):
            continue
        raise Violation(f'defaults of the unknown kind {arg!r}: {out!r:.300}')
    for bit, arg in ((0, 'system'), (1, 'current_setup')):
        want = [(n, [v]) for n, v in sorted(ref.defaults.get(bit, {}).items())]
        if not ref.has_defaults:
            try:
                out = export('-d', arg)
            except (AssertionError, ValueError, KeyError):
                continue
            raise Violation(f'{arg} defaults of a log without defaults: {out!r:.300}')
        check_lists(want, csv(delims[0], '-d', arg), f'{arg} csv')
        check_octave(want, export('-d', arg, '-f', 'octave'), f'{arg} octave')
        check_qgc(want, export('--default', arg, '--format', 'qgc', '--ignore', to_file=True), f'{arg} qgc')


def check_octave(want, lines, what):
    got, matrix, pos = [], [], 0
    while pos < len(lines):
        require(lines[pos].startswith('# name '), f'{what}: {lines[pos:pos + 6]!r}')
        name = lines[pos][7:]
        matrix.append(lines[pos + 1] != '# type: scalar')
        if not matrix[-1]:
            got.append((name, [lines[pos + 2]]))
            require(' ' not in lines[pos + 2].strip(), f'{what}: scalar {lines[pos + 2]!r}')
            pos += 3
        else:
            expect(['# type: matrix', '# rows: 1'], lines[pos + 1:pos + 3], what)
            values = lines[pos + 4].split()
            expect(f'# columns: {len(values)}', lines[pos + 3], what)
            got.append((name, values))
            pos += 5
    check_lists(want, got, what)
    expect([len(v) > 1 for _, v in want], matrix, f'{what}: matrix or scalar')


def check_qgc(want, lines, what):
    rows = [l.split('\t') for l in lines]
    for r in rows:
        expect(5, len(r), f'{what}: cells of {r!r}')
        expect(['1', '1'], r[:2], f'{what}: system and component')
    check_lists(want, [(r[2], [r[3]]) for r in rows], what)
    for (name, (v,)), r in zip(want, rows):
        expect('9' if isinstance(v, float) else '6', r[4], f'{what}: type of {name}')


# ------------------------------------------------------------ sequences

FLAG = ('B', (1,) + (0,) * 7, (0,) * 8, (0,) * 3)
DEFS = [('P', 'int32_t', 'B_INT', 5), ('P', 'float', 'A_FLT', 0.1), ('P', 'int32_t', 'B_INT', -7),
        ('Q', 1, 'int32_t', 'B_INT', 50), ('Q', 2, 'float', 'A_FLT', -1.5), ('Q', 3, 'int32_t', 'Z', 8)]
DATA = [('P', 'int32_t', 'B_INT', 6), ('P', 'float', 'A_FLT', 2.0), ('P', 'int32_t', 'NEW', 1), da(0, 1000, 1.0),
        da(0, 5000, 1.0), ('Q', 3, 'float', 'A_FLT', 51.5)]


def gen_seqs(tier):
    deep = 3 if tier == 'quick' else 4 if tier == 'thorough' else 5
    for flags in (False, True):
        for a in seqs(DEFS, 3 if tier != 'deep' else 5):
            yield flags, a, ()
        for a in ((DEFS[0],), (DEFS[0], DEFS[1]), (DEFS[1], DEFS[0], DEFS[3], DEFS[4])):
            for b in seqs(DATA, deep, 1):
                yield flags, a, b


def run_seqs(case, ctx):
    flags, a, b = case
    check_all(([FLAG] if flags else []) + [FA] + list(a) + [('A', 0, 0, 'a'), da(0, 77)] + list(b), ctx)


def gen_values(_tier):
    for typ in ('int32_t', 'float'):
        for v in itertools.product(range(len(VALUES[typ])), repeat=2):
            yield typ, v


def run_values(case, ctx):
    """ every pair of boundary values as initial, changed and default value """
    typ, (i, j) = case
    v, w = VALUES[typ][i], VALUES[typ][j]
    if typ == 'float':
        v, w = (struct.unpack('<f', struct.pack('<f', x))[0] for x in (v, w))
    check_all([FLAG, FA, ('P', typ, 'P', v), ('Q', 1, typ, 'P', w), ('Q', 2, typ, 'P', v), ('Q', 3, typ, 'Q', w),
               ('A', 0, 0, 'a'), da(0, 2**40), ('P', typ, 'P', w), da(0, 2**40 + 1), ('P', typ, 'P', v)], ctx)


NAMES = ['P', 'P_', 'PA', 'P0', 'p', '_P', 'P10', 'P9']


def gen_names(_tier):
    for n in range(1, 5):
        yield from itertools.permutations(NAMES, n)


def run_names(names, ctx):
    """ parameters whose names are prefixes of each other, all changed """
    msgs = [FLAG, FA] + [('P', 'int32_t', n, i) for i, n in enumerate(names)]
    msgs += [('Q', 1 + i % 3, 'int32_t', n, i) for i, n in enumerate(names)]
    msgs += [('A', 0, 0, 'a'), da(0, 5)] + [('P', 'int32_t', n, 10 + i) for i, n in enumerate(names)]
    msgs += [da(0, 6)] + [('P', 'int32_t', n, 20 + i) for i, n in enumerate(names[::-1])]
    check_all(msgs, ctx, (',', '|'))


def gen_many(_tier):
    yield from (1, 2, 10, 100, 1000)


def run_many(n, ctx):
    msgs = [FLAG, FA] + [('P', 'float', f'P{i}', i / 4) for i in range(n)] + [('A', 0, 0, 'a')]
    for i in range(n):
        msgs += [da(0, i + 1), ('P', 'float', f'P{i * 7 % n}', i / 8), ('P', 'float', 'P0', float(i))]
    check_all(msgs, ctx)


TIMES = [None, 0, 1, 10, 2**31, 2**32, 2**53 + 1, 2**63, 2**64 - 1]


def gen_times(_tier):
    for n in (1, 2, 3):
        yield from itertools.product(range(len(TIMES)), repeat=n)


def run_times(case, ctx):
    """ changes after data with each of these time stamps, or (None) after no data """
    msgs = [FA, ('P', 'int32_t', 'P', 1), ('A', 0, 0, 'a')]
    for n, i in enumerate(case):
        msgs += [] if TIMES[i] is None else [da(0, TIMES[i])]
        msgs += [('P', 'int32_t', 'P', 10 + n), ('P', 'float', 'Z', n / 4)]
    check_all(msgs, ctx)


def families():
    return [
        Family('times', gen_times, run_times, 'time stamps of changes'),
        Family('sequences', gen_seqs, run_seqs, 'message sequences x all formats and options'),
        Family('values', gen_values, run_values, 'pairs of boundary values'),
        Family('names', gen_names, run_names, 'orders of parameters with similar names'),
        Family('many', gen_many, run_many, 'many parameters'),
    ]
