"""
C21: the summary of a log states its true times, dropouts, version, information and sizes.

Every enumerated log is summarised by the real command line entry point; the text must be the one the
reference model gives.
"""
import itertools
import os
import re
import struct
from pyulog import ULog, info as info_tool
from vlib.alpha import F, FA, FB, cstr, da, db, seqs, stream
from vlib.cli import cli, put, require, scratch
from vlib.engine import Family, expect
from vlib.model import run
from vlib.ulg import BASIC, encode

ID, LEVEL = 'C21', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every case of the stated spaces x verbosity; states are distinct summaries, outcomes distinct outputs'
ASSUMPTIONS = ['total and mean of dropouts are rounded as printed: 0.1 s and whole milliseconds']


def hms(us):
    s = us // 1000000
    return f'{s // 3600}:{s // 60 % 60:02d}:{s % 60:02d}'


def version_str(v):
    """ as documented: type 64 alpha, 128 beta, 192 release candidate, 255 release, below 64 none """
    if v is None or v & 255 < 64:
        return None
    kind = v & 255
    tag = '' if kind == 255 else ' (RC)' if kind >= 192 else ' (beta)' if kind >= 128 else ' (alpha)'
    return f'v{v >> 24 & 255}.{v >> 16 & 255}.{v >> 8 & 255}{tag}'


def summary(ref, verbose):
    """ the expected parts of the summary """
    drops = [d for _, d in ref.drop]
    out = {
        'corrupt': ref.corrupt, 'start': hms(ref.start), 'duration': hms(ref.last - ref.start),
        'dropouts': None if not drops else (len(drops), sum(drops), max(drops), sum(drops) // len(drops)),
        'version': version_str(ref.info.get('ver_sw_release')),
        'info': [(k, str(ref.info[k])) for k in sorted(ref.info) if verbose or not k.startswith('perf_')],
        'multi': [(k, str(ref.multi[k]) if verbose else str(len(ref.multi[k]))) for k in sorted(ref.multi)],
        'topics': sorted((t.name, t.multi_id, t.size, len(t.rows), t.size * len(t.rows))
                         for t in ref.topics.values() if t.rows),
    }
    return out


def parse(text, verbose):
    """ the parts found in the output """
    lines = text.split('\n')
    out = {'corrupt': False, 'version': None, 'info': [], 'multi': [], 'topics': []}
    while not lines[0].startswith('Logging'):       # the loader prints warnings of its own
        require(lines[0].startswith('Warning:'), f'line {lines[0]!r}')
        out['corrupt'] |= 'file has data corruption' in lines.pop(0)
    m = re.fullmatch(r'Logging start time: (\d+:\d\d:\d\d), duration: (\d+:\d\d:\d\d)', lines.pop(0))
    require(m, f'first line of {text!r:.300}')
    out['start'], out['duration'] = m.groups()
    line = lines.pop(0)
    if line == 'No Dropouts':
        out['dropouts'] = None
    else:
        m = re.fullmatch(r'Dropouts: count: (\d+), total duration: (\d+\.\d) s, max: (\d+) ms, mean: (\d+) ms', line)
        require(m, f'dropout line {line!r}')
        out['dropouts'] = (int(m[1]), m[2], int(m[3]), int(m[4]))
    if lines[0].startswith('SW Version: '):
        out['version'] = lines.pop(0)[12:]
    expect('Info Messages:', lines.pop(0), 'line')
    while lines[0].startswith(' '):
        out['info'].append(tuple(lines.pop(0)[1:].split(': ', 1)))
    if lines[0] == 'Info Multiple Messages:':
        require(verbose, 'values of multi information without -v')
        lines.pop(0)
        while lines[0].startswith(' '):
            out['multi'].append(tuple(lines.pop(0)[1:].split(': ', 1)))
    elif lines[0].startswith('Info Multiple Messages: '):
        require(not verbose, 'no values of multi information with -v')
        out['multi'] = [tuple(x.split(': ')) for x in re.findall(r'\[([^]]*)\]', lines.pop(0))]
    expect('', lines.pop(0), 'line before the topics')
    require(lines.pop(0).startswith('Name (multi id, message size in bytes)'), 'head line')
    while lines[0]:
        m = re.fullmatch(r' (\S+) \((\d+), (\d+)\) +(\d+) +(\d+)', lines.pop(0))
        require(m, f'topic in {text!r:.900}')
        out['topics'].append((m[1],) + tuple(int(x) for x in m.groups()[1:]))
    expect([''], lines, 'rest of the output')
    return out


def check_info(msgs, ctx, start=0, data=None):
    ref = run(msgs, start)
    path = put(os.path.join(scratch(ctx), 'log.ulg'), data or encode(msgs, start))
    ctx.transitions += len(msgs)
    for verbose in (False, True):
        want = summary(ref, verbose)
        ctx.state(want)
        text, code = cli(info_tool.main, path, *(['-v'] if verbose else []))
        require(not code, f'exit status {code}')
        ctx.executions += 1
        ctx.outcome(text)
        got = parse(text, verbose)
        names = [(t[0], t[1]) for t in got['topics']]
        require([n for n, _ in names] == sorted(n for n, _ in names) or names == sorted(names, key=lambda x: x[0] + str(x[1])),
                f'order of the topics {names}')
        got['topics'].sort()
        if want['dropouts'] and got['dropouts']:
            total = want['dropouts'][1]
            require(abs(float(got['dropouts'][1]) * 1000 - total) <= 50.001,
                    f'total duration of dropouts: expected {total} ms, got {got["dropouts"][1]} s')
            want['dropouts'] = want['dropouts'][:1] + want['dropouts'][2:]
            got['dropouts'] = got['dropouts'][:1] + got['dropouts'][2:]
        for k, v in want.items():
            expect(v, got[k], k)


# ------------------------------------------------------------ sequences

PRE = [FA, FB]
SUBS = [('A', 0, 0, 'a'), ('A', 1, 1, 'a'), ('A', 0, 2, 'b'), ('A', 10, 3, 'b')]
OPS = [da(0, 1000000), da(1, 59999999), db(2, 1, 60000000), db(3, 1, 3600000000), ('O', 5), ('O', 200),
       ('D', 9, b'nobody'), cstr('perf_x', 'slow'), ('I', 'int32_t', 'num', -5), ('M', 'char[3]', 'multi', 'abc', 0),
       ('M', 'char[3]', 'multi', 'def', 1), ('I', 'uint32_t', 'ver_sw_release', 0x010203ff), da(0, 999999)]


def gen_seqs(tier):
    yield from seqs(OPS, 3 if tier == 'quick' else 4 if tier == 'thorough' else 5)


def run_seqs(s, ctx):
    check_info(PRE + SUBS + list(s), ctx)


# ------------------------------------------------------------ times

US = [0, 1, 999999, 1000000, 1999999, 59000000, 59999999, 60000000, 3599999999, 3600000000, 3661000001, 86399999999,
      86400000000, 10**12 + 7, 2**40]


def gen_times(_tier):
    yield from itertools.product(US, repeat=2)


def run_times(case, ctx):
    start, dur = case
    check_info(PRE + [('A', 0, 0, 'a'), da(0, start + dur), da(0, start)], ctx, start)


DROPS = [0, 1, 2, 49, 50, 99, 100, 149, 999, 65535]


def gen_dropouts(tier):
    for n in range(0, 4 if tier == 'quick' else 5 if tier == 'thorough' else 7):
        yield from itertools.combinations_with_replacement(DROPS, n)


def run_dropouts(drops, ctx):
    check_info(PRE + [('A', 0, 0, 'a')] + [('O', d) for d in drops] + [da(0, 5)], ctx)


# ------------------------------------------------------------ versions

def gen_versions(_tier):
    for kind in range(256):
        for v in (0, 0x01020300, 0xff00ff00, 0x000a0000, 0x7fffff00, 0x80000000):
            yield v | kind, 'uint32_t'
        for v in (-1, -2**31, -256, 0x01020300):
            yield v & ~255 | kind, 'int32_t'
        for v in (2**32, 2**63 + 0x01020300, 0x010203):
            yield v << 8 & 2**64 - 1 | kind, 'uint64_t'
    yield None, ''


def run_versions(case, ctx):
    v, typ = case
    msgs = PRE + ([('I', typ, 'ver_sw_release', v)] if v is not None else [])
    check_info(msgs, ctx)
    u = ULog(stream(encode(msgs)))
    expect(version_str(v), u.get_version_info_str(), 'version text')
    expect(None if v is None else (v >> 24 & 255, v >> 16 & 255, v >> 8 & 255, v & 255), u.get_version_info(), 'version')
    ctx.executions += 1


# ------------------------------------------------------------ sizes of the samples

def gen_sizes(_tier):
    for t in BASIC:
        for n in (0, 1, 3, 40):
            for pad in (0, 1, 7):
                for count in (1, 2, 12):
                    yield t, n, pad, count


def run_sizes(case, ctx):
    t, n, pad, count = case
    fields = [f'{t}[{n}] v' if n else f'{t} v', 'uint64_t timestamp', 'in w']
    if pad:
        fields.append(f'uint8_t[{pad}] _padding0')
    msgs = [F('in', 'int16_t a', 'bool[3] b'), F('topic_name', *fields)] + \
        [('A', m, 7 + m, 'topic_name') for m in range(3)]
    size = BASIC[t][1] * (n or 1) + 8 + 5
    for k in range(count):
        p = bytearray(size)
        struct.pack_into('<Q', p, BASIC[t][1] * (n or 1), k + 1)
        msgs.append(('D', 7, bytes(p)))
        if k % 2:
            msgs.append(('D', 9, bytes(p) + bytes(pad)))
    check_info(msgs, ctx)


# ------------------------------------------------------------ one multi information message

PARTS = [('char[2]', b'ab'), ('char[1]', b'x'), ('char[0]', b'')]
RAW = [('uint8_t[3]', b'\0\x7f\xff'), ('uint8_t[1]', b'\x0a'), ('uint8_t[2]', b'\0\0')]
NUM = [('int32_t', -7), ('int32_t', 0), ('int32_t', 2147483647)]


def gen_multi(tier):
    for kinds in (PARTS, RAW, NUM):
        parts = [(t, v, c) for t, v in kinds for c in (0, 1)]
        yield from seqs(parts, 3 if tier == 'quick' else 4 if tier == 'thorough' else 5, 1)


def run_multi(parts, ctx):
    msgs = PRE + [('M', 'char[1]', 'other', 'o', 0), ('M', 'char[1]', 'Key', 'O', 0), ('M', 'char[1]', 'ke', 'k', 0)] + \
        [('M', t, 'key', v, c) for t, v, c in parts] + [('M', 'char[1]', 'key2', 'p', 0), cstr('nokey', 'info')]
    ref = run(msgs)
    path = put(os.path.join(scratch(ctx), 'log.ulg'), encode(msgs))
    ctx.state(ref.multi['key'])
    for newline in (False, True):
        sep = '\n' if newline else ''
        want = []
        for i, items in enumerate(ref.multi['key']):
            if isinstance(items[0], bytes):
                want += [f'# key {i} (len: {sum(len(x) for x in items)}):',
                         sep.join(' '.join(f'{c:02x}' for c in x) for x in items)]
            else:
                want += [f'# key {i}:', sep.join(str(x) for x in items)]
        text, code = cli(info_tool.main, path, '-m', 'key', *(['-n', '-v'] if newline else ['-i']))
        require(not code, f'exit status {code}')
        expect('\n'.join(want) + '\n', text, f'multi information, newline {newline}')
        ctx.outcome(text)
        text, _ = cli(info_tool.main, path, '--message', 'nokey')
        expect('message nokey not found\n', text, 'missing multi information')
        ctx.executions += 2


# ------------------------------------------------------------ keys

KEYS = ['perf_x', 'xperf_y', 'perf', 'Perf_z', 'perf_', 'a', 'Z', '_', 'a.b', 'é', 'ver_sw', 'ver_sw_release_vendor', 'sys_name']
VALUES = [('char[3]', 'a b'), ('float', 0.1), ('uint64_t', 2**64 - 1), ('int8_t', -1), ('uint8_t[3]', b'\1\0x'), ('bool', True), ('char[0]', ''),
          ('double', float('nan'))]


def gen_keys(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3, 4, 5):
        for i, keys in enumerate(itertools.permutations(KEYS, n)):
            yield keys, i % 8 if n > 1 else None


def run_keys(case, ctx):
    keys, k = case
    for shift in range(8) if k is None else (k,):
        msgs = []
        for i, key in enumerate(keys):
            t, v = VALUES[(i * 3 + shift) % 8]
            msgs += [('I', t, key, v), ('M', t, key, v, 0), ('M', t, key, v, 0)][:3 if (i + shift) % 3 else 1]
        check_info(PRE + msgs, ctx)
        check_info(PRE + [('A', 0, 0, 'a'), ('L', 54, 1, 'x')] + msgs + [da(0, 5)], ctx)


# ------------------------------------------------------------ names and many of everything

INST = [(n, m) for n in ('a', 'a1', 'a10', 'A', 'a_0', 'b') for m in (0, 1, 10, 11, 100)]


def gen_names(tier):
    yield from itertools.combinations(INST, 2)
    yield from itertools.combinations(INST[:10] if tier == 'quick' else INST, 3)
    for n in (100, 1001) + (() if tier == 'quick' else (5000,) if tier == 'thorough' else (5000, 21000)):
        yield n


def run_names(case, ctx):
    names = {n: f'int16_t[{i}] f' if i else 'bool f' for i, n in enumerate(dict.fromkeys(n for n, _ in INST))}
    if isinstance(case, tuple):
        for order in (case, case[::-1]):
            msgs = [F(n, 'uint64_t timestamp', f) for n, f in names.items()] + [('A', m, i, n) for i, (n, m) in enumerate(order)]
            size = {n: 1 if f == 'bool f' else 2 * int(f[8:-3]) for n, f in names.items()}
            msgs += [('D', i, struct.pack('<Q', k + 5) + bytes(size[n])) for i, (n, _) in enumerate(order) for k in range(i + 1)]
            check_info(msgs, ctx)
        return
    msgs = [F(f't{i}', 'uint64_t timestamp', 'uint16_t v') for i in range(case)]
    msgs += [m for i in range(case) for m in (('I', 'uint32_t', f'i{i}', i), ('M', 'char[4]', f'm{i % 70}', f'{i % 9999:04d}', i & 1))]
    msgs += [('A', 0, 3 * i, f't{i}') for i in range(case)]
    msgs += [m for i in range(case) for m in (('O', i), ('D', 3 * i, struct.pack('<QH', 2 * i + 1, i)),
                                              ('D', 3 * (i % 7), struct.pack('<QH', 2 * i + 1, i)))]
    check_info(msgs, ctx)


def families():
    return [
        Family('sequences', gen_seqs, run_seqs, 'message sequences x verbosity'),
        Family('times', gen_times, run_times, 'start times x durations'),
        Family('dropouts', gen_dropouts, run_dropouts, 'multisets of dropout durations'),
        Family('versions', gen_versions, run_versions, 'versions of every release type'),
        Family('sizes', gen_sizes, run_sizes, 'sample sizes and counts'),
        Family('keys', gen_keys, run_keys, 'permutations of confusable keys x values'),
        Family('names', gen_names, run_names, 'sets of similar topics, and thousands of messages of every kind'),
        Family('multi', gen_multi, run_multi, 'parts of a multi information message'),
    ]
