"""
C11: a log saved to the database and loaded from it again has the same content.

Every log of the enumerated spaces is saved to a fresh database by the implementation and loaded back,
completely, with lazily loaded data, and one dataset at a time; the public result is compared with the
reference model's state for the log.
"""
import hashlib
import io
import itertools
import json
import os
import sqlite3
import struct
from pyulog import ULog
from pyulog.db import DatabaseULog
from vlib import dbtools
from vlib.alpha import F, FA, FB, FC, FN, NAMES, VALUES, da, db, dc, gen_repeats, named, repeats, seqs, stream
from vlib.engine import Family, Violation, expect
from vlib.model import diff, observe, observe_data, run
from vlib.ulg import BASIC, encode

ID, LEVEL = 'C11', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every log of the enumerated spaces is saved and loaded back; outcomes are distinct results'
ASSUMPTIONS = ['integers have at most 63 bits (the limit of the database)',
               'a topic instance is subscribed once']

BIG = 2**63


def check(msgs, ctx, start=0, version=1, append_json=False, handle=None, source=None, data=None):
    """ save, load in every way, compare with the model """
    ref = run(msgs, start).result()
    ctx.state(ref)
    ctx.transitions += len(msgs)
    ctx.executions += 1
    data = encode(msgs, start, version) if data is None else data
    handle = handle or dbtools.fresh(ctx)
    u = DatabaseULog(handle, log_file=stream(data) if source is None else source)
    expect(None, u.primary_key, 'primary key before saving')
    if append_json:
        u.save(append_json=True)
    else:
        u.save()
    pk = u.primary_key
    if not isinstance(pk, int):
        raise Violation(f'primary key {pk!r}')
    d = diff(ref, observe(u))
    if d:
        raise Violation('the saved object: ' + d)
    v = DatabaseULog(handle, primary_key=pk, lazy=False)
    expect(pk, v.primary_key, 'primary key')
    sha = hashlib.sha256(data).hexdigest()
    expect((sha, sha), (u.sha256sum, v.sha256sum), 'sha256 sum')
    got = observe(v)
    ctx.outcome(got)
    d = diff(ref, got, ('corrupt', 'multi'))
    if d:
        raise Violation('from the database: ' + d)
    lazy = DatabaseULog(handle, primary_key=pk)
    rest = observe(lazy)
    d = diff(got, rest, ('data',))
    if d:
        raise Violation('lazily from the database: ' + d)
    expect([(t[0], t[1], t[2]) for t in ref['data']],
           sorted((t.name, t.multi_id, t.msg_id) for t in lazy.data_list), 'datasets of the lazily loaded log')
    order = [(t.name, t.multi_id) for t in u.data_list]
    for what, w in (('', v), ('lazily loaded ', lazy)):
        expect(order, [(t.name, t.multi_id) for t in w.data_list], f'order of the {what}datasets')
    for t in ref['data']:
        one = observe_data(lazy.get_dataset(t[0], t[1], caching=False))
        if one != t:
            raise Violation(f'dataset {t[0]} {t[1]}: expected {t!r:.500}, got {one!r:.500}')
    expect(head(u), head(v), 'header and flags, as they are written,')
    if ref['multi'] != got['multi']:
        astext = {k: [[('s', repr(x[1])) if x[0] == 'i' else x for x in l] for l in ls]
                  for k, ls in ref['multi'].items()}
        nofloat = lambda m: {k: [[x for x in l if x[0] not in 'fs?' or not number(x)] for l in ls]
                             for k, ls in m.items()}
        key = None
        if any(x[0] in 'if' for ls in ref['multi'].values() for l in ls for x in l) and \
                shape(ref['multi']) == shape(got['multi']) and nofloat(astext) == nofloat(got['multi']):
            key = 'numeric-multi'
        raise Violation(diff(ref, got, [k for k in ref if k != 'multi']), key)
    if ref['corrupt'] != got['corrupt']:
        raise Violation(f'corruption flag: {ref["corrupt"]}, from the database {got["corrupt"]}',
                        'corruption-flag' if ref['corrupt'] else None)
    return handle, u, v


def head(u):
    """ how the log begins when it is written """
    out = io.BytesIO()
    try:
        u.write_ulog(out)
    except Exception:   # pylint: disable=broad-except
        pass            # numeric-multi
    return out.getvalue()[:16 + 43]


def number(x):
    try:
        return x[0] == 'f' or x == ('?', 'None') or float(x[1]) is not None
    except ValueError:
        return False


def shape(m):
    return {k: [len(l) for l in ls] for k, ls in m.items()}


# ------------------------------------------------------------ sequences

OPS = [('I', 'char[3]', 'k', 'abc'), ('I', 'int32_t', 'k', -7), ('I', 'float', 'fl', 0.1), ('I', 'double', 'fl', float('nan')),
       ('I', 'uint8_t[3]', 'raw', b'\1\0\xff'), ('M', 'char[2]', 'm', 'ab', 0), ('M', 'char[2]', 'm', '12', 1),
       ('M', 'uint8_t[3]', 'n', b'\1\0\xff', 0), ('M', 'int32_t', 'o', 5, 0), ('P', 'int32_t', 'PAR', 5), ('P', 'float', 'PAR', 0.1),
       ('P', 'float', 'QAR', float('nan')), ('Q', 1, 'int32_t', 'PAR', 1), ('Q', 3, 'float', 'QAR', 2.5),
       ('Q', 2, 'float', 'PAR', float('nan')), F('a2', 'uint64_t timestamp', 'n[2] y'), F('e'), ('L', 48, 9, 'x'), ('L', 55, 2, 'é\0\n'),
       ('C', 48, 1, 9, ''), ('C', 49, 513, 3, 'tag'), ('O', 5), ('O', 65535), da(0, 10, 1.5), da(0, 10, -2.5), da(1, 3, float('nan')),
       db(2, 1, 10), dc(3, 13), dc(3, 12, b'\xff\x80\0q', 0, float('-inf')), ('D', 77, b''), ('S',), ('Q', 0x94, 'int32_t', 'DEF', 4)]
PRE = [FN, FA, FB, FC, ('P', 'int32_t', 'PAR', 5), ('A', 0, 0, 'a'), ('A', 255, 1, 'a'), ('A', 0, 2, 'b'), ('A', 0, 3, 'c')]


def gen_seqs(tier):
    yield from seqs(OPS, 2 if tier == 'quick' else 3)
    if tier == 'quick':
        yield from seqs([OPS[i] for i in (3, 6, 10, 13, 17, 19, 21, 22, 24, 26)], 3, 3)
    if tier == 'deep':
        yield from seqs([OPS[i] for i in (1, 3, 6, 8, 10, 13, 15, 17, 19, 21, 22, 24, 25, 26)], 4, 4)


def run_seqs(s, ctx):
    defs = [m for m in s if m[0] in 'IMPQF']
    if defs and len(s) < 3:     # the same definitions before the data section
        check(PRE[:5] + defs + PRE[5:] + list(s), ctx)
    check(PRE + [m for m in s if m[0] != 'F'], ctx, 1)


# ------------------------------------------------------------ values

def gen_values(_tier):
    for typ, vals in VALUES.items():
        for v in vals:
            for where in 'IPQ' if not isinstance(v, int) or v < BIG else '':
                yield where, typ, v
            if typ != 'char':
                yield 'M', typ, v if not isinstance(v, int) or v < BIG else 1
            yield 'D', typ, v
        for n in (1, 2, 5):
            yield 'ARR', typ, n
    for s in ('', 'a', 'a b', 'x' * 300, 'é', '日本', '\0', 'a\0b', "a'b", '"', '%s?', '\n', ' 12 ', '12', '1.50', '0x10', 'nan', 'NULL',
              '\U0001f600'):
        yield 'S', 'char', s
    for raw in (b'\xff', b'a\xffb'):
        yield 'S', 'char', raw
    for ts in (0, 1, 2**31, 2**32 + 1, 2**53 + 1, BIG - 1):
        yield 'TS', '', ts
    for byte in range(8):
        for v in (1, 2, 127, 128, 255):
            yield 'FLAG', byte, v
    for n in NAMES:
        yield 'NAME', '', n
    for version in (0, 1, 2, 255):
        yield 'VER', '', version
    for n in (0, 1, 2, 3, 256, 300, 5000):
        yield 'N', '', n
    for n in (65537, 140000):
        yield 'LONG', '', n


def run_values(case, ctx):
    where, typ, v = case
    if where == 'I':
        check([('I', typ, 'key', v), ('I', 'int8_t', 'z', 1)], ctx)
    elif where == 'M':
        check([('M', typ, 'key', v, 0), ('M', typ, 'key', v, 1), ('M', typ, 'key', v, 0)], ctx)
    elif where == 'P':
        check([('P', typ, 'key', v), ('L', 48, 1, ''), ('P', typ, 'key', v), ('P', typ, 'late', v)], ctx)
    elif where == 'Q':
        check([('Q', 1, typ, 'key', v), ('Q', 3, typ, 'k2', v), ('Q', 2, typ, 'k3', v)], ctx)
    elif where == 'D':
        code = BASIC[typ][0]
        for js in (False, True):
            check([F('t', 'uint8_t o', f'{typ} v', 'uint64_t timestamp', f'{typ}[2] w'), ('A', 0, 3, 't'),
                   ('D', 3, struct.pack(f'<B{code}Q{code}{code}', 9, v, 1, v, v)),
                   ('D', 3, struct.pack(f'<B{code}Q{code}{code}', 8, v, 2, VALUES[typ][0], v))], ctx, append_json=js)
    elif where == 'S':
        n = len(v if isinstance(v, bytes) else v.encode())
        check([('I', f'char[{n}]', 'k', v), ('M', f'char[{n}]', 'k', v, 0), ('L', 48, 1, v), ('C', 49, 2, 3, v)], ctx)
    elif where == 'ARR':
        code, size, _ = BASIC[typ]
        raw = b'q' * v if typ == 'char' else bytes((37 * i + 200) % 256 for i in range(size * v))
        check([('I', f'{typ}[{v}]', 'k', raw), ('M', f'{typ}[{v}]', 'm', raw, 0), ('L', 48, 1, '')], ctx)
    elif where == 'TS':
        check([FA, ('A', 0, 1, 'a'), da(1, v), ('O', 65535), ('P', 'int32_t', 'p', 1), ('L', 48, v, 'x'), ('C', 48, 65535, v, 'x')],
              ctx, v)
    elif where == 'FLAG':
        c = [0] * 8
        c[typ] = v
        check([('B', tuple(c), (0,) * 8, (0, 0, 0)), ('P', 'int32_t', 'p', 1)], ctx)
    elif where == 'NAME':
        for js in (False, True):
            check(named(v), ctx, append_json=js)
    elif where == 'VER':
        check([('P', 'int32_t', 'p', 1)], ctx, version=v)
    elif where == 'LONG':
        check([FA, ('A', 0, 1, 'a')] + [da(1, i, i * 0.5) for i in range(v)], ctx)
    elif where == 'N':
        check([FA, ('A', 0, 1, 'a'), ('A', 1, 2, 'a')] + [m for i in range(v) for m in (
            da(1, i, i * 0.5), da(2, i + 3), ('L', 48 + i % 8, i, f'm{i}'), ('C', 48, i % 7, i, f't{i}'), ('O', i),
            ('P', 'int32_t', f'p{i % 7}', i), ('M', 'char[4]', f'k{i % 3}', f'{i:04d}', int(i % 5 != 0)))], ctx)
        check([('P', 'int32_t', f'p{i}', i) for i in range(v)] + [F(f'f{i}', 'uint64_t timestamp', f'uint8_t[{i + 1}] z')
              for i in range(min(v, 300))], ctx)


# ------------------------------------------------------------ formats

FORMATS = [F('e'), F('b', 'uint64_t timestamp'), F('a', 'uint64_t timestamp', 'b[3] z', 'float y', 'char[20] _x'), F('e2', 'e q'),
           F('B', 'int8_t d', 'int8_t c', 'int8_t b', 'int8_t a', 'int8_t b2')]


def gen_formats(tier):
    yield from seqs(FORMATS, 3 if tier == 'quick' else 4 if tier == 'thorough' else 5)
    yield from itertools.permutations(FORMATS)


def run_formats(s, ctx):
    """ formats in a database with other logs, one of which is removed """
    handle = dbtools.fresh(ctx)
    logs = [check(list(s), ctx, handle=handle)[1], check(list(s[::-1]) + [('L', 48, 1, 'x')], ctx, handle=handle)[1]]
    check(list(s[1:] + s[:1]) + [('L', 48, 2, 'x')], ctx, handle=handle)
    for u in logs:
        with handle() as con:
            con.execute('DELETE FROM ULog WHERE Id = ?', (u.primary_key,))
        con.close()
        check(list(s) + [('L', 48, 3 + u.primary_key, 'x')], ctx, handle=handle)
    with handle() as con:
        left = con.execute('SELECT Id FROM ULog ORDER BY Id').fetchall()
    con.close()
    want = {0: list(s[1:] + s[:1]), 1: list(s), 2: list(s)}
    for i, (pk,) in enumerate(left):
        got = observe(DatabaseULog(handle, primary_key=pk))['formats']
        expect(run(want[i]).result()['formats'], got, f'formats of log {i} of those left')


# ------------------------------------------------------------ names and instances

TOPICS = [(n, m) for n in ('a', 'A', 'a1', 'a_') for m in (0, 1, 2, 10, 100, 255)]


def gen_topics(tier):
    for n in (1, 2) if tier == 'quick' else (1, 2, 3) if tier == 'thorough' else (1, 2, 3, 4):
        for c in itertools.combinations(TOPICS, n):
            yield c
    yield TOPICS
    yield TOPICS[::-1]


def run_topics(topics, ctx):
    for order in (1, -1):
        msgs = [('F', n, FA[2]) for n in ('a', 'A', 'a1', 'a_')]
        msgs += [('A', m, i, n) for i, (n, m) in enumerate(topics)][::order]
        msgs += [da(i, 10 * k + i, k + i / 4) for k in range(2) for i in range(len(topics))]
        check(msgs, ctx)


# ------------------------------------------------------------ appended data

def gen_appended(_tier):
    for n in (1, 2, 3):
        for last in (0, 1):
            yield n, last


def run_appended(case, ctx):
    n, last = case
    body = [FA, ('A', 0, 1, 'a'), da(1, 10), ('L', 48, 3, 'x')]
    parts = [[da(1, 20 + i, float(i)), ('L', 48, 30 + i, f'app{i}')] for i in range(n)]
    if last:
        parts[-1] = parts[-1][:1]
    def whole(offsets):
        return [('B', (0,) * 8, (1,) + (0,) * 7, tuple(offsets) + (0,) * (3 - n))] + body
    offsets, msgs = [], whole([1] * n)
    for p in parts:
        offsets.append(len(encode(msgs)))
        msgs = msgs + p
    check(whole(offsets) + [m for p in parts for m in p], ctx)


# ------------------------------------------------------------ the JSON form

JS = [da(0, 10, 1.5), da(0, 11, float('nan')), da(0, 12, float('inf')), da(0, 13, float('-inf')), da(1, 10, -1e-30), db(2, -5, 10),
      db(2, 7, 2**63 - 1, (255, 0, 128)), dc(3, 13), dc(3, 14, b'\xff\x80\0q', 0, float('-inf'), (-128, 65535, 0, 127, 1, 2))]


def gen_json(tier):
    yield from seqs(JS, 2 if tier == 'quick' else 3 if tier == 'thorough' else 5)


def run_json(s, ctx):
    path = dbtools.fresh_path(ctx)
    handle = DatabaseULog.get_db_handle(path)
    msgs = PRE + list(s)
    for append_json in (True, False):
        part = msgs if append_json else msgs + [('L', 48, 1, 'other')]
        _, u, _ = check(part, ctx, append_json=append_json, handle=handle)
        con = sqlite3.connect(path)
        got = {(r[0], r[1], r[2]): r[3] for r in con.execute(
            'SELECT d.DatasetName, d.MultiId, f.TopicName, f.ValueJson FROM ULogDataset d JOIN ULogField f ON f.DatasetId = d.Id '
            'WHERE d.ULogId = ?', (u.primary_key,))}
        con.close()
        plain = ULog(stream(encode(part)))
        want = {}
        for d in plain.data_list:
            times = d.data['timestamp'].tolist()
            for name, col in d.data.items():
                want[d.name, d.multi_id, name] = {str(t): (x if x == x and x not in (float('inf'), float('-inf')) else None)
                                                  for t, x in zip(times, col.tolist())} if append_json else None
        got = {k: v if v is None else json.loads(v) for k, v in got.items()}
        expect(want, got, 'JSON of the fields')


# ------------------------------------------------------------ kinds of input

def gen_sources(_tier):
    for size in (0, 1, 4095, 4096, 4097, 8192, 20000):
        for how in ('path', 'file', 'closed', 'bytesio', 'seeked', 'raw'):
            yield size, how


def run_sources(case, ctx):
    size, how = case
    msgs = [FA, ('A', 0, 1, 'a'), da(1, 5), ('L', 48, 1, 'x' * 5)]
    base = len(encode(msgs))
    while base + 12 <= size:
        n = min(size - base - 12, 9000)
        msgs.append(('L', 48, 2, 'y' * n))
        base += 12 + n
    data = encode(msgs)
    path = os.path.join(ctx.tmp, 'source.ulg')
    with open(path, 'wb') as f:
        f.write(data)
    if how == 'path':
        source = path
    elif how in ('file', 'closed'):
        source = open(path, 'rb')
    elif how == 'raw':
        source = open(path, 'rb', buffering=0)
    else:
        source = stream(data)
    sha = hashlib.sha256(data).hexdigest()
    if how == 'closed':
        source.close()
        expect(sha, DatabaseULog.calc_sha256sum(source), 'sum of a closed file')
        return
    if how == 'seeked':
        for pos in (0, 7, len(data) // 2, len(data)):
            source.seek(pos)
            expect(sha, DatabaseULog.calc_sha256sum(source), f'sum of a file at position {pos}')
            expect(pos, source.tell(), 'position after computing the sum')
        source.seek(0)
    expect(sha, DatabaseULog.calc_sha256sum(source), 'sum of the file')
    handle, u, _ = check(msgs, ctx, source=source, data=data)
    expect(u.primary_key, DatabaseULog.primary_key_from_sha256sum(handle, sha), 'key for the sum')
    if how == 'file':
        expect(sha, DatabaseULog.calc_sha256sum(source), 'sum of the file after loading')
    expect(None, DatabaseULog.calc_sha256sum(None), 'sum of nothing')


# ------------------------------------------------------------ the same message again and again

def run_repeats(case, ctx):
    check(repeats(case), ctx, append_json=case[2] == 1)


def families():
    return [
        Family('sequences', gen_seqs, run_seqs, f'{len(OPS)} messages, all sequences'),
        Family('values', gen_values, run_values, 'boundary values of every type in every message, counts, flags'),
        Family('formats', gen_formats, run_formats, 'sequences of formats, with and without fields, of several logs'),
        Family('topics', gen_topics, run_topics, 'sets of topic instances'),
        Family('appended', gen_appended, run_appended, 'logs with appended data'),
        Family('json', gen_json, run_json, 'data stored as JSON'),
        Family('sources', gen_sources, run_sources, 'kinds of input and sizes'),
        Family('repeats', gen_repeats, run_repeats, 'one message many times'),
    ]
