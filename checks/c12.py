"""
C12: reading a log from the database on demand gives the same data in every order of accesses.

All histories of accesses (get_dataset with every combination of options, load, write_ulog) on one
database log are executed and compared with a model of the documented lazy loading and caching.
"""
import io
import itertools
import os
import shutil
from pyulog import ULog
from pyulog.db import DatabaseULog
from vlib import dbtools
from vlib.alpha import FA, FB, FC, FN, da, db, dc, seqs, stream
from vlib.engine import Family, Violation, expect
from vlib.model import diff, observe, observe_data, run
from vlib.ulg import encode

ID, LEVEL = 'C12', 'model_checking'
RULE = 'every history of accesses up to the depth; outcomes are distinct (history prefix, result) pairs'
ASSUMPTIONS = ['the log is not deleted while it is read']

MSGS = [FN, FA, FB, FC, ('P', 'int32_t', 'PAR', 5), ('I', 'char[2]', 'k', 'ab'), ('M', 'char[1]', 'm', 'a', 0),
        ('Q', 1, 'int32_t', 'PAR', 4), ('A', 0, 0, 'a'), ('A', 1, 1, 'a'), ('A', 3, 2, 'b'), da(0, 10, 1.5), da(0, 11, 2.5),
        da(1, 10, 9.0), db(2, -3, 12), ('L', 48, 9, 'x'), ('C', 48, 1, 9, 'y'), ('O', 5), ('P', 'int32_t', 'PAR', 6)]
REF = run(MSGS).result()
DATA = {(d[0], d[1]): d for d in REF['data']}
KEYS = sorted(DATA)

GETS = [('get', k, lazy, caching) for k in KEYS[:2] + [('a', 2)] for lazy in (False, True) for caching in (True, False)] + \
    [('get', ('b', 0), False, True), ('get', ('b', 0), True, False), ('get', ('c', 0), False, True)]
OPS = GETS + [('get', KEYS[2], False, True), ('default', KEYS[0]), ('default', KEYS[2]), ('load', False), ('load', True), ('write',)]


def meta(d):
    return d[0], d[1], d[2], d[4]


def check_list(u, loaded, what):
    """ the list of datasets, and which of them have data """
    expect(KEYS, sorted((d.name, d.multi_id) for d in u.data_list), f'{what}: datasets')
    for d in u.data_list:
        k = (d.name, d.multi_id)
        if k in loaded:
            if observe_data(d) != DATA[k]:
                raise Violation(f'{what}: cached data of {k} is {observe_data(d)!r:.400}')
        elif d.data:
            raise Violation(f'{what}: {k} has data without an access that loads it')


def step(u, op, state, what):
    """ one access; state is [lazy, set of datasets with data] """
    if op[0] in ('get', 'default'):
        k = op[1]
        lazy, caching = op[2:] if op[0] == 'get' else (False, True)
        try:
            if op[0] == 'default':
                d = u.get_dataset(k[0]) if k[1] == 0 else u.get_dataset(k[0], k[1])
            else:
                d = u.get_dataset(k[0], multi_instance=k[1], lazy=lazy, caching=caching)
        except (KeyError, IndexError, ValueError) as e:
            if k in DATA:
                raise Violation(f'{what}: {e!r}') from e
            return
        if k not in DATA:
            raise Violation(f'{what}: found a dataset that is not there')
        in_list = [x for x in u.data_list if x is d]
        if bool(in_list) != caching:
            raise Violation(f'{what}: the dataset {"is" if in_list else "is not"} the cached one')
        if not lazy and caching:
            state[1].add(k)
        got = observe_data(d)
        expect(meta(DATA[k])[:3], meta(got)[:3], f'{what}: name, instance and id')
        expect(DATA[k][4], d.timestamp_idx, f'{what}: index of the timestamp')
        if not lazy or (caching and k in state[1]):
            if got != DATA[k]:
                raise Violation(f'{what}: got {got!r:.500}')
        elif d.data:
            raise Violation(f'{what}: data was loaded although only metadata was asked for')
    elif op[0] == 'load':
        u.load(lazy=op[1])
        state[0] = op[1]
        state[1] = set() if op[1] else set(KEYS)
    else:
        out = io.BytesIO()
        try:
            u.write_ulog(out)
            if state[0]:
                raise Violation(f'{what}: a lazily loaded log was written')
            d = diff(REF, observe(ULog(stream(out.getvalue()))))
            if d:
                raise Violation(f'{what}: {d}')
        except ValueError:
            if not state[0]:
                raise
            expect(b'', out.getvalue(), f'{what}: bytes written by the rejected write')


# logs that are in the database, too: what has the same name has other content, and there are other names
OTHERS = [[FN, FA, FB, FC, ('P', 'int32_t', 'PAR', k), ('I', 'char[2]', 'k2', 'cd'), ('A', 0, 4, 'a'), ('A', 1, 5, 'a'), ('A', 2, 6, 'a'),
           ('A', 0, 7, 'b'), ('A', 0, 8, 'c'), da(4, 20 + k, -1.5), da(5, 21, 7.0), da(6, 22, 8.0), db(7, 5, 23), dc(8, 24),
           ('L', 49, 25, 'other')] for k in range(2)]
_ready = {}


def database(how, ctx):
    """ (handle, object that was saved or None, primary key): a database with the log between two others """
    if (ctx.tmp, 'all') not in _ready:
        names = {k: os.path.join(ctx.tmp, f'ready-{k}.sqlite3') for k in ('one', 'all')}
        path = dbtools.fresh_path(ctx)
        handle = DatabaseULog.get_db_handle(path)
        for n, msgs in enumerate((OTHERS[0], MSGS, OTHERS[1])):
            DatabaseULog(handle, log_file=stream(encode(msgs))).save()
            if n == 0:
                shutil.copyfile(path, names['one'])
        shutil.copyfile(path, names['all'])
        _ready.update({(ctx.tmp, k): v for k, v in names.items()})
    path = dbtools.fresh_path(ctx)
    shutil.copyfile(_ready[ctx.tmp, 'one' if how == 'saved' else 'all'], path)
    handle = DatabaseULog.get_db_handle(path)
    if how != 'saved':
        return handle, None, 2
    u = DatabaseULog(handle, log_file=stream(encode(MSGS)))
    u.save()
    DatabaseULog(handle, log_file=stream(encode(OTHERS[1]))).save()
    expect(2, u.primary_key, 'second primary key')
    return handle, u, 2


def start(how, ctx):
    handle, u, pk = database(how, ctx)
    if how == 'saved':
        return u, [False, set(KEYS)]
    lazy = how == 'lazy'
    v = DatabaseULog(handle, primary_key=pk) if lazy else DatabaseULog(handle, primary_key=pk, lazy=False)
    return v, [lazy, set() if lazy else set(KEYS)]


def gen(tier):
    for n in range(1, (3 if tier == 'quick' else 4) + 1):
        for how in ('lazy', 'eager', 'saved'):
            for s in seqs(OPS, n, n):
                yield how, s


def run_case(case, ctx):
    how, ops = case
    u, state = start(how, ctx)
    ctx.executions += 1
    held = []
    for i, op in enumerate(ops):
        what = f'{how} {ops[:i + 1]}'
        step(u, op, state, what)
        ctx.transitions += 1
        ctx.state((state[0], sorted(state[1])))
        check_list(u, state[1], what)
    got = observe(u)
    d = diff(REF, got, ('data',))
    if d:
        raise Violation(f'{how} {ops}: {d}')
    ctx.outcome((how, sorted(state[1]), repr(got['data'])))
    full = ULog(stream(encode(MSGS)))
    if state[1] == set(KEYS) and not (u == full and full == u):
        raise Violation(f'{how} {ops}: all data was loaded, but it is not equal to the log')


# ------------------------------------------------------------ similar names

SIMILAR = ['a', 'A', 'a_', 'ab', '_', '%', 'a%', '', "'", 'a b', 'é']


def gen_similar(tier):
    """ topics of the log x what is asked for """
    for n in (1, 2) if tier == 'quick' else (1, 2, 3):
        for names in itertools.permutations(SIMILAR[:9 if n > 1 else None], n):
            yield names


def run_similar(names, ctx):
    msgs = [FA] + [('F', n, FA[2]) for n in names]
    msgs += [('A', k % 2, k, n) for k, n in enumerate(names)] + [da(k, 10 + k, float(k)) for k in range(len(names))]
    ref = {(d[0], d[1]): d for d in run(msgs).result()['data']}
    path = dbtools.fresh_path(ctx)
    handle = DatabaseULog.get_db_handle(path)
    DatabaseULog(handle, log_file=stream(encode(msgs))).save()
    ctx.executions += 1
    ctx.state(names)
    for lazy in (False, True):
        for name in SIMILAR:
            for m in (0, 1, 10):
                u = DatabaseULog(handle, primary_key=1, lazy=lazy)
                ctx.transitions += 1
                try:
                    got = observe_data(u.get_dataset(name, m))
                except (KeyError, IndexError, ValueError):
                    got = None
                expect(ref.get((name, m)), got, f'log with {names}: dataset {name!r} {m}, lazy {lazy}')
                ctx.outcome((names, name, m, repr(got)))


# ------------------------------------------------------------ constructor

def gen_args(_tier):
    for pk in (None, 1, 0, 99, -1):
        for log in (False, True):
            yield pk, log


def run_args(case, ctx):
    pk, log = case
    handle = dbtools.fresh(ctx)
    u = DatabaseULog(handle, log_file=stream(encode(MSGS)))
    u.save()
    expect(1, u.primary_key, 'first primary key')
    ctx.executions += 1
    kw = {'log_file': stream(encode(MSGS))} if log else {}
    try:
        v = DatabaseULog(handle, primary_key=pk, **kw)
        got = 'ok'
    except ValueError:
        got = 'ValueError'
    except KeyError:
        got = 'KeyError'
    want = 'ValueError' if (pk is None) == (not log) else ('ok' if pk in (None, 1) else 'KeyError')
    ctx.outcome((pk, log, got))
    expect(want, got, f'primary_key={pk}, log_file {log}')
    for k in (pk, 1):
        expect(k == 1, DatabaseULog.exists_in_db(handle, k), f'exists {k}')
    if got == 'ok' and pk == 1:
        expect(u.sha256sum, v.sha256sum, 'sum')


def families():
    return [
        Family('histories', gen, run_case, f'{len(OPS)} accesses, all histories'),
        Family('similar', gen_similar, run_similar, f'topics x names that are asked for, {len(SIMILAR)} names'),
        Family('arguments', gen_args, run_args, 'constructor arguments'),
    ]
