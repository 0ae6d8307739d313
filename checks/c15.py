"""
C15: concurrent users of a database see every log whole or not at all.

Two or three threads with a program of operations each, on the real code and the real SQLite.  All
interleavings up to a preemption bound are executed; the scheduling points are SQLite's lock transitions
(between them, what a connection does cannot be observed by others).  Waiting for a lock blocks the
thread.  The results and the final database have to be those of some sequential order of the operations.
"""
import hashlib
import itertools
import sqlite3
from pyulog.db import DatabaseULog
from vlib import crash, dbtools, sched, sqlvfs
from vlib.alpha import FA, FB, FC, FN, da, db, dc, stream
from vlib.engine import Family, Violation
from vlib.model import diff, observe, observe_data, run
from vlib.ulg import encode

ID, LEVEL = 'C15', 'model_checking'
RULE = ('every schedule of the scenarios up to the preemption bound; outcomes are distinct results of all threads with the final '
        'database')
ASSUMPTIONS = ['SQLite isolates transactions; threads with their own connections stand for processes',
               'no thread waits longer for a lock than its time out, unless all threads wait']

HEAD = [('B', (1,) + (0,) * 7, (0,) * 8, (0, 0, 0)), FN, FA, FB, FC, ('I', 'char[2]', 'sys', 'ab'), ('M', 'char[1]', 'm', 'a', 0),
        ('M', 'char[1]', 'm', 'b', 1), ('P', 'int32_t', 'P1', 5), ('Q', 1, 'int32_t', 'P1', 6), ('A', 0, 0, 'a'), ('A', 1, 1, 'a'),
        ('A', 0, 2, 'b'), ('A', 0, 3, 'c')]
LOGS = [HEAD + [da(0, 10, 1.0), da(1, 11, 2.0), dc(3, 13), ('L', 54, 9, 'hello'), ('C', 52, 3, 15, 'tagged'), ('O', 12),
                ('P', 'int32_t', 'P1', 9)],
        HEAD + [da(0, 10, 7.0), da(1, 15, 2.0), db(2, 1, 13), ('L', 54, 9, 'hello'), ('C', 52, 3, 15, 'tagged'), ('O', 12), ('O', 2)]]
BYTES = [encode(m) for m in LOGS]
SUMS = [hashlib.sha256(b).hexdigest() for b in BYTES]
REFS = [run(m).result() for m in LOGS]
ROWS = [{(d[0], d[1]): d for d in r['data']} for r in REFS]

# scenarios: logs in the database at the start (their keys are 1, 2, ...), and the program of every thread
SCENARIOS = {
    'save same': ((), [[('save', 0)], [('save', 0)]]),
    'save same, others there': ((1,), [[('save', 0)], [('save', 0)]]),
    'save different': ((), [[('save', 0)], [('save', 1)]]),
    'save, load by sum': ((), [[('save', 0)], [('find', 0)]]),
    'save other, load': ((0,), [[('save', 1)], [('load', 0)]]),
    'delete, load': ((0,), [[('delete', 0)], [('load', 0)]]),
    'delete, load lazily': ((0,), [[('delete', 0)], [('lazy', 0)]]),
    'delete, get': ((0, 1), [[('delete', 0)], [('get', 0), ('get', 0)]]),
    'delete twice': ((0, 1), [[('delete', 0)], [('delete', 0)]]),
    'delete, save': ((0,), [[('delete', 0)], [('save', 0)]]),
    'delete, save other': ((0,), [[('delete', 0)], [('save', 1)]]),
    'replace, load': ((0,), [[('delete', 0), ('save', 1)], [('load', 0)]]),
    'replace, find': ((0,), [[('delete', 0), ('save', 0)], [('find', 0)]]),
    'save and delete, find': ((), [[('save', 0), ('deletemine', 0)], [('find', 0)]]),
    'save json, find': ((), [[('json', 0)], [('find', 0), ('exists', 0)]]),
}
THREE = {
    'three savers': ((), [[('save', 0)], [('save', 0)], [('save', 0)]]),
    'save, delete, load': ((0,), [[('save', 1)], [('delete', 0)], [('load', 0)]]),
    'delete, save, find': ((0,), [[('delete', 0)], [('save', 0)], [('find', 0)]]),
}


def model_step(state, op, start, objs):
    """ (result, new state); the state is the sequence of logs that are in the database """
    kind, n = op
    key = ('start', n)
    if kind in ('save', 'json'):
        if n in [x for x, _ in state]:
            return 'exists', state
        return 'saved', state + ((n, 'new'),)
    if kind == 'delete':
        gone = (n, 'old')
        return 'deleted', tuple(x for x in state if x != gone)
    if kind == 'deletemine':
        return 'deleted', tuple(x for x in state if x != (n, 'new'))
    have_old = (n, 'old') in state
    if kind in ('load', 'lazy', 'get'):
        return (f'log {n}' if have_old else 'missing'), state
    have = n in [x for x, _ in state]
    if kind == 'find':
        return (f'log {n}' if have else 'missing'), state
    if kind == 'exists':
        return ('yes' if have else 'no'), state
    raise ValueError((kind, key, start, objs))


def interleavings(programs):
    """ all orders of the operations that respect the programs """
    order = [i for i, p in enumerate(programs) for _ in p]
    for perm in sorted(set(itertools.permutations(order))):
        yield perm


def outcomes(initial, programs):
    out = set()
    for perm in interleavings(programs):
        state = tuple((n, 'old') for n in initial)
        pos, results = [0] * len(programs), [[] for _ in programs]
        for t in perm:
            r, state = model_step(state, programs[t][pos[t]], initial, None)
            results[t].append(r)
            pos[t] += 1
        out.add((tuple(map(tuple, results)), tuple(sorted(n for n, _ in state))))
    return out


def content(u, n):
    d = diff(REFS[n], observe(u))
    return f'log {n}' if d is None else f'broken log: {d}'


class Thread:
    """ executes the program of one thread """

    def __init__(self, handle, program, initial):
        self.handle, self.program, self.initial = handle, program, initial
        self.results = []
        self.objs, self.readers = {}, {}
        for kind, n in program:     # files are read before the threads start
            if kind in ('save', 'json'):
                self.objs[n] = DatabaseULog(handle, log_file=stream(BYTES[n]))
            elif kind == 'delete':
                self.objs['del', n] = DatabaseULog(handle, primary_key=initial.index(n) + 1)
            elif kind == 'get':
                self.readers[n] = DatabaseULog(handle, primary_key=initial.index(n) + 1)

    def run(self):
        for op in self.program:
            self.results.append(self.one(*op))

    def one(self, kind, n):
        h = self.handle
        try:
            if kind in ('save', 'json'):
                try:
                    self.objs[n].save(append_json=kind == 'json')
                    return 'saved'
                except (KeyError, sqlite3.IntegrityError):
                    return 'exists'
            if kind == 'delete':
                self.objs['del', n].delete()
                return 'deleted'
            if kind == 'deletemine':
                self.objs[n].delete()
                return 'deleted'
            if kind == 'get':
                out = []
                for k, want in ROWS[n].items():
                    got = observe_data(self.readers[n].get_dataset(*k, caching=False))
                    out.append('ok' if got == want else f'broken dataset: {got!r:.300}')
                    break
                return f'log {n}' if out == ['ok'] else out[0]
            if kind == 'exists':
                return 'yes' if DatabaseULog.primary_key_from_sha256sum(h, SUMS[n]) is not None else 'no'
            pk = self.initial.index(n) + 1 if kind != 'find' else DatabaseULog.primary_key_from_sha256sum(h, SUMS[n])
            if pk is None:
                return 'missing'
            u = DatabaseULog(h, primary_key=pk, lazy=kind == 'lazy')
            if kind == 'lazy':
                d = diff(REFS[n], observe(u), ('data',))
                names = sorted((x.name, x.multi_id) for x in u.data_list)
                return f'log {n}' if d is None and names == sorted(ROWS[n]) else f'broken log: {d} {names}'
            return content(u, n)
        except KeyError:
            return 'missing'
        except sqlite3.Error as e:
            return f'{type(e).__name__}: {e}'


_prepared = {}


def prepare(ctx, initial):
    if (ctx.tmp, initial) not in _prepared:
        path = dbtools.fresh_path(ctx, f'init{"".join(map(str, initial))}.sqlite3')
        handle = DatabaseULog.get_db_handle(path)
        for n in initial:
            DatabaseULog(handle, log_file=stream(BYTES[n])).save()
        with open(path, 'rb') as f:
            _prepared[ctx.tmp, initial] = f.read()
    return _prepared[ctx.tmp, initial]


_single = {}


def counts_of(ctx, n):
    if n not in _single:
        path = dbtools.fresh_path(ctx, 'single.sqlite3')
        DatabaseULog(DatabaseULog.get_db_handle(path), log_file=stream(BYTES[n])).save()
        _single[n] = dbtools.counts(path)
    return _single[n]


def execute(ctx, name, choices):
    initial, programs = (SCENARIOS.get(name) or THREE[name])
    data = prepare(ctx, initial)
    path = dbtools.fresh_path(ctx, 'conc.sqlite3')
    with open(path, 'wb') as f:
        f.write(data)
    handle = DatabaseULog.get_db_handle(path)
    threads = [Thread(handle, p, initial) for p in programs]
    r = sched.Run([t.run for t in threads], choices)

    failed = {}     # thread -> the lock it tries again and again

    def hook(kind, _name, *args):
        me = r.me()
        if kind == 'lock':
            r.point()
        elif kind == 'locked':
            level, rc = args
            if rc == sqlvfs.BUSY:
                failed[me] = max(level, failed.get(me, 0))
            elif level >= failed.get(me, 0):
                failed.pop(me, None)
        elif kind == 'unlock':
            if args[0] == 0:
                r.point()
            if me not in failed:    # what was locked only while trying does not matter
                r.release()
        elif kind == 'sleep':
            r.wait()
            return 1
        return sqlvfs.OK
    with crash.hooked(hook):
        r.run()
    results = tuple(tuple(t.results) for t in threads)
    return r, path, handle, results


def check(ctx, name, choices):
    initial, programs = (SCENARIOS.get(name) or THREE[name])
    r, path, handle, results = execute(ctx, name, choices)
    ctx.executions += 1
    ctx.transitions += len(r.points)
    what = f'{name}, schedule {r.made}'
    finals = []
    with_sum = 0
    for n, s in enumerate(SUMS):
        pk = DatabaseULog.primary_key_from_sha256sum(handle, s)
        if pk is not None:
            with_sum += 1
            c = content(DatabaseULog(handle, primary_key=pk, lazy=False), n)
            if c != f'log {n}':
                raise Violation(f'{what}: afterwards, {c}')
            finals.append(n)
    want = {}
    for n in finals:
        for t, c in counts_of(ctx, n).items():
            want[t] = want.get(t, 0) + c
    got = dbtools.counts(path)
    if {t: want.get(t, 0) for t in got} != got:
        raise Violation(f'{what}: rows in the tables: expected {want}, got {got}')
    observed = (results, tuple(sorted(finals)))
    ctx.outcome((name, observed))
    ctx.state((name, observed))
    allowed = outcomes(initial, programs)
    if observed not in allowed:
        raise Violation(f'{what}: the threads got {results} and the database contains {finals}; no order of the operations '
                        f'leads to this, possible are {sorted(allowed)}')
    return r


PARTS = 16


def gen(tier):
    for part in range(PARTS):
        for name in SCENARIOS:
            for start in (0, 1):
                yield name, 3 if tier == 'quick' else 4, start, part
        for name in THREE:
            for start in (0, 1, 2):
                yield name, 1 if tier == 'quick' else 2, start, part


def run_case(case, ctx):
    name, bound, start, part = case
    if part == 0 and start == 0:   # the same schedule has the same result
        a, b = (execute(ctx, name, ()) for _ in range(2))
        if a[3] != b[3] or a[0].points != b[0].points:
            raise RuntimeError('the harness is not deterministic')
    ctx.count('schedules', sched.explore(lambda c: check(ctx, name, c), bound, lambda i: i % PARTS == part, (start,)))


def families():
    return [Family('schedules', gen, run_case, 'scenarios of two and three threads')]
