"""
C13: the database holds exactly the logs that were saved and not deleted.

All histories of save, delete and look-up operations over several logs and handles, each executed on the
real code with a fresh database; after every operation the whole database (all tables) and all look-ups
are compared with a model that is a map from primary key to log.
"""
import hashlib
import sqlite3
from pyulog.db import DatabaseULog
from vlib import dbtools
from vlib.alpha import FA, FB, FC, FN, da, db, dc, seqs, stream
from vlib.engine import Family, Violation, expect
from vlib.model import diff, observe, run
from vlib.ulg import encode

ID, LEVEL = 'C13', 'model_checking'
RULE = 'every history of operations up to the depth; outcomes are distinct database contents'
ASSUMPTIONS = ['an object that loaded its data lazily is not saved again after it was deleted']

HEAD = [('B', (1,) + (0,) * 7, (0,) * 8, (0, 0, 0)), FN, FA, FB, FC, ('I', 'char[2]', 'sys', 'ab'), ('I', 'float', 'f', 0.5),
        ('M', 'char[1]', 'm', 'a', 0), ('M', 'char[1]', 'm', 'b', 1), ('M', 'char[1]', 'm', 'c', 0), ('P', 'int32_t', 'P1', 5),
        ('Q', 1, 'int32_t', 'P1', 6), ('A', 0, 0, 'a'), ('A', 1, 1, 'a'), ('A', 0, 2, 'b'), ('A', 0, 3, 'c')]
LOGS = [
    HEAD + [da(0, 10, 1.0), da(1, 11, 2.0), dc(3, 13), ('L', 54, 9, 'hello'), ('C', 52, 3, 15, 'tagged'), ('O', 12),
            ('P', 'int32_t', 'P1', 9)],
    HEAD + [da(0, 10, 1.5), db(2, -1, 12), ('L', 54, 9, 'hello'), ('C', 52, 3, 15, 'tagged'), ('C', 52, 4, 15, 'x'), ('O', 12), ('O', 1)]
    # what can be there twice
    + [('L', 54, 9, 'hello'), ('L', 54, 8, ''), ('C', 52, 3, 15, 'tagged'), ('O', 12), ('P', 'float', 'P2', float('nan'))]
    + [('P', 'float', 'P2', 1.0), ('P', 'int32_t', 'P2', 1)] * 2 + [('M', 'char[1]', 'm', 'c', 1), ('M', 'char[1]', 'm', 'a', 0)] * 2
    + [('Q', 2, 'int32_t', 'P1', 6), ('I', 'char[2]', 'sys2', 'ab'), da(0, 10, 1.5)],
    [('P', 'int32_t', 'P1', 5)],
]
BYTES = [encode(m) for m in LOGS]
SUMS = [hashlib.sha256(b).hexdigest() for b in BYTES]
REFS = [run(m).result() for m in LOGS]
# an appended log, so that every table has rows
_pre = [('B', (0,) * 8, (1,) + (0,) * 7, (1, 0, 0)), FA, ('A', 0, 0, 'a'), da(0, 1)]
_pre[0] = ('B', (0,) * 8, (1,) + (0,) * 7, (len(encode(_pre)), 0, 0))
LOGS.append(_pre + [da(0, 4)])
BYTES.append(encode(LOGS[3]))
SUMS.append(hashlib.sha256(BYTES[3]).hexdigest())
REFS.append(run(LOGS[3]).result())


class World:
    """ the objects a history refers to: one per slot """

    def __init__(self, ctx, slots):
        self.path = dbtools.fresh_path(ctx)
        self.handle = DatabaseULog.get_db_handle(self.path)
        self.other = DatabaseULog.get_db_handle(self.path)
        self.log = slots            # log number of every slot
        self.obj = [None] * len(slots)
        self.rows = {}              # model: primary key -> log number
        self.pks = []               # every primary key there ever was



_baseline = {}


def baseline(ctx, log):
    """ the number of rows in every table of a database with this log only """
    if log not in _baseline:
        path = dbtools.fresh_path(ctx, 'base.sqlite3')
        u = DatabaseULog(DatabaseULog.get_db_handle(path), log_file=stream(BYTES[log]))
        u.save()
        _baseline[log] = dbtools.counts(path)
    return _baseline[log]


def step(w, op, what):
    """ one operation on the implementation and on the model """
    kind, slot = op
    if kind in ('save', 'savejson'):
        n = w.log[slot]
        u = w.obj[slot]
        if u is None:
            u = w.obj[slot] = DatabaseULog(w.handle, log_file=stream(BYTES[n]))
        had = u.primary_key
        dup = [k for k, v in w.rows.items() if v == n]
        before = dbtools.dump(w.path)
        try:
            u.save(append_json=True) if kind == 'savejson' else u.save()
            if had is not None or dup:
                raise Violation(f'{what}: saved, although it is in the database')
            pk = u.primary_key
            if not isinstance(pk, int) or pk in w.pks:
                raise Violation(f'{what}: primary key {pk!r}, keys used before: {w.pks}')
            w.rows[pk] = n
            w.pks.append(pk)
        except KeyError as e:
            if had is None and not dup:
                raise Violation(f'{what}: {e!r}') from e
            if before != dbtools.dump(w.path):
                raise Violation(f'{what}: the rejected save changed the database') from e
            expect(had if had is not None else dup[0], u.primary_key, f'{what}: key after the rejected save')
    elif kind == 'delete':
        u = w.obj[slot]
        if u is None:
            return False
        pk = u.primary_key
        before = dbtools.dump(w.path)
        try:
            u.delete()
            if pk is None:
                raise Violation(f'{what}: deleted without being in the database')
            expect(None, u.primary_key, f'{what}: key after delete')
            w.rows.pop(pk, None)
        except KeyError as e:
            if pk is not None and pk in w.rows:
                raise Violation(f'{what}: {e!r}') from e
            if before != dbtools.dump(w.path):
                raise Violation(f'{what}: the rejected delete changed the database') from e
    elif kind == 'open':    # the log is opened from the database, by its sum
        pk = DatabaseULog.primary_key_from_sha256sum(w.other, SUMS[w.log[slot]])
        want = [k for k, v in w.rows.items() if v == w.log[slot]]
        expect(want[0] if want else None, pk, f'{what}: key')
        if pk is None:
            return False
        w.obj[slot] = DatabaseULog(w.other, primary_key=pk, lazy=False)
    elif kind == 'new':     # another object for the same file
        w.obj[slot] = DatabaseULog(w.handle, log_file=stream(BYTES[w.log[slot]]))
    return True


def lookups(w, what, keys, logs):
    """ the look-ups by key and by sum agree with the model """
    for n in logs:
        want = [k for k, v in w.rows.items() if v == n]
        expect(want[0] if want else None, DatabaseULog.primary_key_from_sha256sum(w.handle, SUMS[n]), f'{what}: key of log {n}')
    for pk in keys:
        expect(pk in w.rows, DatabaseULog.exists_in_db(w.handle, pk), f'{what}: key {pk} exists')


def invariant(w, ctx, what):
    """ look-ups, loads and all the rows agree with the model """
    lookups(w, what, (), range(len(SUMS)))
    for pk in set(w.pks) | {1, 2, 77}:
        lookups(w, what, (pk,), ())
        if pk in w.rows:
            v = DatabaseULog(w.handle, primary_key=pk, lazy=False)
            expect(SUMS[w.rows[pk]], v.sha256sum, f'{what}: sum of {pk}')
            d = diff(REFS[w.rows[pk]], observe(v))
            if d:
                raise Violation(f'{what}: log {pk}: {d}')
        else:
            try:
                DatabaseULog(w.handle, primary_key=pk)
            except KeyError:
                continue
            raise Violation(f'{what}: log {pk} can be loaded')
    want = {}
    for n in w.rows.values():
        for t, c in baseline(ctx, n).items():
            want[t] = want.get(t, 0) + c
    got = dbtools.counts(w.path)
    expect({t: want.get(t, 0) for t in got}, got, f'{what}: rows in the tables')


def gen(tier):
    two = [(k, s) for s in (0, 1) for k in ('save', 'delete', 'open', 'new')]
    for slots in ((0, 1), (0, 0), (3, 2)):
        yield from ((slots, s) for s in seqs(two, 4 if tier == 'quick' else 5, 1) if s[0][0] == 'save')
    three = [(k, s) for s in (0, 1, 2) for k in ('save', 'delete', 'open')]
    for slots in ((0, 1, 3), (0, 1, 0)):
        yield from ((slots, s) for s in seqs(three, 4 if tier == 'quick' else 5, 1) if s[0][0] == 'save')
    js = [(k, s) for s in (0, 1) for k in ('savejson', 'delete', 'save')]
    yield from (((0, 1), s) for s in seqs(js, 4) if s and s[0][0] == 'savejson')
    js = [(k, s) for s in (0, 1) for k in ('savejson', 'delete', 'save', 'open', 'new')]
    yield from (((0, 0), s) for s in seqs(js, 3 if tier == 'quick' else 4) if s and 'save' in s[0][0] and ('savejson', 0) in s)
    # two objects of one file: one of them has a key that is no longer there
    twins = [(k, s) for s in (0, 1) for k in ('save', 'delete')]
    yield from ((slots, s) for slots in ((0, 0), (2, 2)) for s in seqs(twins, 6 if tier == 'quick' else 7, 5) if s[0] == ('save', 0))


def run_history(case, ctx):
    slots, ops = case
    w = World(ctx, slots)
    ctx.executions += 1
    n = 0
    for i, op in enumerate(ops):
        what = f'logs {slots}, {ops[:i + 1]}'
        if not step(w, op, what) and i == len(ops) - 1:
            return
        if i < len(ops) - 1:    # the same handle sees later states
            lookups(w, what, (w.pks or [1])[-1:], (slots[op[1]],))
        n += 1
        ctx.transitions += 1
        ctx.state((sorted(w.rows.items()), [u and (u.primary_key, u.primary_key in w.rows) for u in w.obj], slots))
    # every shorter history is a case of its own
    invariant(w, ctx, f'logs {slots}, {ops}')
    ctx.outcome(repr(dbtools.counts(w.path)) + repr(sorted(w.rows.items())))
    con = sqlite3.connect(w.path)
    expect([], con.execute('PRAGMA foreign_key_check').fetchall(), 'references without a row')
    con.close()


def families():
    return [Family('histories', gen, run_history, 'save, delete, open and new on up to three objects')]
