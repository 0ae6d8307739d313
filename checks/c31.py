"""
C31: migrations of one database that run at the same time have the effect of one migration.

Two or three threads migrate the same database, or load from it meanwhile, on the real code and the real
SQLite.  All interleavings up to a preemption bound are executed; the scheduling points are SQLite's lock
transitions and every look at the database file.  Afterwards the database has to be exactly that of a single
migration, with all its content, and every call has to have returned or reported that it was refused.
"""
import os
import sqlite3
from pyulog.db import DatabaseULog
from pyulog.migrate_db import migrate_db
from vlib import crash, sched, sqlvfs
from vlib.engine import Family, Violation, expect
from checks.c16 import CURRENT, check_logs, quiet
from checks.c17 import CONTENT, check_state, prepare, reference

ID, LEVEL = 'C31', 'model_checking'
RULE = 'every schedule of the scenarios up to the preemption bound; outcomes are (scenario, results of the threads)'
ASSUMPTIONS = ['SQLite isolates transactions; threads with their own connections stand for processes',
               'no thread waits longer for a lock than its time out, unless all threads wait',
               'who finds a file that another one is creating may refuse it']

STARTS = [(v, c) for v in range(0, CURRENT + 1) for c in ('empty', 'one', 'three') if v or c == 'empty']
THREADS = {'two': ('migrate', 'migrate'), 'load': ('migrate', 'load'), 'again': ('migrate migrate', 'migrate'),
           'forced': ('force', 'migrate'), 'noop': ('migrate', 'noop'), 'three': ('migrate', 'migrate', 'migrate'),
           'three, load': ('migrate', 'migrate', 'load')}


class Thread:
    """ executes the operations of one thread """

    def __init__(self, path, program):
        self.path, self.program, self.results = path, program.split(), []

    def run(self):
        for op in self.program:
            self.results.append(self.one(op))

    def one(self, op):
        try:
            if op == 'load':
                u = DatabaseULog(DatabaseULog.get_db_handle(self.path), primary_key=1, lazy=False)
                return 'log' if u.data_list is not None else 'nothing'
            migrate_db(self.path, noop=op == 'noop', force=op == 'force')
            return 'done'
        except FileExistsError:
            return 'refused'
        except sqlite3.OperationalError as e:
            return 'locked' if 'locked' in str(e) else f'failed: {e}'
        except (ValueError, KeyError) as e:     # a database that needs to be migrated, or does not have the log
            return 'not now' if op == 'load' else f'failed: {e!r}'
        except Exception as e:  # pylint: disable=broad-except
            return f'failed: {e!r}'


_images = {}


def start(ctx, scen):
    """ a database file of the version and with the content """
    path = os.path.join(ctx.tmp, 'together.sqlite3')
    for suffix in ('', '-journal', '-wal', '-shm'):
        if os.path.exists(path + suffix):
            os.unlink(path + suffix)
    if not scen[0]:
        return path
    if (ctx.tmp, scen) not in _images:
        with open(prepare(ctx, scen, 'together.sqlite3'), 'rb') as f:
            _images[ctx.tmp, scen] = f.read()
    with open(path, 'wb') as f:
        f.write(_images[ctx.tmp, scen])
    return path


def execute(ctx, scen, name, choices):
    path = start(ctx, scen)
    threads = [Thread(path, p) for p in THREADS[name]]
    r = sched.Run([t.run for t in threads], choices)
    failed = {}     # thread -> the lock it tries again and again

    def hook(kind, _name, *args):
        me = r.me()
        if kind == 'lock':
            r.point()
        elif kind == 'locked':
            level, rc = args
            if rc == sqlvfs.BUSY:
                failed[me] = max(level, failed.get(me, 0))
            elif level >= failed.get(me, 0):
                failed.pop(me, None)
        elif kind == 'unlock':
            if args[0] == 0:
                r.point()
            if me not in failed:    # what was locked only while trying does not matter
                r.release()
        elif kind == 'sleep':
            r.wait()
            return 1
        return sqlvfs.OK

    real = os.stat

    def stat(p, *args, **kw):
        try:
            return real(p, *args, **kw)
        finally:
            if str(p) == path:
                r.point()
    os.stat = stat
    try:
        with crash.hooked(hook):
            quiet(r.run)
    finally:
        os.stat = real
    return r, path, tuple(tuple(t.results) for t in threads)


def check(ctx, scen, name, choices):
    r, path, results = execute(ctx, scen, name, choices)
    ctx.executions += 1
    ctx.transitions += len(r.points)
    what = f'version {scen[0]}, {scen[1]}, {THREADS[name]}, schedule {r.made}'
    ctx.outcome((scen, name, results))
    version = check_state(path, reference(ctx, scen), f'{what}: results {results}')
    migrated = any(one == 'done' for program, result in zip(THREADS[name], results) for op, one in zip(program.split(), result)
                   if op in ('migrate', 'force'))
    if migrated or scen[0]:
        expect(CURRENT, version, f'{what}: results {results}, version')
    ok = {'migrate': ('done', 'locked'), 'noop': ('done', 'locked'), 'force': ('done', 'locked'),
          'load': ('log', 'not now', 'locked')}
    if not scen[0]:
        ok = {k: v + ('refused',) for k, v in ok.items()}
    for program, result in zip(THREADS[name], results):
        for op, one in zip(program.split(), result):
            if one not in ok[op]:
                raise Violation(f'{what}: {op}: {one}')
    if not migrated and (scen[0] or not any('refused' in result for result in results)):
        raise Violation(f'{what}: nobody migrated: {results}')
    key = (scen, name, results)
    if scen[0] and key not in _seen:
        _seen.add(key)
        check_logs(path, CONTENT[scen[1]], scen[0], what)
    return r


_seen = set()


def bound_of(tier, scen, name):
    """ the preemption bound; None: not explored """
    three = len(THREADS[name]) == 3
    if tier != 'quick':
        if three:
            return 2 if scen in ((0, 'empty'), (1, 'one'), (CURRENT - 1, 'one')) else 1
        return 3 if scen[1] == 'one' and scen[0] >= CURRENT - 1 else 2
    if scen[1] == 'three' or scen[0] == CURRENT:
        return 1 if name == 'two' else None
    if scen[1] == 'empty' and scen[0]:
        return None
    return 2 if name in ('two', 'load') and scen[0] in (0, 1, 3) else 1


def gen(tier):
    parts = 4 if tier == 'quick' else 128
    for part in range(parts):
        for scen in STARTS:
            for name, t in THREADS.items():
                bound = bound_of(tier, scen, name)
                if bound is not None:
                    for first in range(len(t)):
                        yield scen, name, bound, first, part, parts


def run_case(case, ctx):
    scen, name, bound, first, part, parts = case
    if part == 0 and first == 0:   # the same schedule has the same result
        a, b = (execute(ctx, scen, name, ()) for _ in range(2))
        if a[2] != b[2] or a[0].points != b[0].points:
            raise RuntimeError('the harness is not deterministic')
    ctx.count('schedules', sched.explore(lambda c: check(ctx, scen, name, c), bound, lambda i: i % parts == part, (first,)))


def families():
    return [Family('schedules', gen, run_case, 'versions, contents and operations of two and three threads')]
