"""
C17: a migration that is interrupted leaves a database that the next migration completes.

Every file operation of a migration from every schema version is made to fail, and every crash image
(process killed after each file operation; power lost with each pattern of unsynced writes missing) is
recovered.  The database has to be exactly that of one of the schema versions, with all its content, and
migrating again has to give the same as a migration without interruption.
"""
import contextlib
import os
import sqlite3
from pyulog.migrate_db import migrate_db
from vlib import crash, dbtools
from vlib.engine import Family, Violation, expect
from checks.c16 import CURRENT, check_logs, quiet, source, sql_dir

ID, LEVEL = 'C17', 'fault_enumeration'
RULE = 'every fault and crash point of migrations; outcomes are (start, place, version found)'
ASSUMPTIONS = ['SQLite is correct and syncs are honest', 'one process migrates at a time']

CONTENT = {'empty': (), 'one': (0,), 'three': (0, None, 3, 1)}
SCEN = [(v, c) for v in range(0, CURRENT) for c in CONTENT if v or c == 'empty']
PARTS = 8


def prepare(ctx, scen, name='mig.sqlite3'):
    version, content = scen
    path = os.path.join(ctx.tmp, name)
    if version:
        dbtools.old_database(path, version, source(ctx, CONTENT[content]))
    else:
        for suffix in ('', '-journal', '-wal', '-shm'):
            with contextlib.suppress(FileNotFoundError):
                os.unlink(path + suffix)
    return path


_refs = {}


def reference(ctx, scen):
    """ {version: (schema, content)} of every version that the migration passes through """
    if scen not in _refs:
        out = {}
        for v in range(scen[0], CURRENT + 1):
            path = prepare(ctx, scen, 'ref.sqlite3')
            if v == CURRENT:
                quiet(migrate_db, path)
            elif v > scen[0]:
                try:
                    quiet(migrate_db, path, sql_dir=sql_dir(ctx, v))
                except FileNotFoundError as e:
                    e.__traceback__ = None
            out[v] = dbtools.schema(path), dbtools.dump(path)
            if not v:
                os.unlink(path)
        _refs[scen] = out
    return _refs[scen]


def check_state(path, refs, what):
    """ the version that the database has """
    try:
        con = sqlite3.connect(path)
        ok = con.execute('PRAGMA integrity_check').fetchall()
        con.close()
        got = dbtools.schema(path), dbtools.dump(path)
    except sqlite3.Error as e:
        raise Violation(f'{what}: the database cannot be read: {e!r}') from e
    expect([('ok',)], ok, f'{what}: integrity')
    version = got[0]['version']
    if version not in refs:
        raise Violation(f'{what}: the database has version {version}')
    for t in set(got[0]) | set(refs[version][0]):
        expect(refs[version][0].get(t), got[0].get(t), f'{what}: version is {version}, schema of {t}')
    expect(refs[version][1], got[1], f'{what}: version is {version}, content')
    return version


def complete(path, refs, version, what):
    try:
        quiet(migrate_db, path, force=version == 0)
    except Exception as e:
        raise Violation(f'{what}: version is {version}, migrating again raised {e!r}') from e
    expect(CURRENT, check_state(path, refs, f'{what}, migrated again from version {version}'), 'version')


def gen_crashes(_tier):
    for scen in SCEN:
        for part in range(PARTS):
            yield scen, part


def run_crashes(case, ctx):
    scen, part = case
    refs = reference(ctx, scen)
    path = prepare(ctx, scen)
    before = {}
    if scen[0]:
        with open(path, 'rb') as f:
            before[path] = f.read()
    _, ops = crash.record(lambda: quiet(migrate_db, path))
    ctx.executions += 1
    n = len(ops)
    target = os.path.join(ctx.tmp, 'crashed.sqlite3')
    for j, (i, kind, image) in enumerate(crash.images(before, ops)):
        if j % PARTS != part:
            continue
        if not scen[0] and path not in image:
            continue    # as if it was never started
        crash.put(image, path, target)
        ctx.transitions += 1
        ctx.count('crash_images')
        what = f'{scen}, {kind} after file operation {i} of {n}'
        version = check_state(target, refs, what)
        if kind == 'killed' and i == n - 1:
            expect(CURRENT, version, f'{what}: version after completion')
        ctx.outcome((scen, kind, i, version))
        crash.put(image, path, target)      # as if nobody had opened it since
        complete(target, refs, version, what)
        if kind == 'killed' and j % 40 == part:
            check_logs(target, CONTENT[scen[1]], scen[0] or CURRENT, what)


KINDS = (('write', 'truncate', 'sync', 'delete'), ('read',), ('lock',), ('open',))


def gen_faults(_tier):
    for scen in SCEN:
        for kinds in KINDS:
            for persistent in (False, True):
                for part in range(2):
                    yield scen, kinds, persistent, part


_counts = {}


def run_faults(case, ctx):
    scen, kinds, persistent, part = case
    refs = reference(ctx, scen)
    if (scen, kinds) not in _counts:
        path = prepare(ctx, scen)
        _, ops = crash.record(lambda: quiet(migrate_db, path), kinds)
        _counts[scen, kinds] = len(ops)
    for k in range(part, _counts[scen, kinds], 2):
        path = prepare(ctx, scen)
        ctx.executions += 1
        error = crash.sqlvfs.FULL if persistent and 'write' in kinds else None
        _, e, hit = crash.faulty(lambda: quiet(migrate_db, path), kinds, k, persistent, error)
        if not hit:
            continue
        ctx.transitions += 1
        what = f'{scen}, {"all from " if persistent else ""}operation {k} of {kinds} fails, {e!r}'
        if not os.path.exists(path):
            expect(0, scen[0], f'{what}: the database is gone')
            continue
        image = crash.take(path)
        version = check_state(path, refs, what)
        if e is None:
            expect(CURRENT, version, f'{what}: version')
        crash.put(image, path, path)
        ctx.outcome((scen, kinds, persistent, k, version))
        complete(path, refs, version, what)


def families():
    return [
        Family('faults', gen_faults, run_faults, 'every file operation and lock fails'),
        Family('crashes', gen_crashes, run_crashes, 'every crash image'),
    ]
