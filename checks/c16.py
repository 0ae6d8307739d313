"""
C16: migrating a database brings it to the current schema and preserves every log.

Databases as the released schema versions 1 to 4 created them, with every combination of three logs, are
migrated by the implementation, in one go or in any sequence of steps; the result is compared with a
database that was created with the current version, and the logs with the reference model.
"""
import contextlib
import io
import itertools
import os
import shutil
import sqlite3
import sys
from pyulog import migrate_db as tool
from pyulog.db import DatabaseULog
from pyulog.migrate_db import migrate_db
from vlib import dbtools
from vlib.alpha import FA, stream
from vlib.engine import Family, Violation, expect
from vlib.model import diff, observe, run
from vlib.ulg import encode
from checks.c13 import BYTES, LOGS, REFS, SUMS

ID, LEVEL = 'C16', 'model_checking'
RULE = 'every start version, content and sequence of steps; outcomes are distinct (start, content, steps)'
ASSUMPTIONS = ['time stamps have at most 53 bits in databases of versions before 4']
CURRENT = 5
SQL = os.path.join(os.path.dirname(os.path.realpath(tool.__file__)), 'sql')


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        f(*a, **kw)
    return out.getvalue()


def sql_dir(ctx, upto):
    """ a directory with the migration files up to a version """
    d = os.path.join(ctx.tmp, f'sql{upto}')
    if not os.path.isdir(d):
        os.mkdir(d)
        for v in range(1, upto + 1):
            shutil.copy(os.path.join(SQL, f'pyulog.{v}.sql'), d)
    return d


def source(ctx, logs):
    """ a current database with these logs; a None is a log that was deleted again """
    path = dbtools.fresh_path(ctx, 'source.sqlite3')
    handle = DatabaseULog.get_db_handle(path)
    for n in logs:
        u = DatabaseULog(handle, log_file=stream(BYTES[2 if n is None else n]))
        u.save()
        if n is None:
            u.delete()
    return path


def migrate(path, steps, ctx):
    """ one migration for each of the intermediate versions, then a complete one """
    for v in steps:
        try:
            quiet(migrate_db, path, sql_dir=sql_dir(ctx, v))
            raise Violation(f'the migration file {v + 1} does not exist, but migrating did not fail')
        except FileNotFoundError:
            expect(v, dbtools.schema(path)['version'], 'version after the last migration file')
    quiet(migrate_db, path)


def check_logs(path, logs, version, what):
    """ everything works as with a database of the current version """
    handle = DatabaseULog.get_db_handle(path)
    have = {pk: n for pk, n in enumerate(logs, 1) if n is not None}
    for pk, n in have.items():
        v = DatabaseULog(handle, primary_key=pk, lazy=False)
        d = diff(REFS[n], observe(v))
        if d:
            raise Violation(f'{what}: log {pk}: {d}')
        if version > 1:
            expect(SUMS[n], v.sha256sum, f'{what}: sum of log {pk}')
            expect(pk, DatabaseULog.primary_key_from_sha256sum(handle, SUMS[n]), f'{what}: key of log {pk}')
    for pk in range(0, len(logs) + 3):
        expect(pk in have, DatabaseULog.exists_in_db(handle, pk), f'{what}: key {pk} exists')
    data = encode([FA, ('A', 0, 1, 'a'), ('D', 1, bytes(12)), ('L', 48, 1, 'new')])
    u = DatabaseULog(handle, log_file=stream(data))
    u.save(append_json=True)
    if u.primary_key in have:
        raise Violation(f'{what}: a new log got key {u.primary_key}, which is in use')
    d = diff(observe(u), observe(DatabaseULog(handle, primary_key=u.primary_key, lazy=False)))
    if d:
        raise Violation(f'{what}: a log that was saved afterwards: {d}')
    u.delete()
    for pk in have:
        DatabaseULog(handle, primary_key=pk).delete()
    left = {t: c for t, c in dbtools.counts(path).items() if c}
    expect({}, left, f'{what}: rows that are left after deleting every log')


CONTENTS = [(), (0,), (3,), (0, 1), (1, None), (None, 0), (0, None, 3), (0, 1, 2, 3)]


def gen_migrate(_tier):
    for version in range(0, CURRENT + 1):
        for logs in CONTENTS:
            if logs and not version:
                continue
            later = range(version + 1, CURRENT)
            for n in range(len(later) + 1):
                for steps in itertools.combinations(later, n):
                    yield version, logs, steps


def run_migrate(case, ctx):
    version, logs, steps = case
    path = os.path.join(ctx.tmp, 'old.sqlite3')
    what = f'version {version} with logs {logs}, steps {steps}'
    if version:
        dbtools.old_database(path, version, source(ctx, logs))
    else:
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path)
    ctx.executions += 1 + len(steps)
    ctx.transitions += CURRENT - version
    for v in range(version, CURRENT + 1):
        ctx.state((v, logs))
    migrate(path, steps, ctx)
    got = dbtools.schema(path)
    ctx.outcome((case, repr(got)))
    expect(CURRENT, got['version'], f'{what}: version')
    want = dbtools.schema(dbtools.template(ctx))
    for t in set(want) | set(got):
        expect(want.get(t), got.get(t), f'{what}: schema of {t}')
    con = sqlite3.connect(path)
    expect([('ok',)], con.execute('PRAGMA integrity_check').fetchall(), f'{what}: integrity')
    expect([], con.execute('PRAGMA foreign_key_check').fetchall(), f'{what}: references')
    con.close()
    before = dbtools.dump(path)
    quiet(migrate_db, path)
    expect(before, dbtools.dump(path), f'{what}: content after migrating again')
    expect(got, dbtools.schema(path), f'{what}: schema after migrating again')
    check_logs(path, logs, version, what)


# ------------------------------------------------------------ what must not change the database

def snapshot(path):
    if not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


def gen_refuse(_tier):
    for version in (1, 2, 3, 4, 5):
        for how in ('noop', 'gate', 'nosql', 'nofile', 'nobegin', 'nocommit', 'badsql', 'beginlater',
                    'commitearlier', 'main-noop'):
            if version < CURRENT or how not in ('nofile', 'nobegin', 'nocommit', 'badsql', 'beginlater', 'commitearlier'):
                yield version, how
    for version in (0, -1, -5):
        for force in (False, True):
            for logs in ((), (0, 1)):
                yield version, force, logs
    yield 'missing', 'noop'
    for kind in ('empty', 'other'):
        for force in (False, True):
            yield kind, force
    yield 'future',


def bad_dir(ctx, version, how):
    """ all migration files, but the one after the next is not as it has to be """
    d = os.path.join(ctx.tmp, f'bad{version}{how}')
    if not os.path.isdir(d):
        shutil.copytree(SQL, d)
        name = os.path.join(d, f'pyulog.{version + 1}.sql')
        with open(name, encoding='utf-8') as f:
            text = f.read().strip()
        if how == 'nofile':
            os.unlink(name)
            return d
        text = {'nobegin': text[len('BEGIN;'):], 'nocommit': text[:-len('COMMIT;')],
                'badsql': text[:-len('COMMIT;')] + 'INSERT INTO nowhere VALUES (1);\nCOMMIT;',
                'beginlater': 'CREATE TABLE early (x);\n' + text, 'commitearlier': text + '\nCREATE TABLE late (x);'}[how]
        with open(name, 'w', encoding='utf-8') as f:
            f.write(text)
    return d


def run_refuse(case, ctx):
    path = os.path.join(ctx.tmp, 'refuse.sqlite3')
    version = case[0]
    ctx.executions += 1
    ctx.transitions += 1
    ctx.outcome(case)
    ctx.state(case)
    if version == 'missing':
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path)
        quiet(migrate_db, path, noop=True)
        if os.path.exists(path) and dbtools.counts(path):
            raise Violation('noop created tables')
        return
    if version in ('empty', 'other'):     # a file that has nothing to do with logs
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path)
        con = sqlite3.connect(path)
        if version == 'other':
            con.executescript('CREATE TABLE mine (x); INSERT INTO mine VALUES (1);')
        con.execute('VACUUM')
        con.close()
        before = dbtools.dump(path), dbtools.schema(path)
        error = None
        try:
            quiet(migrate_db, path, force=case[1])
        except FileExistsError:
            error = FileExistsError
        expect(None if case[1] else FileExistsError, error, f'{case}: error')
        if not case[1]:
            expect(before, (dbtools.dump(path), dbtools.schema(path)), f'{case}: content')
            return
        con = sqlite3.connect(path)
        if version == 'other':
            expect([(1,)], con.execute('SELECT x FROM mine').fetchall(), f'{case}: other table')
            con.execute('DROP TABLE mine')
        con.close()
        expect(dbtools.schema(dbtools.template(ctx)), dbtools.schema(path), f'{case}: schema')
        check_logs(path, (), 5, f'{case}')
        return
    if version == 'future':
        dbtools.old_database(path, 5, source(ctx, (0,)))
        con = sqlite3.connect(path)
        con.execute('PRAGMA user_version = 9')
        con.close()
        before = dbtools.dump(path), dbtools.schema(path)
        quiet(migrate_db, path)
        expect(before, (dbtools.dump(path), dbtools.schema(path)), 'a database of a later version')
        return
    if version <= 0:
        _, force, logs = case
        dbtools.old_database(path, 1, source(ctx, logs))
        con = sqlite3.connect(path)
        con.execute(f'PRAGMA user_version = {version}')
        con.close()
        before = dbtools.dump(path), dbtools.schema(path)
        try:
            quiet(migrate_db, path, **({'force': True} if force else {}))
            error = None
        except (FileExistsError, ValueError) as e:
            error = type(e)
        if version == 0 and force:
            expect(None, error, 'forced migration')
            check_logs(path, logs, 1, 'forced migration')
            return
        expect(FileExistsError if version == 0 else ValueError, error, f'{case}: error')
        for kw in ({'primary_key': 1}, {'primary_key': 1, 'lazy': False}, {'log_file': stream(BYTES[2])}):
            try:
                DatabaseULog(DatabaseULog.get_db_handle(path), **kw)
                error = None
            except ValueError:
                error = ValueError
            expect(ValueError, error, f'{case}: opening with {list(kw)}')
        expect(before, (dbtools.dump(path), dbtools.schema(path)), f'{case}: content')
        return
    how = case[1]
    dbtools.old_database(path, version, source(ctx, (0, 1)))
    before = dbtools.dump(path), dbtools.schema(path)
    error = None
    try:
        if how == 'noop':
            out = quiet(migrate_db, path, noop=True)
            expect(CURRENT - version, out.count('COMMIT;'), f'{case}: scripts that are printed')
        elif how == 'main-noop':
            argv, sys.argv = sys.argv, ['ulog_migratedb', '-d', path, '-n']
            try:
                quiet(tool.main)
            finally:
                sys.argv = argv
        elif how == 'nosql':
            quiet(migrate_db, path, sql_dir=os.path.join(ctx.tmp, 'nowhere'))
        elif how == 'gate':
            handle = DatabaseULog.get_db_handle(path)
            for kw in ({'primary_key': 1}, {'log_file': stream(BYTES[0])}, {'primary_key': 1, 'lazy': False}):
                try:
                    DatabaseULog(handle, **kw)
                    error = None
                except ValueError:
                    error = ValueError
                expect(None if version == CURRENT else ValueError, error, f'{case}: opening with {list(kw)}')
            error = None
        else:
            quiet(migrate_db, path, sql_dir=bad_dir(ctx, version, how))
    except (FileNotFoundError, NotADirectoryError, ValueError, sqlite3.Error) as e:
        error = type(e)
        e.__traceback__ = None
    want = {'nosql': NotADirectoryError}.get(how)
    if version < CURRENT:
        want = want or {'nofile': FileNotFoundError, 'nobegin': ValueError, 'nocommit': ValueError,
                        'beginlater': ValueError, 'commitearlier': ValueError,
                        'badsql': sqlite3.OperationalError}.get(how)
    expect(want, error, f'{case}: error')
    expect(before, (dbtools.dump(path), dbtools.schema(path)), f'{case}: content and schema')
    quiet(migrate_db, path)
    check_logs(path, (0, 1), version, f'{case}, migrated afterwards')


# ------------------------------------------------------------ what scripts can contain

GOOD = {'one line': ("INSERT INTO extra VALUES (1); INSERT INTO extra VALUES ('2');", [1, '2']),
        'text': ("INSERT INTO extra VALUES ('a;b');INSERT INTO extra VALUES ('c\n;COMMIT;\n''d');", ['a;b', "c\n;COMMIT;\n'd"]),
        'comments': ("-- a; b 'c\nINSERT INTO extra /* ; COMMIT; ' */ VALUES (3); -- d;\n/* \n; */\n", [3]),
        'names': ('ALTER TABLE extra ADD COLUMN "a;b";INSERT INTO extra ("a;b", x) VALUES (1, 4);ALTER TABLE extra ADD COLUMN [c;];', [4]),
        'trigger': ("CREATE TRIGGER more AFTER INSERT ON extra WHEN new.x < 9 BEGIN INSERT INTO extra VALUES (new.x + 1); "
                    "INSERT INTO extra VALUES ('t;'); END;\nINSERT INTO extra VALUES (8);DROP TRIGGER more;", [8, 9, 't;']),
        'query': ("INSERT INTO extra VALUES (5);SELECT * FROM extra;INSERT INTO extra SELECT x + 1 FROM extra;", [5, 6]),
        'empty': (";;INSERT INTO extra VALUES (7);\n;\n", [7]),
        'case': ("insert into extra values (10);", [10])}
BAD = {'text': "INSERT INTO extra VALUES ('a);", 'comment': 'INSERT INTO extra VALUES (1); /* a;', 'name': 'INSERT INTO extra ("x VALUES (1);',
       'word': 'INSERT INTO extra VALUES (1); nonsense;', 'constraint': 'CREATE TABLE one (x UNIQUE); INSERT INTO one VALUES (1), (1);',
       'table': 'DELETE FROM ULog; SELECT * FROM nowhere;', 'statement': 'DROP TABLE ULog; INSERT INTO extra VALUES (1'}


def gen_scripts(_tier):
    for version in range(1, CURRENT):
        for good in (True, False):
            for name in GOOD if good else BAD:
                for at in range(version + 1, CURRENT + 1):
                    yield version, at, good, name


def run_scripts(case, ctx):
    version, at, good, name = case
    d = os.path.join(ctx.tmp, 'scripts')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(sql_dir(ctx, CURRENT), d)
    script = os.path.join(d, f'pyulog.{at}.sql')
    with open(script, encoding='utf-8') as f:
        text = f.read().strip()
    body, values = GOOD[name] if good else (BAD[name], None)
    with open(script, 'w', encoding='utf-8') as f:
        f.write('\n ' + text[:-len('COMMIT;')] + 'CREATE TABLE extra (x);' + body + 'COMMIT;\n')
    path = os.path.join(ctx.tmp, 'scripts.sqlite3')
    ctx.executions += 1
    ctx.transitions += 1
    ctx.state(case)
    ctx.outcome(case)
    want = None
    if not good:    # as far as the scripts before it
        dbtools.old_database(path, version, source(ctx, (0, 1)))
        try:
            quiet(migrate_db, path, sql_dir=sql_dir(ctx, at - 1))
        except FileNotFoundError as e:
            e.__traceback__ = None
        want = dbtools.dump(path), dbtools.schema(path)
    dbtools.old_database(path, version, source(ctx, (0, 1)))
    error = None
    try:
        quiet(migrate_db, path, sql_dir=d)
    except (ValueError, sqlite3.Error, sqlite3.Warning) as e:
        error = repr(e)
        e.__traceback__ = None
    if good:
        expect(None, error, f'{case}: error')
        con = sqlite3.connect(path)
        got = [x for x, in con.execute('SELECT x FROM extra ORDER BY rowid')]
        con.execute('DROP TABLE extra')
        con.close()
        expect(sorted(values, key=str), sorted(got, key=str), f'{case}: values')
        expect(dbtools.schema(dbtools.template(ctx)), dbtools.schema(path), f'{case}: schema')
    else:
        if error is None:
            raise Violation(f'{case}: accepted')
        expect(want, (dbtools.dump(path), dbtools.schema(path)), f'{case}: content and schema')
        quiet(migrate_db, path)
    check_logs(path, (0, 1), version, f'{case}')


# ------------------------------------------------------------ console script

OPTIONS = {'path': (None, '-d', '--database'), 'force': (None, '-f', '--force'), 'noop': (None, '-n', '--noop'),
           'sql': (None, '-s', '--sql')}


def gen_main(_tier):
    for version in (0, 1, 2, 3, 4, 5, 'empty', 'other', 'unversioned'):
        yield from ((version,) + opts for opts in itertools.product(*OPTIONS.values()))


def run_main(case, ctx):
    version, database, force, noop, sql = case
    path = os.path.join(ctx.tmp, 'Main db.sqlite3' if database else 'pyulog.sqlite3')      # the default
    for p in ('Main db.sqlite3', 'pyulog.sqlite3'):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(os.path.join(ctx.tmp, p))
    logs, before = (0, 1) if version else (), None
    if version in ('empty', 'other'):
        logs = ()
        con = sqlite3.connect(path)
        if version == 'other':
            con.executescript('CREATE TABLE mine (x); INSERT INTO mine VALUES (1);')
        con.close()
    elif version:
        dbtools.old_database(path, 1 if version == 'unversioned' else version, source(ctx, logs))
        if version == 'unversioned':
            con = sqlite3.connect(path)
            con.execute('PRAGMA user_version = 0')
            con.close()
    if version:
        before = snapshot(path)
    argv, sys.argv = sys.argv, ['ulog_migratedb'] + [database, path] * bool(database) + [force] * bool(force) + [noop] * bool(noop) \
        + [sql, SQL] * bool(sql)
    cwd = os.getcwd()
    os.chdir(ctx.tmp)
    ctx.executions += 1
    ctx.transitions += 1
    error = None
    try:
        quiet(tool.main)
    except FileExistsError:
        error = FileExistsError
    finally:
        sys.argv = argv
        os.chdir(cwd)
    ctx.outcome((case, error))
    refused = version in ('empty', 'other', 'unversioned') and not force
    expect(FileExistsError if refused else None, error, f'{case}: error')
    other = os.path.join(ctx.tmp, 'pyulog.sqlite3' if database else 'Main db.sqlite3')
    expect(False, os.path.exists(other), f'{case}: {other} exists')
    if refused or noop or version == CURRENT:
        if version:
            expect(before, snapshot(path), f'{case}: the file')
        return
    if version == 'other':
        con = sqlite3.connect(path)
        expect([(1,)], con.execute('SELECT x FROM mine').fetchall(), f'{case}: other table')
        con.execute('DROP TABLE mine')
        con.close()
    expect(dbtools.schema(dbtools.template(ctx)), dbtools.schema(path), f'{case}: schema')
    check_logs(path, logs, {'empty': 5, 'other': 5, 'unversioned': 1, 0: 5}.get(version, version), f'{case}')


def families():
    return [
        Family('migrate', gen_migrate, run_migrate, 'start versions, logs and steps'),
        Family('refuse', gen_refuse, run_refuse, 'calls that must not change the database'),
        Family('scripts', gen_scripts, run_scripts, 'what a migration file can contain'),
        Family('main', gen_main, run_main, 'the console script'),
    ]


assert len(LOGS) == 4 and run(LOGS[0]).result() == REFS[0]
