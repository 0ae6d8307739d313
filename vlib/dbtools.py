""" Scratch databases for the checks. """
import contextlib
import io
import os
import shutil
import sqlite3
from pyulog.db import DatabaseULog
from pyulog.migrate_db import migrate_db

_template = {}


def template(ctx):
    """ an empty database, created by the implementation's own migration """
    if ctx.tmp not in _template:
        path = os.path.join(ctx.tmp, 'template.sqlite3')
        with contextlib.redirect_stdout(io.StringIO()):
            migrate_db(path)
        _template[ctx.tmp] = path
    return _template[ctx.tmp]


def fresh_path(ctx, name='db.sqlite3'):
    path = os.path.join(ctx.tmp, name)
    for suffix in ('', '-journal', '-wal', '-shm'):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path + suffix)
    shutil.copyfile(template(ctx), path)
    return path


def fresh(ctx, name='db.sqlite3'):
    """ a handle for a new, empty database """
    return DatabaseULog.get_db_handle(fresh_path(ctx, name))


def dump(path):
    """ the content of all tables, {table: sorted rows} """
    con = sqlite3.connect(path)
    try:
        tables = [n for (n,) in con.execute(
            "SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'")]
        return {t: sorted(con.execute(f'SELECT * FROM "{t}"').fetchall(), key=repr) for t in tables}
    finally:
        con.close()


def counts(path):
    con = sqlite3.connect(path)
    try:
        tables = [n for (n,) in con.execute(
            "SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'")]
        return {t: con.execute(f'SELECT count(*) FROM "{t}"').fetchone()[0] for t in tables}
    finally:
        con.close()


# ------------------------------------------------------------ schema versions

OLDSQL = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'oldsql')


def old_database(path, version, source=None):
    """ a database as the released software of this schema version wrote it, with the logs of `source`
    (a database of the current version); the SQL files are those that were released """
    for suffix in ('', '-journal', '-wal', '-shm'):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path + suffix)
    con = sqlite3.connect(path)
    for v in range(1, version + 1):
        with open(os.path.join(OLDSQL, f'{v}.sql'), encoding='utf-8') as f:
            con.executescript(f.read())
    con.execute('PRAGMA foreign_keys=off')
    con.execute(f'PRAGMA user_version = {version}')
    if source:
        con.execute('ATTACH ? AS src', (source,))
        for (table,) in con.execute(TABLES).fetchall():
            new = [r[1] for r in con.execute(f'PRAGMA src.table_info("{table}")')]
            cols = [r[1] for r in con.execute(f'PRAGMA main.table_info("{table}")') if r[1] in new]
            names = ', '.join(cols)
            con.execute(f'INSERT INTO main."{table}" ({names}) SELECT {names} FROM src."{table}" ORDER BY rowid')
        con.commit()
    con.close()
    return path


TABLES = "SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%' ORDER BY name"


def schema(path):
    """ version, and columns, references and indices of every table """
    con = sqlite3.connect(path)
    try:
        out = {'version': con.execute('PRAGMA user_version').fetchone()[0]}
        for (t,) in con.execute(TABLES).fetchall():
            cols = sorted(r[1:] for r in con.execute(f'PRAGMA table_info("{t}")'))
            refs = sorted((r[2].lower(),) + r[3:] for r in con.execute(f'PRAGMA foreign_key_list("{t}")'))
            idx = sorted((bool(r[2]), tuple(c[2] for c in con.execute(f'PRAGMA index_info("{r[1]}")')))
                         for r in con.execute(f'PRAGMA index_list("{t}")').fetchall())
            out[t] = cols, refs, idx
        return out
    finally:
        con.close()
