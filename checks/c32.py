"""
C32: reading a log never changes it, and a tool writes its own output files and nothing else.

Every command and conversion, with its options, is run on logs of every kind (also damaged ones and ones with
unusual names) in a scratch tree with other files in it.  The tree is compared before and after: everything
that was there is as it was, and every new file is one that the tool is documented to write.
"""
import io
import itertools
import os
from unittest import mock
from pyulog import ULog, extract_gps_dump, info as info_tool, params, ulog2csv, ulog2kml
from pyulog.db import DatabaseULog
from pyulog.extract_message import extract_message
from pyulog.px4 import PX4ULog
from vlib import dbtools
from vlib.alpha import NAMES, FA, F, da, named
from vlib.cli import cli, quiet, scratch
from vlib.engine import Family, Violation, expect
from vlib.ulg import SYNC, encode
from checks import c24
from checks.c27 import BYTES, TRACK

ID, LEVEL = 'C32', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every tool and set of options x log x way to name it; outcomes are (tool, status, names of the new files)'
ASSUMPTIONS = ['outputs that are named explicitly are other files than the input']

_full = encode(TRACK, 2)
_at = len(encode(TRACK[:20], 2))


def _appended():
    pre = [('B', (0,) * 8, (1,) + (0,) * 7, (1, 0, 0)), FA, ('A', 0, 0, 'a'), da(0, 1)]
    pre[0] = ('B', (0,) * 8, (1,) + (0,) * 7, (len(encode(pre)), 0, 0))
    return encode(pre + [da(0, 4)])


LOGS = {'track': _full, 'text': BYTES['text'], 'good': BYTES['good'], 'cut': _full[:-7], 'cut early': _full[:_at], 'cut header': _full[:9],
        'damaged': _full[:_at] + b'\xff' * 40 + SYNC + _full[_at:], 'unsupported': BYTES['flag'] if 'flag' in BYTES else b'', 'empty': b'',
        'no log': b'not a log', 'appended': _appended(), 'nothing': encode([FA], 2), 'behind': _full + b'\0' * 100,
        'quote': encode(named('a"b\'c')), 'dots': encode(named('..')), 'many': None, 'root': None}
FILES = ('log.ulg', 'LOG.ULG', 'log', 'a.b.ulg', '.ulg', 'a b.ulg', 'log.ulg.csv', '-')


def content(log, ctx):
    """ the bytes of a log; absolute names in it are in the tree, as nothing else should be written if they are not contained """
    root = os.path.join(ctx.tmp, 'tree')
    if log == 'root':
        return encode(named(f'{root}/cwd/x'))
    if log == 'many':
        topics = ['a/t', '../t', f'{root}/t', './t', 'a/../t', 'out/t', '../../t']
        return encode([F(n, 'uint64_t timestamp', 'float x') for n in topics] + [('A', 0, i, n) for i, n in enumerate(topics)]
                      + [da(i, 5) for i in range(len(topics))])
    return LOGS[log]


def prefix(name):
    return name[:-4] if name.lower().endswith('.ulg') else name


class Tree:
    """ a directory `in` with the log, `out` and `cwd`, each with other files """

    def __init__(self, ctx, log, name):
        self.root = scratch(ctx, 'tree')
        for d in ('in', 'out', 'cwd'):
            os.mkdir(os.path.join(self.root, d))
            for other in ('other.ulg', 'keep.csv', 'log.txt', 'logs_a_0.csv', 'log.ulg~', 'log.kml', 'log.db', 'log_old_0.csv', 'log_7_to_device.dat', 'x.kml.old', '.hidden'):
                with open(os.path.join(self.root, d, other), 'wb') as f:
                    f.write(d.encode() + other.encode())
        self.log = os.path.join(self.root, 'in', name)
        with open(self.log, 'wb') as f:
            f.write(content(log, ctx))
        os.utime(self.log, (1, 1))
        self.before = self.snapshot()

    def snapshot(self):
        out = {}
        for d, dirs, files in os.walk(self.root):
            for n in dirs:
                out[os.path.relpath(os.path.join(d, n), self.root)] = 'directory'
            for n in files:
                p = os.path.join(d, n)
                st = os.lstat(p)
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, self.root)] = f.read(), st.st_mode, st.st_mtime_ns, st.st_ino
        return out

    def compare(self, allowed, what):
        """ the new files, all of which are `allowed` """
        after = self.snapshot()
        for p, v in self.before.items():
            expect(v, after.get(p), f'{what}: {p}')
        new = sorted(set(after) - set(self.before))
        for p in new:
            if not allowed(p):
                raise Violation(f'{what}: {p} was created')
        return new


def no(_p):
    return False


def csv_in(d, name):
    return lambda p: os.path.dirname(p) == d and p.endswith('.csv') and os.path.basename(p).startswith(prefix(name) + '_')


def gps_in(d, name):
    return lambda p: p in [os.path.join(d, f'{prefix(name)}_{i}_{x}_device.dat') for i in (0, 1, 2) for x in ('to', 'from')]


def one(f):
    return lambda p: p == f


def tools(t, log, name):
    """ name -> (function, which new files it may write) """
    out, cwd = os.path.join(t.root, 'out'), 'cwd'
    rel = os.path.join('..', 'in', name)

    def main(m, *argv):
        return lambda: cli(m, *argv)[1]
    # a name that begins with - is none for the command line
    path = t.log
    yield 'csv', main(ulog2csv.main, path), csv_in('in', name)
    yield 'csv relative', main(ulog2csv.main, rel, '-i'), csv_in('in', name)
    yield 'csv out', main(ulog2csv.main, path, '-o', out, '-d', ';'), csv_in('out', name)
    yield 'csv here', main(ulog2csv.main, path, '-o', '.', '-i'), csv_in(cwd, name)
    yield 'csv new', main(ulog2csv.main, path, '-o', out + '/new', '-i', '-m', 'pos,cam,a,../t'), \
        lambda p: p == 'out/new' or csv_in('out/new', name)(p)
    yield 'csv nowhere', main(ulog2csv.main, path, '-o', out + '/a/b', '-i'), \
        lambda p: p in ('out/a', 'out/a/b') or csv_in('out/a/b', name)(p)
    yield 'csv window', main(ulog2csv.main, path, '-ts', '1', '-te', '2', '-i'), csv_in('in', name)
    for i in (0, 1):
        yield f'dump {i}', main(extract_gps_dump.main, path, '-x', '-i', str(i)) if i else main(extract_gps_dump.main, path), gps_in(cwd, name)
    yield 'dump out', main(extract_gps_dump.main, rel, '-o', out, '-x'), gps_in('out', name)
    yield 'dump nowhere', main(extract_gps_dump.main, path, '-o', out + '/a', '-x'), no
    yield 'kml', main(ulog2kml.main, path, '--topic', 'pos', '--camera-trigger', 'cam'), one('cwd/track.kml')
    yield 'kml out', main(ulog2kml.main, rel, '-i', '-o', out + '/x.kml', '--topic', 'pos'), one('out/x.kml')
    yield 'kml nowhere', main(ulog2kml.main, path, '-i', '-o', out + '/a/x.kml', '--topic', 'pos'), no
    for opts in ((), ('-i',), ('-t',), ('-f', 'octave'), ('-f', 'qgc'), ('-d', 'system'), ('-f', 'qgc', '-i', '--ignore')):
        yield f'params {opts}', main(params.main, *opts, path), no
        yield f'params {opts} to', main(params.main, *opts, '--ignore', rel, out + '/p.txt'), one('out/p.txt')
    for opts in ((), ('-v',), ('-n',), ('-v', '-i'), ('-m', 'sys')):
        yield f'info {opts}', main(info_tool.main, path, *opts), no
    yield 'messages', lambda: messages(path), no
    yield 'messages relative', lambda: messages(rel, '-i'), no
    for f in (None, [], ['pos', 'a']):
        yield f'load {f}', lambda f=f: load(ULog, path, f) and None, no
    yield 'load header', lambda: load(ULog, rel, None, True, True) and None, no
    yield 'load file', lambda: open_and_load(path), no
    yield 'load buffer', lambda: load_buffer(t, log), no
    yield 'extract', lambda: extract_message(path, 'pos', 1.0, 2.0, disable_str_exceptions=True) and None, no
    yield 'write', lambda: load(ULog, path).write_ulog(out + '/copy.ulg'), one('out/copy.ulg')
    yield 'px4', lambda: PX4ULog(load(ULog, path)).add_roll_pitch_yaw(), no
    yield 'database', lambda: database(t, path), one('cwd/db.sqlite3')


def messages(*argv):
    with mock.patch('urllib.request.OpenerDirector.open', side_effect=OSError('no network')):
        return cli(c24.modules()[0].main, *argv)[1]


def load(cls, *args):
    with quiet():
        return cls(*args)


def open_and_load(path):
    with open(path, 'rb') as f:
        load(ULog, f)


def load_buffer(t, log):
    data = content(log, t.ctx)
    b = io.BytesIO(data)
    keep = b.getbuffer()    # a view of the content that does not go away
    try:
        load(ULog, b, None, True)
    except Exception:   # pylint: disable=broad-except
        pass
    expect(data, bytes(keep), 'the buffer')
    keep.release()


def database(t, path):
    db = os.path.join(t.root, 'cwd', 'db.sqlite3')
    with open(dbtools.fresh_path(t.ctx, 'c32.sqlite3'), 'rb') as f, open(db, 'wb') as g:
        g.write(f.read())
    h = DatabaseULog.get_db_handle(db)
    with quiet():
        DatabaseULog.calc_sha256sum(path)
        u = DatabaseULog(h, log_file=path)
        u.save()
        v = DatabaseULog(h, primary_key=u.primary_key)
        v.load(lazy=False)
        v.delete()


def names():
    t = type('T', (), {'root': '/', 'log': '/in/x'})()
    return [n for n, _, _ in tools(t, 'track', 'x')]


def gen(tier):
    for i, _ in enumerate(names()):
        for log in LOGS:
            for name in FILES if tier != 'quick' or log in ('track', 'text', 'many') else FILES[:1]:
                yield i, log, name


def run(case, ctx):
    i, log, name = case
    t = Tree(ctx, log, name)
    t.ctx = ctx
    what, op, allowed = next(itertools.islice(tools(t, log, name), i, None))
    here = os.getcwd()
    os.chdir(os.path.join(t.root, 'cwd'))
    try:
        try:
            code = op()
        except Exception as e:  # pylint: disable=broad-except
            code = type(e).__name__
            e.__traceback__ = None
        expect(os.path.realpath(os.path.join(t.root, 'cwd')), os.path.realpath(os.getcwd()), f'{what}: working directory')
    finally:
        os.chdir(here)
    ctx.executions += 1
    ctx.transitions += 1
    new = t.compare(allowed, f'{what}, log {log} in {name!r} ({code})')
    ctx.outcome((what, str(code), [p.replace(prefix(name), '*') for p in new]))
    ctx.state((log, tuple(new)))


def gen_names(_tier):
    for n in NAMES + ('a/b/c', '../..', '*', '..\\x', 'a/', 'a//', 'x' * 100):
        yield n


def run_names(n, ctx):
    """ no name in a log leads out of the output directory """
    LOGS['named'] = encode(named(n))
    for i, what in enumerate(names()):
        if what.startswith(('csv', 'dump', 'kml', 'database')):
            run((i, 'named', 'log.ulg'), ctx)


def families():
    return [Family('tools', gen, run, 'tools and options x logs x file names'),
            Family('names', gen_names, run_names, 'unusual names of everything in the log')]
