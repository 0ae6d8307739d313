"""
C14: saving and deleting a log is atomic, whatever fails.

Fault enumeration on the real code and the real SQLite: every single file operation and lock of a save or
delete is made to fail (once, or from then on), every place of a log is given a value that the database
does not take, and every crash image (process killed after each file operation; power lost with each
pattern of unsynced writes missing) is recovered and inspected.
"""
import sqlite3
from pyulog.db import DatabaseULog
from vlib import crash, dbtools
from vlib.alpha import F, FA, FB, FC, FN, da, db, dc, stream
from vlib.engine import Family, Violation, expect
from vlib.model import diff, observe, run
from vlib.ulg import encode

ID, LEVEL = 'C14', 'fault_enumeration'
RULE = 'every fault and crash point of the scenarios; outcomes are (scenario, place, raised or not, state)'
ASSUMPTIONS = ['SQLite is correct and syncs are honest; the connection uses one process at a time']

BIGN = 60000
HEAD = [('B', (1,) + (0,) * 7, (0,) * 8, (0, 0, 0)), FN, FA, FB, FC, ('I', 'char[2]', 'sys', 'ab'), ('M', 'char[1]', 'm', 'a', 0),
        ('M', 'char[1]', 'm', 'b', 1), ('P', 'int32_t', 'P1', 5), ('Q', 1, 'int32_t', 'P1', 6), ('A', 0, 0, 'a'), ('A', 1, 1, 'a'),
        ('A', 0, 2, 'b'), ('A', 0, 3, 'c')]
BODY = [da(0, 10, 1.0), da(1, 11, 2.0), dc(3, 13), ('L', 54, 9, 'hello'), ('C', 52, 3, 15, 'tagged'), ('O', 12), ('P', 'int32_t', 'P1', 9)]
LOG = HEAD + BODY
OTHER = HEAD + BODY[1:] + [('L', 52, 1, 'other')]
FBIG = F('big', 'uint64_t timestamp', 'uint8_t[2000] v')
BIG = HEAD[:4] + [FBIG, FC] + HEAD[5:] + [('A', 0, 9, 'big')] + BODY + \
    [('D', 9, (i.to_bytes(8, 'little') + bytes([i % 251]) * 2000)) for i in range(1400)]
# many of everything: whatever is stored in portions has several
MANY_HEAD = HEAD[:5] + [('F', f't{i}', FA[2]) for i in range(60)] + [('I', 'int32_t', f'i{i}', i) for i in range(300)] + \
    [('M', 'char[2]', f'm{i % 40}', f'{i % 90:02d}', int(i >= 40)) for i in range(300)] + \
    [('P', 'int32_t', f'P{i}', i) for i in range(1200)] + [('Q', 1, 'int32_t', f'P{i}', i + 1) for i in range(300)] + HEAD[5:] + \
    [('A', 0, 10 + i, f't{i}') for i in range(60)]
MANY_BODY = BODY + [da(10 + i % 60, 20 + i) for i in range(600)] + [da(10, 700 + i) for i in range(9000)] + \
    [m for i in range(1200) for m in (('L', 54, i, f'text {i}'), ('C', 52, i % 70, i, f'tagged {i}'), ('O', i),
                                      ('P', 'int32_t', f'P{i}', i + 2))]
MANY = MANY_HEAD + MANY_BODY
LOGS = {'log': LOG, 'big': BIG, 'many': MANY}


class Scenario:
    """ a prepared database and the operation on it """

    def __init__(self, ctx, op, log, others, name='db.sqlite3'):
        self.path = dbtools.fresh_path(ctx, name)
        self.handle = DatabaseULog.get_db_handle(self.path)
        self.log = log
        if others:
            DatabaseULog(self.handle, log_file=stream(encode(OTHER))).save()
        self.u = DatabaseULog(self.handle, log_file=stream(encode(LOGS[log])))
        if op == 'delete':
            self.u.save()
        self.op = op

    def call(self):
        if self.op == 'delete':
            return self.u.delete()
        return self.u.save(append_json=True) if self.op == 'json' else self.u.save()


def states(ctx, case):
    """ the content of the database before and after the operation """
    s = Scenario(ctx, *case, name='ref.sqlite3')
    before = dbtools.dump(s.path)
    s.call()
    return before, dbtools.dump(s.path)


SCENARIOS = [(op, 'log', others) for op in ('save', 'json', 'delete') for others in (False, True)]
LARGE = [('save', 'big', True), ('delete', 'big', True)]
LONG = [('save', 'many', False), ('json', 'many', False), ('delete', 'many', True)]

_refs = {}


def reference(ctx, scen):
    if scen not in _refs:
        before, after = states(ctx, scen)
        counts = {}
        for kinds in KINDS:
            s = Scenario(ctx, *scen)
            _, ops = crash.record(s.call, kinds)
            counts[kinds] = len(ops)
        _refs[scen] = before, after, counts
    return _refs[scen]


def same(path, want):
    return dbtools.dump(path) == want


# ------------------------------------------------------------ faults of file operations

KINDS = (('write', 'truncate', 'sync', 'delete'), ('read',), ('lock',), ('open',))
CHUNK = 8


def gen_faults(tier):
    for scen in SCENARIOS + LARGE:
        for kinds in KINDS:
            for persistent in (False, True):
                for part in range(8):
                    yield scen, kinds, persistent, part


def run_faults(case, ctx):
    scen, kinds, persistent, part = case
    before, after, counts = reference(ctx, scen)
    big = scen[1] == 'big'
    n = counts[kinds]
    points = range(part, n, 8)
    if big and n > 200:     # the interesting ones: where it starts to spill, and the commit
        step = max(1, n // (60 if ctx.tier == 'quick' else 600))
        points = [k for k in points if k < 40 or k > n - 60 or (k // 8) % step == 0]
    for k in points:
        s = Scenario(ctx, *scen)
        had = s.u.primary_key
        ctx.executions += 1
        _, error, hit = crash.faulty(s.call, kinds, k, persistent, crash.sqlvfs.FULL if persistent and 'write' in kinds else None)
        what = f'{scen}, {"all from " if persistent else ""}operation {k} of {kinds} fails'
        if not hit:
            if k < counts[kinds] and error is None and not persistent:
                ctx.count('fault_not_reached')
            continue
        ctx.transitions += 1
        judge(s, ctx, what, before, after, error, had)
        ctx.outcome((scen, kinds, persistent, k, type(error).__name__))


def judge(s, ctx, what, before, after, error, had):
    """ all or nothing; the object knows which; a retry works """
    if error is None:
        if not same(s.path, after):
            raise Violation(f'{what}: succeeded, but the database is not what it should be: {summary(s.path)}')
        ctx.count('fault_absorbed')
        return
    image = crash.take(s.path)
    if not same(s.path, before):
        raise Violation(f'{what}: raised {error!r} and left the database changed: {summary(s.path)}')
    crash.put(image, s.path, s.path)    # as if nobody had opened it since
    expect(had, s.u.primary_key, f'{what}: primary key after {error!r}')
    try:
        s.call()
    except Exception as e:
        raise Violation(f'{what}: trying again raised {e!r}') from e
    if not same(s.path, after):
        raise Violation(f'{what}: after trying again, the database is {summary(s.path)}')
    ctx.count('fault_raised')


def summary(path):
    return {k: v for k, v in dbtools.counts(path).items() if v}


# ------------------------------------------------------------ crashes

def gen_crashes(_tier):
    for scen in SCENARIOS + LARGE + LONG:
        parts = 8 if scen[1] == 'log' else 16
        for part in range(parts):
            yield scen, part, parts


def run_crashes(case, ctx):
    scen, part, parts = case
    before, after, _ = reference(ctx, scen)
    s = Scenario(ctx, *scen)
    with open(s.path, 'rb') as f:
        content = f.read()
    _, ops = crash.record(s.call)
    ctx.executions += 1
    big = scen[1] != 'log'
    n = len(ops)
    step = 37 if ctx.tier == 'quick' else 5
    if scen[1] == 'many':
        step = max(1, n // (80 if ctx.tier == 'quick' else 2000))
    path = ctx.tmp + '/crashed.sqlite3'
    for j, (i, kind, image) in enumerate(crash.images({s.path: content}, ops, power=not big)):
        if j % parts != part or (big and (60 < i < n - 60 or scen[1] == 'many' and 8 < i < n - 12) and j // parts % step):
            continue
        crash.put(image, s.path, path)
        ctx.transitions += 1
        what = f'{scen}, {kind} after file operation {i} of {n}'
        try:
            con = sqlite3.connect(path)
            ok = con.execute('PRAGMA integrity_check').fetchall()
            con.close()
            got = dbtools.dump(path)
        except sqlite3.Error as e:
            raise Violation(f'{what}: the database cannot be read: {e!r}') from e
        expect([('ok',)], ok, f'{what}: integrity')
        state = 'before' if got == before else 'after' if got == after else None
        if state is None:
            raise Violation(f'{what}: the database is neither as before nor as after: {summary(path)}')
        if kind == 'killed' and i == n - 1 and state != 'after':
            raise Violation(f'{what}: it was completed, but is not there')
        ctx.outcome((scen, kind, i, state))
        ctx.count('crash_images')
        crash.put(image, s.path, path)      # as if nobody had opened it since
        handle = DatabaseULog.get_db_handle(path)
        found = DatabaseULog.primary_key_from_sha256sum(handle, s.u.sha256sum)
        expect(state == ('before' if scen[0] == 'delete' else 'after'), found is not None, f'{what}: {state}, found by its sum')
        if s.path + '-journal' in image and not same(path, got):
            raise Violation(f'{what}: after a look-up: {summary(path)}')
        if not big and scen[0] != 'delete' and kind == 'killed':   # the next start carries on
            crash.put(image, s.path, path)
            u = DatabaseULog(handle, log_file=stream(encode(LOGS[scen[1]])))
            try:
                u.save(append_json=True) if scen[0] == 'json' else u.save()
                again = 'before'
            except KeyError:
                again = 'after'
            expect(state, again, f'{what}: state seen by saving again')
            d = diff(run(LOGS[scen[1]]).result(), observe(DatabaseULog(handle, primary_key=u.primary_key, lazy=False)))
            if d:
                raise Violation(f'{what}: {d}')


# ------------------------------------------------------------ logs that cannot be saved

HUGE = 2**63 + 5
BAD = {
    'start': lambda h, b: (h + b, {'start': HUGE}), 'last': lambda h, b: (h + b + [da(0, HUGE)], {}),
    'info': lambda h, b: (h + b + [('I', 'uint64_t', 'x', HUGE)], {}),
    'multi': lambda h, b: (h + b + [('M', 'uint64_t', 'x', 1, 0), ('M', 'uint64_t', 'x', HUGE, 1)], {}),
    'param': lambda h, b: (h[:5] + [('P', 'uint64_t', 'X', HUGE)] + h[5:] + b, {}),
    'default': lambda h, b: (h + b + [('Q', 3, 'uint64_t', 'X', HUGE)], {}),
    'changed': lambda h, b: (h + b + [('P', 'uint64_t', 'X', HUGE)], {}),
    'logged': lambda h, b: (h + b + [('L', 52, HUGE, 'x')], {}), 'tagged': lambda h, b: (h + b + [('C', 52, 9, HUGE, 'x')], {}),
    'dropout': lambda h, b: (h + b + [da(0, HUGE), ('O', 4)], {}),
    'twice': lambda h, b: (h + b + [('A', 1, 7, 'a'), da(7, 20)], {}),
}


def gen_bad(_tier):
    for where in BAD:
        for others in (False, True):
            for js in (False, True):
                yield where, others, js, False
        yield where, False, False, True


def run_bad(case, ctx):
    where, others, js, many = case
    path = dbtools.fresh_path(ctx)
    handle = DatabaseULog.get_db_handle(path)
    if others:
        DatabaseULog(handle, log_file=stream(encode(OTHER))).save()
    before = dbtools.dump(path)
    msgs, kw = BAD[where](*((MANY_HEAD, MANY_BODY) if many else (HEAD, BODY)))
    u = DatabaseULog(handle, log_file=stream(encode(msgs, **kw)))
    ctx.executions += 1
    ctx.transitions += len(msgs)
    for attempt in (1, 2):
        try:
            u.save(append_json=True) if js else u.save()
            error = None
        except Exception as e:  # pylint: disable=broad-except
            error = e
            e.__traceback__ = None
        ctx.outcome((case, attempt, type(error).__name__))
        what = f'{case}: attempt {attempt}'
        if error is None:
            # it can be saved after all: then it has to be complete
            d = diff(run(msgs, **kw).result(), observe(DatabaseULog(handle, primary_key=u.primary_key, lazy=False)))
            if d:
                raise Violation(f'{what}: {d}')
            return
        if isinstance(error, KeyError):
            raise Violation(f'{what}: {error!r}')
        if dbtools.dump(path) != before:
            raise Violation(f'{what}: raised {error!r} and left rows in the database: {summary(path)}')
        expect(None, u.primary_key, f'{what}: primary key after {error!r}')
        expect(None, DatabaseULog.primary_key_from_sha256sum(handle, u.sha256sum), f'{what}: found by its sum')
    v = DatabaseULog(handle, log_file=stream(encode(LOG)))
    v.save()
    d = diff(run(LOG).result(), observe(DatabaseULog(handle, primary_key=v.primary_key, lazy=False)))
    if d:
        raise Violation(f'{case}: a log saved afterwards: {d}')


def families():
    return [
        Family('unsaveable', gen_bad, run_bad, 'values the database does not take, in every place'),
        Family('faults', gen_faults, run_faults, 'every file operation and lock fails'),
        Family('crashes', gen_crashes, run_crashes, 'every crash image'),
    ]
