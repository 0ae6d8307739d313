"""
C10: logs compare equal exactly when their content is the same.

All pairs of logs from enumerated sets are compared in both directions: logs of the same bytes must be
equal, logs that the reference model distinguishes must not be, and the order of independent definitions
and subscriptions must not matter.  The same for logs loaded from a database.
"""
import itertools
import struct
from pyulog import ULog
from pyulog.db import DatabaseULog
from vlib import dbtools
from vlib.alpha import F, FA, FB, FC, FN, da, db, dc, seqs, stream
from vlib.engine import Family, Violation
from vlib.model import run
from vlib.ulg import BASIC, encode

ID, LEVEL = 'C10', 'model_checking'
PROMOTE = True     # cheap: 'quick' explores the bounds 'thorough', and 'thorough' the bounds 'deep'
RULE = 'every pair of logs of the enumerated sets, in both directions; outcomes are (equal content, equal)'
ASSUMPTIONS = ['0.0 and -0.0, and integer and float parameters of the same value, may compare equal']

PRE = [FN, FA, FB, FC, ('P', 'int32_t', 'PAR', 5), ('A', 0, 0, 'a'), ('A', 1, 1, 'a'), ('A', 0, 2, 'b'), ('A', 0, 3, 'c')]
NAN = float('nan')
OPS = [da(0, 10, 1.5), da(0, 11, 1.5), da(1, 10, 1.5), da(0, 10, NAN), db(2, 1, 10), db(2, 1, 10, (1, 2, 4)), dc(3, 10),
       dc(3, 10, b'ab\0\1'), ('L', 48, 9, 'x'), ('L', 49, 9, 'x'), ('L', 48, 8, 'x'), ('L', 48, 9, 'y'), ('C', 48, 1, 9, 'x'),
       ('C', 48, 2, 9, 'x'), ('O', 5), ('O', 6), ('P', 'int32_t', 'PAR', 6), ('P', 'float', 'PAR', NAN), ('I', 'float', 'k', NAN),
       ('I', 'char[1]', 'k', 'v'), ('M', 'char[1]', 'm', 'v', 0), ('M', 'char[1]', 'm', 'v', 1), ('Q', 1, 'int32_t', 'D', 1),
       ('Q', 2, 'int32_t', 'D', 1)]


def load(msgs, start=0, version=1):
    return ULog(stream(encode(msgs, start, version)))


def both(u, v):
    """ equality in both directions, which has to agree with inequality """
    r = {u == v, v == u, not u != v, not v != u}
    if len(r) != 1:
        raise Violation('== and != disagree, or are not symmetric')
    return r.pop()


def pair(u, v, same, ctx, what):
    ctx.executions += 1
    eq = both(u, v)
    ctx.outcome((same, eq, what[:40]))
    if eq != same:
        raise Violation(f'{what}: content is {"the same" if same else "different"}, but they compare '
                        f'{"equal" if eq else "unequal"}')


def sets(tier):
    return list(seqs(OPS, 2)) if tier == 'quick' else list(dict.fromkeys([*seqs(OPS, 2), *seqs(OPS[::3], 3), *seqs(OPS[1::3], 3), *(seqs(OPS[2::3], 3) if tier == 'deep' else ()),
                               *(seqs(OPS[::2], 3) if tier == 'deep' else ())]))


def gen_pairs(tier):
    n = len(sets(tier))
    for i in range(n):
        yield i


_loaded = []


def run_pairs(i, ctx):
    if not _loaded:
        for s in sets(ctx.tier):
            msgs = PRE + list(s)
            _loaded.append((s, run(msgs).result(), load(msgs)))
    s, ref, u = _loaded[i]
    ctx.state(ref)
    ctx.transitions += len(s)
    pair(u, load(PRE + list(s)), True, ctx, f'{s} loaded twice')
    pair(u, u, True, ctx, f'{s} with itself')
    for t, ref2, v in _loaded[:i] if ctx.tier == 'quick' else _loaded:
        if ref != ref2:
            pair(u, v, False, ctx, f'{s} and {t}')


# ------------------------------------------------------------ one item of a rich log is different

BASE = [('B', (1,) + (0,) * 7, (0,) * 8, (0, 0, 0)), FN, FA, FB, FC, F('unused', 'int8_t[3] z', 'n[2] y'), ('I', 'char[2]', 'sys', 'ab'),
        ('I', 'uint32_t', 'ver', 77), ('I', 'uint8_t[3]', 'raw', b'\1\2\3'), ('M', 'char[1]', 'm', 'a', 0), ('M', 'char[1]', 'm', 'b', 1),
        ('M', 'uint8_t[2]', 'r', b'\1\2', 0), ('P', 'int32_t', 'P1', 5), ('P', 'float', 'P2', 0.5), ('Q', 1, 'int32_t', 'P1', 6),
        ('Q', 2, 'float', 'P2', 1.5), ('A', 0, 0, 'a'), ('A', 1, 1, 'a'), ('A', 0, 2, 'b'), ('A', 0, 3, 'c'), da(0, 10, 1.0),
        da(1, 11, 2.0), db(2, -1, 12), dc(3, 13), ('L', 54, 9, 'hello'), ('C', 52, 3, 15, 'tagged'), ('O', 12), da(0, 14, 5.0),
        ('P', 'int32_t', 'P1', 9), ('I', 'int32_t', 'late', 3), ('M', 'char[1]', 'm', 'c', 1), ('O', 1), da(1, 17, 9.0)]


def variants(m):
    """ the message with one of its parts changed """
    k = m[0]
    out = []
    if k == 'B':
        for i in range(8):
            c = list(m[1])
            c[i] ^= 0x10
            out.append((k, tuple(c), m[2], m[3]))
        out.append((k, m[1], (1,) + (0,) * 7, m[3]))
    elif k == 'F' and m[1] == 'unused':
        out.append((k, 'other', m[2]))
        for i, (t, n, f) in enumerate(m[2]):
            for new in ((t if t != 'n' else 'uint8_t', n + 1, f), ('uint8_t', n, f), (t, n, f + 'x')):
                fields = list(m[2])
                fields[i] = new
                out.append((k, m[1], tuple(fields)))
        out += [(k, m[1], m[2][:1]), (k, m[1], m[2][::-1]), (k, m[1], m[2] + (('bool', 0, 'q'),))]
    elif k in 'IP':
        v = m[3]
        out.append((k, m[1], m[2] + 'x', v))
        out.append((k, m[1], m[2], v + 1 if not isinstance(v, (str, bytes)) else v[:-1] + v[:1]))
    elif k == 'M':
        out += [m[:3] + (m[3][:-1] + (b'\x09' if isinstance(m[3], bytes) else 'z'), m[4]), m[:2] + (m[2] + 'x',) + m[3:]]
        if m[2] == 'm':
            out.append(m[:4] + (1 - m[4],))
    elif k == 'Q':
        out += [(k, 3 - m[1]) + m[2:], m[:3] + (m[3] + 'x', m[4]), m[:4] + (m[4] + 1,)]
    elif k == 'D':
        for i in range(len(m[2])):
            p = bytearray(m[2])
            p[i] ^= 1
            out.append((k, m[1], bytes(p)))
    elif k == 'A':
        out.append((k, m[1] + 7, m[2], m[3]))
    elif k in 'LC':
        out += [(k, m[1] + 1) + m[2:], m[:-2] + (m[-2] + 1, m[-1]), m[:-1] + (m[-1] + '!',), m[:-1] + ('',)]
        if k == 'C':
            out.append((k, m[1], m[2] + 256) + m[3:])
    elif k == 'O':
        out.append((k, m[1] + 1))
    return out


def mutants():
    for i, m in enumerate(BASE):
        for v in variants(m):
            yield i, BASE[:i] + [v] + BASE[i + 1:]
        if m[0] not in 'BFA':
            yield i, BASE[:i] + BASE[i + 1:]            # missing
            yield i, BASE[:i + 1] + BASE[i:]            # twice


def gen_mutants(_tier):
    for k, (i, msgs) in enumerate(mutants()):
        yield k


def run_mutants(k, ctx):
    i, msgs = next(itertools.islice(mutants(), k, None))
    r1, r2 = run(BASE).result(), run(msgs).result()
    ctx.state(r2)
    ctx.transitions += len(msgs)
    u, v = load(BASE), load(msgs)
    if r1 == r2 and msgs[0] == BASE[0]:
        return      # e.g. an initial parameter that is set twice
    pair(u, v, False, ctx, f'{BASE[i]} changed to {msgs[i] if i < len(msgs) else None}')
    pair(u, load(BASE, 3), False, ctx, 'start time')
    for other in (None, 5, 'x', [], object()):
        if u == other or not u != other:
            raise Violation(f'a log is equal to {other!r}')


# ------------------------------------------------------------ single datasets and messages

def gen_parts(_tier):
    fields = ['int8_t x', 'uint8_t x', 'int16_t x', 'float x', 'bool x', 'int8_t y', 'int8_t[1] x', 'char x', 'n x']
    for f in fields:
        for pos in (0, 1):
            yield (f, pos, 't', 0, 5, (1, 1))
    for name in ('u', 't2'):
        yield ('int8_t x', 1, name, 0, 5, (1, 1))
    for multi in (1, 5):
        yield ('int8_t x', 1, 't', multi, 5, (1, 1))
    for msg_id in (6, 261):
        yield ('int8_t x', 1, 't', 0, msg_id, (1, 1))
    for vals in ((1,), (1, 0), (0, 1), (1, 1, 1)):
        yield ('int8_t x', 1, 't', 0, 5, vals)


def part_log(case):
    field, pos, name, multi, msg_id, vals = case
    fields = ['uint64_t timestamp', 'uint8_t z']
    fields.insert(pos, field)
    fmts = [F('n', 'int8_t i'), F(name, *fields)]
    typ = field.split(' ')[0].split('[')[0]
    code = {'n': 'b', 'char': 'b'}.get(typ) or BASIC[typ][0]
    msgs = fmts + [('A', multi, msg_id, name)]
    for k, v in enumerate(vals):
        parts = [struct.pack('<Q', 10 + k), b'\x07']
        parts.insert(pos, struct.pack('<' + code, v))
        msgs.append(('D', msg_id, b''.join(parts)))
    return msgs


def run_parts(case, ctx):
    logs = [part_log(case) + [('L', 48, 1, 'x')]]
    mine = load(logs[0])
    saved = DatabaseULog(dbtools.fresh(ctx), log_file=stream(encode(logs[0])))
    saved.save()
    for other in gen_parts(None):
        v = load(part_log(other) + [('L', 48, 1, 'x')])
        same = case == other
        pair(mine.data_list[0], v.data_list[0], same, ctx, f'datasets of {case} and {other}')
        pair(mine, v, same, ctx, f'{case} and {other}')
        pair(saved, v, same, ctx, f'{case}, saved, and {other}')
        pair(saved.data_list[0], v.data_list[0], same, ctx, f'datasets of {case}, saved, and {other}')
    for u in (mine, saved):
        for part in (u.data_list[0], u.data_list[0].field_data[0], u.logged_messages[0], u.message_formats[case[2]]):
            for x in (None, 5, 'x', object()):
                if part == x or not part != x:
                    raise Violation(f'{part!r} is equal to {x!r}')


MESSAGES = [('L', 48, 9, 'x'), ('L', 49, 9, 'x'), ('L', 48, 10, 'x'), ('L', 48, 9, 'y'), ('C', 48, 1, 9, 'x'), ('C', 48, 257, 9, 'x'),
            ('C', 49, 1, 9, 'x'), ('C', 48, 1, 10, 'x'), ('C', 48, 1, 9, ''), ('O', 5), ('O', 6), ('O', 261),
            F('f', 'int8_t x'), F('f', 'int8_t y'), F('f', 'uint8_t x'), F('f', 'int8_t[1] x'), F('f', 'int8_t x', 'int8_t y'), F('g', 'int8_t x')]


def part_of(m, ts):
    u = load([FA] + ([m] if m[0] == 'F' else []) + [('A', 0, 0, 'a'), da(0, ts)] + ([m] if m[0] != 'F' else []))
    return (u.logged_messages + [x for v in u.logged_messages_tagged.values() for x in v] + u.dropouts +
            [f for n, f in u.message_formats.items() if n != 'a'])[0]


def gen_messages(_tier):
    for i in range(len(MESSAGES)):
        for ts in (3, 4):
            yield i, ts


def run_messages(case, ctx):
    i, ts = case
    one = part_of(MESSAGES[i], ts)
    for j, t in gen_messages(None):
        same = i == j and (MESSAGES[i][0] != 'O' or t == ts)
        pair(one, part_of(MESSAGES[j], t), same, ctx, f'{MESSAGES[i]} at {ts} and {MESSAGES[j]} at {t}')


# ------------------------------------------------------------ what has no influence

def gen_order(_tier):
    defs, subs, data = BASE[5:16], BASE[16:20], BASE[20:24]
    for p in itertools.permutations(range(4)):
        for q in itertools.permutations(range(4)):
            for rot in (0, 3, 7):
                yield p, q, rot


def run_order(case, ctx):
    p, q, rot = case
    defs, subs, data = BASE[5:9] + BASE[11:16], BASE[16:20], BASE[20:24]
    defs = defs[rot:] + defs[:rot]
    msgs = BASE[:5] + BASE[9:11] + defs + [subs[i] for i in p] + [data[i] for i in q] + BASE[24:]
    ctx.transitions += len(msgs)
    pair(load(BASE), load(msgs), True, ctx, f'order of definitions {rot}, subscriptions {p}, topics {q}')


NAMES = [('t', 0), ('T', 0), ('t', 1), ('T', 1), ('t_', 0), ('t0', 0), ('é', 0), ('t', 10), ('t', 2)]


def gen_names(tier):
    for n in (2, 3, 4) if tier == 'quick' else (2, 3, 4, 5):
        yield from itertools.combinations(range(len(NAMES)), n)


def run_names(case, ctx):
    """ similar names, subscribed in any order """
    fmts = [F(n, 'uint64_t timestamp', 'int8_t x') for n in dict.fromkeys(NAMES[i][0] for i in case)]
    subs = [('A', NAMES[i][1], i, NAMES[i][0]) for i in case]
    data = [('D', i, struct.pack('<Qb', 5, i)) for i in case]
    first = load(fmts + subs + data)
    for q in itertools.permutations(range(len(case))):
        ctx.transitions += len(case)
        ctx.state((case, q))
        other = load(fmts + [subs[i] for i in q] + data)
        pair(first, other, True, ctx, f'subscriptions {[NAMES[i] for i in case]} in the order {q}')


# ------------------------------------------------------------ database objects

def gen_db(_tier):
    for k, _ in enumerate(mutants()):
        if k % 3 == 0:
            yield k
    for i in range(len(OPS)):
        yield -1 - i


def run_db(k, ctx):
    if k < 0:
        base, msgs = PRE + OPS[:1], PRE + [OPS[:1][0], OPS[-1 - k]]
        if any(m[0] == 'M' for m in msgs):
            return
    else:
        base, msgs = list(BASE), next(itertools.islice(mutants(), k, None))[1]
    handle = dbtools.fresh(ctx)
    out = []
    for m in (base, msgs):
        u = DatabaseULog(handle, log_file=stream(encode(m)))
        u.save()
        out.append((load(m), u, DatabaseULog(handle, primary_key=u.primary_key, lazy=False),
                    DatabaseULog(handle, primary_key=u.primary_key, lazy=False)))
    (u1, s1, d1, e1), (u2, s2, d2, _) = out
    pair(u1, d1, True, ctx, f'{k}: log and the same from the database')
    pair(u2, d2, True, ctx, f'{k}: log and the same from the database')
    pair(d1, e1, True, ctx, f'{k}: database log loaded twice')
    pair(u1, s1, True, ctx, f'{k}: log and saved database log')
    if run(base).result() != run(msgs).result():
        for a in (u1, s1, d1):
            for b in (u2, s2, d2):
                pair(a, b, False, ctx, f'{k}: different logs, {type(a).__name__} {type(b).__name__}')


def families():
    return [
        Family('pairs', gen_pairs, run_pairs, 'all pairs of message sequences'),
        Family('mutants', gen_mutants, run_mutants, 'a rich log with one part changed'),
        Family('datasets', gen_parts, run_parts, 'single datasets, all pairs'),
        Family('messages', gen_messages, run_messages, 'single messages, all pairs'),
        Family('order', gen_order, run_order, 'orders of definitions, subscriptions and topics'),
        Family('names', gen_names, run_names, 'topics of similar names, subscribed in every order'),
        Family('database', gen_db, run_db, 'database logs'),
    ]
