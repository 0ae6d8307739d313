"""
C24: the message listing shows every logged string and event once, in order of time.

The event definitions are interpreted by a library that is not part of this repository (and not present):
a stand-in parser records the definitions it is given and answers from a table.
"""
import io
import itertools
import json
import lzma
import os
import struct
import sys
import types
from unittest import mock
from vlib.alpha import F, FA, cstr, da, seqs, stream
from vlib.cli import cli, put, quiet, require, scratch
from vlib.engine import Family, expect
from vlib.ulg import encode

ID, LEVEL = 'C24', 'model_checking'
RULE = 'every sequence of messages and events stated; outcomes are distinct listings'
ASSUMPTIONS = ['the event library interprets definitions correctly (replaced by a table here)',
               'whether an event or a string with the same time stamp comes first is left open']


class Event:
    def __init__(self, group, message):
        self._group, self._message = group, message

    def group(self):
        return self._group

    def message(self):
        return self._message


class Parser:
    """ stand-in for the event library: definitions are {'events': {id: [group, text]}} """

    def __init__(self):
        self.defs = {}

    def load_definitions(self, definitions):
        self.defs.update({int(k): v for k, v in definitions['events'].items()})

    def set_profile(self, profile):
        pass

    def parse(self, event_id, args):
        d = self.defs.get(int(event_id))
        if d is None:
            return None
        require(isinstance(args, bytes), 'arguments are bytes')
        return Event(d[0], f'{d[1]} {args.hex()}')


def modules():
    """ (pyulog.messages, pyulog.px4_events) with the stand-in parser """
    fake = types.ModuleType('pyulog.libevents_parse')
    fake.__path__ = []
    sub = types.ModuleType('pyulog.libevents_parse.parser')
    sub.Parser = Parser
    fake.parser = sub
    with mock.patch.dict(sys.modules, {'pyulog.libevents_parse': fake, 'pyulog.libevents_parse.parser': sub}):
        from pyulog import messages, px4_events
    return messages, px4_events


LEVELS = ['EMERGENCY', 'ALERT', 'CRITICAL', 'ERROR', 'WARNING', 'NOTICE', 'INFO', 'DEBUG']
DEFS = {1: ['default', 'one'], 2: ['health', 'two'], 2**32 - 1: ['default', 'big']}


def fmt_event(nargs, first=False):
    args = [f'uint8_t[{nargs}] arguments'] if nargs else []
    return F('event', *(args if first else []), 'uint64_t timestamp', 'uint32_t id', 'uint8_t log_levels',
             *([] if first else args), 'uint8_t event_sequence')


def event(ts, eid, levels, args, first=False):
    return ('D', 5, (args if first else b'') + struct.pack('<QIB', ts, eid, levels) + (b'' if first else args) + b'\x09')


def metadata(defs, parts=1, xz=True):
    """ information messages with event definitions in the log """
    raw = lzma.compress(json.dumps({'events': defs}).encode()) if xz else b'\0garbage'
    n = max(1, len(raw) // parts)
    chunks = [raw[i:i + n] for i in range(0, len(raw), n)]
    return [('M', f'uint8_t[{len(c)}]', 'metadata_events', c, int(i > 0)) for i, c in enumerate(chunks)] + \
        [cstr('metadata_events_sha256', '0123456789abcdef' * 4)]


def event_lines(events, defs):
    """ events: [(ts, id, levels, args)] -> [(ts, level, text)] """
    out = []
    for ts, eid, levels, args in events:
        level = levels >> 4
        if level >= 8:
            continue
        d = defs.get(eid)
        if d is None:
            out.append((ts, LEVELS[level], f'[Unknown event with ID {eid}]'))
        elif d[0] == 'default':
            out.append((ts, LEVELS[level], f'{d[1]} {args.hex()}'))
    return out


def hms(us):
    s = us // 1000000
    return f'{s // 3600}:{s // 60 % 60:02d}:{s % 60:02d}'


def check_listing(msgs, strings, events, ctx, px4):
    """ strings: [(ts, level, text)] in file order, as shown; events: event_lines() """
    messages, _ = modules()
    path = put(os.path.join(scratch(ctx), 'log.ulg'), encode(msgs))
    with mock.patch('urllib.request.OpenerDirector.open', side_effect=OSError('no network')):
        text, code = cli(messages.main, path)
    require(not code, f'exit status {code}')
    ctx.executions += 1
    ctx.transitions += len(msgs)
    ctx.outcome(text)
    ctx.state((strings, events))
    line = lambda m: f'{hms(m[0])} {m[1]}: {m[2]}\n'    # noqa: E731
    if not px4:
        expect(''.join(line(m) for m in strings), text, 'listing')
        return
    strings = [m for m in strings if not m[2].endswith('\t')]
    # both orders of an event and a string with the same time stamp are right
    one = sorted(events + strings, key=lambda m: m[0])
    two = sorted(strings + events, key=lambda m: m[0])
    if text != ''.join(line(m) for m in two):
        expect(''.join(line(m) for m in one), text, 'listing')


# ------------------------------------------------------------ sequences

OPS = [('L', 54, 3000000, 'text'), ('L', 52, 1000000, 'tab\t'), ('L', 53, 90000000, 'late\t'), ('L', 48, 61000000, ''), ('L', 51, 3000000, 'two\tw\0rds'),
       ('C', 54, 7, 2000000, 'tagged'), ('E', 1000000, 1, 0x36, b'\1\2'), ('E', 3000000, 7, 0x6f, b'\0\0'),
       ('E', 2000000, 2, 0x55, b'\3\3'), ('E', 60000000, 2**32 - 1, 0x80, b'\4\4'), ('E', 60000001, 2**32 - 1, 0x7f, b'\xff\0')]


def gen_seqs(tier):
    for s in seqs(OPS, 4 if tier == 'quick' else 5):
        for kind in (0, 1, 2, 3):
            yield s, kind


def run_seqs(case, ctx):
    s, kind = case
    msgs = [fmt_event(2), FA] + metadata(DEFS)
    px4 = kind in (1, 3)
    if kind:
        msgs.append(cstr('sys_name', 'PX4' if px4 else 'PX4x'))
    if kind != 3:
        msgs.append(('A', 0, 5, 'event'))
    msgs += [('A', 0, 6, 'a'), da(6, 1)]
    strings, events = [], []
    for m in s:
        if m[0] == 'E':
            if kind != 3:
                msgs.append(event(*m[1:]))
                events.append(m[1:])
        else:
            msgs.append(m)
            if m[0] == 'L':
                strings.append((m[2], LEVELS[m[1] - 48], m[3]))
    check_listing(msgs, strings, event_lines(events, DEFS) if px4 else [], ctx, px4)


# ------------------------------------------------------------ levels, times, arguments

def gen_levels(_tier):
    for px4 in (False, True):
        for level in range(256):
            yield px4, level


def run_levels(case, ctx):
    px4, level = case
    msgs = [fmt_event(1, True)] + metadata(DEFS, 10**9 if level % 8 == 6 else 3) + ([cstr('sys_name', 'PX4')] if px4 else [])
    msgs += [('A', 0, 5, 'event'), ('L', level, 5, 'text'), event(6, 1, level, b'\7', True)]
    name = LEVELS[level - 48] if 48 <= level < 56 else 'UNKNOWN'
    check_listing(msgs, [(5, name, 'text')], event_lines([(6, 1, level, b'\7')], DEFS) if px4 else [], ctx, px4)


TIMES = [0, 999999, 1000000, 59999999, 60000000, 3599999999, 3600000000, 86400000000, 2**45]


def gen_times(_tier):
    yield from itertools.product(TIMES, TIMES, (False, True))


def run_times(case, ctx):
    a, b, px4 = case
    msgs = [fmt_event(0)] + metadata(DEFS) + ([cstr('sys_name', 'PX4')] if px4 else [])
    msgs += [('A', 0, 5, 'event'), ('L', 54, a, 's'), event(b, 1, 0x30, b''), ('L', 53, b, 't'), event(a, 9, 0x20, b'')]
    check_listing(msgs, [(a, 'INFO', 's'), (b, 'NOTICE', 't')],
                  event_lines([(b, 1, 0x30, b''), (a, 9, 0x20, b'')], DEFS) if px4 else [], ctx, px4)


def gen_args(_tier):
    for n in (0, 1, 2, 9, 10, 11, 25, 101):
        for first in (False, True):
            for eid in (0, 1, 2, 255, 2**31, 2**32 - 1):
                yield n, first, eid


def run_args(case, ctx):
    n, first, eid = case
    args = bytes((i * 37 + 130) & 255 for i in range(n))
    msgs = [fmt_event(n, first)] + metadata(DEFS, 7) + [cstr('sys_name', 'PX4'), ('A', 0, 5, 'event')]
    events = [(k + 1, eid, 0x10 * k, bytes((x + k) & 255 for x in args)) for k in range(3)]
    msgs += [event(*e, first) for e in events]
    check_listing(msgs, [], event_lines(events, DEFS), ctx, True)


# ------------------------------------------------------------ one object, several logs

OTHER = {1: ['default', 'other one'], 3: ['default', 'three']}
DEFAULT = {1: ['default', 'default one'], 2: ['default', 'default two']}
DEFAULT2 = {2: ['default', 'newer two']}
LOGS = ['own', 'other', 'plain', 'broken', 'nohash', 'badhash', 'noevents', 'empty']
ANSWERS = ['defs', 'newer', 'none', 'fail']


def gen_history(tier):
    for n in (1, 2, 3):
        for logs in itertools.product(LOGS if n < 3 else LOGS[:4], repeat=n):
            uses = sum(x in ('plain', 'nohash', 'badhash') for x in logs)
            for answers in itertools.product(ANSWERS, repeat=uses):
                if n < 3 or tier != 'quick' or uses < 3:
                    yield logs, answers


def run_history(case, ctx):
    """ definitions in a log are used for this log only; others come from the callback and are kept """
    logs, answers = case
    from pyulog import ULog
    _, px4_events = modules()
    answers, asked, known = list(answers), [], None
    obj = px4_events.PX4Events()

    def callback(have):
        asked.append(bool(have))
        a = answers[len(asked) - 1]
        if a == 'fail':
            raise OSError('no network')
        return None if a == 'none' else {'events': DEFAULT if a == 'defs' else DEFAULT2}
    obj.set_default_json_definitions_cb(callback)
    used, want_asked = 0, []
    for log in logs:
        msgs = [fmt_event(2)]
        if log in ('own', 'nohash', 'badhash'):
            msgs += metadata(DEFS, 2)
            if log == 'nohash':
                msgs.pop()
            elif log == 'badhash':
                msgs[-1] = cstr('metadata_events_sha256', '../../etc')
        elif log == 'other':
            msgs += metadata(OTHER, 1)
        elif log == 'broken':
            msgs += metadata(OTHER, xz=False)
        events = [] if log == 'empty' else [(5, 1, 0x30, b'ab'), (6, 2, 0x40, b'cd'), (4, 3, 0x61, b'ef')]
        if log != 'noevents':
            msgs += [('A', 0, 5, 'event')] + [event(*e) for e in events]
        want = None
        if log in ('plain', 'nohash', 'badhash'):
            want_asked.append(known is not None)
            a = answers[used]
            used += 1
            if a == 'fail':
                want = []
            else:
                known = known if a == 'none' else DEFAULT if a == 'defs' else DEFAULT2
                want = event_lines(events, known or {})
        else:
            want = event_lines(events, {'own': DEFS, 'other': OTHER}.get(log, {})) if log in ('own', 'other') else []
        with quiet():
            got = obj.get_logged_events(ULog(stream(encode(msgs))))
        got = [(int(t), lev, m) for t, lev, m in got]
        expect(want, got, f'events of log {log!r}')
        expect(want_asked, asked, 'calls for default definitions')
        ctx.executions += 1
        ctx.transitions += len(msgs)
        ctx.outcome((got, asked))
        ctx.state((logs, known, want))


# ------------------------------------------------------------ the default source of definitions

class Response(io.BytesIO):
    status = code = 200
    headers = {}

    def getcode(self):
        return 200


def gen_download(_tier):
    for n in (1, 2, 3):
        for logs in itertools.product(('own', 'plain', 'nohash'), repeat=n):
            for answers in itertools.product(('ok', 'fail', 'garbage'), repeat=sum(x != 'own' for x in logs)):
                for listing in (False, True):
                    if n == 1 or not listing:
                        yield logs, answers, listing


def run_download(case, ctx):
    """ without a callback the definitions are downloaded, once; the network is replaced """
    logs, answers, listing = case
    from pyulog import ULog
    messages, px4_events = modules()
    answers, asked, known = list(answers), [], None

    def respond(*_args, **_kw):
        a = answers[len(asked)]
        asked.append(a)
        if a == 'fail':
            raise OSError('no network')
        return Response(lzma.compress(json.dumps({'events': DEFAULT}).encode()) if a == 'ok' else b'<html>')
    want_asked = []
    obj = px4_events.PX4Events()
    for log in logs:
        msgs = [fmt_event(2), cstr('sys_name', 'PX4')] + (metadata(DEFS, 2) if log == 'own' else metadata(DEFS, 2)[:-1] if log == 'nohash' else [])
        events = [(4, 3, 0x61, b'ef'), (5, 1, 0x30, b'ab'), (6, 2, 0x40, b'cd')]
        msgs += [('A', 0, 5, 'event')] + [event(*e) for e in events]
        want = event_lines(events, DEFS)
        if log != 'own':
            if known is None:
                want_asked.append(answers[len(want_asked)])
                known = DEFAULT if want_asked[-1] == 'ok' else None
            want = event_lines(events, known) if known else []
        with mock.patch('urllib.request.OpenerDirector.open', side_effect=respond), quiet():
            if listing:
                path = put(os.path.join(scratch(ctx), 'log.ulg'), encode(msgs))
                text, code = cli(messages.main, path)
                require(not code, f'exit status {code}')
                want = ''.join(f'{hms(t)} {lev}: {m}\n' for t, lev, m in want)
                got = ''.join(x for x in text.splitlines(True) if not x.startswith('Failed'))
            else:
                got = [(int(t), lev, m) for t, lev, m in obj.get_logged_events(ULog(stream(encode(msgs))))]
        expect(want, got, f'events of log {log!r}')
        expect(want_asked, asked, 'downloads')
        ctx.executions += 1
        ctx.transitions += len(msgs)
        ctx.outcome((got, asked))
        ctx.state((logs, known, want))


def families():
    return [
        Family('sequences', gen_seqs, run_seqs, 'sequences of strings and events x kinds of logs'),
        Family('levels', gen_levels, run_levels, 'all log levels'),
        Family('times', gen_times, run_times, 'pairs of times'),
        Family('arguments', gen_args, run_args, 'sizes of arguments x event ids'),
        Family('download', gen_download, run_download, 'logs x answers of the network'),
        Family('history', gen_history, run_history, 'several logs read with one object x definitions'),
    ]
