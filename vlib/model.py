"""
Reference model of a ULog reader: an explicit state machine, one transition per message.

Written from the published format description; shares no code with /repo.  `Ref.apply(m)` is the
transition function, `Ref.result()` the public result a reader has to report for the log so far.
"""
import struct
from .ulg import BASIC, enc


def cv(v):
    """ canonical, type-aware, hashable form of an information or parameter value """
    if isinstance(v, bool):
        return ('i', int(v))
    if isinstance(v, int):
        return ('i', v)
    if isinstance(v, float):
        return ('f', 'nan' if v != v else struct.pack('<d', v))
    if isinstance(v, str):
        return ('s', v)
    if isinstance(v, (bytes, bytearray)):
        return ('b', bytes(v))
    return ('?', repr(v))


def text(b):
    """ the tolerant decoding: undecodable bytes are dropped """
    return enc(b).decode('utf-8', 'ignore')


def decode_value(typ, raw):
    if typ.startswith('char['):
        return text(raw)
    if typ in BASIC:
        return struct.unpack('<' + BASIC[typ][0], raw)[0]
    return bytes(raw)


def flatten(formats, name, prefix=''):
    """ [(flat field name, basic type)] of a format, nested types expanded in declaration order """
    out = []
    for typ, n, field in formats[name]:
        for suffix in ([f'[{i}]' for i in range(n)] if n else ['']):
            if typ in BASIC:
                out.append((prefix + field + suffix, typ))
            else:
                out.extend(flatten(formats, typ, prefix + field + suffix + '.'))
    return out


class Topic:
    def __init__(self, formats, multi_id, msg_id, name):
        fields = flatten(formats, name)
        full = sum(BASIC[t][1] for _, t in fields)
        while fields and fields[-1][0].startswith('_padding'):
            fields.pop()
        self.name, self.multi_id, self.msg_id = name, multi_id, msg_id
        self.fields = fields
        self.offsets = []
        off = 0
        for _, t in fields:
            self.offsets.append(off)
            off += BASIC[t][1]
        self.size, self.full = off, full
        names = [f for f, _ in fields]
        self.ts_idx = names.index('timestamp')
        self.ts_off = self.offsets[self.ts_idx]
        self.rows = []

    def result(self):
        cols = {}
        for (f, t), off in zip(self.fields, self.offsets):
            sz = BASIC[t][1]
            cols[f] = (BASIC[t][2], sz, b''.join(r[off:off + sz] for r in self.rows))
        return (self.name, self.multi_id, self.msg_id, tuple(self.fields), self.ts_idx,
                tuple(sorted(cols.items())))


class Ref:
    """ reader state; apply() is the transition function """

    def __init__(self, start=0):
        self.start = self.last = start
        self.in_definitions = True
        self.info, self.multi, self.init, self.defaults = {}, {}, {}, {}
        self.changed, self.formats = [], {}
        self.logged, self.tagged, self.drop = [], {}, []
        self.topics = {}
        self.corrupt = False
        self.appended = self.has_defaults = False

    def apply(self, m):
        k = m[0]
        if self.in_definitions and k in 'ALC':
            self.in_definitions = False
        if k == 'I':
            self.info[m[2]] = decode_value(m[1], value_of(m[1], m[3]))
        elif k == 'M':
            v = decode_value(m[1], value_of(m[1], m[3]))
            lists = self.multi.setdefault(m[2], [])
            if m[4] and lists:
                lists[-1].append(v)
            else:
                lists.append([v])
        elif k == 'P':
            v = decode_value(m[1], value_of(m[1], m[3]))
            if self.in_definitions:
                self.init[m[2]] = v
            else:
                self.changed.append((self.last, m[2], v))
        elif k == 'Q':
            v = decode_value(m[2], value_of(m[2], m[4]))
            for bit in range(8):
                if m[1] >> bit & 1:
                    self.defaults.setdefault(bit, {})[m[3]] = v
        elif k == 'B':
            self.has_defaults = bool(m[1][0] & 1)
            self.appended = bool(m[2][0] & 1)
        elif k == 'F':
            if self.in_definitions:
                self.formats[m[1]] = tuple(m[2])
        elif self.in_definitions:
            pass        # data section messages before the first A/L/C are not data
        elif k == 'A':
            self.topics[m[2]] = Topic(self.formats, m[1], m[2], m[3])
        elif k == 'D':
            t = self.topics.get(m[1])
            if t is None or not t.size <= len(m[2]) <= t.full:
                self.corrupt = True
            else:
                t.rows.append(m[2][:t.size])
                ts, = struct.unpack_from('<Q', m[2], t.ts_off)
                self.last = max(self.last, ts)
        elif k == 'L':
            self.logged.append((m[1], m[2], text(m[3])))
        elif k == 'C':
            self.tagged.setdefault(m[2], []).append((m[1], m[3], text(m[4])))
        elif k == 'O':
            self.drop.append((self.last, m[1]))
        # S, R and unknown messages change nothing

    def result(self, names=None):
        data = [t.result() for t in self.topics.values()
                if t.rows and (names is None or t.name in names)]
        return {
            'start': self.start, 'last': self.last,
            'info': {k: cv(v) for k, v in self.info.items()},
            'multi': {k: [[cv(v) for v in l] for l in ls] for k, ls in self.multi.items()},
            'init': {k: cv(v) for k, v in self.init.items()},
            'defaults': {b: {k: cv(v) for k, v in d.items()}
                         for b, d in self.defaults.items()},
            'changed': [(t, k, cv(v)) for t, k, v in self.changed],
            'formats': dict(self.formats),
            'logged': list(self.logged),
            'tagged': {k: list(v) for k, v in self.tagged.items()},
            'dropouts': list(self.drop),
            'data': sorted(data, key=lambda d: (d[0], d[1])),
            'corrupt': self.corrupt, 'appended': self.appended,
            'has_defaults': self.has_defaults,
        }


def value_of(typ, v):
    from .ulg import value_bytes
    return value_bytes(typ, v)


def run(msgs, start=0):
    r = Ref(start)
    for m in msgs:
        r.apply(m)
    return r


# ---------------------------------------------------------------- observing the implementation

_KIND = {'i': 'i', 'u': 'u', 'f': 'f', 'b': 'b'}


def observe_data(d):
    types = {f.field_name: f.type_str for f in d.field_data}
    cols = {}
    for name, arr in d.data.items():
        t = types.get(name)
        want = BASIC[t][2] if t in BASIC else '?'
        kind = arr.dtype.kind
        # bool and char columns are delivered as one-byte integers; any one-byte kind will do
        if want in 'bc' and kind in 'iubS' and arr.dtype.itemsize == 1:
            kind = want
        cols[name] = (kind, arr.dtype.itemsize, arr.astype(arr.dtype.newbyteorder('<')).tobytes())
    return (d.name, int(d.multi_id), int(d.msg_id),
            tuple((f.field_name, f.type_str) for f in d.field_data), d.timestamp_idx,
            tuple(sorted(cols.items())))


def observe(u):
    """ the public result of a loaded ULog, in the shape of Ref.result() """
    return {
        'start': int(u.start_timestamp), 'last': int(u.last_timestamp),
        'info': {k: cv(v) for k, v in u.msg_info_dict.items()},
        'multi': {k: [[cv(v) for v in l] for l in ls]
                  for k, ls in u.msg_info_multiple_dict.items()},
        'init': {k: cv(v) for k, v in u.initial_parameters.items()},
        'defaults': {b: {k: cv(v) for k, v in u.get_default_parameters(b).items()}
                     for b in range(8) if u.get_default_parameters(b)},
        'changed': [(int(t), k, cv(v)) for t, k, v in u.changed_parameters],
        'formats': {k: tuple(tuple(f) for f in v.fields) for k, v in u.message_formats.items()},
        'logged': [(m.log_level, m.timestamp, m.message) for m in u.logged_messages],
        'tagged': {k: [(m.log_level, m.timestamp, m.message) for m in v]
                   for k, v in u.logged_messages_tagged.items()},
        'dropouts': [(int(d.timestamp), int(d.duration)) for d in u.dropouts],
        'data': sorted([observe_data(d) for d in u.data_list], key=lambda d: (d[0], d[1])),
        'corrupt': bool(u.file_corruption), 'appended': bool(u.has_data_appended),
        'has_defaults': bool(u.has_default_parameters),
    }


def diff(want, got, skip=()):
    """ first difference between two results, as text, or None """
    for k in want:
        if k in skip:
            continue
        if want[k] != got[k]:
            return f'{k}: expected {short(want[k])}, got {short(got[k])}'
    return None


def short(v, n=700):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'
