"""
I/O faults and crash images of SQLite databases, enumerated from the file operations of one execution.

A recorded execution is the list of its writes, truncations, syncs and deletes.  Crash images are the
contents the files can have when the process is killed after any operation (everything written so far is
there) or power is lost (operations after the last sync of a file may be missing in any of the enumerated
patterns, deletions and creations may be undone).
"""
import contextlib
import gc
import os
from . import sqlvfs

WRITE_ERRORS = {'write': sqlvfs.IOERR_WRITE, 'truncate': sqlvfs.IOERR_TRUNCATE, 'sync': sqlvfs.IOERR_FSYNC,
                'delete': sqlvfs.IOERR_DELETE}
ERRORS = dict(WRITE_ERRORS, read=sqlvfs.IOERR_READ, lock=sqlvfs.BUSY, open=sqlvfs.IOERR)


@contextlib.contextmanager
def hooked(f):
    with quiet():
        sqlvfs.install()
        sqlvfs.set_hook(f)
        try:
            yield
        finally:
            sqlvfs.set_hook(None)


_frozen = []


@contextlib.contextmanager
def quiet():
    """ without garbage collections, which would close connections of other executions: a connection is
    part of a reference cycle """
    if not _frozen:
        gc.collect()
        gc.freeze()
        _frozen.append(1)
    gc.collect()
    gc.disable()
    try:
        yield
    finally:
        gc.enable()


def record(call, kinds=('write', 'truncate', 'sync', 'delete', 'open')):
    """ (result of the call, its file operations) """
    ops = []

    def hook(kind, name, *args):
        if kind in kinds and name:
            ops.append((kind, name) + args)
        return sqlvfs.OK
    with hooked(hook):
        out = call()
    return out, ops


def faulty(call, kinds, k, persistent=False, error=None):
    """ the call with its k-th operation of these kinds failing (and all later ones, if persistent);
    (what it returned, exception, whether the fault happened) """
    n = [0]

    def hook(kind, name, *_args):
        if kind == 'sleep':
            return 1        # do not really wait for locks
        if kind in kinds and name:
            n[0] += 1
            if n[0] - 1 == k or (persistent and n[0] - 1 > k):
                return error or ERRORS[kind]
        return sqlvfs.OK
    with hooked(hook):
        try:
            return call(), None, n[0] > k
        except Exception as e:  # pylint: disable=broad-except
            e.__traceback__ = None      # it would keep the connection open
            return None, e, n[0] > k


class _File:
    def __init__(self, content):
        self.content = content      # as if every operation was carried out; None: there is no file
        self.synced = content       # what is certainly there
        self.pending = []           # operations since
        self.deleted = None         # the deleted file of this name, while the deletion can be undone

    def apply(self, op):
        if op[0] == 'open' and self.pending:    # a new file: what is written to it is not in the old one
            self.deleted, self.synced, self.pending = self.synced, None, []
        self.pending.append(op)
        self.content = play(self.content, op)

    def sync(self):
        self.synced, self.pending, self.deleted = self.content, [], None


def play(content, op):
    if op[0] == 'write':
        off, data = op[2:]
        content = content or b''
        content = content[:off].ljust(off, b'\0') + data + content[off + len(data):]
    elif op[0] == 'truncate':
        content = (content or b'')[:op[2]].ljust(op[2], b'\0')
    elif op[0] == 'delete':
        content = None
    elif op[0] == 'open':
        content = content or b''
    return content


def subsets(n):
    """ which of n pending operations persist """
    if n <= 5:
        for mask in range(1 << n):
            yield [i for i in range(n) if mask >> i & 1]
        return
    yield []
    for i in range(n):
        yield [i]
        yield [j for j in range(n) if j != i]
        yield list(range(i + 1))
        yield list(range(i, n))
    yield list(range(0, n, 2))
    yield list(range(1, n, 2))


def images(before, ops, power=True):
    """ (index of the last operation, kind of crash, {name: content}) for every crash; `before` maps the
    names of the existing files to their content """
    files = {name: _File(content) for name, content in before.items()}
    seen = set()

    def emit(i, kind, image):
        image = {k: v for k, v in image.items() if v is not None}
        key = hash(tuple(sorted(image.items())))
        if key not in seen:
            seen.add(key)
            yield i, kind, image

    yield from emit(-1, 'killed', {k: f.content for k, f in files.items()})
    for i, op in enumerate(ops):
        f = files.setdefault(op[1], _File(None))
        if op[0] == 'sync' or op[0] == 'delete' or i == len(ops) - 1:
            if power:
                yield from lost(i, files, emit)
        if op[0] == 'sync':
            f.sync()
        elif op[0] == 'open':
            if f.content is None:
                f.apply(op)
        else:
            f.apply(op)
        yield from emit(i, 'killed', {k: x.content for k, x in files.items()})
        if power and op[0] == 'delete':
            yield from lost(i, files, emit)
    if power:
        yield from lost(len(ops), files, emit)


def lost(i, files, emit):
    for name, f in files.items():
        if not f.pending:
            continue
        def variants(f=f):
            for keep in subsets(len(f.pending)):
                content = f.synced
                for j in keep:
                    content = play(content, f.pending[j])
                yield content
            if f.deleted is not None:
                yield f.deleted
        for content in variants():
            for others in ('content', 'synced'):
                image = {k: getattr(x, others) for k, x in files.items()}
                image[name] = content
                yield from emit(i, 'power lost', image)


def put(image, names, path):
    """ write an image to the database file `path` and its journals; `names` is the original path """
    for suffix in ('', '-journal', '-wal', '-shm'):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(path + suffix)
        if names + suffix in image:
            with open(path + suffix, 'wb') as f:
                f.write(image[names + suffix])


def take(path):
    """ the image of the database file and its journals """
    image = {}
    for suffix in ('', '-journal', '-wal', '-shm'):
        with contextlib.suppress(FileNotFoundError):
            with open(path + suffix, 'rb') as f:
                image[path + suffix] = f.read()
    return image
