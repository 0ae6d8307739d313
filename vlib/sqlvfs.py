"""
Owns what SQLite does with files: a shim around the default VFS of the SQLite library in this process.

Every connection of the process, however it was opened, performs its reads, writes, syncs, deletes, locks
and sleeps through `hook`, which may observe the call, block it (a scheduling point) or replace it by an
error.  Used for exhaustive enumeration of I/O faults, crash images and lock interleavings.
"""
import ctypes as C
import _sqlite3

OK, BUSY, IOERR, FULL = 0, 5, 10, 13
IOERR_READ, IOERR_WRITE, IOERR_FSYNC, IOERR_TRUNCATE, IOERR_DELETE, IOERR_LOCK = (
    IOERR | n << 8 for n in (1, 3, 4, 6, 10, 15))
P, I, L = C.c_void_p, C.c_int, C.c_int64

OPEN = C.CFUNCTYPE(I, P, P, P, I, P)
DELETE = C.CFUNCTYPE(I, P, P, I)
SLEEP = C.CFUNCTYPE(I, P, I)
CLOSE = C.CFUNCTYPE(I, P)
RW = C.CFUNCTYPE(I, P, P, I, L)
TRUNC = C.CFUNCTYPE(I, P, L)
ARG = C.CFUNCTYPE(I, P, I)


class Vfs(C.Structure):
    _fields_ = [('iVersion', I), ('szOsFile', I), ('mxPathname', I), ('pNext', P), ('zName', C.c_char_p),
                ('pAppData', P), ('xOpen', P), ('xDelete', P), ('xAccess', P), ('xFullPathname', P), ('xDlOpen', P),
                ('xDlError', P), ('xDlSym', P), ('xDlClose', P), ('xRandomness', P), ('xSleep', P)]


class Methods(C.Structure):
    _fields_ = [('iVersion', I)] + [(n, P) for n in (
        'xClose', 'xRead', 'xWrite', 'xTruncate', 'xSync', 'xFileSize', 'xLock', 'xUnlock', 'xCheckReservedLock',
        'xFileControl', 'xSectorSize', 'xDeviceCharacteristics', 'xShmMap', 'xShmLock', 'xShmBarrier', 'xShmUnmap',
        'xFetch', 'xUnfetch')]


def _nothing(_kind, _name, *_args):
    return OK


_hook = [_nothing]
_names = {}         # address of the open file -> name
_patched = {}       # address of the original methods -> our methods
_keep = []          # ctypes callbacks must stay alive


def set_hook(f):
    """ f(kind, name, *args) -> OK to perform the call, or the error it returns instead """
    _hook[0] = f or _nothing


def _wrap(proto, orig_ptr, kind, args):
    orig = proto(orig_ptr)

    def call(file, *rest):
        try:
            rc = _hook[0](kind, _names.get(file, ''), *args(*rest))
        except BaseException:  # pylint: disable=broad-except
            rc = IOERR
        if rc == OK:
            rc = orig(file, *rest)
            if kind == 'lock':
                _hook[0]('locked', _names.get(file, ''), *rest, rc)
        return rc
    out = proto(call)
    _keep.append(out)
    return C.cast(out, P).value


def _methods(ptr):
    if ptr not in _patched:
        m = Methods()
        C.memmove(C.byref(m), ptr, C.sizeof(Methods))
        if m.iVersion < 3:
            m.xFetch = m.xUnfetch = None
        orig_close = CLOSE(m.xClose)

        def close(file):
            _hook[0]('close', _names.get(file, ''))
            _names.pop(file, None)
            return orig_close(file)
        cb = CLOSE(close)
        _keep.append(cb)
        m.xClose = C.cast(cb, P).value
        m.xRead = _wrap(RW, m.xRead, 'read', lambda buf, n, off: (n, off))
        m.xWrite = _wrap(RW, m.xWrite, 'write', lambda buf, n, off: (off, C.string_at(buf, n)))
        m.xTruncate = _wrap(TRUNC, m.xTruncate, 'truncate', lambda size: (size,))
        m.xSync = _wrap(ARG, m.xSync, 'sync', lambda flags: (flags,))
        m.xLock = _wrap(ARG, m.xLock, 'lock', lambda level: (level,))
        m.xUnlock = _wrap(ARG, m.xUnlock, 'unlock', lambda level: (level,))
        _keep.append(m)
        _patched[ptr] = C.addressof(m)
    return _patched[ptr]


def install():
    """ patch the default VFS, once per process """
    if _keep:
        return
    lib = C.CDLL(getattr(_sqlite3, '__file__', None))
    lib.sqlite3_vfs_find.restype = C.POINTER(Vfs)
    lib.sqlite3_vfs_find.argtypes = [C.c_char_p]
    vfs = lib.sqlite3_vfs_find(None).contents
    orig_open, orig_delete, orig_sleep = OPEN(vfs.xOpen), DELETE(vfs.xDelete), SLEEP(vfs.xSleep)

    def xopen(v, name, file, flags, out):
        text = C.string_at(name).decode() if name else ''
        try:
            rc = _hook[0]('open', text, flags)
        except BaseException:  # pylint: disable=broad-except
            rc = IOERR
        if rc != OK:
            C.cast(file, C.POINTER(P))[0] = None
            return rc
        rc = orig_open(v, name, file, flags, out)
        slot = C.cast(file, C.POINTER(P))
        if rc == OK and slot[0]:
            slot[0] = _methods(slot[0])
            _names[file] = text
        return rc

    def xdelete(v, name, sync):
        try:
            rc = _hook[0]('delete', C.string_at(name).decode(), sync)
        except BaseException:  # pylint: disable=broad-except
            rc = IOERR
        return orig_delete(v, name, sync) if rc == OK else rc

    def xsleep(v, us):
        try:
            rc = _hook[0]('sleep', '', us)
        except BaseException:  # pylint: disable=broad-except
            rc = 1
        return us if rc else orig_sleep(v, us)

    for field, proto, f in (('xOpen', OPEN, xopen), ('xDelete', DELETE, xdelete), ('xSleep', SLEEP, xsleep)):
        cb = proto(f)
        _keep.append(cb)
        setattr(vfs, field, C.cast(cb, P).value)
    _keep.extend([vfs, lib, orig_open, orig_delete, orig_sleep])
