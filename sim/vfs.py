"""
Simulated disk: a SQLite VFS in ctypes, registered as the process default, so that the real sqlite3 module and the real SQLite
library do all their file I/O, locking, shared memory, randomness and sleeping through this file.  Nothing touches the real disk.

Durability model (power loss): data written but not yet synced survives per 512-byte sector as the crash decides (none, all, a prefix
in write order, or an arbitrary subset); directory operations are journaled in order, a sync makes all earlier ones durable, and at a
power loss a prefix of the rest survives.  A sync that returned is never undone.  A process kill keeps everything written.
"""
from __future__ import annotations

import ctypes as C
import hashlib
import random
import sys

SECTOR = 512
OK, ERROR, BUSY, NOMEM, READONLY, INTERRUPT, IOERR, CORRUPT, NOTFOUND, FULL, CANTOPEN = 0, 1, 5, 7, 8, 9, 10, 11, 12, 13, 14
IOERR_READ, IOERR_SHORT_READ, IOERR_WRITE, IOERR_FSYNC, IOERR_TRUNCATE, IOERR_FSTAT = (10 | (k << 8) for k in (1, 2, 3, 4, 6, 7))
IOERR_DELETE, IOERR_ACCESS, IOERR_LOCK, IOERR_CLOSE, IOERR_SHMMAP, IOERR_SHMLOCK = (10 | (k << 8) for k in (10, 13, 15, 16, 21, 20))
IOERR_DELETE_NOENT = 10 | (23 << 8)
OPEN_DELETEONCLOSE, OPEN_CREATE, OPEN_EXCLUSIVE, OPEN_READWRITE, OPEN_READONLY = 0x8, 0x4, 0x10, 0x2, 0x1
ROOT = '/simdisk/'


class File:
    __slots__ = ('cur', 'durable', 'pending', 'fid')

    def __init__(self, data=b'', fid=None):
        self.cur = bytearray(data)
        self.durable = bytes(data)
        self.pending = []            # ('w', off, data) | ('t', size) since the last sync
        self.fid = fid

    def clone(self):
        f = File(fid=self.fid)
        f.cur, f.durable, f.pending = bytearray(self.cur), self.durable, list(self.pending)
        return f


class DiskImage:
    """A frozen picture of the disk: names -> File, plus the not yet durable directory operations."""

    def __init__(self, names, dirlog, old):
        self.names, self.dirlog, self.old = names, dirlog, old

    def after_kill(self):
        return {k: bytes(f.cur) for k, f in self.names.items()}

    def after_power_loss(self, rng: random.Random, mode: str):
        """mode: none | all | prefix | subset."""
        keep = {'none': 0, 'all': len(self.dirlog)}.get(mode)
        if keep is None:
            keep = rng.randint(0, len(self.dirlog))
        names = dict(self.old)
        for op, name, f in self.dirlog[:keep]:
            if op == 'create':
                names[name] = f
            else:
                names.pop(name, None)
        out = {}
        for name in sorted(names):
            f = names[name]
            data = bytearray(f.durable)
            pend = f.pending
            if mode == 'none':
                pend = []
            elif mode == 'prefix':
                pend = pend[:rng.randint(0, len(pend))]
            for i, op in enumerate(pend):
                if op[0] == 't':
                    if mode == 'subset' and rng.random() < 0.5:
                        continue
                    _trunc(data, op[1])
                    continue
                _, off, buf = op
                torn_last = mode == 'prefix' and i == len(pend) - 1
                cut = rng.randint(0, len(buf)) if torn_last else len(buf)
                pos = 0
                while pos < cut:
                    end = min(cut, ((off + pos) // SECTOR + 1) * SECTOR - off)
                    if mode != 'subset' or rng.random() < 0.5:
                        _put(data, off + pos, buf[pos:end])
                    pos = end
            out[name] = bytes(data)
        return out


def _put(data, off, buf):
    if len(data) < off:
        data.extend(b'\0' * (off - len(data)))
    data[off:off + len(buf)] = buf


def _trunc(data, size):
    if size < len(data):
        del data[size:]
    else:
        data.extend(b'\0' * (size - len(data)))


class Shm:
    def __init__(self):
        self.regions = []
        self.locks = [dict() for _ in range(8)]      # slot -> {handle: 'S'|'X'}
        self.users = set()


class Handle:
    __slots__ = ('id', 'name', 'file', 'flags', 'level', 'shm', 'owner', 'struct', 'keep', 'slots')

    def __init__(self, id, name, file, flags, owner):
        self.id, self.name, self.file, self.flags, self.owner = id, name, file, flags, owner
        self.level = 0
        self.shm = None


class SimDisk:
    """The simulated disk and its seams.  `hook(op, name, detail)` is called before every operation and may return an error code, or
    ('torn', k) for a write of which only k bytes land before the process dies; the scheduler switches threads in it."""

    def __init__(self, files=None, seed=0):
        self.files: dict[str, File] = {}
        self.next_fid = 0
        for k, v in (files or {}).items():
            self.files[k] = File(v, self.new_fid())
        self.initial = dict(files or {})
        self.durable_names = dict(self.files)
        self.log = None              # list of mutating operations, if recording
        self.dirlog = []                              # [(create|delete, name, File)]
        self.handles: dict[int, Handle] = {}
        self.next_handle = 1
        self.shms: dict[str, Shm] = {}
        self.rng = random.Random(seed)
        self.ops = 0
        self.counts = {}
        self.hook = None
        self.after = None
        self.clock = None
        self.owner = lambda: 0
        self.h = hashlib.blake2b(digest_size=8)
        self.capacity = None                          # bytes, None = unlimited
        self.sleeper = None

    def new_fid(self):
        self.next_fid += 1
        return self.next_fid

    # -- states
    def at(self, k, torn=None):
        """The disk as it was after the first k recorded mutating operations (and a prefix of the next write)."""
        d = SimDisk(self.initial)
        by = {f.fid: f for f in d.files.values()}
        for op in self.log[:k]:
            d.apply(op, by)
        if torn is not None and k < len(self.log) and self.log[k][0] == 'write':
            _, fid, name, off, data = self.log[k]
            d.apply(('write', fid, name, off, data[:torn]), by)
        return d.image()

    def apply(self, op, by):
        kind, fid, name = op[:3]
        f = by.get(fid)
        if kind == 'write':
            _put(f.cur, op[3], op[4])
            f.pending.append(('w', op[3], op[4]))
        elif kind == 'truncate':
            _trunc(f.cur, op[3])
            f.pending.append(('t', op[3]))
        elif kind == 'sync':
            f.durable = bytes(f.cur)
            f.pending = []
            self.sync_dir()
        elif kind == 'create':
            f = by[fid] = self.files[name] = File(fid=fid)
            self.dirlog.append(('create', name, f))
        elif kind == 'delete':
            f = self.files.pop(name)
            self.dirlog.append(('delete', name, f))
            if op[3]:
                self.sync_dir()

    def image(self) -> DiskImage:
        clones = {}

        def cl(f):
            if id(f) not in clones:
                clones[id(f)] = f.clone()
            return clones[id(f)]
        return DiskImage({k: cl(f) for k, f in self.files.items()},
                         [(o, n, cl(f)) for o, n, f in self.dirlog],
                         {k: cl(f) for k, f in self.durable_names.items()})

    def used(self):
        return sum(len(f.cur) for f in self.files.values())

    def sync_dir(self):
        for op, name, f in self.dirlog:
            if op == 'create':
                self.durable_names[name] = f
            else:
                self.durable_names.pop(name, None)
        self.dirlog = []

    def release(self, owner):
        """The operating system's part of a process death: every lock of the owner is dropped."""
        for h in list(self.handles.values()):
            if h.owner == owner:
                h.level = 0
                if h.shm is not None:
                    for s in h.shm.locks:
                        s.pop(h.id, None)
                    self._shm_leave(h)
                self.handles.pop(h.id)

    def _shm_leave(self, h):
        shm = h.shm
        shm.users.discard(h.id)
        h.shm = None
        if not shm.users:
            # last user gone: the wal-index is transient, the next connection rebuilds it
            self.shms.pop(h.name, None)

    # -- one operation
    def step(self, op, name, detail=None, data=b''):
        self.ops += 1
        self.counts[op] = self.counts.get(op, 0) + 1
        self.h.update(f'{op}|{name}|{detail}|'.encode())
        if data:
            self.h.update(data)
        if self.hook is not None:
            return self.hook(op, name, detail)
        return None

    def digest(self):
        return self.h.hexdigest()


# ------------------------------------------------------------------------------------------------ ctypes glue

_vp, _i, _i64, _cp = C.c_void_p, C.c_int, C.c_int64, C.c_char_p


class sqlite3_file(C.Structure):
    pass


class io_methods(C.Structure):
    pass


FP = C.POINTER(sqlite3_file)
T_close = C.CFUNCTYPE(_i, FP)
T_read = C.CFUNCTYPE(_i, FP, _vp, _i, _i64)
T_trunc = C.CFUNCTYPE(_i, FP, _i64)
T_sync = C.CFUNCTYPE(_i, FP, _i)
T_size = C.CFUNCTYPE(_i, FP, C.POINTER(_i64))
T_lock = C.CFUNCTYPE(_i, FP, _i)
T_chk = C.CFUNCTYPE(_i, FP, C.POINTER(_i))
T_ctl = C.CFUNCTYPE(_i, FP, _i, _vp)
T_int = C.CFUNCTYPE(_i, FP)
T_shmmap = C.CFUNCTYPE(_i, FP, _i, _i, _i, C.POINTER(_vp))
T_shmlock = C.CFUNCTYPE(_i, FP, _i, _i, _i)
T_shmbar = C.CFUNCTYPE(None, FP)

io_methods._fields_ = [
    ('iVersion', _i), ('xClose', T_close), ('xRead', T_read), ('xWrite', T_read), ('xTruncate', T_trunc), ('xSync', T_sync),
    ('xFileSize', T_size), ('xLock', T_lock), ('xUnlock', T_lock), ('xCheckReservedLock', T_chk), ('xFileControl', T_ctl),
    ('xSectorSize', T_int), ('xDeviceCharacteristics', T_int), ('xShmMap', T_shmmap), ('xShmLock', T_shmlock),
    ('xShmBarrier', T_shmbar), ('xShmUnmap', T_lock)]
sqlite3_file._fields_ = [('pMethods', C.POINTER(io_methods)), ('hid', _i64)]


class sqlite3_vfs(C.Structure):
    pass


V_open = C.CFUNCTYPE(_i, _vp, _vp, FP, _i, C.POINTER(_i))
V_delete = C.CFUNCTYPE(_i, _vp, _cp, _i)
V_access = C.CFUNCTYPE(_i, _vp, _cp, _i, C.POINTER(_i))
V_full = C.CFUNCTYPE(_i, _vp, _cp, _i, _vp)
V_rand = C.CFUNCTYPE(_i, _vp, _i, _vp)
V_sleep = C.CFUNCTYPE(_i, _vp, _i)
V_time = C.CFUNCTYPE(_i, _vp, C.POINTER(C.c_double))
V_lasterr = C.CFUNCTYPE(_i, _vp, _i, _vp)
V_time64 = C.CFUNCTYPE(_i, _vp, C.POINTER(_i64))
sqlite3_vfs._fields_ = [
    ('iVersion', _i), ('szOsFile', _i), ('mxPathname', _i), ('pNext', _vp), ('zName', _cp), ('pAppData', _vp), ('xOpen', V_open),
    ('xDelete', V_delete), ('xAccess', V_access), ('xFullPathname', V_full), ('xDlOpen', _vp), ('xDlError', _vp), ('xDlSym', _vp),
    ('xDlClose', _vp), ('xRandomness', V_rand), ('xSleep', V_sleep), ('xCurrentTime', V_time), ('xGetLastError', V_lasterr),
    ('xCurrentTimeInt64', V_time64)]

DISK: SimDisk = None
ERRORS = []                       # exceptions that escaped a callback: always a harness error
_keep = []
_lib = None
_shm_keep = []


def _base(name):
    return name[len(ROOT):] if name.startswith(ROOT) else name


def _guard(default):
    def deco(fn):
        def wrapped(*a):
            try:
                return fn(*a)
            except BaseException as e:                      # noqa: BLE001 - must not cross C
                import traceback
                ERRORS.append(traceback.format_exc())
                return default
        wrapped.__name__ = fn.__name__
        return wrapped
    return deco


def _h(fp) -> Handle:
    return DISK.handles.get(fp.contents.hid)


@_guard(IOERR)
def x_close(fp):
    h = _h(fp)
    if h is None:
        return OK
    DISK.step('close', h.name)
    DISK.handles.pop(h.id, None)
    if h.shm is not None:
        for s in h.shm.locks:
            s.pop(h.id, None)
        DISK._shm_leave(h)
    if h.flags & OPEN_DELETEONCLOSE:
        DISK.files.pop(h.name, None)
    return OK


@_guard(IOERR_READ)
def x_read(fp, buf, n, off):
    h = _h(fp)
    rc = DISK.step('read', h.name, (off, n))
    if rc:
        return rc
    data = bytes(h.file.cur[off:off + n])
    if len(data) < n:
        C.memset(buf, 0, n)
        if data:
            C.memmove(buf, data, len(data))
        return IOERR_SHORT_READ
    C.memmove(buf, data, n)
    return OK


@_guard(IOERR_WRITE)
def x_write(fp, buf, n, off):
    h = _h(fp)
    data = C.string_at(buf, n)
    rc = DISK.step('write', h.name, (off, n), data)
    if isinstance(rc, tuple):                               # short write, then the error
        k, rc = rc[1], rc[2]
        _put(h.file.cur, off, data[:k])
        h.file.pending.append(('w', off, data[:k]))
        if DISK.log is not None:
            DISK.log.append(('write', h.file.fid, h.name, off, data[:k]))
        return rc
    if rc:
        return rc
    if DISK.capacity is not None:
        grow = max(0, off + n - len(h.file.cur))
        if grow and DISK.used() + grow > DISK.capacity:
            DISK.counts['disk_full'] = DISK.counts.get('disk_full', 0) + 1
            return FULL
    _put(h.file.cur, off, data)
    h.file.pending.append(('w', off, data))
    if DISK.log is not None:
        DISK.log.append(('write', h.file.fid, h.name, off, data))
    if DISK.after:
        DISK.after('write', h.name)
    return OK


@_guard(IOERR_TRUNCATE)
def x_truncate(fp, size):
    h = _h(fp)
    rc = DISK.step('truncate', h.name, size)
    if rc:
        return rc
    _trunc(h.file.cur, size)
    h.file.pending.append(('t', size))
    if DISK.log is not None:
        DISK.log.append(('truncate', h.file.fid, h.name, size))
    if DISK.after:
        DISK.after('truncate', h.name)
    return OK


@_guard(IOERR_FSYNC)
def x_sync(fp, flags):
    h = _h(fp)
    rc = DISK.step('sync', h.name)
    if rc:
        return rc
    h.file.durable = bytes(h.file.cur)
    h.file.pending = []
    DISK.sync_dir()
    if DISK.log is not None:
        DISK.log.append(('sync', h.file.fid, h.name))
    if DISK.after:
        DISK.after('sync', h.name)
    return OK


@_guard(IOERR_FSTAT)
def x_size(fp, out):
    h = _h(fp)
    rc = DISK.step('size', h.name)
    if rc:
        return rc
    out[0] = len(h.file.cur)
    return OK


def _others(h):
    return [o for o in DISK.handles.values() if o is not h and o.file is h.file]


@_guard(IOERR_LOCK)
def x_lock(fp, level):
    h = _h(fp)
    rc = DISK.step('lock', h.name, level)
    if rc:
        return rc
    if h.level >= level:
        return OK
    oth = [o.level for o in _others(h)]
    if level == 1:
        if any(o >= 3 for o in oth):
            return BUSY
        h.level = 1
    elif level == 2:
        if any(o >= 2 for o in oth):
            return BUSY
        h.level = 2
    else:
        if any(o >= 2 for o in oth):
            return BUSY
        if any(o >= 1 for o in oth):
            h.level = max(h.level, 3)
            return BUSY
        h.level = 4
    return OK


@_guard(IOERR)
def x_unlock(fp, level):
    h = _h(fp)
    DISK.step('unlock', h.name, level)
    h.level = min(h.level, level)
    return OK


@_guard(IOERR)
def x_check_reserved(fp, out):
    h = _h(fp)
    out[0] = int(any(o.level >= 2 for o in DISK.handles.values() if o.file is h.file))
    return OK


@_guard(NOTFOUND)
def x_control(fp, op, arg):
    return NOTFOUND


@_guard(SECTOR)
def x_sector(fp):
    return SECTOR


@_guard(0)
def x_devchar(fp):
    return 0x1000 | 0x800          # POWERSAFE_OVERWRITE, UNDELETABLE_WHEN_OPEN


@_guard(IOERR_SHMMAP)
def x_shmmap(fp, region, size, extend, out):
    h = _h(fp)
    rc = DISK.step('shmmap', h.name, (region, extend))
    if rc:
        out[0] = None
        return rc
    if h.shm is None:
        h.shm = DISK.shms.setdefault(h.name, Shm())
        h.shm.users.add(h.id)
    while len(h.shm.regions) <= region:
        if not extend:
            out[0] = None
            return OK
        b = C.create_string_buffer(size)
        _shm_keep.append(b)
        h.shm.regions.append(b)
    out[0] = C.addressof(h.shm.regions[region])
    return OK


@_guard(IOERR_SHMLOCK)
def x_shmlock(fp, off, n, flags):
    h = _h(fp)
    unlock, excl = flags & 1, flags & 8
    rc = DISK.step('shmunlock' if unlock else 'shmlock', h.name, (off, n, flags))
    if h.shm is None:
        return OK
    slots = h.shm.locks[off:off + n]
    if unlock:
        for s in slots:
            s.pop(h.id, None)
        return OK
    if rc:
        return rc
    for s in slots:
        for o, k in s.items():
            if o != h.id and (excl or k == 'X'):
                return BUSY
    for s in slots:
        s[h.id] = 'X' if excl else 'S'
    return OK


@_guard(None)
def x_shmbarrier(fp):
    return None


@_guard(IOERR)
def x_shmunmap(fp, delete):
    h = _h(fp)
    if h.shm is not None:
        DISK.step('shmunmap', h.name, delete)
        for s in h.shm.locks:
            s.pop(h.id, None)
        DISK._shm_leave(h)
    return OK


_methods = io_methods(2, T_close(x_close), T_read(x_read), T_read(x_write), T_trunc(x_truncate), T_sync(x_sync), T_size(x_size),
                      T_lock(x_lock), T_lock(x_unlock), T_chk(x_check_reserved), T_ctl(x_control), T_int(x_sector),
                      T_int(x_devchar), T_shmmap(x_shmmap), T_shmlock(x_shmlock), T_shmbar(x_shmbarrier), T_lock(x_shmunmap))


@_guard(CANTOPEN)
def v_open(vfs, zname, fp, flags, outflags):
    fp.contents.pMethods = C.POINTER(io_methods)()
    if zname:
        name = _base(C.string_at(zname).decode())
    else:
        name = f'*temp{DISK.next_handle}'
        flags |= OPEN_DELETEONCLOSE | OPEN_CREATE
    rc = DISK.step('open', name, flags)
    if rc:
        return rc
    f = DISK.files.get(name)
    if f is None:
        if not flags & OPEN_CREATE:
            return CANTOPEN
        f = DISK.files[name] = File(fid=DISK.new_fid())
        DISK.dirlog.append(('create', name, f))
        if DISK.log is not None:
            DISK.log.append(('create', f.fid, name))
        if DISK.after:
            DISK.after('create', name)
    h = Handle(DISK.next_handle, name, f, flags, DISK.owner())
    DISK.next_handle += 1
    DISK.handles[h.id] = h
    fp.contents.hid = h.id
    fp.contents.pMethods = C.pointer(_methods)
    if outflags:
        outflags[0] = flags
    return OK


@_guard(IOERR_DELETE)
def v_delete(vfs, zname, syncdir):
    name = _base(zname.decode())
    rc = DISK.step('delete', name, syncdir)
    if rc:
        return rc
    f = DISK.files.pop(name, None)
    if f is None:
        return IOERR_DELETE_NOENT
    DISK.dirlog.append(('delete', name, f))
    if syncdir:
        DISK.sync_dir()
    if DISK.log is not None:
        DISK.log.append(('delete', f.fid, name, syncdir))
    if DISK.after:
        DISK.after('delete', name)
    return OK


@_guard(IOERR_ACCESS)
def v_access(vfs, zname, flags, out):
    name = _base(zname.decode())
    rc = DISK.step('access', name, flags)
    if rc:
        return rc
    f = DISK.files.get(name)
    # SQLite's own unix VFS reports an empty file as absent for existence queries
    out[0] = int(f is not None and (flags != 0 or len(f.cur) > 0))
    return OK


@_guard(CANTOPEN)
def v_full(vfs, zname, n, out):
    name = zname.decode()
    full = name if name.startswith('/') else ROOT + name
    b = full.encode() + b'\0'
    if len(b) > n:
        return CANTOPEN
    C.memmove(out, b, len(b))
    return OK


@_guard(0)
def v_rand(vfs, n, out):
    C.memmove(out, DISK.rng.randbytes(n), n)
    return n


@_guard(0)
def v_sleep(vfs, us):
    DISK.step('sleep', '', us)
    if DISK.sleeper is not None:
        DISK.sleeper(us / 1e6)
    elif DISK.clock is not None:
        DISK.clock.advance(us / 1e6)
    return us


@_guard(0)
def v_time(vfs, out):
    t = DISK.clock.wall() if DISK.clock is not None else 1.7e9
    out[0] = 2440587.5 + t / 86400.0
    return OK


@_guard(0)
def v_time64(vfs, out):
    t = DISK.clock.wall() if DISK.clock is not None else 1.7e9
    out[0] = int((2440587.5 * 86400.0 + t) * 1000)
    return OK


@_guard(0)
def v_lasterr(vfs, n, out):
    return 0


_vfs = sqlite3_vfs(2, C.sizeof(sqlite3_file), 512, None, b'simdisk', None, V_open(v_open), V_delete(v_delete), V_access(v_access),
                   V_full(v_full), None, None, None, None, V_rand(v_rand), V_sleep(v_sleep), V_time(v_time), V_lasterr(v_lasterr),
                   V_time64(v_time64))


def install(disk: SimDisk):
    """Make the simulated disk the process's only SQLite storage."""
    global DISK, _lib
    DISK = disk
    if _lib is None:
        _lib = C.CDLL('libsqlite3.so.0')
        rc = _lib.sqlite3_vfs_register(C.byref(_vfs), 1)
        assert rc == OK, rc
        # reset the library's random pool so that it is reseeded from xRandomness of this run
    _lib.sqlite3_randomness(0, None)
    return disk


def in_use():
    """True if the real sqlite3 module really goes through this VFS (a seam self-test)."""
    import sqlite3
    before = DISK.ops
    c = sqlite3.connect('/simdisk/seamtest')
    c.execute('create table t(x)')
    c.close()
    ok = DISK.ops > before
    for k in [k for k in DISK.files if k.startswith('seamtest')]:
        del DISK.files[k]
    return ok
