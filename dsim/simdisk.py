"""
The disk seam.

The code under test works on real files in a scratch directory, but every call that touches that directory (open, read, write, truncate, fsync, rename,
link, unlink, mkdir, close) goes through this module, is a scheduling point of the simulation, and can fail, be short, or be the last thing that a process or
the whole machine ever does.  User-space buffers are real python buffers, so that a crashed process loses what it did not hand to the kernel.

A process crash keeps what reached the (simulated) page cache.  After a machine crash a prefix of the directory operations since the last directory sync
survives, and a file that was written to after its last fsync may come back complete, as of its last fsync, torn, or as zeros.
"""
import builtins
import errno
import io
import os
import shutil
import stat

from .core import SimKilled

real = dict(
    open=builtins.open, os_open=os.open, write=os.write, fsync=os.fsync, fdatasync=os.fdatasync, replace=os.replace, rename=os.rename, remove=os.remove,
    unlink=os.unlink, mkdir=os.mkdir, truncate=os.truncate, ftruncate=os.ftruncate, link=os.link, symlink=os.symlink, sync=os.sync, pwrite=os.pwrite,
    writev=os.writev, fdopen=os.fdopen)

disk = None   # the active simulated disk


class MachineCrash(SimKilled):
    pass


class Inode:
    def __init__(self, fd, synced):
        self.fd = fd              # keeps the file alive and readable
        self.synced = synced
        self.dirty = False

    def content(self):
        size = os.fstat(self.fd).st_size
        return os.pread(self.fd, size, 0)

    def crash_content(self, d):
        data = self.content()
        if not self.dirty:
            return data
        kind = d.pick(('synced', 'empty', 'torn', 'zeros', 'full'))
        d.fault('lost_write', kind)
        if kind == 'synced':
            return self.synced
        if kind == 'empty':
            return b''
        if kind == 'zeros':
            return bytes(len(data))
        if kind == 'torn':
            return data[:d.choose(len(data) + 1)]
        return data


class Disk:
    """
    fault_rate: probability of a fault per disk operation; crash_rate: probability that the process dies there; machine_rate: ... that the machine does.
    """
    ERRORS = {
        'open': (errno.EIO, errno.ENOSPC, errno.EMFILE, errno.EACCES), 'read': (errno.EIO,), 'write': (errno.ENOSPC, errno.EIO, errno.EDQUOT),
        'fsync': (errno.EIO, errno.ENOSPC), 'rename': (errno.EIO, errno.ENOSPC, errno.EACCES), 'unlink': (errno.EIO,), 'mkdir': (errno.ENOSPC, errno.EACCES),
        'truncate': (errno.EIO,), 'link': (errno.EIO,), 'openr': (errno.EIO, errno.EMFILE),
    }

    def __init__(self, d, root):
        self.d = d
        self.root = os.path.realpath(root)
        self.kernel = None
        self.fault_rate = self.crash_rate = self.machine_rate = self.short_rate = self.interrupt_rate = 0.0
        self.budget = 0               # number of faults still allowed
        self.full = False             # disk full until healed
        self.inodes = {}
        self.names = {}               # durable names
        self.log = []                 # directory operations since the last directory sync
        self.labels = {}
        self.faulted = {}             # task name -> kinds of faults since last asked
        self.cleanup_fault = False
        self.crashed_processes = 0
        self.machine_crashed = False
        self.ops = 0

    # -- bookkeeping ---------------------------------------------------------------------------- #

    def label(self, path):
        if path not in self.labels:
            self.labels[path] = f"tmp{len(self.labels)}"
        return self.labels[path]

    def files(self):
        out = {}
        for dirpath, _, names in os.walk(self.root):
            for n in names:
                out[os.path.join(dirpath, n)] = None
        return out

    def begin(self, kernel):
        """ everything that is there now is durable """
        self.release()
        self.kernel = kernel
        self.machine_crashed = False
        self.crashed_processes = 0
        self.cleanup_fault = False
        self.full = False
        self.faulted = {}
        for p in sorted(self.files()):
            if not os.path.islink(p):
                self.names[p] = self.inode(p)

    def release(self):
        for i in self.inodes.values():
            os.close(i.fd)
        self.inodes = {}
        self.names = {}
        self.log = []

    def inode(self, path_or_fd, fresh=False):
        st = os.fstat(path_or_fd) if isinstance(path_or_fd, int) else os.stat(path_or_fd)
        key = (st.st_dev, st.st_ino)
        if key not in self.inodes:
            if isinstance(path_or_fd, int):
                path_or_fd = f"/proc/self/fd/{path_or_fd}"
            fd = real['os_open'](path_or_fd, os.O_RDONLY)
            ino = Inode(fd, b'')
            ino.synced = b'' if fresh else ino.content()
            self.inodes[key] = ino
        return self.inodes[key]

    def known(self, fd):
        try:
            st = os.fstat(fd)
        except OSError:
            return None
        return self.inodes.get((st.st_dev, st.st_ino))

    def where(self, path, dir_fd=None):
        """ normalised path if it is inside of the simulated directory """
        if dir_fd is not None or isinstance(path, int) or path is None:
            return None
        try:
            path = os.fsdecode(path)
        except TypeError:
            return None
        path = os.path.abspath(path)
        path = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
        return path if path.startswith(self.root + os.sep) else None

    def task(self):
        return self.kernel.current if self.kernel is not None else None

    # -- the scheduling and fault point --------------------------------------------------------- #

    def op(self, kind, what, partial=False):
        """ returns None to carry on, or a fraction in [0, 1) for an operation that is cut short """
        task = self.task()
        if task is None:
            return None
        if task.killed:
            raise SimKilled()
        self.ops += 1
        d = self.d
        d.event(task.name, kind, what)
        self.kernel.yield_()
        if self.full and kind in ('write', 'mkdir'):
            self.hit(task, 'disk_full', kind)
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if self.budget <= 0:
            return None
        v = d.unit()
        # (small values of v: nothing happens)
        lim = 1.0 - self.machine_rate
        if self.machine_rate and v >= lim:
            self.budget -= 1
            d.fault('machine_crash', kind, what)
            self.machine_crashed = True
            self.machine_after = partial and d.chance(0.5)
            if partial and d.chance(0.5):
                return -d.unit() - 2          # do part of it, then crash
            self.crash_machine()
        lim -= self.crash_rate
        if self.crash_rate and v >= lim:
            self.budget -= 1
            d.fault('process_crash', kind, what)
            if partial and d.chance(0.5):
                return -d.unit() - 1          # (-2, -1]: do part of it, then crash
            self.crash_process(task)
        lim -= self.interrupt_rate
        if self.interrupt_rate and v >= lim:
            self.budget -= 1
            self.hit(task, 'interrupt', kind)
            if kind == 'unlink':
                self.cleanup_fault = True
            raise KeyboardInterrupt()
        lim -= self.fault_rate
        if self.fault_rate and v >= lim:
            self.budget -= 1
            err = d.pick(self.ERRORS[kind])
            if kind == 'unlink':
                self.cleanup_fault = True
            if err == errno.ENOSPC and kind == 'write':
                self.full = True
            self.hit(task, f'{kind}_{errno.errorcode[err]}', what)
            if partial and kind == 'write' and d.chance(0.5):
                return -d.unit() - 4           # (-5, -4]: part of it gets written, then the error
            raise OSError(err, os.strerror(err))
        lim -= self.short_rate
        if partial and self.short_rate and v >= lim:
            d.fault(f'short_{kind}', what)
            return d.unit()
        return None

    def hit(self, task, kind, what):
        self.d.fault(kind, what)
        self.faulted.setdefault(task.name, []).append(kind)

    def crash_process(self, task):
        self.crashed_processes += 1
        task.killed = True
        raise SimKilled()

    def crash_machine(self):
        for t in self.kernel.tasks:
            t.killed = True
        raise SimKilled()

    def after_partial(self, frac):
        """ what happens after the partial operation """
        if frac <= -4:
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if frac <= -2:
            self.crash_machine()
        if frac <= -1:
            self.crash_process(self.task())

    @staticmethod
    def fraction(frac):
        return -frac - 4 if frac <= -4 else -frac - 2 if frac <= -2 else -frac - 1 if frac <= -1 else frac

    # -- crash recovery ------------------------------------------------------------------------- #

    def reboot(self):
        """ the machine comes back: rebuild the directory from what survived """
        d = self.d
        names = dict(self.names)
        k = d.choose(len(self.log) + 1)
        d.event('reboot', 'directory operations', k, 'of', len(self.log))
        for entry in self.log[:k]:
            self.apply(names, entry)
        content = {p: i.crash_content(d) for p, i in names.items()}
        for p in self.files():
            real['unlink'](p)
        for p, data in content.items():
            with real['open'](p, 'wb') as f:
                f.write(data)

    @staticmethod
    def apply(names, entry):
        op, *args = entry
        if op == 'link':
            names[args[0]] = args[1]
        elif op == 'unlink':
            names.pop(args[0], None)
        elif op == 'rename':
            if args[0] in names:
                names[args[1]] = names.pop(args[0])

    def sync_directory(self):
        for entry in self.log:
            self.apply(self.names, entry)
        self.log = []


class SimFile(io.FileIO):
    """ the raw file; python's own buffering sits on top of it """
    def __init__(self, file, mode, closefd=True, opener=None):
        self._disk = disk
        self._task = disk.task()
        self._label = disk.label(disk.where(file)) if not isinstance(file, int) else 'fd'
        super().__init__(file, mode, closefd, opener)

    def _dead(self):
        return self._disk is not disk or self._task is None or self._task.killed or self._task.state == 'finished'

    def write(self, b):
        if self._dead():
            return len(b)
        return sim_write(super().write, self.fileno(), memoryview(b).cast('B'), self._label)

    def readinto(self, b):
        if self._dead() or disk.task() is None:
            return super().readinto(b)
        frac = disk.op('read', self._label, partial=True)
        if frac is not None and disk.fraction(frac) is not None:
            n = max(1, int(disk.fraction(frac) * len(b)))
            out = super().readinto(memoryview(b)[:n])
            disk.after_partial(frac)
            return out
        return super().readinto(b)

    def readall(self):
        if self._dead() or disk.task() is None:
            return super().readall()
        chunks = []
        while True:
            buf = bytearray(1 << 16)
            n = self.readinto(buf)
            if not n:
                return b''.join(chunks)
            chunks.append(bytes(buf[:n]))

    def read(self, size=-1):
        if self._dead() or disk.task() is None:
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        n = self.readinto(buf)
        return bytes(buf[:n])

    def truncate(self, size=None):
        if self._dead():
            return 0
        disk.op('truncate', self._label)
        disk.inode(self.fileno()).dirty = True
        return super().truncate(size)


def sim_write(fn, fd, b, label):
    n = len(b)
    frac = disk.op('write', label, partial=True)
    ino = disk.inode(fd)
    ino.dirty = True
    if frac is None:
        # large writes are split up now and then, so that others can look in between
        return fn(b)
    k = int(disk.fraction(frac) * n)
    if frac >= 0:
        k = max(1, k) if n else 0
    out = fn(b[:k]) if k or not n else 0
    disk.after_partial(frac)
    return out


def _active():
    return disk is not None and disk.task() is not None


def s_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not _active():
        return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if disk.known(file) is None:
            return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
        path = None
    else:
        path = disk.where(file)
        if path is None:
            return real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in 'wax+')
    raw_mode = ''.join(c for c in mode if c in 'rwax+')
    if path is None:
        raw = SimFile(file, raw_mode, closefd)
    elif not writing:
        disk.op('openr', disk.label(path))
        raw = SimFile(file, raw_mode, True, opener)
        disk.inode(raw.fileno())
    else:
        disk.op('open', disk.label(path))
        existed = os.path.lexists(path)
        target = os.path.realpath(path)
        before = disk.inode(target) if os.path.exists(target) else None
        raw = SimFile(file, raw_mode, True, opener)
        ino = disk.inode(raw.fileno(), fresh=before is None)
        if not existed:
            disk.log.append(('link', path, ino))
        if 'w' in raw_mode and before is not None:
            ino.dirty = True
    line_buffering = False
    if buffering == 1 and 'b' not in mode:
        buffering, line_buffering = -1, True
    if buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif writing:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if 'b' in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


def s_os_open(path, flags, mode=0o777, *, dir_fd=None):
    p = disk.where(path, dir_fd) if _active() else None
    if p is None:
        return real['os_open'](path, flags, mode, dir_fd=dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR)
    if os.path.isdir(p):
        return real['os_open'](path, flags, mode)
    disk.op('open' if writing else 'openr', disk.label(p))
    existed = os.path.exists(p)
    before = disk.inode(p) if existed else None
    fd = real['os_open'](path, flags, mode)
    ino = disk.inode(fd, fresh=before is None)
    if not existed:
        disk.log.append(('link', p, ino))
    elif flags & os.O_TRUNC:
        ino.dirty = True
    return fd


def s_fdopen(fd, mode='r', buffering=-1, encoding=None, *args, **kwargs):
    return s_open(fd, mode, buffering, encoding, *args, **kwargs)


def s_write(fd, data):
    if not _active() or disk.known(fd) is None:
        return real['write'](fd, data)
    return sim_write(lambda b: real['write'](fd, b), fd, memoryview(data).cast('B'), 'fd')


def s_pwrite(fd, data, offset):
    if not _active() or disk.known(fd) is None:
        return real['pwrite'](fd, data, offset)
    return sim_write(lambda b: real['pwrite'](fd, b, offset), fd, memoryview(data).cast('B'), 'fd')


def s_writev(fd, buffers):
    if not _active() or disk.known(fd) is None:
        return real['writev'](fd, buffers)
    return s_write(fd, b''.join(bytes(b) for b in buffers))


def s_fsync(fd):
    return _fsync(fd, 'fsync')


def s_fdatasync(fd):
    return _fsync(fd, 'fdatasync')


def _fsync(fd, name):
    n = fd if isinstance(fd, int) else fd.fileno()
    if not _active():
        return None   # scratch files need no real fsync
    if stat.S_ISDIR(os.fstat(n).st_mode):
        disk.op('fsync', 'dir')
        disk.sync_directory()
        return None
    ino = disk.known(n)
    if ino is None:
        return real[name](fd)
    disk.op('fsync', 'file')
    ino.synced = ino.content()
    ino.dirty = False


def s_sync():
    if not _active():
        return None
    disk.op('fsync', 'all')
    for ino in disk.inodes.values():
        ino.synced, ino.dirty = ino.content(), False
    disk.sync_directory()


def _rename(name):
    def fn(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        p = disk.where(src, src_dir_fd) if _active() else None
        q = disk.where(dst, dst_dir_fd) if _active() else None
        if p is None or q is None:
            return real[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        if os.path.isdir(q):
            q = os.path.join(q, os.path.basename(p)) if name == 'move' else q
        disk.op('rename', f"{disk.label(p)}->{disk.label(q)}")
        if os.path.exists(q) and os.path.isfile(q):
            disk.inode(q)
        out = real[name](src, dst)
        disk.log.append(('rename', p, q))
        return out
    return fn


def _unlink(name):
    def fn(path, *, dir_fd=None):
        p = disk.where(path, dir_fd) if _active() else None
        if p is None:
            return real[name](path, dir_fd=dir_fd)
        disk.op('unlink', disk.label(p))
        if os.path.isfile(p):
            disk.inode(p)
        out = real[name](path)
        disk.log.append(('unlink', p))
        return out
    return fn


def s_mkdir(path, mode=0o777, *, dir_fd=None):
    p = disk.where(path, dir_fd) if _active() else None
    if p is not None and not os.path.isdir(p):
        disk.op('mkdir', 'dir')
    return real['mkdir'](path, mode, dir_fd=dir_fd)


def s_truncate(path, length):
    fd_ino = disk.known(path) if _active() and isinstance(path, int) else None
    p = disk.where(path) if _active() else None
    if p is None and fd_ino is None:
        return real['truncate'](path, length)
    disk.op('truncate', 'file')
    (fd_ino or disk.inode(p)).dirty = True
    return real['truncate'](path, length)


def s_ftruncate(fd, length):
    ino = disk.known(fd) if _active() else None
    if ino is not None:
        disk.op('truncate', 'file')
        ino.dirty = True
    return real['ftruncate'](fd, length)


def s_link(src, dst, *, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
    p = disk.where(src, src_dir_fd) if _active() else None
    q = disk.where(dst, dst_dir_fd) if _active() else None
    if p is None or q is None:
        return real['link'](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd, follow_symlinks=follow_symlinks)
    disk.op('link', disk.label(q))
    out = real['link'](src, dst, follow_symlinks=follow_symlinks)
    disk.log.append(('link', q, disk.inode(q)))
    return out


def install():
    if builtins.open is s_open:
        return
    builtins.open = io.open = s_open
    os.open, os.write, os.pwrite, os.writev, os.fdopen = s_os_open, s_write, s_pwrite, s_writev, s_fdopen
    os.fsync, os.fdatasync, os.sync = s_fsync, s_fdatasync, s_sync
    os.replace, os.rename = _rename('replace'), _rename('rename')
    os.remove, os.unlink = _unlink('remove'), _unlink('unlink')
    os.mkdir, os.truncate, os.ftruncate, os.link = s_mkdir, s_truncate, s_ftruncate, s_link
    shutil._USE_CP_SENDFILE = False   # shutil falls back to plain reads and writes


def activate(new):
    global disk
    disk = new
