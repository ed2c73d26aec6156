"""A simulated disk under one directory: every create, write, sync, rename and removal the code under test makes there goes
through here, is counted, may fail as the plan says, and is journaled, so that a crash can be followed by what really was durable.

The live files are in a scratch directory of the check.  Crash model: a killed process loses what Python still buffered; a power
failure keeps the operations on names in order up to some point not before the last completed sync, and of the contents of a
file what was synced plus any prefix of what was written since."""
import builtins, errno, io, os


class Crash(BaseException):
    """the simulated machine stopped"""


class Raw(io.FileIO):
    def __init__(self, path, mode, disk):
        self.disk, self.sim_path = disk, path
        io.FileIO.__init__(self, path, mode)

    def write(self, b):
        b = bytes(b)
        d = self.disk
        if d.dead:
            return len(b)
        n = d.op('write', self.sim_path, len(b))
        k = len(b) if n is None else n
        if k:
            off = io.FileIO.tell(self)
            io.FileIO.write(self, b[:k])
            d.journal.append(('write', d.inode[self.sim_path], b[:k], off))
        if d.pending is not None:
            e, d.pending = d.pending, None
            raise e
        return k

    def truncate(self, size=None):
        if self.disk.dead:
            return 0
        self.disk.op('truncate', self.sim_path)
        n = io.FileIO.truncate(self, size)
        self.disk.journal.append(('trunc', self.disk.inode[self.sim_path], n))
        return n


class Disk:
    """plan: {'at': number of the operation, 'kind': ...} or None, 'buf' the size of Python's buffers, 'short' share of short writes"""

    def __init__(self, root, ctx, rng):
        self.root, self.ctx, self.rng = root, ctx, rng
        self.journal, self.inode, self.n, self.dead, self.plan, self.pending, self.fired, self.full = [], {}, 0, False, None, None, None, False
        self.last = 0
        self.ops = []
        self.buf = 8192
        self.short = 0.0
        self.base = self.content()
        for p in self.base:
            self.inode[p] = self.new()
            self.journal.append(('create', self.inode[p], p))
            self.journal.append(('write', self.inode[p], self.base[p], 0))
            self.journal.append(('fsync', self.inode[p]))

    def new(self):
        self.last += 1
        return self.last

    def mine(self, p):
        try:
            p = os.path.abspath(os.fspath(p))
        except TypeError:
            return None
        if isinstance(p, str) and (p == self.root or p.startswith(self.root + '/')):
            return p
        return None

    def content(self):
        out = {}
        for dp, dn, fn in os.walk(self.root):
            for f in sorted(fn):
                with builtins.open(os.path.join(dp, f), 'rb') as fh:
                    out[os.path.join(dp, f)] = fh.read()
        return out

    # ---------------------------------------------------------- faults
    def op(self, kind, path, size=None):
        """one operation on the disk is about to take place; returns the number of bytes to write if fewer"""
        if self.dead:
            raise Crash()
        self.n += 1
        self.ops.append(kind)
        self.ctx.note(kind, os.path.basename(path), size)
        p = self.plan
        if self.full and kind in ('write', 'create'):
            if kind == 'create':
                raise OSError(errno.ENOSPC, 'No space left on device (simulated)')
            self.pending = OSError(errno.ENOSPC, 'No space left on device (simulated)')
            return 0
        if p and self.n == p['at'] and not self.fired:
            k = p['kind']
            self.fired = (k, kind)
            self.ctx.fault('disk:%s:%s' % (k, kind))
            part = self.rng.randint(0, size) if size else 0
            if k == 'crash':
                self.dead = True
                if kind == 'write':
                    self.pending = Crash()
                    return part
                raise Crash()
            if k == 'interrupt':
                if kind == 'write':
                    self.pending = KeyboardInterrupt('planted')
                    return size
                raise KeyboardInterrupt('planted')
            e = OSError(errno.ENOSPC if k == 'enospc' else errno.EIO, 'simulated')
            self.full = k == 'enospc'
            if kind == 'write':
                self.pending = e
                return part
            raise e
        if kind == 'write' and size and size > 1 and self.short and self.rng.random() < self.short:
            self.ctx.fault('disk:short-write')
            return self.rng.randint(1, size)
        return None

    # ---------------------------------------------------------- the calls
    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        p = None if isinstance(file, int) else self.mine(file)
        if p is None or not set(mode) & set('wax+'):
            return self.o_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.dead:
            raise Crash()
        self.op('create', p)
        exists = p in self.inode
        rm = ''.join(c for c in mode if c in 'rwax+')
        raw = Raw(p, rm, self)
        if not exists:
            self.inode[p] = self.new()
            self.journal.append(('create', self.inode[p], p))
        elif 'w' in mode:
            self.journal.append(('trunc', self.inode[p], 0))
        b = io.BufferedRandom(raw, self.buf) if '+' in mode else io.BufferedWriter(raw, self.buf)
        if 'b' in mode:
            return b
        return io.TextIOWrapper(b, encoding, errors, newline)

    def fsync(self, fd):
        f = fd if isinstance(fd, int) else fd.fileno()
        try:
            p = self.mine(os.readlink('/proc/self/fd/%d' % f))
        except OSError:
            p = None
        if p is None:
            return self.o_fsync(fd)
        self.op('fsync', p)
        self.journal.append(('fsync', self.inode.get(p, 0)))

    def replace(self, a, b, **k):
        p, q = self.mine(a), self.mine(b)
        if p is None:
            return self.o_replace(a, b, **k)
        self.op('rename', p)
        self.o_replace(a, b, **k)
        i = self.inode.pop(p)
        self.inode[q] = i
        self.journal.append(('rename', p, q))

    def remove(self, a, **k):
        p = self.mine(a)
        if p is None:
            return self.o_remove(a, **k)
        self.op('remove', p)
        self.o_remove(a, **k)
        self.inode.pop(p, None)
        self.journal.append(('remove', p))

    def __enter__(self):
        self.o_open, self.o_fsync, self.o_replace, self.o_remove = builtins.open, os.fsync, os.replace, os.remove
        self.undo = [(builtins, 'open', builtins.open), (io, 'open', io.open)] + \
            [(os, k, getattr(os, k)) for k in ('fsync', 'fdatasync', 'replace', 'rename', 'remove', 'unlink') if hasattr(os, k)]
        builtins.open = io.open = self.open
        os.fsync = os.fdatasync = self.fsync
        os.replace = os.rename = self.replace
        os.remove = os.unlink = self.remove
        return self

    def __exit__(self, *a):
        for m, k, v in self.undo:
            setattr(m, k, v)

    # ---------------------------------------------------------- after a crash
    def after_power_loss(self, rng):
        """what the disk holds: {path: bytes}"""
        last = max([i for i, e in enumerate(self.journal) if e[0] == 'fsync'] or [-1])
        m = rng.randint(last + 1, len(self.journal))
        names, data = {}, {}
        synced = {e[1]: i for i, e in enumerate(self.journal) if e[0] == 'fsync'}
        lost = set()
        for i, e in enumerate(self.journal):
            if e[0] in ('create', 'rename', 'remove', 'trunc') and i >= m:
                continue
            if e[0] == 'create':
                names[e[2]] = e[1]; data.setdefault(e[1], b'')
            elif e[0] == 'rename':
                if e[1] in names:
                    names[e[2]] = names.pop(e[1])
            elif e[0] == 'remove':
                names.pop(e[1], None)
            elif e[0] == 'trunc':
                data[e[1]] = data.get(e[1], b'')[:e[2]]
            elif e[0] == 'write':
                b = e[2]
                if i > synced.get(e[1], -1):
                    # not synced: all, some or nothing of it, and then nothing of what follows
                    if e[1] in lost:
                        continue
                    r = rng.random()
                    if r < .6:
                        lost.add(e[1])
                        b = b[:rng.randint(0, len(b))] if r < .3 else b''
                old = data.get(e[1], b'')
                data[e[1]] = old[:e[3]].ljust(e[3], b'\0') + b + old[e[3] + len(b):]
        return {p: data.get(i, b'') for p, i in names.items()}
