"""Simulated disk: a scratch directory whose file operations go through simdisk.so.

Fault plan per run: errors at chosen operations, short writes/reads, a crash (process death)
at a chosen operation with a torn write, and power loss (only synced data and a prefix of
the later metadata operations survive).
"""
import ctypes
import errno
import os
import shutil
import tempfile
import threading

OPEN, CLOSE, READ, WRITE, SYNC, TRUNC, RENAME, UNLINK = range(1, 9)
NAMES = {OPEN: "open", CLOSE: "close", READ: "read", WRITE: "write", SYNC: "sync",
         TRUNC: "trunc", RENAME: "rename", UNLINK: "unlink"}
CB = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p,
                      ctypes.c_longlong, ctypes.c_int, ctypes.POINTER(ctypes.c_longlong))
PASS, FAIL, SHORT, SUPPRESS, TORN = range(5)
_lib = None


def available():
    global _lib
    if _lib is None:
        lib = ctypes.CDLL(None)
        try:
            lib.simdisk_root
        except AttributeError:
            return False
        lib.simdisk_root.argtypes = [ctypes.c_char_p]
        _lib = lib
    return True


class Disk:
    def __init__(self, ctx):
        if not available():
            from .core import HarnessError
            raise HarnessError("simdisk.so is not preloaded")
        self.ctx = ctx
        self.root = tempfile.mkdtemp(prefix="t2csim")
        self.epoch = 0
        self.fd_epoch = {}
        self.dead = False
        self.active = False
        self.nops = 0           # mutating + reading operations seen since arm()
        self.plan = {}          # op number -> (action, arg)
        self.match = None       # callable(op, path, n, flags) -> (action, arg) | None
        self.trace = []
        self.power = False
        self.fired = 0
        self.on_op = None
        self.killed = set()     # threads whose process is gone while others go on
        # durability model
        self.synced = {}        # inode id -> bytes as last synced
        self.ino = {}           # path -> inode id, volatile namespace
        self.dur_ns = {}        # path -> inode id, durable namespace
        self.meta = []          # metadata operations not known durable
        self.next_ino = 0
        self._cb = CB(self._callback)
        _lib.simdisk_root(self.root.encode())
        _lib.simdisk_callback(self._cb)
        self.error = None
        self.named = {}
        # the system's directory for temporary files, on another file system than everything else
        self.tmp = os.path.join(self.root, "system-tmp")
        os.mkdir(self.tmp)
        self.old_tempdir, tempfile.tempdir = tempfile.tempdir, self.tmp

    # ------------------------------------------------------------ control
    def path(self, *parts):
        p = os.path.join(self.root, *parts)
        self.named[p] = os.path.join(*parts)
        return p

    def label(self, p):
        """A name for the log that does not depend on process ids or random temporary names."""
        n = self.named.get(p)
        if n is None:
            n = self.named[p] = "other%d" % len(self.named)
        return n

    def close(self):
        self.active = False
        tempfile.tempdir = self.old_tempdir
        _lib.simdisk_callback(ctypes.cast(None, CB))
        _lib.simdisk_root(b"")
        shutil.rmtree(self.root, ignore_errors=True)
        if self.error:
            raise self.error

    def arm(self, plan=None, match=None, power=False):
        """Starts intercepting for one process lifetime/operation window."""
        self.plan = dict(plan or {})
        self.match = match
        self.nops = 0
        self.trace = []
        self.active = True
        self.dead = False
        self.fired = 0
        self.killed.clear()
        if power and not self.power:
            self.power = True
            self._baseline()

    def disarm(self):
        self.active = False
        self.plan = {}
        self.match = None

    def _baseline(self):
        self.synced, self.ino, self.dur_ns, self.meta = {}, {}, {}, []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                i = self._new_ino()
                self.ino[p] = i
                self.dur_ns[p] = i
                self.synced[i] = self.peek(p)

    def _new_ino(self):
        self.next_ino += 1
        return self.next_ino

    # raw access that bypasses the seam
    def peek(self, p):
        _lib.simdisk_inside(1)
        try:
            if not os.path.exists(p):
                return None
            with open(p, "rb") as f:
                return f.read()
        finally:
            _lib.simdisk_inside(0)

    def poke(self, p, data):
        _lib.simdisk_inside(1)
        try:
            if data is None:
                if os.path.exists(p):
                    os.unlink(p)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(data)
        finally:
            _lib.simdisk_inside(0)

    def files(self):
        _lib.simdisk_inside(1)
        try:
            return sorted(os.path.join(d, f) for d, _, fs in os.walk(self.root) for f in fs)
        finally:
            _lib.simdisk_inside(0)

    # ------------------------------------------------------------ seam
    def _callback(self, op, fd, path, path2, n, flags, arg):
        try:
            return self._decide(op, fd, path.decode("utf8", "replace"), path2.decode("utf8", "replace"),
                                n, flags, arg)
        except BaseException as e:      # never let an error disappear inside ctypes
            self.error = e
            return PASS

    def _decide(self, op, fd, path, path2, n, flags, arg):
        if not self.active or not path.startswith(self.root):     # a file of an earlier run, closed late
            return PASS
        if op == OPEN and n == 1:               # notification: opened
            self.fd_epoch[fd] = self.epoch
            return PASS
        if op in (RENAME, UNLINK) and n == 1:   # notification: done
            self._note(op, path, path2)
            return PASS
        old = fd >= 0 and self.fd_epoch.get(fd, self.epoch) != self.epoch
        if op == CLOSE:
            self.fd_epoch.pop(fd, None)
        if old or self.dead or self.killed and threading.get_ident() in self.killed:
            mut = op in (WRITE, TRUNC, RENAME, UNLINK, SYNC) or (op == OPEN and flags & 3)
            return SUPPRESS if mut else PASS
        if op == OPEN and not flags & 3 and self.peek_missing(path):
            return PASS                         # opening a missing file: not an I/O operation
        if op == RENAME and path.startswith(self.tmp) != path2.startswith(self.tmp):
            self.ctx.probe("rename_across_file_systems")
            arg[0] = errno.EXDEV
            return FAIL
        k = self.nops
        self.nops += 1
        base = self.label(path)
        self.trace.append((NAMES[op], base, n if op in (READ, WRITE, TRUNC) else 0, flags & 3 if op == OPEN else 0))
        if self.on_op is not None:
            self.on_op(op, path, n)
        act = self.plan.get(k)
        if act is None and self.match is not None:
            act = self.match(op, path, n, flags)
        if act is None:
            self._effect(op, fd, path, flags)
            return PASS
        self.fired += 1
        kind, a = act
        if kind == "err":
            if op == CLOSE and a == errno.ENOSPC:
                a = errno.EIO
            self.ctx.fault("io_%s_%s" % (NAMES[op], errno.errorcode.get(a, a)))
            self.ctx.log("io-fault", NAMES[op], base, errno.errorcode.get(a, a))
            arg[0] = a
            return FAIL
        if kind == "short" and op in (READ, WRITE):
            self.ctx.fault("io_short_%s" % NAMES[op])
            self.ctx.log("io-short", NAMES[op], base, n, a % max(1, n))
            m = a % max(1, n)
            arg[0] = m if (op == READ or m > 0) else 1
            self._effect(op, fd, path, flags)
            return SHORT
        if kind in ("crash", "kill"):
            if kind == "kill":              # only the process that made this call
                self.killed.add(threading.get_ident())
                self.ctx.fault("crash_one_session")
            else:
                self.dead = True
                self.ctx.fault("crash_power" if self.power else "crash_process")
            torn = a % (n + 1) if op == WRITE and n > 0 else 0
            self.ctx.log("crash-at", NAMES[op], base, n, torn)
            if op == WRITE and torn:
                self.ctx.probe("torn_write")
                arg[0] = torn
                return TORN
            if op in (OPEN, WRITE, TRUNC, RENAME, UNLINK, SYNC):
                if op == OPEN and not flags & 3:
                    return PASS
                return SUPPRESS
            return PASS
        self.fired -= 1
        self._effect(op, fd, path, flags)
        return PASS

    def peek_missing(self, p):
        return not os.path.exists(p)

    # ------------------------------------------------------------ durability model
    def _effect(self, op, fd, path, flags):
        if not self.power:
            return
        if op == OPEN and flags & os.O_CREAT and path not in self.ino:
            i = self._new_ino()
            self.ino[path] = i
            self.synced[i] = b""
            self.meta.append(("link", path, i))
        elif op == SYNC:
            try:
                _p = os.readlink("/proc/self/fd/%d" % fd)
            except OSError:
                _p = path
            i = self.ino.get(_p)
            if i is not None:
                self.synced[i] = self.peek(_p)
                # syncing a file commits the journal up to here (ext4-like)
                self._commit(len(self.meta))

    def _note(self, op, path, path2):
        if not self.power:
            return
        if op == RENAME:
            i = self.ino.pop(path, None)
            if i is not None:
                self.ino[path2] = i
                self.meta.append(("rename", path, path2, i))
        else:
            if self.ino.pop(path, None) is not None:
                self.meta.append(("unlink", path))

    def _commit(self, n):
        for m in self.meta[:n]:
            if m[0] == "link":
                self.dur_ns[m[1]] = m[2]
            elif m[0] == "rename":
                self.dur_ns.pop(m[1], None)
                self.dur_ns[m[2]] = m[3]
            else:
                self.dur_ns.pop(m[1], None)
        del self.meta[:n]

    def restart(self):
        """The process is gone; what the disk keeps becomes the starting point of the next one."""
        self.active = False
        if self.power and self.dead:
            ch = self.ctx.ch
            self._commit(ch.draw(len(self.meta) + 1))
            by_ino = {i: self.peek(p) for p, i in self.ino.items()}
            image = {}
            for p, i in self.dur_ns.items():
                cur, syn = by_ino.get(i), self.synced.get(i, b"")
                if cur is None or cur == syn:
                    image[p] = syn if cur is None else cur
                    continue
                how = ch.draw(3)        # everything / nothing since the sync / a prefix
                if how == 0:
                    image[p] = cur
                elif how == 1:
                    image[p] = syn
                else:
                    image[p] = cur[:ch.draw(len(cur) + 1)]
                self.ctx.log("power-loss", self.label(p), how, len(image[p]))
            for p in self.files():
                if p not in image:
                    self.poke(p, None)
            for p, b in image.items():
                self.poke(p, b)
        self.epoch += 1
        self.dead = False
        self.plan = {}
        self.match = None
        if self.power:
            self._baseline()
            self.power = False
