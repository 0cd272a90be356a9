"""Simulated file layer.

The scratch directory holds what the page cache would hold.  Every mutating
operation under it (open-with-truncate, write, truncate, rename, unlink, mkdir,
rmdir, fsync) passes through `_op`, is logged, and is a fault point: crash
before/after it, torn write then crash, EIO, ENOSPC (sticky), short write,
signal delivery.  HDF5 goes through the same layer via h5py's file-object
driver.  With a journal attached the parent can rebuild the state that a power
cut would leave (see durable.py).
"""
import builtins
import errno
import io
import os
import pickle
import shutil
import signal as _signal

from . import state as st

_real = {}


def _under(path):
    s = st.S
    if s is None or path is None or isinstance(path, int):
        return None
    try:
        p = os.fspath(path)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = p.decode()
    p = os.path.abspath(p)
    if p == s.root or p.startswith(s.root + os.sep):
        return p
    return None


def _journal(rec):
    s = st.S
    if s.journal is not None:
        data = pickle.dumps(rec, protocol=4)
        _real["os.write"](s.journal, len(data).to_bytes(8, "little") + data)


def deliver(signum):
    """A real signal to this process: whatever handler is installed runs."""
    s = st.S
    s.probe("signals")
    if _signal.getsignal(signum) == _signal.SIG_DFL:
        from . import proc

        proc.die(128 + int(signum), end="killed", signum=int(signum))
    _signal.raise_signal(signum)


def _op(kind, path, size=0):
    """Announce a mutating operation; may crash, raise or deliver a signal.

    Returns a number of bytes the operation is limited to (or None)."""
    s = st.S
    if s is None:
        return None
    n = s.tick("fs")
    name = st.rel(path)
    # compressed content can hold the scratch folder's name: its size is not part of the execution's identity
    s.log("fs", n, kind, name, "gz" if ".gz" in name else size)
    limit = None
    for f in s.due("fs", n, f"{kind} {name}"):
        do = f["do"]
        s.fire(f, f"{kind} {name}")
        if do == "crash":
            if kind == "write" and f.get("torn") is not None and size:
                return -1 - int(size * f["torn"])
            crash()
        elif do in ("eio", "enospc"):
            code = errno.EIO if do == "eio" else errno.ENOSPC
            if do == "enospc":
                s.nospace = f.get("for", 10 ** 9)
            raise OSError(code, os.strerror(code), os.fspath(path) if not isinstance(path, int) else None)
        elif do == "short":
            limit = max(1, size // 2) if size else None
        elif do == "signal":
            deliver(f.get("signum", _signal.SIGTERM))
    left = getattr(s, "nospace", 0)
    if left and kind in ("write", "create") and s.enabled and not s.in_worker:
        s.nospace = left - 1
        raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), os.fspath(path))
    return limit


def _stamp(fd):
    """Modification times are read back by bilby: they are simulated time."""
    s = st.S
    if s is not None:
        ns = int(s.now * 1e9)
        try:
            os.utime(fd, ns=(ns, ns))
        except OSError:
            pass


def crash():
    """kill -9: nothing runs after this, buffered data is gone."""
    from . import proc

    proc.die(st.CRASH_CODE)


class SimRaw(io.FileIO):
    """Raw file whose every write is one simulated system call."""

    def __init__(self, path, mode="r", closefd=True, opener=None, sim_path=None):
        self._sim_path = sim_path
        existed = True
        if sim_path is not None and ("w" in mode or "a" in mode or "x" in mode or "+" in mode):
            existed = os.path.lexists(sim_path)
            _op("create" if not existed else ("open-trunc" if "w" in mode else "open"), sim_path)
        super().__init__(path, mode, closefd=closefd, opener=opener)
        if sim_path is not None and (not existed or "w" in mode):
            _stamp(self.fileno())
        if sim_path is not None and st.S is not None and st.S.journal is not None and self.writable():
            ino = os.fstat(self.fileno()).st_ino
            _journal(("open", sim_path, ino, "w" in mode, existed))

    def write(self, data):
        if self._sim_path is None or st.S is None:
            return super().write(data)
        mv = memoryview(data).cast("B") if not isinstance(data, memoryview) else data.cast("B")
        limit = _op("write", self._sim_path, len(mv))
        if limit is not None and limit < 0:
            part = mv[: -1 - limit]
            self._write_now(part)
            crash()
        if limit is not None:
            mv = mv[:limit]
        return self._write_now(mv)

    def _write_now(self, mv):
        if st.S.journal is not None:
            pos = os.lseek(self.fileno(), 0, os.SEEK_CUR)
            if _is_append(self):
                pos = os.fstat(self.fileno()).st_size
            _journal(("write", os.fstat(self.fileno()).st_ino, pos, bytes(mv)))
        n = super().write(mv)
        if self._sim_path is not None:
            _stamp(self.fileno())
        return n

    def truncate(self, size=None):
        if self._sim_path is not None and st.S is not None:
            _op("truncate", self._sim_path)
            if st.S.journal is not None:
                sz = self.tell() if size is None else size
                _journal(("truncate", os.fstat(self.fileno()).st_ino, sz))
        n = super().truncate(size)
        if self._sim_path is not None:
            _stamp(self.fileno())
        return n


def _is_append(f):
    return "a" in f.mode


_fd_paths = {}


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    ro = _real["open"]
    if st.S is None:
        return ro(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        path = _fd_paths.get(file)
    else:
        path = _under(file)
    if path is None:
        return ro(file, mode, buffering, encoding, errors, newline, closefd, opener)
    m = set(mode)
    if len(m) != len(mode) or m - set("rwxabt+") or ("t" in m and "b" in m):
        return ro(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in m
    rawmode = "".join(c for c in mode if c in "rwxa+")
    raw = SimRaw(file, rawmode, closefd=closefd, opener=opener, sim_path=path)
    try:
        line_buffering = False
        if buffering == 1 and not binary:
            line_buffering = True
            buffering = -1
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if buffering < 0 or buffering == 1:
            buffering = io.DEFAULT_BUFFER_SIZE
        if "+" in m:
            buf = io.BufferedRandom(raw, buffering)
        elif m & set("wxa"):
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _patch(mod, name, fn, key=None):
    _real[key or f"{mod.__name__}.{name}"] = getattr(mod, name)
    setattr(mod, name, fn)


def _resolve(path, dir_fd):
    if dir_fd is not None:
        base = _fd_paths.get(dir_fd) or os.readlink(f"/proc/self/fd/{dir_fd}")
        return os.path.join(base, os.fsdecode(path))
    return path


def _two(name):
    def fn(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        real = _real[f"os.{name}"]
        kw = dict(src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        d = _under(_resolve(dst, dst_dir_fd)) or _under(_resolve(src, src_dir_fd))
        if d is None:
            return real(src, dst, **kw)
        for f in _pre("rename", d):
            real(src, dst, **kw)
            _note_rename(src, dst)
            crash()
        out = real(src, dst, **kw)
        _note_rename(src, dst)
        return out

    return fn


def _note_rename(src, dst):
    if st.S.journal is not None:
        _journal(("rename", os.path.abspath(os.fspath(src)), os.path.abspath(os.fspath(dst))))


def _pre(kind, path):
    """Run the op's faults; yields the faults that ask for a crash *after* it."""
    s = st.S
    n = s.tick("fs")
    name = st.rel(path)
    s.log("fs", n, kind, name)
    after = []
    for f in s.due("fs", n, f"{kind} {name}"):
        s.fire(f, f"{kind} {name}")
        do = f["do"]
        if do == "crash":
            if f.get("after"):
                after.append(f)
            else:
                crash()
        elif do in ("eio", "enospc"):
            code = errno.EIO if do == "eio" else errno.ENOSPC
            raise OSError(code, os.strerror(code), os.fspath(path))
        elif do == "signal":
            deliver(f.get("signum", _signal.SIGTERM))
    return after


def _one(name, kind):
    def fn(path, *args, **kwargs):
        real = _real[f"os.{name}"]
        p = _under(_resolve(path, kwargs.get("dir_fd"))) if not isinstance(path, int) else None
        if p is None:
            return real(path, *args, **kwargs)
        for f in _pre(kind, p):
            real(path, *args, **kwargs)
            crash()
        out = real(path, *args, **kwargs)
        if st.S.journal is not None:
            _journal((kind, p))
        return out

    return fn


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    real = _real["os.open"]
    if st.S is None:
        return real(path, flags, mode, dir_fd=dir_fd)
    p = _under(_resolve(path, dir_fd))
    if p is None:
        return real(path, flags, mode, dir_fd=dir_fd)
    existed = os.path.lexists(p)
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        _op("create" if not existed else ("open-trunc" if flags & os.O_TRUNC else "open"), p)
    fd = real(path, flags, mode, dir_fd=dir_fd)
    _fd_paths[fd] = p
    if not existed or flags & os.O_TRUNC:
        _stamp(fd)
    if st.S.journal is not None and flags & (os.O_WRONLY | os.O_RDWR):
        _journal(("open", p, os.fstat(fd).st_ino, bool(flags & os.O_TRUNC), existed))
    return fd


def _os_utime(path, times=None, **kw):
    if times is None and st.S is not None and kw.get("ns") is None:
        now = int(st.S.now * 1e9)
        kw["ns"] = (now, now)
        return _real["os.utime"](path, **kw)
    return _real["os.utime"](path, times, **kw) if times is not None else _real["os.utime"](path, **kw)


def _os_write(fd, data):
    real = _real["os.write"]
    p = _fd_paths.get(fd)
    if p is None or st.S is None:
        return real(fd, data)
    mv = memoryview(data).cast("B")
    limit = _op("write", p, len(mv))
    if limit is not None and limit < 0:
        real(fd, mv[: -1 - limit])
        _stamp(fd)
        crash()
    if limit is not None:
        mv = mv[:limit]
    if st.S.journal is not None:
        _journal(("write", os.fstat(fd).st_ino, os.lseek(fd, 0, os.SEEK_CUR), bytes(mv)))
    n = real(fd, mv)
    _stamp(fd)
    return n


def _os_close(fd):
    _fd_paths.pop(fd, None)
    return _real["os.close"](fd)


def _os_fsync(name):
    def fn(fd):
        if st.S is not None:
            fileno = fd if isinstance(fd, int) else fd.fileno()
            try:
                p = _under(os.readlink(f"/proc/self/fd/{fileno}"))
            except OSError:
                p = None
            if p is not None:
                for f in _pre("fsync", p):
                    crash()
                if st.S.journal is not None:
                    _journal(("fsync", os.fstat(fileno).st_ino))
        return _real[f"os.{name}"](fd)

    return fn


def _patch_h5py():
    try:
        import h5py
    except Exception:
        return
    base = h5py.File
    _real["h5py.File"] = base

    class File(base):
        def __init__(self, name, mode="r", driver=None, **kw):
            path = _under(name) if isinstance(name, (str, bytes, os.PathLike)) else None
            self._sim_fobj = None
            if path is None or driver is not None:
                super().__init__(name, mode, driver=driver, **kw)
                return
            if mode in ("r",):
                if not os.path.exists(path):
                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
                fobj, hmode = sim_open(path, "rb"), "r"
            elif mode in ("w", "w-", "x"):
                if mode != "w" and os.path.exists(path):
                    raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
                fobj, hmode = sim_open(path, "w+b"), "w"
            else:
                exists = os.path.exists(path)
                if mode == "r+" and not exists:
                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
                fobj, hmode = sim_open(path, "r+b" if exists else "w+b"), "r+" if exists else "w"
            self._sim_fobj = fobj
            try:
                super().__init__(fobj, hmode, **kw)
            except BaseException:
                fobj.close()
                raise

        def close(self):
            f = self._sim_fobj
            try:
                super().close()
            finally:
                if f is not None:
                    self._sim_fobj = None
                    f.close()

    File.__name__ = "File"
    File.__qualname__ = "File"
    File.__module__ = base.__module__
    h5py.File = File


_installed = False


def install():
    """Patch the standard-library seams (idempotent; inert until state.S is set)."""
    global _installed
    if _installed:
        return
    _installed = True
    _real["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    for name, kind in (("remove", "unlink"), ("unlink", "unlink"), ("mkdir", "mkdir"), ("rmdir", "rmdir")):
        _patch(os, name, _one(name, kind))
    for name in ("rename", "replace"):
        _patch(os, name, _two(name))
    _patch(os, "utime", _os_utime)
    _patch(os, "open", _os_open)
    _patch(os, "write", _os_write)
    _patch(os, "close", _os_close)
    _patch(os, "fsync", _os_fsync("fsync"))
    _patch(os, "fdatasync", _os_fsync("fdatasync"))
    for attr in ("_USE_CP_SENDFILE", "_HAS_FCOPYFILE"):
        if hasattr(shutil, attr):
            setattr(shutil, attr, False)
    _patch_h5py()
    try:
        # numpy keeps the opener it found at import time (np.savetxt)
        from numpy.lib import _datasource
    except ImportError:
        pass
    else:
        _datasource._file_openers._file_openers[None] = sim_open
