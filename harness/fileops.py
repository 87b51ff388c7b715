"""Observation of file operations below watched directories: every open, write, close, HDF5
dataset write and delete is an event; callbacks may switch ranks, snapshot the disk or fail it."""
import builtins
import os
import sys
import threading

_active = None  # the Watcher in force
_installed = False
_inside = threading.local()


class Watcher:
    """callback(op, path, when) with when in {'before', 'after'}"""

    def __init__(self, roots, callback):
        self.roots = [os.path.realpath(r) + os.sep for r in roots]
        self.callback = callback
        self.n_ops = 0

    def covers(self, path):
        try:
            p = os.path.realpath(os.fsdecode(path))
        except (TypeError, ValueError):
            return None
        return p if any(p.startswith(r) for r in self.roots) else None

    def fire(self, op, path, when="before"):
        if getattr(_inside, "on", False):
            return
        p = self.covers(path)
        if p is None:
            return
        _inside.on = True
        try:
            self.n_ops += 1
            self.callback(op, p, when)
        finally:
            _inside.on = False

    def __enter__(self):
        global _active
        install()
        _active = self
        return self

    def __exit__(self, *exc):
        global _active
        _active = None


def quiet():
    """context: operations inside are the harness's own"""
    return _Quiet()


class _Quiet:
    def __enter__(self):
        self.old = getattr(_inside, "on", False)
        _inside.on = True

    def __exit__(self, *exc):
        _inside.on = self.old


class Proxy:
    """A file object opened for writing whose writes and close are observed."""

    def __init__(self, f, path):
        self.__dict__.update(_f=f, _path=path)

    def write(self, *a):
        if _active:
            _active.fire("write", self._path)
        return self._f.write(*a)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        if not self._f.closed:
            if _active:
                _active.fire("close_w", self._path)
            self._f.close()
            if _active:
                _active.fire("close_w", self._path, "after")

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is not None:
            self._f.close()
            return None
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, v):
        setattr(self._f, name, v)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import h5py

    def hook(event, args):
        w = _active
        if w is None or getattr(_inside, "on", False):
            return
        if event == "open":
            path, mode, flags = args
            if not isinstance(path, (str, bytes, os.PathLike)):
                return
            writing = bool(flags & (os.O_WRONLY | os.O_RDWR)) if isinstance(flags, int) else "w" in (mode or "")
            w.fire("open_w" if writing else "open_r", path)
        elif event == "os.remove":
            w.fire("remove", args[0])
        elif event == "os.rename":
            w.fire("rename_from", args[0])
            w.fire("rename_to", args[1])
        elif event == "os.truncate":
            w.fire("open_w", args[0])

    sys.addaudithook(hook)

    real_open = builtins.open

    def open_(file, mode="r", *a, **kw):
        f = real_open(file, mode, *a, **kw)
        w = _active
        if w is not None and not getattr(_inside, "on", False) and any(c in mode for c in "wax+"):
            try:
                path = w.covers(file)
            except Exception:
                path = None
            if path is not None:
                return Proxy(f, path)
        return f

    builtins.open = open_

    RealFile = h5py.File

    class File(RealFile):
        def __init__(self, name, mode="r", *a, **kw):
            w = _active
            self._verif_path = None
            if w is not None and isinstance(name, (str, bytes, os.PathLike)):
                p = w.covers(name)
                if p is not None:
                    w.fire("open_r" if mode == "r" else "open_w", p)
                    self._verif_path = None if mode == "r" else p
            super().__init__(name, mode, *a, **kw)
            if self._verif_path and _active:
                _active.fire("open_w", self._verif_path, "after")

        def close(self):
            p = getattr(self, "_verif_path", None)
            if p and _active:
                self._verif_path = None
                try:
                    _active.fire("h5close", p)
                finally:
                    super().close()
                _active.fire("h5close", p, "after")
            else:
                super().close()

        def __exit__(self, et, ev, tb):
            if et is not None:
                self._verif_path = None
            return super().__exit__(et, ev, tb)

    # the library itself looks the class up on its own module: only the public name is replaced
    File.__name__ = File.__qualname__ = "File"
    h5py.File = File
    real_create = h5py.Group.create_dataset

    def create_dataset(self, *a, **kw):
        w = _active
        if w is not None:
            w.fire("h5write", self.file.filename)
        return real_create(self, *a, **kw)

    h5py.Group.create_dataset = create_dataset
