"""Files with symbolic content.  In symbolic mode `open`/`os.path.*` on paths
under ROOT are answered from a dictionary; in concrete mode a scratch directory
with real files is made."""
import io
import os
import shutil
import tempfile

from . import api

try:                       # the replayer runs without the solver
    from . import strs
    from .strs import SymStr
    from .symio import SymIO
except ImportError:
    strs = None

ROOT = "/symx-vfs"
FILES = {}
_real_open = open


def make(files):
    """files: relative path -> bytes-like (maybe symbolic).  Returns the root."""
    if api.MODE != "sym":
        d = tempfile.mkdtemp(prefix="symx-vfs-")
        for k, v in files.items():
            p = os.path.join(d, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(v, str):
                v = v.encode("latin-1")
            with _real_open(p, "wb") as f:
                f.write(v)
        api.at_exit(lambda: shutil.rmtree(d))
        return d
    FILES.clear()
    for k, v in files.items():
        FILES[ROOT + "/" + k] = v
    api.at_exit(FILES.clear)
    return ROOT


def _under(p):
    return isinstance(p, str) and (p == ROOT or p.startswith(ROOT + "/"))


def _norm(p):
    return os.path.normpath(p)


def isdir(p):
    p = _norm(p)
    return p == ROOT or any(f.startswith(p + "/") for f in FILES)


def m_open(path, mode="r", *a, **k):
    if not _under(path):
        return _real_open(path, mode, *a, **k)
    p = _norm(path)
    if p not in FILES:
        raise FileNotFoundError(2, "No such file or directory: %r" % path)
    if "w" in mode or "a" in mode:
        raise PermissionError("read-only vfs")
    v = FILES[p]
    cells = strs.cells_of(v.plain() if isinstance(v, SymStr) else v)
    if "b" in mode:
        return SymIO(strs.mkstr(cells, True), "\n", True)
    return SymIO(strs.mkstr(cells, False), "")


def wrap(real, virt):
    def f(p, *a, **k):
        if isinstance(p, SymStr):
            p = p.concretize()
        if _under(p):
            return virt(p)
        return real(p, *a, **k)
    return f


def _listdir(p):
    p = _norm(p)
    return sorted(set(f[len(p) + 1:].split("/")[0] for f in FILES
                      if f.startswith(p + "/")))


MODELS = {
    open: m_open,
    io.open: m_open,
    os.path.isfile: wrap(os.path.isfile, lambda p: _norm(p) in FILES),
    os.path.exists: wrap(os.path.exists, lambda p: _norm(p) in FILES or isdir(p)),
    os.path.isdir: wrap(os.path.isdir, isdir),
    os.listdir: wrap(os.listdir, _listdir),
}
