"""In-memory text/byte streams that can hold symbolic text."""
import io

from . import core, strs
from .strs import SymStr, mkstr


class SymIO(object):
    def __init__(self, initial=None, newline="\n", isbytes=False):
        self.isbytes = isbytes
        self.newline = newline
        self.cells = list(strs.cells_of(self._plain(initial))) \
            if initial is not None else []
        self.pos = 0
        self.closed = False

    @staticmethod
    def _plain(s):
        return s.plain() if isinstance(s, SymStr) else s

    def _mk(self, cells):
        return mkstr(cells, self.isbytes)

    def write(self, s):
        want = (bytes, bytearray) if self.isbytes else str
        if not isinstance(s, want) and not (
                isinstance(s, SymStr) and s.isbytes == self.isbytes):
            raise TypeError("string argument expected, got %s" % type(s).__name__)
        c = strs.cells_of(self._plain(s))
        self.cells[self.pos:self.pos + len(c)] = c
        self.pos += len(c)
        return len(c)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def getvalue(self):
        return self._mk(self.cells)

    getbuffer = getvalue

    def read(self, n=-1):
        n = -1 if n is None else n
        end = len(self.cells) if n < 0 else min(len(self.cells), self.pos + n)
        r = self.cells[self.pos:end]
        self.pos = max(self.pos, end)
        return self._mk(r)

    def _is(self, i, ch):
        c = self.cells[i]
        if isinstance(c, str):
            return c == ch
        return core.ENGINE.decide(c.test((ch,)))

    def readline(self, limit=-1):
        i = self.pos
        n = len(self.cells)
        univ = not self.newline and not self.isbytes
        while i < n:
            if limit is not None and 0 <= limit <= i - self.pos:
                break
            if self._is(i, "\n"):
                i += 1
                break
            if univ and self._is(i, "\r"):
                i += 1
                if i < n and self._is(i, "\n"):
                    i += 1
                break
            i += 1
        r = self.cells[self.pos:i]
        self.pos = i
        return self._mk(r)

    def readlines(self, hint=-1):
        out = []
        while self.pos < len(self.cells):
            out.append(self.readline())
        return out

    def __iter__(self):
        while self.pos < len(self.cells):
            yield self.readline()

    def __next__(self):
        if self.pos >= len(self.cells):
            raise StopIteration
        return self.readline()

    def seek(self, p, whence=0):
        if whence == 1:
            p += self.pos
        elif whence == 2:
            p += len(self.cells)
        self.pos = p
        return p

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        del self.cells[self.pos if n is None else n:]

    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def flush(self): pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def m_stringio(initial_value="", newline="\n"):
    if newline is None:
        raise core.Unsupported("StringIO(newline=None)")
    return SymIO(initial_value, newline)


def m_bytesio(initial_bytes=b""):
    return SymIO(initial_bytes, "\n", True)
