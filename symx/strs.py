"""Symbolic strings: concrete length, cells are 1-char strs or Chr values."""
import z3

from . import core
from .core import (Sym, SymBool, SymInt, SymReal, Unsupported, Var, and_,
                   atom, mkbool, not_, or_)


class Chr(object):
    """A function of one char variable; ``map`` is None for the identity, else
    a dict char->char over the variable's domain."""
    __slots__ = ("var", "map", "_mcache")

    def __init__(self, var, map=None):
        self.var = var
        self.map = map

    def dom(self):
        d = core.ENGINE.domains.get(self.var, self.var.dom)
        if self.map is None:
            return d
        return frozenset(self.map[c] for c in d)

    def pre(self, chars):
        d = core.ENGINE.domains.get(self.var, self.var.dom)
        if self.map is None:
            return d & frozenset(chars)
        return frozenset(c for c in d if self.map[c] in chars)

    def test(self, chars):
        return atom(self.var, self.pre(chars))

    def test_pred(self, pred):
        return atom(self.var, frozenset(
            c for c in core.ENGINE.domains.get(self.var, self.var.dom)
            if pred(c if self.map is None else self.map[c])))

    def term(self):
        if self.map is None:
            return self.var.t
        items = sorted(self.map.items())
        t = z3.IntVal(ord(items[-1][1]))
        for c, m in items[:-1]:
            t = z3.If(self.var.t == ord(c), z3.IntVal(ord(m)), t)
        return t

    def apply(self, fn):
        """Chr for fn(char); None if some image is not a single char."""
        d = core.ENGINE.domains.get(self.var, self.var.dom)
        m = {}
        ident = True
        for c in d:
            cur = c if self.map is None else self.map[c]
            r = fn(cur)
            if len(r) != 1:
                return None
            m[c] = r
            if r != c:
                ident = False
        if ident:
            return Chr(self.var, None)
        return Chr(self.var, m)

    def conc(self):
        c = core.ENGINE.conc_var(self.var)
        return c if self.map is None else self.map[c]


class Opq(object):
    """Opaque formatted number inside a string (e.g. '%0.1f' % score)."""
    __slots__ = ("fmt", "num")

    def __init__(self, fmt, num):
        self.fmt = fmt
        self.num = num

    def text(self, v):
        return self.fmt(v)


OPQ_CHARS = frozenset("0123456789.+-einfa ")


def apart(sub):
    """True if no occurrence of this text can overlap a formatted number."""
    return all(isinstance(c, str) and c not in OPQ_CHARS for c in cells_of(sub))


def cell_eq(a, b):
    if a is b:
        return True
    if isinstance(a, str):
        if isinstance(b, str):
            return a == b
        return b.test((a,))
    if isinstance(b, str):
        return a.test((b,))
    if a.var is b.var:
        if a.map is b.map:
            return True
        d = core.ENGINE.domains.get(a.var, a.var.dom)
        return atom(a.var, frozenset(
            c for c in d
            if (a.map[c] if a.map else c) == (b.map[c] if b.map else c)))
    common = a.dom() & b.dom()
    if not common:
        return False
    vs = frozenset((a.var, b.var))
    if a.map is None and b.map is None:
        return SymBool(a.var.t == b.var.t, vars=vs)
    return or_(*[and_(a.test((c,)), b.test((c,))) for c in sorted(common)])


def cells_of(s):
    if isinstance(s, SymStr):
        return s.cells
    if isinstance(s, (str,)):
        return tuple(s)
    if isinstance(s, (bytes, bytearray)):
        return tuple(bytes(s).decode("latin-1"))
    raise TypeError("expected str, got %s" % type(s).__name__)


WS = frozenset(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0")
BWS = frozenset(" \t\n\r\x0b\x0c")


def pred_set(fn):
    return fn


def eq_cells(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        r = cell_eq(x, y)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return and_(*out)


class SymStr(Sym):
    __slots__ = ("cells",)
    isbytes = False
    pytype = str

    def __init__(self, cells):
        self.cells = tuple(cells)

    # -- plumbing -----------------------------------------------------------
    def mk(self, cells):
        """Collapse to a real string when there is nothing symbolic."""
        return mkstr(cells, self.isbytes)

    def _same(self, o):
        if isinstance(o, SymStr):
            return o.isbytes == self.isbytes
        if self.isbytes:
            return isinstance(o, (bytes, bytearray))
        return isinstance(o, str)

    def plain(self):
        """self with opaque cells expanded (forks on their value)."""
        if not any(isinstance(c, Opq) for c in self.cells):
            return self
        out = []
        for c in self.cells:
            if isinstance(c, Opq):
                out.extend(c.text(core.ENGINE.concretize(c.num)))
            else:
                out.append(c)
        return SymStr(out) if not self.isbytes else SymBytes(out)

    def has_opaque(self):
        for c in self.cells:
            if isinstance(c, Opq):
                return True
        return False

    def concretize(self):
        out = []
        for c in self.plain().cells:
            out.append(c if isinstance(c, str) else c.conc())
        r = "".join(out)
        return r.encode("latin-1") if self.isbytes else r

    def eval_in(self, e, m):
        out = []
        for c in self.cells:
            if isinstance(c, str):
                out.append(c)
            elif isinstance(c, Opq):
                out.append(c.text(e.eval_in(m, c.num)))
            else:
                v = chr(m.eval(c.var.t, model_completion=True).as_long())
                if c.map is not None:
                    v = c.map.get(v, v)
                out.append(v)
        r = "".join(out)
        return r.encode("latin-1") if self.isbytes else r

    # -- basics -------------------------------------------------------------
    def __len__(self):
        return len(self.plain().cells)

    def __bool__(self):
        return len(self.cells) > 0

    def __iter__(self):
        for c in self.plain().cells:
            yield self._unit(c)

    def _unit(self, c):
        return mkstr((c,), self.isbytes)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        if not self._same(o):
            return False
        a, b = self.cells, cells_of(o)
        if self.has_opaque() or (isinstance(o, SymStr) and o.has_opaque()):
            # structural comparison first
            if len(a) == len(b):
                out = []
                for x, y in zip(a, b):
                    if isinstance(x, Opq) or isinstance(y, Opq):
                        if (isinstance(x, Opq) and isinstance(y, Opq)
                                and x.fmt is y.fmt):
                            if x.num is y.num or x.num.t.eq(y.num.t):
                                continue
                            if x.num == y.num:
                                continue
                        break
                    r = cell_eq(x, y)
                    if r is False:
                        break
                    if r is not True:
                        out.append(r)
                else:
                    return and_(*out)
            a = self.plain().cells
            if isinstance(o, SymStr):
                b = o.plain().cells
        return eq_cells(a, b)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _lex(self, o, strict_less):
        a, b = self.plain().cells, cells_of(o)
        for x, y in zip(a, b):
            e = cell_eq(x, y)
            if core.ENGINE.decide(e) if isinstance(e, SymBool) else e:
                continue
            tx = z3.IntVal(ord(x)) if isinstance(x, str) else x.term()
            ty = z3.IntVal(ord(y)) if isinstance(y, str) else y.term()
            vs = frozenset(c.var for c in (x, y) if not isinstance(c, str))
            return mkbool(z3.simplify(tx < ty), vs)
        return None

    def __lt__(self, o):
        r = self._lex(o, True)
        return len(self) < len(o) if r is None else r

    def __le__(self, o):
        r = self._lex(o, True)
        return len(self) <= len(o) if r is None else r

    def __gt__(self, o): return not_(self.__le__(o))
    def __ge__(self, o): return not_(self.__lt__(o))

    def __add__(self, o):
        if not self._same(o):
            raise TypeError("can only concatenate str")
        return self.mk(self.cells + cells_of(o))

    def __radd__(self, o):
        if not self._same(o):
            raise TypeError("can only concatenate str")
        return self.mk(cells_of(o) + self.cells)

    def __mul__(self, n):
        return self.mk(self.cells * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import models
        return models.pct_format(self, args)

    def __getitem__(self, i):
        p = self.plain()
        if isinstance(i, slice):
            f = lambda x: x if x is None else x.__index__()
            return self.mk(p.cells[f(i.start):f(i.stop):f(i.step)])
        c = p.cells[i.__index__()]
        if self.isbytes:
            return _ordcell(c)
        return mkstr((c,), False)

    def _pieces(self):
        """The runs of cells between formatted numbers."""
        out = [[]]
        for c in self.cells:
            if isinstance(c, Opq):
                out.append([])
            else:
                out[-1].append(c)
        return out

    def __contains__(self, sub):
        return bool(self.contains(sub))

    def contains(self, sub):
        """Substring test as a formula."""
        if self.isbytes and isinstance(sub, (int, SymInt)):
            raise Unsupported("int in symbolic bytes")
        if not self._same(sub):
            raise TypeError("'in <string>' requires string as left operand")
        if self.has_opaque() and cells_of(sub) and apart(sub):
            return or_(*[SymStr(x).contains(sub) if not self.isbytes else SymBytes(x).contains(sub) for x in self._pieces()])
        a = self.plain().cells
        b = sub.plain().cells if isinstance(sub, SymStr) else cells_of(sub)
        return or_(*[eq_cells(a[i:i + len(b)], b)
                     for i in range(len(a) - len(b) + 1)])

    def __str__(self):
        return self.concretize() if not self.isbytes else str(self.concretize())

    def __repr__(self):
        return "<sym %s>" % "".join(
            c if isinstance(c, str) else "?" for c in self.cells)

    def __format__(self, spec):
        return format(self.concretize(), spec)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    # -- case ---------------------------------------------------------------
    def _mapchars(self, fn):
        out = []
        for c in self.plain().cells:
            if isinstance(c, str):
                out.extend(fn(c))
            else:
                r = c.apply(fn)
                if r is None:
                    out.extend(fn(c.conc()))
                else:
                    out.append(r)
        return self.mk(out)

    def lower(self): return self._mapchars(self._low)
    def upper(self): return self._mapchars(self._up)
    def casefold(self): return self._mapchars(str.casefold)
    def swapcase(self): return self._mapchars(str.swapcase)

    @staticmethod
    def _low(c): return c.lower()

    @staticmethod
    def _up(c): return c.upper()

    def capitalize(self):
        if not self.cells:
            return self
        return self[:1].upper() + self[1:].lower()

    def title(self):
        return self.concretize().title()

    def translate(self, table):
        def fn(c):
            return c.translate(table)
        return self._mapchars(fn)

    # -- classes -----------------------------------------------------------
    def _all(self, pred):
        cs = self.plain().cells
        if not cs:
            return False
        return and_(*[pred(c) if isinstance(c, str) else c.test_pred(pred)
                      for c in cs])

    def isdigit(self): return self._all(str.isdigit)
    def isdecimal(self): return self._all(str.isdecimal)
    def isnumeric(self): return self._all(str.isnumeric)
    def isalpha(self): return self._all(str.isalpha)
    def isalnum(self): return self._all(str.isalnum)
    def isspace(self): return self._all(str.isspace)
    def isascii(self):
        return True if not self.cells else self._all(lambda c: ord(c) < 128)
    def isprintable(self):
        return True if not self.cells else self._all(str.isprintable)

    def isupper(self):
        cs = self.plain().cells
        t = lambda c, p: p(c) if isinstance(c, str) else c.test_pred(p)
        return and_(or_(*[t(c, str.isupper) for c in cs]),
                    *[not_(t(c, lambda x: x.islower() or x.istitle() and not x.isupper()))
                      for c in cs])

    def islower(self):
        cs = self.plain().cells
        t = lambda c, p: p(c) if isinstance(c, str) else c.test_pred(p)
        return and_(or_(*[t(c, str.islower) for c in cs]),
                    *[not_(t(c, lambda x: x.isupper() or x.istitle()))
                      for c in cs])

    # -- strip ---------------------------------------------------------------
    def _inset(self, c, chars):
        if isinstance(c, str):
            return (c.isspace() if not self.isbytes else c in BWS) \
                if chars is None else c in chars
        if chars is None:
            b = (c.test(BWS) if self.isbytes else c.test_pred(str.isspace))
        else:
            b = c.test(chars)
        return bool(b)

    def _chars(self, chars):
        if chars is None:
            return None
        if isinstance(chars, SymStr):
            chars = chars.concretize()
        return frozenset(cells_of(chars))

    def lstrip(self, chars=None):
        chars = self._chars(chars)
        cs = self.plain().cells
        i = 0
        while i < len(cs) and self._inset(cs[i], chars):
            i += 1
        return self.mk(cs[i:])

    def rstrip(self, chars=None):
        chars = self._chars(chars)
        cs = self.plain().cells
        j = len(cs)
        while j and self._inset(cs[j - 1], chars):
            j -= 1
        return self.mk(cs[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if p and self.endswith(p) else self

    # -- search ----------------------------------------------------------------
    def startswith(self, pre, start=None, end=None):
        if isinstance(pre, tuple):
            return or_(*[self.startswith(p, start, end) for p in pre])
        if not self._same(pre):
            raise TypeError("startswith arg must be str")
        a = self.plain().cells[start:end]
        b = cells_of(pre)
        if len(b) > len(a):
            return False
        return eq_cells(a[:len(b)], b)

    def endswith(self, suf, start=None, end=None):
        if isinstance(suf, tuple):
            return or_(*[self.endswith(p, start, end) for p in suf])
        if not self._same(suf):
            raise TypeError("endswith arg must be str")
        a = self.plain().cells[start:end]
        b = cells_of(suf)
        if len(b) > len(a):
            return False
        return eq_cells(a[len(a) - len(b):], b)

    def _find(self, sub, start, end, rev):
        a = self.plain().cells
        if not self._same(sub):
            raise TypeError("must be str")
        b = cells_of(sub)
        s, e, _ = slice(start, end).indices(len(a))
        if isinstance(start, int) and start > len(a):
            return -1
        rng = range(s, e - len(b) + 1)
        for i in (reversed(rng) if rev else rng):
            if eq_cells(a[i:i + len(b)], b):
                return i
        return -1

    def find(self, sub, start=None, end=None):
        return self._find(sub, start, end, False)

    def rfind(self, sub, start=None, end=None):
        return self._find(sub, start, end, True)

    def index(self, sub, start=None, end=None):
        r = self._find(sub, start, end, False)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self._find(sub, start, end, True)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        a = self.plain().cells[slice(start, end)]
        b = cells_of(sub)
        if not b:
            return len(a) + 1
        if len(b) == 1:
            n = 0
            for c in a:
                n = n + core.as_int(cell_eq(c, b[0]))
            return n
        i = n = 0
        while i + len(b) <= len(a):
            if eq_cells(a[i:i + len(b)], b):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    # -- splitting ----------------------------------------------------------------
    def split(self, sep=None, maxsplit=-1):
        safe = sep is not None and self.has_opaque() and apart(sep)
        cs = self.cells if safe else self.plain().cells
        maxsplit = maxsplit.__index__()
        out = []
        if sep is None:
            i, n = 0, len(cs)
            while True:
                while i < n and self._inset(cs[i], None):
                    i += 1
                if i >= n:
                    break
                if maxsplit == 0:
                    out.append(self.mk(cs[i:]).rstrip())
                    return out
                j = i
                while j < n and not self._inset(cs[j], None):
                    j += 1
                out.append(self.mk(cs[i:j]))
                i = j
                maxsplit -= 1
            return out
        b = cells_of(sep)
        if not b:
            raise ValueError("empty separator")
        i = st = 0
        while i + len(b) <= len(cs) and maxsplit != 0:
            w = cs[i:i + len(b)]
            if safe and any(isinstance(c, Opq) for c in w):
                i += 1
            elif eq_cells(w, b):
                out.append(self.mk(cs[st:i]))
                i += len(b)
                st = i
                maxsplit -= 1
            else:
                i += 1
        out.append(self.mk(cs[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        cs = self.plain().cells
        maxsplit = maxsplit.__index__()
        if maxsplit < 0:
            return self.split(sep)
        out = []
        if sep is None:
            j = len(cs)
            while True:
                while j and self._inset(cs[j - 1], None):
                    j -= 1
                if not j:
                    break
                if maxsplit == 0:
                    out.append(self.mk(cs[:j]).lstrip())
                    break
                i = j
                while i and not self._inset(cs[i - 1], None):
                    i -= 1
                out.append(self.mk(cs[i:j]))
                j = i
                maxsplit -= 1
            return out[::-1]
        b = cells_of(sep)
        if not b:
            raise ValueError("empty separator")
        j = en = len(cs)
        while j - len(b) >= 0 and maxsplit != 0:
            if eq_cells(cs[j - len(b):j], b):
                out.append(self.mk(cs[j:en]))
                j -= len(b)
                en = j
                maxsplit -= 1
            else:
                j -= 1
        out.append(self.mk(cs[:en]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, self.mk(()), self.mk(())
        return self[:i], sep, self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return self.mk(()), self.mk(()), self
        return self[:i], sep, self[i + len(sep):]

    def splitlines(self, keepends=False):
        cs = self.plain().cells
        brk = "\n\r" if self.isbytes else "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
        out = []
        st = i = 0
        while i < len(cs):
            if self._inset(cs[i], frozenset(brk)):
                j = i + 1
                if (self._inset(cs[i], frozenset("\r")) and j < len(cs)
                        and self._inset(cs[j], frozenset("\n"))):
                    j += 1
                out.append(self.mk(cs[st:j if keepends else i]))
                st = i = j
            else:
                i += 1
        if st < len(cs):
            out.append(self.mk(cs[st:]))
        return out

    def replace(self, old, new, count=-1):
        cs = self.plain().cells
        a, b = cells_of(old), cells_of(new)
        if not a:
            raise Unsupported("replace of empty string")
        if len(a) == len(b) == 1 and count < 0 and isinstance(a[0], str) \
                and isinstance(b[0], str):
            return self._mapchars(lambda c: b[0] if c == a[0] else c)
        out = []
        i = 0
        while i < len(cs):
            if count != 0 and i + len(a) <= len(cs) and eq_cells(cs[i:i + len(a)], a):
                out.extend(b)
                i += len(a)
                count -= 1
            else:
                out.append(cs[i])
                i += 1
        return self.mk(out)

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if k:
                out.extend(self.cells)
            out.extend(cells_of(it))
        return self.mk(out)

    # -- padding / codecs ------------------------------------------------------
    def ljust(self, n, c=" "):
        return self.mk(self.plain().cells + tuple(c) * (n - len(self)))

    def rjust(self, n, c=" "):
        return self.mk(tuple(c) * (n - len(self)) + self.plain().cells)

    def zfill(self, n):
        if self.cells and self.startswith(("+", "-")):
            return self[:1] + self[1:].rjust(n - 1, "0")
        return self.rjust(n, "0")

    def center(self, n, c=" "):
        return self.concretize().center(n, c)

    def expandtabs(self, n=8):
        return self.concretize().expandtabs(n)

    def format(self, *a, **k):
        return self.concretize().format(*a, **k)

    def encode(self, encoding="utf-8", errors="strict"):
        out = []
        ascii_ = encoding.lower().replace("_", "-") in ("utf-8", "utf8", "ascii", "us-ascii", "latin-1", "iso-8859-1")
        for c in (self if ascii_ else self.plain()).cells:
            if isinstance(c, str):
                out.extend(c.encode(encoding, errors).decode("latin-1"))
                continue
            if isinstance(c, Opq):
                out.append(c)
                continue
            try:
                ok = all(len(x.encode(encoding, errors)) == 1 for x in c.dom())
            except UnicodeError:
                ok = False
            if ok:
                out.append(c.apply(lambda x: x.encode(encoding, errors).decode("latin-1")))
            elif c.test_pred(lambda x: ord(x) < 128):
                out.append(c)
            else:
                out.extend(c.conc().encode(encoding, errors).decode("latin-1"))
        return mkstr(out, True)


def _ordcell(c):
    if isinstance(c, str):
        return ord(c)
    return SymInt(c.term(), frozenset((c.var,)))


class SymBytes(SymStr):
    __slots__ = ()
    isbytes = True
    pytype = bytes

    def _unit(self, c):
        return _ordcell(c)

    @staticmethod
    def _low(c): return c.lower() if c < "\x80" else c

    @staticmethod
    def _up(c): return c.upper() if c < "\x80" else c

    def encode(self, *a, **k):
        raise AttributeError("encode")

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        ascii_ = enc in ("utf-8", "utf8", "ascii", "us-ascii", "latin-1", "iso-8859-1", "latin1")
        cs = self.cells if ascii_ else self.plain().cells
        if enc in ("latin-1", "iso-8859-1", "latin1"):
            return mkstr(cs, False)
        asc = True
        for c in cs:
            if isinstance(c, Opq):
                continue
            if isinstance(c, str):
                if ord(c) > 127:
                    asc = False
            elif not c.test_pred(lambda x: ord(x) < 128):
                asc = False
                break
        if asc and enc in ("utf-8", "utf8", "ascii", "us-ascii"):
            return mkstr(cs, False)
        # fork only on the bytes that may be non-ascii
        out = []
        buf = []
        if enc not in ("utf-8", "utf8", "ascii", "us-ascii"):
            return self.concretize().decode(encoding, errors)
        # keep ascii chars symbolic: decode maximal non-ascii runs together with
        # their ascii neighbours (an ascii byte always ends a sequence)
        def flush():
            if buf:
                out.extend("".join(buf).encode("latin-1").decode(encoding, errors))
                del buf[:]
        for c in cs:
            if isinstance(c, Opq):
                flush()
                out.append(c)
            elif isinstance(c, str):
                if ord(c) < 128:
                    flush()
                    out.append(c)
                else:
                    buf.append(c)
            elif c.test_pred(lambda x: ord(x) < 128):
                flush()
                out.append(c)
            else:
                buf.append(c.conc())
        flush()
        return mkstr(out, False)

    def hex(self, *a):
        return self.concretize().hex(*a)


def mkstr(cells, isbytes=False):
    cells = tuple(cells)
    for c in cells:
        if not isinstance(c, str):
            return SymBytes(cells) if isbytes else SymStr(cells)
    r = "".join(cells)
    return r.encode("latin-1") if isbytes else r


def new_str(name, length, alphabet, isbytes=False):
    """Symbolic string of the given concrete length. alphabet: one str, or a
    list of per-position strs."""
    e = core.ENGINE
    cells = []
    for i in range(length):
        a = alphabet if isinstance(alphabet, (str, frozenset)) else alphabet[i]
        cells.append(Chr(e.new_var("%s[%d]" % (name, i), frozenset(a))))
    return mkstr(cells, isbytes)
