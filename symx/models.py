"""Runtime support called from rewritten code (installed in builtins as _sx_*):
calls, containment, subscripts, formatting with symbolic operands."""
import ast
import builtins
import collections
import datetime
import functools
import itertools
import logging
import operator
import re
import string as _string
import sys
import types

import io

from . import core, strs, rx, symio
from .core import (Control, Sym, SymBool, SymInt, SymNum, SymReal, Unsupported,
                   and_, as_int, not_, or_, truth)
from .strs import Opq, SymBytes, SymStr, mkstr

UNMODELLED = {}          # name -> count, for the evidence


# --------------------------------------------------------------------------
# detection
# --------------------------------------------------------------------------
_LEAF = (str, bytes, int, float, bool, type(None), types.FunctionType, type,
         types.ModuleType)


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth == 0 or isinstance(x, _LEAF):
        return False
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        for y in x:
            if has_sym(y, depth - 1):
                return True
        return False
    if isinstance(x, dict):
        for k, v in x.items():
            if has_sym(k, depth - 1) or has_sym(v, depth - 1):
                return True
        return False
    return False


def conc(x, depth=4):
    """Concretise (by forking) everything symbolic inside x."""
    if isinstance(x, Sym):
        return core.ENGINE.concretize(x)
    if depth == 0 or isinstance(x, _LEAF):
        return x
    if type(x) in (list, tuple, set, frozenset) and has_sym(x, depth):
        return type(x)(conc(y, depth - 1) for y in x)
    if type(x) is dict and has_sym(x, depth):
        return {conc(k, depth - 1): conc(v, depth - 1) for k, v in x.items()}
    return x


def namespace(d):
    """Concretise the names of a namespace given to eval/exec, in place."""
    if type(d) is dict and any(isinstance(k, Sym) for k in d):
        items = [(conc(k), v) for k, v in d.items()]
        d.clear()
        d.update(items)
    return d


# --------------------------------------------------------------------------
# dictionaries and sets with symbolic keys
# --------------------------------------------------------------------------
def sym_keyed(d):
    return id(d) in core.ENGINE.symdicts


def mark(d):
    core.ENGINE.symdicts[id(d)] = d


def _deep_sym_key(k):
    return isinstance(k, Sym) or (isinstance(k, tuple) and has_sym(k))


def canon(d, k):
    """(found, key object to use) for key k in container d, forking on
    equality with the keys already present."""
    if isinstance(k, SymNum) or isinstance(k, SymBool):
        k = core.ENGINE.concretize(k)
    if not _deep_sym_key(k):
        if not sym_keyed(d):
            return None, k
        # concrete key, container holds symbolic ones
        base = _raw_contains(d, k)
        if base:
            return True, k
        for x in list(_raw_iter(d)):
            if _deep_sym_key(x) and bool(x == k):
                return True, x
        return False, k
    if isinstance(k, tuple) and isinstance(k, tuple):
        pass
    for x in list(_raw_iter(d)):
        if x is k:
            return True, x
        if isinstance(x, tuple) != isinstance(k, tuple):
            continue
        if isinstance(x, tuple):
            if len(x) == len(k) and all(bool(truth(a == b)) for a, b in zip(x, k)):
                return True, x
        elif bool(truth(k == x)):
            return True, x
    return False, k


def _raw_iter(d):
    if isinstance(d, dict):
        return dict.keys(d)
    return d


def _raw_contains(d, k):
    if isinstance(d, dict):
        return dict.__contains__(d, k)
    return type(d).__contains__(d, k)


class TupKey(tuple):
    """Identity-hashed tuple used as stored key when it holds symbolic parts."""
    __hash__ = object.__hash__


def _storable(k):
    return k


_DICT_BASES = (dict,)


def has_py_method(obj, name):
    """A Python-level (non builtin) override of a container method."""
    f = getattr(type(obj), name, None)
    return isinstance(f, types.FunctionType) and instrumented(f)


def d_get(d, k, *default):
    found, key = canon(d, k)
    if found is None or found:
        return dict.get(d, key, *default)
    return default[0] if default else None


def d_getitem(d, k):
    found, key = canon(d, k)
    if found is None:
        return dict.__getitem__(d, key) if type(d) is not collections.defaultdict \
            else d[key]
    if found:
        return dict.__getitem__(d, key)
    return d_missing(d, k)


def d_missing(d, k):
    if isinstance(d, collections.defaultdict) and d.default_factory is not None:
        v = d.default_factory()
        d_setitem(d, k, v)
        return v
    if isinstance(d, collections.Counter):
        return 0
    if hasattr(type(d), "__missing__") and isinstance(
            type(d).__missing__, types.FunctionType):
        return d.__missing__(k)
    raise KeyError(k)


def d_setitem(d, k, v):
    found, key = canon(d, k)
    if isinstance(key, Sym) or (isinstance(key, tuple) and has_sym(key)):
        mark(d)
    if type(d) is collections.OrderedDict:
        collections.OrderedDict.__setitem__(d, key, v)
    else:
        dict.__setitem__(d, key, v)


def d_delitem(d, k):
    found, key = canon(d, k)
    if found is False:
        raise KeyError(k)
    if type(d) is collections.OrderedDict:
        collections.OrderedDict.__delitem__(d, key)
    else:
        dict.__delitem__(d, key)


def d_contains(d, k):
    found, key = canon(d, k)
    if found is None:
        return _raw_contains(d, key)
    return found


def d_pop(d, k, *default):
    found, key = canon(d, k)
    if found is False:
        if default:
            return default[0]
        raise KeyError(k)
    return dict.pop(d, key, *default)


def d_setdefault(d, k, default=None):
    found, key = canon(d, k)
    if found is None:
        return dict.setdefault(d, key, default)
    if found:
        return dict.__getitem__(d, key)
    d_setitem(d, k, default)
    return default


def d_update(d, *a, **kw):
    for src in a:
        if isinstance(src, dict) or hasattr(src, "keys"):
            for k in list(src.keys()):
                _setitem(d, k, src[k] if not _deep_sym_key(k) else dict.__getitem__(src, k))
        else:
            for k, v in src:
                _setitem(d, k, v)
    for k, v in kw.items():
        _setitem(d, k, v)


def counter_update(d, *a, **kw):
    for src in a + ((kw,) if kw else ()):
        if isinstance(src, dict):
            for k in list(src.keys()):
                d_setitem(d, k, d_get(d, k, 0) + dict.__getitem__(src, k))
        else:
            for k in src:
                d_setitem(d, k, d_get(d, k, 0) + 1)


def s_add(s, x):
    found, key = canon(s, x)
    if found is True:
        return
    if isinstance(key, Sym) or (isinstance(key, tuple) and has_sym(key)):
        mark(s)
    set.add(s, key)


def s_contains(s, x):
    found, key = canon(s, x)
    if found is None:
        return key in s
    return found


def s_remove(s, x):
    found, key = canon(s, x)
    if found is False:
        raise KeyError(x)
    set.remove(s, key)


def s_discard(s, x):
    found, key = canon(s, x)
    if found is not False:
        set.discard(s, key)


def mkset(items, cls=set):
    s = set()
    for x in items:
        s_add(s, x)
    if cls is set:
        return s
    f = cls(s)
    if sym_keyed(s):
        mark(f)
    return f


def mkdict(pairs, cls=dict):
    d = cls()
    for k, v in pairs:
        d_setitem(d, k, v)
    return d


def _set_op(name, s, others):
    others = [list(_iter(o)) for o in others]
    if name == "union":
        r = mkset(list(s))
        for o in others:
            for x in o:
                s_add(r, x)
        return r
    if name == "update":
        for o in others:
            for x in o:
                s_add(s, x)
        return None
    if name == "intersection":
        keep = list(s)
        for o in others:
            oo = mkset(o)
            keep = [x for x in keep if s_contains(oo, x)]
        return mkset(keep)
    if name in ("difference", "difference_update"):
        keep = list(s)
        for o in others:
            oo = mkset(o)
            keep = [x for x in keep if not s_contains(oo, x)]
        if name == "difference":
            return mkset(keep)
        set.clear(s)
        for x in keep:
            s_add(s, x)
        return None
    if name == "issubset":
        oo = mkset(others[0])
        return all(s_contains(oo, x) for x in list(s))
    if name == "issuperset":
        return all(s_contains(s, x) for x in others[0])
    if name == "isdisjoint":
        return not any(s_contains(s, x) for x in others[0])
    if name == "symmetric_difference":
        oo = mkset(others[0])
        return mkset([x for x in list(s) if not s_contains(oo, x)] +
                     [x for x in list(oo) if not s_contains(s, x)])
    raise Unsupported("set." + name)


_SET_OPS = {"union", "update", "intersection", "difference",
            "difference_update", "issubset", "issuperset", "isdisjoint",
            "symmetric_difference"}


def _iter(x):
    return iter(x)


# --------------------------------------------------------------------------
# operators used by rewritten code
# --------------------------------------------------------------------------
def contains(x, c):
    """x in c, without forking when possible."""
    if isinstance(c, SymStr):
        return c.contains(x)
    if isinstance(x, Sym):
        if isinstance(c, (str, bytes)):
            if isinstance(x, SymStr):
                return _substr_of(x, c)
            if isinstance(c, bytes) and isinstance(x, SymInt):
                return or_(*[x == b for b in set(c)])
            return x in c
        if isinstance(c, (list, tuple, collections.deque)):
            return or_(*[truth(x == y) for y in c])
        if type(c) in (type({}.values()),):
            return or_(*[truth(x == y) for y in c])
        if isinstance(c, (dict, set, frozenset)) or isinstance(
                c, type({}.keys())):
            if has_py_method(c, "__contains__"):
                return truth(type(c).__contains__(c, x))
            if isinstance(c, type({}.keys())):
                c = list(c)
                return or_(*[truth(x == y) for y in c])
            ks = list(_raw_iter(c))
            if isinstance(x, (SymStr, SymNum, SymBool)):
                return or_(*[truth(x == y) for y in ks])
            return d_contains(c, x)
        if isinstance(c, range):
            if c.step == 1:
                return and_(x >= c.start, x < c.stop)
            return or_(*[x == y for y in c])
        if instrumented(getattr(type(c), "__contains__", None)):
            return truth(type(c).__contains__(c, x))
        if hasattr(c, "__iter__"):
            return or_(*[truth(x == y) for y in c])
        return conc(x) in c
    if isinstance(x, tuple) and has_sym(x):
        if isinstance(c, (dict, set, frozenset)):
            return d_contains(c, x)
        return any(bool(x == y) for y in c)
    if isinstance(c, (dict, set, frozenset)) and sym_keyed(c) and \
            not has_py_method(c, "__contains__"):
        return or_(*[truth(y == x) for y in _raw_iter(c)])
    if isinstance(c, (list, tuple)) and has_sym(c, 1):
        return or_(*[truth(x == y) for y in c])
    return x in c


def _substr_of(x, c):
    b = strs.cells_of(c)
    a = x.plain().cells
    return or_(*[strs.eq_cells(a, b[i:i + len(a)])
                 for i in range(len(b) - len(a) + 1)])


def getitem(o, i):
    if isinstance(i, Sym):
        if isinstance(o, dict):
            if has_py_method(o, "__getitem__"):
                return o[i]
            return d_getitem(o, i)
        if isinstance(i, (SymInt, SymBool)):
            return o[core.ENGINE.concretize(i)]
        if isinstance(o, (list, tuple, str, bytes)):
            raise TypeError("indices must be integers")
        if isinstance(getattr(type(o), "__getitem__", None), types.FunctionType) \
                and instrumented(type(o).__getitem__):
            return o[i]
        return o[conc(i)]
    if isinstance(o, dict) and (sym_keyed(o) or isinstance(i, tuple)) and \
            not has_py_method(o, "__getitem__"):
        return d_getitem(o, i)
    return o[i]


def _setitem(o, i, v):
    if isinstance(o, dict) and not has_py_method(o, "__setitem__") and \
            (_deep_sym_key(i) or sym_keyed(o)):
        d_setitem(o, i, v)
        return
    if isinstance(i, Sym) and not isinstance(o, dict) and not (
            isinstance(getattr(type(o), "__setitem__", None), types.FunctionType)
            and instrumented(type(o).__setitem__)):
        i = conc(i)
    o[i] = v


def _delitem(o, i):
    if isinstance(o, dict) and not has_py_method(o, "__delitem__") and \
            (_deep_sym_key(i) or sym_keyed(o)):
        d_delitem(o, i)
        return
    if isinstance(i, Sym) and not isinstance(o, dict) and not (
            isinstance(getattr(type(o), "__delitem__", None), types.FunctionType)
            and instrumented(type(o).__delitem__)):
        i = conc(i)
    del o[i]


class Proxy(object):
    __slots__ = ("o",)

    def __init__(self, o):
        self.o = o

    def __getitem__(self, i):
        return getitem(self.o, i)

    def __setitem__(self, i, v):
        _setitem(self.o, i, v)

    def __delitem__(self, i):
        _delitem(self.o, i)


def sub(o):
    return Proxy(o)


def sx_not(x):
    if isinstance(x, SymBool):
        return not_(x)
    if isinstance(x, SymNum):
        return x == 0
    return not x


def _has_py_str(x):
    """x has a __str__ or __repr__ that may yield symbolic text."""
    if isinstance(x, _LEAF) or isinstance(x, BaseException):
        return False
    for n in ("__str__", "__repr__"):
        f = getattr(type(x), n, None)
        if isinstance(f, types.FunctionType) and instrumented(f):
            return True
    return False


def sx_mod(a, b):
    if isinstance(a, (str, bytes)) and not isinstance(a, Sym):
        if has_sym(b):
            return pct_format(a, b)
        for x in (b if isinstance(b, tuple) else (b,)):
            if _has_py_str(x) or isinstance(x, BaseException) and has_sym(x.args):
                return pct_format(a, b)
        if isinstance(b, dict) and sym_keyed(b):
            return pct_format(a, b)
    return a % b


def sx_add(a, b):
    return a + b


_PCT = re.compile(r"%(?:\(([^)]*)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([^-#0 +*\d.(hlL])",
                  re.S)


def fmt_num(spec):
    f = _FMTS.get(spec)
    if f is None:
        f = _FMTS[spec] = (lambda v: spec % v)
    return f


_FMTS = {}


def pct_format(fmt, args):
    if isinstance(fmt, SymStr):
        # '%' characters may be symbolic: fork until they are known
        cells = fmt.plain().cells
        out = []
        for c in cells:
            if not isinstance(c, str) and c.test(("%",)):
                c = "%"
            out.append(c)
        ftext = out
    else:
        ftext = list(strs.cells_of(fmt))
    isb = isinstance(fmt, (bytes, SymBytes))
    n = len(ftext)
    res = []
    pos = 0
    argi = 0
    tup = args if isinstance(args, tuple) else (args,)
    used = False
    while pos < n:
        c = ftext[pos]
        if c != "%" or not isinstance(c, str):
            res.append(c)
            pos += 1
            continue
        # a directive: concretise its characters lazily
        j = pos + 1
        chunk = ["%"]
        while True:
            m = _PCT.match("".join(chunk))
            if m or j >= n:
                break
            d = ftext[j]
            chunk.append(d if isinstance(d, str) else d.conc())
            j += 1
        m = _PCT.match("".join(chunk))
        if not m:
            if "(" in chunk:
                raise ValueError("incomplete format key")
            raise ValueError("incomplete format")
        key, flags, width, prec, conv = m.groups()
        pos = j
        if conv == "%":
            res.append("%")
            continue
        if width == "*" or prec == "*":
            raise Unsupported("* in format")
        if key is not None:
            if not (isinstance(args, dict) or hasattr(args, "__getitem__")) or \
                    isinstance(args, (tuple, SymStr, str)):
                raise TypeError("format requires a mapping")
            val = getitem(args, key)
            used = True
        else:
            if argi >= len(tup):
                raise TypeError("not enough arguments for format string")
            val = tup[argi]
            argi += 1
        spec = "%" + flags + (width or "") + \
            ("." + prec if prec is not None else "") + conv
        if not isinstance(val, Sym):
            if conv in "sr" and has_sym(val):
                val = to_str(val) if conv == "s" else to_repr(val)
            elif conv == "s" and not isinstance(val, _LEAF):
                val = to_str(val)       # user __str__ may yield symbolic text
            if not isinstance(val, Sym):
                if isb:
                    res.extend(strs.cells_of(
                        spec.encode("latin-1") % (val,)))
                else:
                    res.extend(spec % (val,))
                continue
        if conv == "s":
            s = to_str(val)
            cells = strs.cells_of(s)
            if prec is not None:
                cells = cells[:int(prec)]
            if width:
                pad = int(width) - len(cells)
                if pad > 0:
                    cells = (cells + (" ",) * pad if "-" in flags
                             else (" ",) * pad + cells)
            res.extend(cells)
        elif conv == "r":
            res.extend(strs.cells_of(to_repr(val)))
        elif conv in "dixXoeEfFgG":
            if isinstance(val, SymStr):
                raise TypeError("%%%s format: a number is required" % conv)
            if isinstance(val, SymBool):
                val = as_int(val)
            if conv in "di" and isinstance(val, SymReal):
                val = val.trunc()
            if conv in "di" and not flags and not width:
                res.extend(strs.cells_of(int_to_str(val)))
            else:
                res.append(Opq(fmt_num(spec), val))
        elif conv == "c":
            res.extend(strs.cells_of(val if isinstance(val, SymStr)
                                     else m_chr(val)))
        else:
            raise ValueError("unsupported format character %r" % conv)
    if not used and argi < len(tup) and not isinstance(args, dict):
        if isinstance(args, tuple) or argi == 0:
            raise TypeError("not all arguments converted during string formatting")
    return mkstr(res, isb)


def int_to_str(v):
    if not isinstance(v, SymNum):
        return str(v)
    return mkstr((Opq(_STR, v),))


def _STR(v):
    return str(v)


def to_str(x):
    if isinstance(x, SymBytes):
        return str(conc(x))
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymBool):
        return "True" if x else "False"
    if isinstance(x, SymInt):
        return int_to_str(x)
    if isinstance(x, SymReal):
        return mkstr((Opq(_STR, x),))
    if isinstance(x, Sym):
        return str(conc(x))
    f = getattr(type(x), "__str__", None)
    if isinstance(f, types.FunctionType) and instrumented(f):
        return f(x)
    if has_sym(x):
        if isinstance(x, (list, tuple, dict, set, frozenset)):
            return to_repr(x)
    if isinstance(x, BaseException) and not isinstance(x, Control):
        if has_sym(x.args):
            if len(x.args) == 1:
                return to_str(x.args[0])
            return str(type(x)(*conc(x.args)))
        return str(x)
    f = getattr(type(x), "__str__", None)
    if isinstance(f, types.FunctionType) and instrumented(f):
        return f(x)
    return str(x)


_PLAIN_REPR = re.compile(r"[ !#-&(-\[\]-~]*\Z")


def to_repr(x):
    if isinstance(x, SymStr):
        if not x.isbytes:
            x = x.plain()
            if rx.do(_PLAIN_REPR, "match", x):
                return "'" + x + "'"
        return repr(conc(x))
    if type(x) in (list, tuple) and has_sym(x):
        items = [to_repr(i) for i in x]
        if type(x) is tuple and len(x) == 1:
            return "(" + items[0] + ",)"
        o, c = "[]" if type(x) is list else "()"
        r = o
        for i, it in enumerate(items):
            r = r + (", " if i else "") + it
        return r + c
    if isinstance(x, SymBool):
        return to_str(x)
    if isinstance(x, SymNum):
        return to_str(x)
    if has_sym(x):
        return repr(conc(x))
    f = getattr(type(x), "__repr__", None)
    if isinstance(f, types.FunctionType) and instrumented(f):
        return f(x)
    return repr(x)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(p)
            continue
        val, conv, spec = p
        if conv == "r":
            val = to_repr(val)
        elif conv in ("s", "a"):
            val = to_str(val)
        out.extend(strs.cells_of(m_format(val, spec)))
    return mkstr(out)


def m_format(val, spec=""):
    if isinstance(spec, SymStr):
        spec = conc(spec)
    if isinstance(val, Sym):
        if not spec:
            return to_str(val)
        if isinstance(val, SymNum):
            return mkstr((Opq(lambda v, s=spec: format(v, s), val),))
        return format(conc(val), spec)
    if not spec and not isinstance(val, _LEAF):
        return to_str(val)
    return format(val, spec)


class _Fmt(_string.Formatter):
    pass


def str_format(fmt, args, kwargs):
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        first, rest = _string._string.formatter_field_name_split(field) \
            if hasattr(_string, "_string") else (field, ())
        obj = args[first] if isinstance(first, int) else (
            args[int(first)] if isinstance(first, str) and first.isdigit()
            else getitem(kwargs, first))
        for is_attr, k in rest:
            obj = getattr(obj, k) if is_attr else getitem(obj, k)
        if conv == "r":
            obj = to_repr(obj)
        elif conv == "s":
            obj = to_str(obj)
        if spec and "{" in spec:
            spec = conc(str_format(spec, args, kwargs))
        out.extend(strs.cells_of(m_format(obj, spec)))
    return mkstr(out)


# --------------------------------------------------------------------------
# builtin models
# --------------------------------------------------------------------------
_INT_RE = re.compile(r"\s*[-+]?\d+(?:_\d+)*\s*\Z")
_FLOAT_RE = re.compile(
    r"\s*[-+]?(?:(?:\d+(?:_\d+)*\.?(?:\d+(?:_\d+)*)?|\.\d+(?:_\d+)*)(?:[eE][-+]?\d+)?"
    r"|inf(?:inity)?|nan)\s*\Z", re.I)
_FIXED_RE = re.compile(r"\s*[-+]?(?:\d+\.?\d*|\.\d+)\s*\Z")


def digits_value(cells, base=10):
    v = 0
    for c in cells:
        if isinstance(c, str):
            d = int(c, base)
        else:
            r = None
            ds = {}
            for ch in c.dom():
                try:
                    ds[ch] = int(ch, base)
                except ValueError:
                    pass        # excluded by the path condition
            if not ds:
                raise ValueError("not a digit")
            if all(ch.isdigit() and ord(ch) < 128 for ch in ds):
                d = SymInt(c.term(), frozenset((c.var,))) - 48
            else:
                items = sorted(ds.items())
                t = core.z3.IntVal(items[-1][1])
                for ch, dv in items[:-1]:
                    t = core.z3.If(tb_(c.test((ch,))), core.z3.IntVal(dv), t)
                d = SymInt(t, frozenset((c.var,)))
        v = v * base + d
    return v


def tb_(b):
    return core.tb(b)


def m_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get("base", 10)
    base = conc(base)
    if isinstance(x, SymBool):
        return as_int(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return x.trunc()
    if isinstance(x, SymStr):
        x = x.plain()
        if base != 10:
            if base == 16 and not x.isbytes:
                m = rx.do(re.compile(r"\s*([-+]?)(?:0[xX])?([0-9a-fA-F]+)\s*\Z"),
                          "match", x)
                if m is None:
                    return int(conc(x), base)
                v = digits_value(strs.cells_of(m.group(2)), 16)
                return -v if m.group(1) == "-" else v
            return int(conc(x), base)
        rex = _INT_RE if not x.isbytes else re.compile(_INT_RE.pattern.encode())
        if not rx.do(rex, "match", x):
            raise ValueError("invalid literal for int() with base 10")
        s = x.strip()
        neg = False
        if s.startswith(("-", "+") if not x.isbytes else (b"-", b"+")):
            if bool(truth(s[0:1] == ("-" if not x.isbytes else b"-"))):
                neg = True
            s = s[1:]
        if bool(truth(contains("_" if not x.isbytes else b"_", s))):
            return int(conc(x))
        v = digits_value(strs.cells_of(s))
        return -v if neg else v
    f = getattr(type(x), "__int__", None)
    if instrumented(f):
        return f(x)
    return int(*conc(a), **conc(k))


def m_float(*a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, (SymBool, SymInt)):
        return SymReal(core.rterm(x), core.nvars(x))
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymStr):
        x = x.plain()
        if x.isbytes:
            return float(conc(x))
        if not rx.do(_FLOAT_RE, "match", x):
            raise ValueError("could not convert string to float")
        if not rx.do(_FIXED_RE, "match", x):
            return float(conc(x))
        s = x.strip()
        neg = False
        if s.startswith(("-", "+")):
            neg = bool(truth(s.startswith("-")))
            s = s[1:]
        i = s.find(".") if isinstance(s, SymStr) else s.find(".")
        if i < 0:
            ip, fp = s, ""
        else:
            ip, fp = s[:i], s[i + 1:]
        cells = strs.cells_of(ip) + strs.cells_of(fp)
        v = digits_value(cells)
        n = len(strs.cells_of(fp))
        if isinstance(v, int):
            return float(conc(x))
        r = SymReal(core.rterm(v) / core.z3.IntVal(10 ** n), v.vars)
        return -r if neg else r
    return float(x)


def m_str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    if a and isinstance(a[0], SymBytes):
        return a[0].decode(*a[1:], **k)
    return str(*conc(a), **k)


def m_bool(*a):
    if not a:
        return False
    return truth(a[0])


def m_len(x):
    if isinstance(x, SymStr):
        return len(x)
    return len(x)


_PYT = {SymBool: bool, SymInt: int, SymReal: float, SymStr: str, SymBytes: bytes}


def pytype(x):
    for t, p in _PYT.items():
        if type(x) is t:
            return p
    return type(x)


def m_type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        return pytype(a[0])
    return type(*a)


def m_isinstance(x, t):
    if isinstance(x, Sym):
        return issubclass(pytype(x), t)
    return isinstance(x, t)


def m_ord(c):
    if isinstance(c, SymStr):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return strs._ordcell(c.plain().cells[0])
    return ord(c)


def m_chr(i):
    return chr(conc(i))


def m_abs(x):
    return abs(as_int(x))


def m_round(x, n=None):
    if isinstance(x, SymBool):
        x = as_int(x)
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def m_minmax(name):
    def f(*a, **k):
        key = k.get("key")
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if "default" in k:
                return k["default"]
            raise ValueError("%s() arg is an empty sequence" % name)
        best = items[0]
        bk = key(best) if key else best
        for x in items[1:]:
            xk = key(x) if key else x
            c = (xk < bk) if name == "min" else (xk > bk)
            if key is None and isinstance(c, SymBool) and isinstance(
                    x, (int, float, SymNum)) and isinstance(
                    best, (int, float, SymNum)):
                best = bk = core.ite(c, x, best)
            elif c:
                best, bk = x, xk
        return best
    return f


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_any(it):
    if isinstance(it, (list, tuple, set)):
        return or_(*[truth(x) for x in it])
    for x in it:
        if x:
            return True
    return False


def m_all(it):
    if isinstance(it, (list, tuple, set)):
        return and_(*[truth(x) for x in it])
    for x in it:
        if not x:
            return False
    return True


def m_set(*a):
    return mkset(a[0]) if a else set()


def m_frozenset(*a):
    return mkset(a[0], frozenset) if a else frozenset()


def m_dict(*a, **k):
    d = {}
    if a:
        d_update(d, a[0])
    d.update(k)
    return d


def m_ordereddict(*a, **k):
    d = collections.OrderedDict()
    if a:
        d_update(d, a[0])
    d_update(d, k)
    return d


def m_counter(*a, **k):
    c = collections.Counter()
    if a:
        for x in a[0]:
            if _deep_sym_key(x):
                d_setitem(c, x, d_getitem(c, x) + 1 if d_contains(c, x) else 1)
            elif sym_keyed(c):
                d_setitem(c, x, (d_getitem(c, x) if d_contains(c, x) else 0) + 1)
            else:
                c[x] = c[x] + 1
    return c


def m_defaultdict(*a, **k):
    d = collections.defaultdict(a[0] if a else None)
    if len(a) > 1:
        d_update(d, a[1])
    d_update(d, k)
    return d


def m_sorted(it, key=None, reverse=False):
    return sorted(list(it), key=key, reverse=bool(reverse))


def m_bytes(*a, **k):
    x = a[0] if a else b""
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymStr):
        return x.encode(*a[1:], **k)
    return bytes(*conc(a), **k)


def m_getattr(o, name, *d):
    return getattr(o, conc(name), *d)


def m_hasattr(o, name):
    return hasattr(o, conc(name))


def m_setattr(o, name, v):
    return setattr(o, conc(name), v)


def m_map(f, *its):
    for args in zip(*its):
        yield call(f, *args)


def m_filter(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


def m_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def m_range(*a):
    return range(*[core.ENGINE.concretize(x) for x in a])


def m_hash(x):
    return hash(conc(x))


def m_divmod(a, b):
    return a // b, a % b


def m_iter(x, *a):
    return iter(x, *a)


BUILTINS = {
    int: m_int, float: m_float, str: m_str, bool: m_bool, len: m_len,
    type: m_type, isinstance: m_isinstance, ord: m_ord, chr: m_chr,
    abs: m_abs, round: m_round, min: m_minmax("min"), max: m_minmax("max"),
    sum: m_sum, any: m_any, all: m_all, set: m_set, frozenset: m_frozenset,
    dict: m_dict, collections.OrderedDict: m_ordereddict,
    collections.Counter: m_counter, collections.defaultdict: m_defaultdict,
    sorted: m_sorted, repr: to_repr, bytes: m_bytes, getattr: m_getattr,
    hasattr: m_hasattr, setattr: m_setattr, format: m_format,
    range: m_range, hash: m_hash, divmod: m_divmod,
    functools.reduce: m_reduce, map: m_map, filter: m_filter,
    operator.or_: lambda a, b: a | b, operator.and_: lambda a, b: a & b,
    operator.add: lambda a, b: a + b, operator.not_: sx_not,
    io.StringIO: symio.m_stringio, io.BytesIO: symio.m_bytesio,
}

# callables that treat their arguments opaquely or only through operators
NATIVE = {list, tuple, enumerate, zip, reversed, iter, next, id, callable,
          print, functools.partial, itertools.chain, itertools.islice,
          itertools.product, itertools.count, itertools.repeat, itertools.cycle,
          itertools.chain.from_iterable, collections.deque, super, object,
          issubclass, property, staticmethod, classmethod, slice, delattr,
          itertools.zip_longest, itertools.takewhile, itertools.dropwhile,
          itertools.groupby, vars, dir}
ALWAYS = {int, str, isinstance, type, set, frozenset, dict, collections.OrderedDict,
          collections.Counter, any, all, io.StringIO, io.BytesIO}

_LIST_NATIVE = {"append", "extend", "insert", "pop", "reverse", "clear", "copy",
                "sort", "appendleft", "popleft", "extendleft", "__len__",
                "__iter__", "__add__", "__iadd__", "rotate"}
_DICT = {"get": d_get, "__getitem__": d_getitem, "__setitem__": d_setitem,
         "__delitem__": d_delitem, "__contains__": d_contains, "pop": d_pop,
         "setdefault": d_setdefault, "update": d_update, "has_key": d_contains}
_DICT_NATIVE = {"items", "keys", "values", "clear", "popitem", "__len__",
                "__iter__", "move_to_end", "__init__"}
_SET = {"add": s_add, "remove": s_remove, "discard": s_discard,
        "__contains__": s_contains}

_PATTERN = type(re.compile("x"))
_MATCH = type(re.match("x", "x"))
_INSTR_FILES = set()


def instrumented(f):
    f = getattr(f, "__func__", f)
    c = getattr(f, "__code__", None)
    return isinstance(c, types.CodeType) and c.co_filename in _INSTR_FILES


def is_pyfunc(f):
    """A Python-level function (PyPy gives builtin methods type function too)."""
    if not isinstance(f, types.FunctionType):
        return False
    c = f.__code__
    return isinstance(c, types.CodeType) and not c.co_filename.startswith("<builtin>")


_OWNERS = {"str": str, "bytes": bytes, "dict": dict, "set": set,
           "frozenset": frozenset, "list": list, "tuple": tuple,
           "defaultdict": collections.defaultdict,
           "OrderedDict": collections.OrderedDict, "deque": collections.deque}


def owner(f):
    """Class owning an unbound builtin method, or None."""
    oc = getattr(f, "__objclass__", None)
    if oc is not None:
        return oc
    if isinstance(f, types.FunctionType) and not is_pyfunc(f):
        q = getattr(f, "__qualname__", "")
        if "." in q:
            return _OWNERS.get(q.split(".")[0])
    return None


_BIF = types.BuiltinFunctionType
STUBS = {}               # callable -> replacement (harness-installed)
SAFE_PY = set()          # uninstrumented python callables allowed to see symbols


def note(f):
    n = getattr(f, "__qualname__", None) or getattr(f, "__name__", None) or repr(type(f))
    m = getattr(f, "__module__", None)
    n = "%s.%s" % (m, n) if m else n
    UNMODELLED[n] = UNMODELLED.get(n, 0) + 1


def call(f, *args, **kw):
    t = type(f)
    if t is types.FunctionType:
        c = f.__code__
        if isinstance(c, types.CodeType) and c.co_filename in _INSTR_FILES:
            return f(*args, **kw)
    elif t is types.MethodType:
        self = f.__self__
        ff = f.__func__
        if type(ff) is types.FunctionType:
            c = ff.__code__
            if isinstance(c, types.CodeType) and c.co_filename in _INSTR_FILES:
                return f(*args, **kw)
        if isinstance(self, (Sym, symio.SymIO)):
            return f(*args, **kw)
        r = call_bound(f, self, args, kw)
        if r is not NotImplemented:
            return r
        if not _any_sym(args, kw):
            return f(*args, **kw)
        return call_foreign(f, args, kw)
    if t is types.FunctionType or t is _BIF:
        st = STUBS.get(f)
        if st is not None:
            return st(*args, **kw)
    try:
        model = BUILTINS.get(f)
        native = f in NATIVE
    except TypeError:
        model = None
        native = False
    if model is not None:
        if f in ALWAYS or any(has_sym(a) or _lazy(a) or _symd(a) for a in args) \
                or (kw and any(has_sym(v) for v in kw.values())):
            return model(*args, **kw)
        return f(*args, **kw)
    if native:
        return f(*args, **kw)
    if args:
        oc = owner(f)
        if oc is not None:
            n = f.__name__
            if oc in (str, bytes) and isinstance(args[0], SymStr):
                return getattr(args[0], n)(*args[1:], **kw)
            r = call_bound(functools.partial(f, args[0]), args[0], args[1:], kw, n,
                           True)
            if r is not NotImplemented:
                return r
    if not _any_sym(args, kw):
        return f(*args, **kw)
    return call_foreign(f, args, kw)


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def _lazy(a):
    return isinstance(a, (types.GeneratorType, map, filter, zip, enumerate)) or (
        hasattr(a, "__next__"))


def _symd(a):
    return isinstance(a, (dict, set, frozenset)) and sym_keyed(a)


def _any_sym(args, kw):
    for a in args:
        if has_sym(a):
            return True
    for a in kw.values():
        if has_sym(a):
            return True
    return False


_STR_METHODS = set(n for n in dir(str) if not n.startswith("_")) | {
    "__contains__", "__add__", "__mod__", "__getitem__", "__len__"}


def call_bound(f, self, args, kw, name=None, raw=False):
    """f: bound builtin method of self (``raw``: reached explicitly through the
    base class, so overrides in subclasses must not be consulted)."""
    if name is None:
        name = getattr(f, "__name__", None)
    if isinstance(self, Sym):
        return f(*args, **kw)
    if isinstance(self, (str, bytes)):
        if name == "join" and args:
            items = args[0]
            if not isinstance(items, (list, tuple, str, bytes, SymStr)):
                items = list(items)
            if has_sym(items):
                if isinstance(items, SymStr):
                    items = list(items)
                out = []
                sep = strs.cells_of(self)
                for k, it in enumerate(items):
                    if k:
                        out.extend(sep)
                    if not isinstance(it, (str, bytes, SymStr)):
                        raise TypeError("sequence item %d: expected str instance"
                                        % k)
                    out.extend(strs.cells_of(it))
                return mkstr(out, isinstance(self, bytes))
            return f(items)
        if not _any_sym(args, kw):
            return NotImplemented if name != "format" else (
                f(*args, **kw) if not _any_user(args, kw) else
                str_format(self, args, kw))
        if name == "format":
            return str_format(self, args, kw)
        if name == "__contains__":
            return contains(args[0], self)
        if name in ("startswith", "endswith", "find", "rfind", "index",
                    "rindex", "count", "split", "rsplit", "partition",
                    "rpartition", "replace", "strip", "lstrip", "rstrip",
                    "__eq__", "__ne__", "__add__", "removeprefix"):
            cls = SymBytes if isinstance(self, bytes) else SymStr
            return getattr(cls(strs.cells_of(self)), name)(*args, **kw)
        return f(*conc(args), **conc(kw))
    if isinstance(self, collections.Counter) and name == "update":
        return counter_update(self, *args, **kw)
    if isinstance(self, dict):
        if name in _DICT and (sym_keyed(self) or name == "update" or
                              (args and _deep_sym_key(args[0]))):
            if name == "update" and not sym_keyed(self) and not any(
                    isinstance(a, dict) and sym_keyed(a) or
                    (not isinstance(a, dict)) for a in args):
                return f(*args, **kw)
            return _DICT[name](self, *args, **kw)
        if name == "copy" and sym_keyed(self):
            r = f(*args, **kw)
            mark(r)
            return r
        if name in ("update",) and isinstance(self, collections.Counter):
            for x in args[0]:
                d_setitem(self, x, (d_getitem(self, x) if d_contains(self, x)
                                    else 0) + 1)
            return None
        return f(*args, **kw)
    if isinstance(self, (set, frozenset)):
        if name in _SET:
            if sym_keyed(self) or (args and _deep_sym_key(args[0])):
                return _SET[name](self, *args)
            return f(*args)
        if name in _SET_OPS:
            mats = [a if isinstance(a, (set, frozenset, list, tuple, dict, str))
                    else list(a) for a in args]
            if sym_keyed(self) or any(has_sym(m) or _symd(m) for m in mats):
                return _set_op(name, self, mats)
            return f(*mats)
        if name == "copy":
            r = f()
            if sym_keyed(self):
                mark(r)
            return r
        return f(*args, **kw)
    if isinstance(self, (list, tuple, collections.deque)):
        if name in ("index", "count", "remove", "__contains__"):
            if has_sym(args) or has_sym(self, 1):
                return list_method(self, name, args)
            return f(*args, **kw)
        if name in _LIST_NATIVE:
            return f(*args, **kw)
        return f(*args, **kw)
    if isinstance(self, _PATTERN):
        return pattern_method(self, name, f, args, kw)
    if isinstance(self, _MATCH):
        return f(*conc(args), **kw)
    if isinstance(self, logging.Logger):
        return None
    if self is int and name == "from_bytes":
        items = args[0]
        if not isinstance(items, (bytes, SymBytes)):
            items = list(items)
            if has_sym(items):
                order = args[1] if len(args) > 1 else kw["byteorder"]
                v = 0
                for x in (items if order == "big" else items[::-1]):
                    v = v * 256 + x
                return v
            return f(items, *args[1:], **kw)
        return f(*conc(args), **conc(kw))
    if isinstance(self, type):
        if self is dict and name == "fromkeys":
            return mkdict([(k, args[1] if len(args) > 1 else None)
                           for k in args[0]])
        if self in (str, bytes) and name == "join" and args:
            return call_bound(getattr(args[0], "join"), args[0], args[1:], kw,
                              "join")
    return NotImplemented


def _any_user(args, kw):
    return any(not isinstance(a, _LEAF) for a in list(args) + list(kw.values()))


def list_method(lst, name, args):
    x = args[0]
    if name == "__contains__":
        return contains(x, lst)
    if name == "count":
        n = 0
        for y in lst:
            n = n + as_int(truth(y == x))
        return n
    rng = range(len(lst))
    if name == "index":
        rng = range(*slice(*(list(args[1:]) + [None] * (2 - len(args[1:])))).indices(len(lst)))
    for i in rng:
        if truth(lst[i] == x):
            if name == "index":
                return i
            del lst[i]
            return None
    raise ValueError("%s: x not in list" % name)


def pattern_method(rex, name, f, args, kw):
    if name == "scanner":        # PyPy: Pattern.finditer is Pattern.scanner
        name = "finditer"
    if name in ("search", "match", "fullmatch", "findall", "finditer"):
        string = args[0] if args else kw.get("string")
        if isinstance(string, SymStr):
            isb = isinstance(rex.pattern, bytes)
            if isb != string.isbytes:
                raise TypeError("cannot use a string pattern on a bytes-like object")
            rest = [conc(a) for a in args[1:]]
            if name == "findall":
                return rx.findall(rex, string, *rest)
            if name == "finditer":
                return rx.finditer(rex, string, *rest)
            return rx.do(rex, name, string, *rest)
        return f(*args, **kw)
    if name in ("sub", "subn"):
        a = list(args)
        repl = a[0] if a else kw["repl"]
        string = a[1] if len(a) > 1 else kw["string"]
        count = conc(a[2] if len(a) > 2 else kw.get("count", 0))
        if isinstance(string, SymStr) or isinstance(repl, SymStr) or callable(repl):
            if not isinstance(string, SymStr) and callable(repl):
                # real matches, user callback may return symbolic text
                out, last, n = [], 0, 0
                for m in rex.finditer(string):
                    if count and n >= count:
                        break
                    out.extend(strs.cells_of(string[last:m.start()]))
                    out.extend(strs.cells_of(call(repl, m)))
                    last = m.end()
                    n += 1
                out.extend(strs.cells_of(string[last:]))
                r = mkstr(out, isinstance(string, bytes)), n
            else:
                r = rx.subn(rex, repl, string, count)
            return r if name == "subn" else r[0]
        return f(*args, **kw)
    if name == "split":
        string = args[0] if args else kw["string"]
        if isinstance(string, SymStr):
            return rx.split(rex, string, *[conc(a) for a in args[1:]],
                            **{k: conc(v) for k, v in kw.items() if k != "string"})
        return f(*args, **kw)
    return f(*args, **kw)


def call_foreign(f, args, kw):
    """Callee outside the rewritten modules that receives symbolic data."""
    if isinstance(f, type):
        if f in _PYT.values():
            return BUILTINS[f](*args, **kw)
        # classes: rewritten modules' classes are fine, so are exceptions
        init = getattr(f, "__init__", None)
        if isinstance(init, types.FunctionType) and instrumented(init):
            return f(*args, **kw)
        new = getattr(f, "__new__", None)
        if isinstance(new, types.FunctionType) and (
                instrumented(new) or hasattr(f, "_fields")):
            return f(*args, **kw)
        if issubclass(f, BaseException):
            return f(*args, **kw)
        if issubclass(f, tuple) or issubclass(f, list):
            return f(*args, **kw)
        if issubclass(f, dict):
            d = f()
            d_update(d, *args, **kw)
            return d
        if getattr(f, "__module__", None) in _SAFE_MODULES:
            return f(*args, **kw)
    mod = getattr(f, "__module__", None) or ""
    name = getattr(f, "__name__", "")
    if mod == "re" and name in ("search", "match", "fullmatch", "sub", "subn",
                                "split", "findall", "finditer", "escape",
                                "compile"):
        return re_func(name, f, args, kw)
    if mod in _SAFE_MODULES or f in SAFE_PY:
        return f(*args, **kw)
    if not isinstance(f, type):
        cm = getattr(type(f), "__call__", None)
        if isinstance(cm, types.FunctionType) and instrumented(cm):
            return f(*args, **kw)
        if isinstance(f, (operator.itemgetter, operator.attrgetter,
                          operator.methodcaller, functools.partial)):
            if isinstance(f, functools.partial):
                return call(f.func, *(f.args + args), **dict(f.keywords, **kw))
            return f(*args, **kw)
        if isinstance(f, types.MethodType) and mod in _SAFE_MODULES:
            return f(*args, **kw)
        wrapped = getattr(f, "__wrapped__", None)
    note(f)
    if isinstance(f, types.BuiltinFunctionType) or not isinstance(
            f, (types.FunctionType, types.MethodType)):
        return f(*conc(args), **conc(kw))
    return f(*conc(args), **conc(kw))


_SAFE_MODULES = {"unittest.mock", "mock", "mock.mock", "mock.mock_", "contextlib",
                 "functools", "collections", "logging", "warnings", "symx.api",
                 "copy", "types", "abc"}


def re_func(name, f, args, kw):
    if name == "escape":
        s = args[0]
        out = []
        for c in s.plain().cells:
            if isinstance(c, str):
                out.extend(re.escape(c))
            elif c.test_pred(lambda x: re.escape(x) == x):
                out.append(c)
            else:
                out.append("\\")
                out.append(c)
        return mkstr(out, s.isbytes)
    if name == "compile":
        return re.compile(*conc(args), **conc(kw))
    a = list(args)
    pat = conc(a.pop(0) if a else kw.pop("pattern"))
    npos = {"search": 1, "match": 1, "fullmatch": 1, "findall": 1,
            "finditer": 1, "split": 2, "sub": 3, "subn": 3}[name]
    flags = kw.pop("flags", 0)
    if len(a) > npos:
        flags = a.pop()
    rex = pat if isinstance(pat, _PATTERN) else re.compile(pat, conc(flags))
    return pattern_method(rex, name, getattr(rex, name), tuple(a), kw)


# --------------------------------------------------------------------------
def reraise_control():
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


class _NotSimple(Exception):
    pass


def m_literal_eval(s):
    """ast.literal_eval of a list of plain strings and decimal numbers; any
    other text is made concrete."""
    if not isinstance(s, SymStr):
        return ast.literal_eval(s)
    try:
        return _simple_list(strs.cells_of(s.plain()))
    except _NotSimple:
        return ast.literal_eval(conc(s))


def _simple_list(cells):
    n = len(cells)

    def at(i, chars):
        if i >= n:
            raise _NotSimple()
        c = cells[i]
        return c in chars if isinstance(c, str) else bool(c.test(tuple(chars)))

    def skip(i):
        while i < n and at(i, " \t"):
            i += 1
        return i

    if n < 2 or not at(0, "["):
        raise _NotSimple()
    out = []
    i = skip(1)
    while not at(i, "]"):
        j = i
        if at(i, "'") or at(i, '"'):
            q = "'" if at(i, "'") else '"'
            j += 1
            while not at(j, q):
                if at(j, "\\\n\r\0"):
                    raise _NotSimple()
                j += 1
            val = mkstr(cells[i + 1:j])
            j += 1
        else:
            if at(j, "+-"):
                j += 1
            k = j
            while at(j, "0123456789"):
                j += 1
            if j == k or (j - k > 1 and at(k, "0")):
                raise _NotSimple()
            if at(j, "."):
                j += 1
                while at(j, "0123456789"):
                    j += 1
                val = m_float(mkstr(cells[i:j]))
            else:
                val = m_int(mkstr(cells[i:j]))
        out.append(val)
        i = skip(j)
        if at(i, ","):
            i = skip(i + 1)
        elif not at(i, "]"):
            raise _NotSimple()
    if skip(i + 1) != n:
        raise _NotSimple()
    return out


BUILTINS[ast.literal_eval] = m_literal_eval


def lru_cache_model(f):
    """functools.lru_cache/cache without eviction."""
    memo = []

    @functools.wraps(f)
    def cached(*args, **kw):
        items = sorted(kw.items())
        for a, k, r in memo:
            if len(a) != len(args) or [x[0] for x in k] != [x[0] for x in items]:
                continue
            if all(x is y or bool(truth(x == y)) for x, y in zip(a, args)) and \
                    all(bool(truth(x[1] == y[1])) for x, y in zip(k, items)):
                return r
        r = f(*args, **kw)
        memo.append((args, items, r))
        return r
    cached.cache_clear = memo.clear
    return cached


class SymDelta(object):
    """datetime.timedelta of symbolic numbers, as a number of seconds (the
    rounding to microseconds is left out)."""
    UNITS = (("days", 86400), ("seconds", 1), ("microseconds", None),
             ("milliseconds", None), ("minutes", 60), ("hours", 3600),
             ("weeks", 604800))

    def __init__(self, *args, **kw):
        t = 0
        for (name, unit), v in zip(self.UNITS, args):
            kw[name] = v
        for name, unit in self.UNITS:
            if name in kw:
                if unit is None:
                    raise Unsupported("timedelta(%s=symbolic)" % name)
                t = t + kw[name] * unit
        lim = 999999999 * 86400
        if core.or_(core.truth(t > lim), core.truth(t < -lim)):
            raise OverflowError("days out of range")
        self._seconds = t

    def total_seconds(self):
        return self._seconds + 0.0


BUILTINS[datetime.timedelta] = SymDelta


def sx_is(a, b):
    return a is b


def sx_set(items):
    return mkset(items)


def sx_dict(pairs):
    return mkdict(pairs)


def conc_args(*a):
    return conc(a[0]) if len(a) == 1 else tuple(conc(x) for x in a)


def sx_iadd(a, b):
    a += b
    return a


def install():
    builtins._sx_call = call
    builtins._sx_in = contains
    builtins._sx_get = getitem
    builtins._sx_sub = sub
    builtins._sx_not = sx_not
    builtins._sx_mod = sx_mod
    builtins._sx_fstr = fstr
    builtins._sx_ctl = reraise_control
    builtins._sx_lru_cache = lru_cache_model
    builtins._sx_set = sx_set
    builtins._sx_dict = sx_dict
    builtins._sx_conc = conc_args
    builtins._sx_ns = namespace
