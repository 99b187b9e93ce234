"""Core of symx: a symbolic executor for ordinary Python code.

The code under test is executed by the Python interpreter itself (after the
AST rewriting done in ``instr``); inputs are the ``Sym*`` values of this module.
Whenever control flow depends on a symbolic value, ``Engine.decide`` asks z3
which outcomes are possible under the current path condition and schedules the
alternatives.  Paths are explored by deterministic re-execution.
"""
import os
import sys
import time
from fractions import Fraction

import z3


class Control(BaseException):
    """Steering exceptions; BaseException so `except Exception` cannot eat it."""


class PathInfeasible(Control):
    pass


class PathDone(Control):
    """Stop this path (after a violated assertion)."""


class Unsupported(Control):
    """The encoding cannot represent something: verdict is inconclusive."""


class Budget(Control):
    """Exploration budget exhausted: verdict is inconclusive."""


ENGINE = None


def eng():
    return ENGINE


def _frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    return Fraction(v)


def realval(v):
    f = _frac(v)
    return z3.Q(f.numerator, f.denominator)


# --------------------------------------------------------------------------
# symbolic values
# --------------------------------------------------------------------------
class Sym(object):
    __slots__ = ()


class SymBool(Sym):
    """A symbolic bool.  ``atom`` is (Var, frozenset(chars)) when the term is a
    plain domain membership; otherwise ``t`` is a z3 term."""
    __slots__ = ("_t", "atom", "vars")

    def __init__(self, t=None, atom=None, vars=frozenset()):
        self._t = t
        self.atom = atom
        self.vars = frozenset((atom[0],)) if atom else vars

    @property
    def t(self):
        if self._t is None:
            self._t = self.atom[0].member(self.atom[1])
        return self._t

    def __bool__(self):
        return ENGINE.decide(self)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else not_(self)
        if isinstance(o, SymBool):
            return mkbool(self.t == o.t, self.vars | o.vars)
        if isinstance(o, (int, float, SymInt, SymReal)):
            return as_int(self) == o
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return and_(self, o)
        return as_int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return or_(self, o)
        return as_int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return not_(self == o)
        return NotImplemented
    __rxor__ = __xor__

    def __add__(self, o): return as_int(self) + o
    def __radd__(self, o): return o + as_int(self)
    def __sub__(self, o): return as_int(self) - o
    def __rsub__(self, o): return o - as_int(self)
    def __mul__(self, o): return as_int(self) * o
    def __rmul__(self, o): return o * as_int(self)
    def __truediv__(self, o): return as_int(self) / o
    def __lt__(self, o): return as_int(self) < o
    def __le__(self, o): return as_int(self) <= o
    def __gt__(self, o): return as_int(self) > o
    def __ge__(self, o): return as_int(self) >= o
    def __neg__(self): return -as_int(self)
    def __invert__(self): return ~as_int(self)
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __str__(self): return str(bool(self))
    __repr__ = __str__
    def __format__(self, spec): return format(bool(self), spec)


def mkbool(t, vars=frozenset()):
    """Wrap a z3 bool, folding constants."""
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t, vars=vars)


def tb(b):
    """z3 term of a bool-like."""
    if isinstance(b, SymBool):
        return b.t
    return z3.BoolVal(bool(b))


def bvars(b):
    return b.vars if isinstance(b, SymBool) else frozenset()


def not_(b):
    if isinstance(b, SymBool):
        if b.atom:
            v, s = b.atom
            return atom(v, v.dom - s)
        return mkbool(z3.Not(b.t), b.vars)
    return not b


def atom(var, chars):
    """Membership of var in the set, folded against the current domain."""
    e = ENGINE
    dom = e.domains.get(var, var.dom)
    chars = chars if isinstance(chars, frozenset) else frozenset(chars)
    if dom <= chars:
        return True
    inter = dom & chars
    if not inter:
        return False
    return SymBool(atom=(var, inter))


def and_(*bs):
    ts = []
    for b in bs:
        if isinstance(b, SymBool):
            ts.append(b)
        elif not b:
            return False
    if not ts:
        return True
    if len(ts) == 1:
        return ts[0]
    vs = frozenset().union(*[b.vars for b in ts])
    return SymBool(z3.And(*[b.t for b in ts]), vars=vs)


def or_(*bs):
    ts = []
    for b in bs:
        if isinstance(b, SymBool):
            ts.append(b)
        elif b:
            return True
    if not ts:
        return False
    if len(ts) == 1:
        return ts[0]
    a0 = ts[0].atom
    if a0 and all(b.atom and b.atom[0] is a0[0] for b in ts):
        return atom(a0[0], frozenset().union(*[b.atom[1] for b in ts]))
    vs = frozenset().union(*[b.vars for b in ts])
    return SymBool(z3.Or(*[b.t for b in ts]), vars=vs)


def implies_(a, b):
    return or_(not_(a), b)


def truth(x):
    """Bool-like of any value without forking when possible."""
    if isinstance(x, (SymBool, bool)):
        return x
    if isinstance(x, (SymInt, SymReal)):
        return x != 0
    return bool(x)


def ite(c, a, b):
    """Numeric/bool if-then-else without forking."""
    c = truth(c)
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return mkbool(z3.If(c.t, tb(a), tb(b)), c.vars | bvars(a) | bvars(b))
    if isinstance(a, (float, SymReal)) or isinstance(b, (float, SymReal)):
        return SymReal(z3.If(c.t, rterm(a), rterm(b)))
    return SymInt(z3.If(c.t, iterm(a), iterm(b)))


def as_int(b):
    if isinstance(b, SymBool):
        return SymInt(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)), vars=b.vars)
    return b


def iterm(v):
    if isinstance(v, SymBool):
        v = as_int(v)
    if isinstance(v, SymInt):
        return v.t
    return z3.IntVal(int(v))


def rterm(v):
    if isinstance(v, SymBool):
        v = as_int(v)
    if isinstance(v, SymInt):
        return z3.ToReal(v.t)
    if isinstance(v, SymReal):
        return v.t
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        raise Unsupported("inf/nan mixed with symbolic real")
    return realval(v)


def nvars(*vals):
    r = frozenset()
    for v in vals:
        if isinstance(v, (SymBool, SymInt, SymReal)):
            r |= v.vars
    return r


def _inf(o):
    return isinstance(o, float) and o in (float("inf"), float("-inf"))


class SymNum(Sym):
    __slots__ = ("t", "vars")

    def __init__(self, t, vars=frozenset()):
        self.t = t
        self.vars = vars

    def _ar(self, o, f, swap=False):
        if isinstance(o, SymBool):
            o = as_int(o)
        vs = nvars(self, o)
        if isinstance(self, SymReal) or isinstance(o, (SymReal, float)):
            if not isinstance(o, (SymNum, int, float, Fraction)):
                return NotImplemented
            a, b = rterm(self), rterm(o)
            return SymReal(f(b, a) if swap else f(a, b), vs)
        if not isinstance(o, (SymInt, int)):
            return NotImplemented
        a, b = iterm(self), iterm(o)
        return SymInt(f(b, a) if swap else f(a, b), vs)

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        return self._ar(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.__index__()
        return self._ar(o, lambda a, b: a * b, True)

    def _div(self, a, b):
        for x in (a, b):
            if not isinstance(x, (SymNum, SymBool, int, float)):
                return NotImplemented
        if truth(b == 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(rterm(a) / rterm(b), nvars(a, b))

    def __truediv__(self, o): return self._div(self, o)
    def __rtruediv__(self, o): return self._div(o, self)

    def _floor(self, a, b):
        if truth(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if isinstance(a, (SymReal, float)) or isinstance(b, (SymReal, float)):
            q = z3.ToInt(rterm(a) / rterm(b))
            return SymReal(z3.ToReal(q), nvars(a, b))
        # floor(a/b) == ToInt(a/b) over the reals
        if isinstance(b, int):
            if b > 0:
                return SymInt(iterm(a) / z3.IntVal(b), nvars(a, b))
            return SymInt((-iterm(a)) / z3.IntVal(-b), nvars(a, b))
        ta, t = iterm(a), iterm(b)
        return SymInt(z3.If(t > 0, ta / t, (-ta) / (-t)), nvars(a, b))

    def __floordiv__(self, o): return self._floor(self, o)
    def __rfloordiv__(self, o): return self._floor(o, self)
    def __mod__(self, o): return self - (self // o) * o
    def __rmod__(self, o): return o - (o // self) * self
    def __divmod__(self, o): return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("pow on symbolic")

    def __rpow__(self, o):
        raise Unsupported("pow with symbolic exponent")

    def __neg__(self): return type(self)(-self.t, self.vars)
    def __pos__(self): return self
    def __abs__(self): return type(self)(z3.If(self.t >= 0, self.t, -self.t), self.vars)

    def _cmp(self, o, f, inf):
        if isinstance(o, SymBool):
            o = as_int(o)
        if _inf(o):
            return inf(o)
        if isinstance(o, float) and o != o:
            return inf is _INF_NE
        if isinstance(self, SymReal) or isinstance(o, (SymReal, float, Fraction)):
            if not isinstance(o, (SymNum, int, float, Fraction)):
                return NotImplemented
            return mkbool(z3.simplify(f(rterm(self), rterm(o))), nvars(self, o))
        if not isinstance(o, (SymInt, int)):
            return NotImplemented
        return mkbool(z3.simplify(f(iterm(self), iterm(o))), nvars(self, o))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, lambda i: i > 0)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, lambda i: i > 0)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, lambda i: i < 0)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, lambda i: i < 0)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, lambda i: False)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, _INF_NE)
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return hash(ENGINE.concretize(self))

    def __str__(self):
        return str(ENGINE.concretize(self))
    __repr__ = __str__

    def __format__(self, spec):
        return format(ENGINE.concretize(self), spec)


def _INF_NE(i):
    return True


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return ENGINE.concretize(self)

    def __int__(self):
        return ENGINE.concretize(self)

    def __float__(self):
        return float(ENGINE.concretize(self))

    def __invert__(self):
        return -self - 1

    def _bits(self, o, fn):
        # finite fallback
        return fn(ENGINE.concretize(self), ENGINE.concretize(o))

    def __and__(self, o):
        if isinstance(o, int) and o >= 0:
            if o & (o + 1) == 0:       # mask 2^k-1
                return self % (o + 1)
            if o & (o - 1) == 0:       # single bit
                return ((self // o) % 2) * o
            k = o & -o
            if ((o // k) & (o // k + 1)) == 0:   # contiguous bits
                return (self // k % (o // k + 1)) * k
            r = 0
            bit = 1
            while bit <= o:
                if o & bit:
                    r = r + ((self // bit) % 2) * bit
                bit <<= 1
            return r
        return self._bits(o, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        # disjoint bits (decided by the solver on this path): a sum
        for k in (8, 16):
            m = 1 << k
            for hi, lo in ((self, o), (o, self)):
                c = and_(truth(hi % m == 0), truth(hi >= 0), truth(lo >= 0),
                         truth(lo < m))
                if c is True or (isinstance(c, SymBool) and
                                 ENGINE.check(z3.Not(c.t)) is None):
                    return hi + lo
        return self._bits(o, lambda a, b: a | b)
    __ror__ = __or__

    def to_bytes(self, length, byteorder="big", signed=False):
        """A list of integers (enough for iteration)."""
        length = ENGINE.concretize(length) if isinstance(length, Sym) else length
        r = [(self // (1 << 8 * i)) % 256 for i in range(length)]
        return r if byteorder == "little" else r[::-1]
    def __xor__(self, o): return self._bits(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __lshift__(self, o):
        return self * (1 << ENGINE.concretize(o))

    def __rshift__(self, o):
        return self // (1 << ENGINE.concretize(o))

    def __rlshift__(self, o): return o << ENGINE.concretize(self)
    def __rrshift__(self, o): return o >> ENGINE.concretize(self)

    def __trunc__(self): return self
    def __round__(self, n=None): return self

    def bit_length(self):
        return ENGINE.concretize(self).bit_length()

    @property
    def real(self): return self


class SymReal(SymNum):
    __slots__ = ()

    def __int__(self):
        return ENGINE.concretize(self.trunc())

    def __float__(self):
        return float(ENGINE.concretize(self))

    def trunc(self):
        return SymInt(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)),
                      self.vars)

    def __round__(self, n=None):
        m = 10 ** (n or 0)
        x = self.t * m
        fl = z3.ToInt(x)
        fr = x - z3.ToReal(fl)
        half = z3.Q(1, 2)
        r = z3.If(fr < half, fl, z3.If(fr > half, fl + 1,
                                       z3.If(fl % 2 == 0, fl, fl + 1)))
        if n is None:
            return SymInt(r, self.vars)
        return SymReal(z3.ToReal(r) / m, self.vars)

    def is_integer(self):
        return mkbool(z3.IsInt(self.t), self.vars)


# --------------------------------------------------------------------------
# char variables
# --------------------------------------------------------------------------
class Var(object):
    """A symbolic character: an Int constant (code point) with finite domain."""
    __slots__ = ("name", "t", "dom", "_cache", "entangled")

    def __init__(self, name, dom):
        self.name = name
        self.t = z3.Int(name)
        self.dom = frozenset(dom)
        self._cache = {}

    def member(self, chars):
        r = self._cache.get(chars)
        if r is None:
            pts = sorted(ord(c) for c in chars)
            runs = []
            for p in pts:
                if runs and runs[-1][1] == p - 1:
                    runs[-1][1] = p
                else:
                    runs.append([p, p])
            ts = [self.t == a if a == b else z3.And(self.t >= a, self.t <= b)
                  for a, b in runs]
            r = z3.Or(*ts) if len(ts) != 1 else ts[0]
            self._cache[chars] = r
        return r


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.paths = 0
        self.pruned = 0
        self.decisions = 0
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.check_queries = 0
        self.covers = {}


FORKLOG = {} if os.environ.get("SYMX_FORKS") else None


def _forklog():
    """Where the paths fork (a development aid)."""
    import traceback
    fs = [f for f in traceback.extract_stack() if "/symx/" not in f.filename]
    k = " < ".join("%s:%d" % (f.filename.rsplit("/", 1)[-1], f.lineno)
                   for f in fs[::-1][:3])
    FORKLOG[k] = FORKLOG.get(k, 0) + 1


class Engine(object):
    def __init__(self, max_paths=20000, deadline=None, query_ms=20000,
                 max_conc=4096):
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_conc = max_conc
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.varcache = {}
        self.work = [[]]
        self.violations = []
        self.path_models = []
        self.fresh = 0

    # -- per path state -----------------------------------------------------
    def begin(self, prefix):
        self.solver.reset()
        self.prefix = prefix
        self.trace = []
        self.domains = {}
        self.entangled = set()
        self.inputs = []            # (name, kind, sym)
        self.names = set()
        self.symdicts = {}
        self.observed = []
        self.pc = []
        self.model_cache = None
        self.path_covers = set()
        self.conc_n = 0

    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)
        if self.model_cache is not None:
            try:
                if not z3.is_true(self.model_cache.eval(t, model_completion=True)):
                    self.model_cache = None
            except z3.Z3Exception:
                self.model_cache = None

    def check(self, *extra):
        """sat? -> model or None; unknown raises Unsupported."""
        st = self.stats
        st.queries += 1
        t0 = time.time()
        r = self.solver.check(*extra)
        st.solver_s += time.time() - t0
        if r == z3.sat:
            return self.solver.model()
        if r == z3.unsat:
            return None
        raise Unsupported("solver answered unknown: %s" %
                          self.solver.reason_unknown())

    def model(self):
        if self.model_cache is None:
            m = self.check()
            if m is None:
                raise PathInfeasible()
            self.model_cache = m
        return self.model_cache

    # -- decisions ----------------------------------------------------------
    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def assert_bool(self, b):
        """Add a bool-like to the path condition."""
        if not isinstance(b, SymBool):
            if not b:
                raise PathInfeasible()
            return
        if b.atom:
            v, s = b.atom
            d = self.domains.get(v, v.dom) & s
            if not d:
                raise PathInfeasible()
            self.domains[v] = d
            self.add(v.member(d))
        else:
            self.entangled |= b.vars
            self.add(b.t)

    def decide(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        self.stats.decisions += 1
        if b.atom:
            v, s = b.atom
            d = self.domains.get(v, v.dom)
            if d <= s:
                return True
            if not (d & s):
                return False
            free = v not in self.entangled
        else:
            t = z3.simplify(b.t)
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
            b = SymBool(t, vars=b.vars)
            free = False
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append(c)
            if c in (2, 3):         # forced
                if not free:
                    pass
                self.assert_bool(b if c == 2 else not_(b))
                return c == 2
            self.assert_bool(b if c else not_(b))
            return bool(c)
        self._tick()
        if free:
            can_t = can_f = True
        else:
            can_t = can_f = None
            if self.model_cache is not None:
                val = self.model_cache.eval(b.t, model_completion=True)
                if z3.is_true(val):
                    can_t = True
                elif z3.is_false(val):
                    can_f = True
            if can_t is None:
                m = self.check(b.t)
                can_t = m is not None
                if can_t:
                    mt = m
            if can_f is None:
                m = self.check(z3.Not(b.t))
                can_f = m is not None
        if can_t and can_f:
            self.stats.forks += 1
            if FORKLOG is not None:
                _forklog()
            self.trace.append(1)
            self.work.append(self.trace[:-1] + [0])
            self.assert_bool(b)
            return True
        if can_t:
            self.trace.append(2)
            if b.atom:
                self.assert_bool(b)
            return True
        if can_f:
            self.trace.append(3)
            if b.atom:
                self.assert_bool(not_(b))
            return False
        raise PathInfeasible()

    def choose(self, options, conds=None):
        """n-way branch: pick an index; conds[i] bool-like guards (optional)."""
        i = len(self.trace)
        n = len(options)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.trace.append(k)
            if conds is not None:
                self.assert_bool(conds[k])
            return options[k]
        self._tick()
        feas = []
        for k in range(n):
            if conds is None:
                feas.append(k)
            else:
                c = conds[k]
                if isinstance(c, SymBool):
                    free = c.atom and c.atom[0] not in self.entangled
                    if free or self.check(c.t) is not None:
                        feas.append(k)
                elif c:
                    feas.append(k)
        if not feas:
            raise PathInfeasible()
        for k in reversed(feas[1:]):
            self.work.append(self.trace + [k])
        if len(feas) > 1:
            self.stats.forks += 1
            if FORKLOG is not None:
                _forklog()
        self.trace.append(feas[0])
        if conds is not None:
            self.assert_bool(conds[feas[0]])
        return options[feas[0]]

    def conc_var(self, v):
        """Concretise a char variable by forking over its feasible domain."""
        d = self.domains.get(v, v.dom)
        if len(d) == 1:
            return next(iter(d))
        opts = sorted(d)
        return self.choose(opts, [SymBool(atom=(v, frozenset((c,)))) for c in opts])

    def concretize(self, s):
        """Fork over all feasible concrete values of a symbolic number/bool."""
        if isinstance(s, SymBool):
            return self.decide(s)
        if not isinstance(s, Sym):
            return s
        if isinstance(s, SymNum):
            t = z3.simplify(s.t)
            v = self._const(t)
            if v is not None:
                return v
            # enumerate values: recorded in trace as ("v", value, taken)
            for _ in range(self.max_conc):
                i = len(self.trace)
                if i < len(self.prefix):
                    rec = self.prefix[i]
                    val, taken = rec[1], rec[2]
                    self.trace.append(rec)
                    eq = s == val
                    self.assert_bool(eq if taken else not_(eq))
                    if taken:
                        return val
                    continue
                self._tick()
                m = self.model()
                val = self._const(z3.simplify(m.eval(t, model_completion=True)))
                if val is None:
                    raise Unsupported("cannot concretise %s" % t)
                eq = s == val
                if not isinstance(eq, SymBool):
                    return val
                other = self.check(z3.Not(eq.t)) is not None
                self.stats.forks += 1
                if other:
                    self.work.append(self.trace + [("v", val, False)])
                self.trace.append(("v", val, True))
                self.assert_bool(eq)
                return val
            raise Unsupported("too many values to concretise")
        return s.concretize()

    @staticmethod
    def _const(t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            f = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return float(f)
        return None

    # -- inputs ---------------------------------------------------------------
    def _name(self, name):
        if name in self.names:
            raise RuntimeError("duplicate input name %r" % name)
        self.names.add(name)

    def new_bool(self, name):
        self._name(name)
        s = SymBool(z3.Bool(name))
        self.inputs.append((name, "bool", s))
        return s

    def new_int(self, name, lo, hi):
        self._name(name)
        x = z3.Int(name)
        s = SymInt(x)
        self.add(z3.And(x >= lo, x <= hi))
        self.inputs.append((name, "int", s))
        return s

    def new_real(self, name, lo, hi, den):
        self._name(name)
        x = z3.Int(name)
        self.add(z3.And(x >= lo * den, x <= hi * den))
        s = SymReal(z3.ToReal(x) / z3.IntVal(den)) if den != 1 else SymReal(z3.ToReal(x))
        self.inputs.append((name, "real", s))
        return s

    def new_var(self, name, dom):
        key = (name, dom)
        v = self.varcache.get(key)
        if v is None:
            v = self.varcache[key] = Var(name, dom)
        self.add(v.member(v.dom))
        return v

    # -- model evaluation -------------------------------------------------------
    def eval_in(self, m, x):
        """Concrete value of a (possibly nested) value under model m."""
        if isinstance(x, SymBool):
            return z3.is_true(m.eval(x.t, model_completion=True))
        if isinstance(x, SymNum):
            v = self._const(z3.simplify(m.eval(x.t, model_completion=True)))
            if v is None:
                raise Unsupported("model evaluation")
            return v
        if isinstance(x, Sym):
            return x.eval_in(self, m)
        if isinstance(x, (list, tuple)):
            return [self.eval_in(m, y) for y in x]
        if isinstance(x, dict):
            return {self.eval_in(m, k): self.eval_in(m, v) for k, v in x.items()}
        return x

    def input_values(self, m):
        return {name: self.eval_in(m, s) for name, kind, s in self.inputs}

    # -- assertions -----------------------------------------------------------------
    def assume(self, c):
        c = truth(c)
        if isinstance(c, SymBool):
            # feasibility is checked once
            self.assert_bool(c)
            if len(self.trace) >= len(self.prefix):
                self.model()
        elif not c:
            raise PathInfeasible()

    def check_prop(self, cond, label, known=None):
        self.stats.checks += 1
        cond = truth(cond)
        if len(self.trace) < len(self.prefix):
            # already decided on the path this one was forked from
            if isinstance(cond, SymBool):
                self.assert_bool(cond)
            elif not cond:
                raise PathDone()
            return
        if isinstance(cond, SymBool):
            self.stats.check_queries += 1
            neg = not_(cond)
            m = self.check(tb(neg)) if isinstance(neg, SymBool) else (
                self.model() if neg else None)
            if m is None:
                return
            self.violations.append((label, self.input_values(m)))
            # continue under the assumption that it holds
            self.assert_bool(cond)
            if self.check() is None:
                raise PathDone()
            return
        if not cond:
            self.stats.check_queries += 1
            m = self.model()
            self.violations.append((label, self.input_values(m)))
            raise PathDone()
        # concrete truth under the path condition: the path condition is the query
        self.stats.check_queries += 1
