"""What a harness uses.  The same harness runs symbolically (inputs are solver
variables) and concretely (inputs come from a recorded assignment)."""
from fractions import Fraction

MODE = "sym"          # or "conc"
VALUES = {}           # concrete mode: input assignment
OBSERVED = []         # concrete mode: observations
FAILED = []           # concrete mode: failed labels
KNOWN = {}            # known findings: id -> entry
KNOWN_HIT = {}
OBLIGATIONS = {}
_undo = []
TIER = "quick"

_NAN = object()


class Infeasible(BaseException):
    """Concrete replay: an assumption of the harness does not hold."""


def harness_error(ex):
    """The harness itself does not fit the code (a name it uses is gone, a
    signature changed): not a statement about the property."""
    if not isinstance(ex, (AttributeError, TypeError, NameError, ImportError)):
        return False
    tb = ex.__traceback__
    last = ""
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if "/symx/" not in f:
            last = f
        tb = tb.tb_next
    return "/harness/" in last


class Values(dict):
    """Recorded inputs; asking for one that was not recorded means that the
    concrete run took another way than the symbolic one."""

    def __missing__(self, key):
        raise Infeasible(key)


class Stop(BaseException):
    """Concrete replay: stop after a failed assertion."""


def _e():
    from . import core
    return core.ENGINE


def sym():
    return MODE == "sym"


# -- declaring obligations --------------------------------------------------
def obligation(params=None, covers=(), **opts):
    """Decorator.  ``params``: callable(tier) -> list of kwargs dicts, or a
    list; ``covers``: labels that must be reached (vacuity guard)."""
    def deco(f):
        OBLIGATIONS[f.__name__] = dict(
            fn=f, params=params, covers=tuple(covers), opts=opts,
            doc=(f.__doc__ or "").strip())
        return f
    return deco


# -- inputs -------------------------------------------------------------------
def boolean(name):
    if MODE == "sym":
        return _e().new_bool(name)
    return VALUES[name]


def integer(name, lo, hi):
    if MODE == "sym":
        return _e().new_int(name, lo, hi)
    return VALUES[name]


def real(name, lo, hi, den=4):
    """A real of the form n/den (den a power of two: exact as float)."""
    if MODE == "sym":
        return _e().new_real(name, lo, hi, den)
    return float(VALUES[name])


def choice(name, options):
    """One of the options (forks)."""
    options = list(options)
    if MODE == "sym":
        e = _e()
        e._name(name)
        i = e.choose(list(range(len(options))))
        e.inputs.append((name, "choice", i))
        return options[i]
    return options[VALUES[name]]


def text(name, lo, hi, alphabet, isbytes=False):
    """A string with length in [lo, hi]; alphabet: string of allowed chars (or
    list of strings, per position)."""
    if MODE == "sym":
        from . import strs
        e = _e()
        e._name(name)
        n = lo if lo == hi else e.choose(list(range(lo, hi + 1)))
        if isinstance(alphabet, (list, tuple)):
            alphabet = [frozenset(a) for a in alphabet]
        else:
            alphabet = frozenset(alphabet)
        s = strs.new_str(name, n, alphabet, isbytes)
        e.inputs.append((name, "bytes" if isbytes else "str", s))
        return s
    v = VALUES[name]
    return v.encode("latin-1") if isbytes and isinstance(v, str) else v


def data(name, lo, hi, alphabet):
    """Symbolic bytes (alphabet given as a latin-1 string)."""
    return text(name, lo, hi, alphabet, True)


# -- assertions -----------------------------------------------------------------
def assume(c):
    if MODE == "sym":
        _e().assume(c)
    elif not c:
        raise Infeasible()


def check(c, label, *info):
    if MODE == "sym":
        _e().check_prop(c, label)
    elif not c:
        FAILED.append((label, [repr(x) for x in info]))
        raise Stop()


def fail(label):
    check(False, label)


def cover(label):
    if MODE == "sym":
        e = _e()
        e.path_covers.add(label)


def observe(key, value):
    """Record a result; compared between the symbolic and the real execution."""
    if MODE == "sym":
        _e().observed.append((key, value))
    else:
        OBSERVED.append((key, value))


def known(fid, cond=True):
    """True-ish (formula) when listed finding ``fid`` covers the inputs."""
    if fid not in KNOWN:
        return False
    if MODE == "sym":
        from . import core
        c = core.truth(cond)
        if c is not False:
            KNOWN_HIT[fid] = True
        return c
    return cond


# -- logic that works on both kinds of values --------------------------------
def and_(*a):
    if MODE == "sym":
        from . import core
        return core.and_(*[core.truth(x) for x in a])
    return all(a)


def or_(*a):
    if MODE == "sym":
        from . import core
        return core.or_(*[core.truth(x) for x in a])
    return any(a)


def not_(a):
    if MODE == "sym":
        from . import core
        return core.not_(core.truth(a))
    return not a


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if MODE == "sym":
        from . import core
        a, b = core.truth(a), core.truth(b)
        return core.or_(core.and_(a, b), core.and_(core.not_(a), core.not_(b)))
    return bool(a) == bool(b)


def ite(c, a, b):
    if MODE == "sym":
        from . import core
        return core.ite(c, a, b)
    return a if c else b


def exactly_one(*xs):
    n = 0
    for x in xs:
        n = n + ite(x, 1, 0)
    return n == 1


def conc(x):
    if MODE == "sym":
        from . import models
        return models.conc(x)
    return x


def same(a, b):
    """Structural equality as one formula (lists/tuples/dicts of values)."""
    if MODE != "sym":
        return a == b
    from . import core
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return core.and_(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        return core.and_(*[same(list(x), list(y)) for x, y in
                           zip(a.items(), b.items())])
    return core.truth(a == b)


# -- environment ------------------------------------------------------------------
def patch(obj, name, value):
    """setattr for the duration of the path."""
    if isinstance(obj, dict):
        had = name in obj
        old = obj.get(name)
        obj[name] = value
        _undo.append(lambda: obj.__setitem__(name, old) if had
                     else obj.pop(name, None))
        return
    d = getattr(obj, "__dict__", {})
    had = name in d
    old = d.get(name)
    setattr(obj, name, value)
    _undo.append(lambda: setattr(obj, name, old) if had else delattr(obj, name))


def at_exit(f):
    _undo.append(f)


def undo_all():
    while _undo:
        _undo.pop()()


def run(f, *a, **k):
    """(value, exception): exception is None or an Exception instance."""
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e


def files(mapping):
    """Scratch files with (possibly symbolic) content; returns their root."""
    from . import vfs
    return vfs.make(mapping)
