"""Regular expressions over symbolic strings.

The pattern is parsed with the running interpreter's own ``sre_parse``.
``search``/``match``/``fullmatch`` first decide existence with one formula
(when the pattern has no back-references); groups are computed on demand by a
backtracking matcher that follows sre's priorities and forks per character.
"""
import re
import sre_constants as sc
import sre_parse
import sys

from . import core, strs
from .core import Unsupported, and_, not_, or_
from .strs import SymStr, mkstr

_parse_cache = {}


def is_word(c, asc):
    return (c.isalnum() or c == "_") and (not asc or ord(c) < 128)


def is_digit(c, asc):
    return c.isdecimal() and (not asc or ord(c) < 128)


def is_space(c, asc):
    return c in " \t\n\r\x0b\x0c" if asc else c.isspace()


def _variants(c):
    r = {c, c.lower(), c.upper()}
    return set(x for x in r if len(x) == 1)


class Node(object):
    pass


def _setpred(av, icase, asc):
    """predicate for an IN node (list of items)."""
    items = list(av)
    neg = False
    if items and items[0][0] is sc.NEGATE:
        neg = True
        items = items[1:]

    def one(c):
        for op, a in items:
            if op is sc.LITERAL:
                if ord(c) == a:
                    return True
            elif op is sc.RANGE:
                if a[0] <= ord(c) <= a[1]:
                    return True
            elif op is sc.CATEGORY:
                if _cat(a, c, asc):
                    return True
            else:
                raise Unsupported("regex set item %s" % op)
        return False

    def pred(c):
        r = any(one(v) for v in (_variants(c) if icase else (c,)))
        return r != neg
    return pred


def _cat(a, c, asc):
    n = a.name
    if "NOT_" in n:
        return not _cat_pos(n.replace("NOT_", ""), c, asc)
    return _cat_pos(n, c, asc)


def _cat_pos(n, c, asc):
    if "DIGIT" in n:
        return is_digit(c, asc)
    if "SPACE" in n:
        return is_space(c, asc)
    if "WORD" in n:
        return is_word(c, asc)
    raise Unsupported("regex category %s" % n)


class Prog(object):
    """Compiled pattern."""

    def __init__(self, pattern, flags):
        self.isbytes = isinstance(pattern, bytes)
        p = sre_parse.parse(pattern, flags)
        self.state = p.state
        self.flags = p.state.flags
        self.ngroups = p.state.groups - 1
        self.groupindex = dict(p.state.groupdict)
        self.backrefs = False
        self.root = self._seq(p, self.flags)

    # node forms: ("chr", pred) ("seq",[..]) ("alt",[..]) ("rep",lo,hi,greedy,n)
    # ("grp",idx,n) ("at",kind,flags) ("look",dir,neg,n,width) ("ref",idx,icase)
    # ("cond",idx,yes,no)
    def _seq(self, items, flags):
        return ("seq", [self._node(op, av, flags) for op, av in items])

    def _node(self, op, av, flags):
        icase = bool(flags & re.I)
        asc = bool(flags & re.A) or self.isbytes
        if op is sc.LITERAL:
            ch = chr(av)
            if icase:
                vs = frozenset(_variants(ch))
                return ("chr", lambda c: bool(_variants(c) & vs), {})
            return ("chr", lambda c: c == ch, {})
        if op is sc.NOT_LITERAL:
            ch = chr(av)
            if icase:
                vs = frozenset(_variants(ch))
                return ("chr", lambda c: not (_variants(c) & vs), {})
            return ("chr", lambda c: c != ch, {})
        if op is sc.ANY:
            if flags & re.S:
                return ("chr", lambda c: True, {})
            return ("chr", lambda c: c != "\n", {})
        if op is sc.IN:
            return ("chr", _setpred(av, icase, asc), {})
        if op is sc.CATEGORY:
            return ("chr", lambda c: _cat(av, c, asc), {})
        if op is sc.BRANCH:
            return ("alt", [self._seq(b, flags) for b in av[1]])
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            hi = None if hi is sc.MAXREPEAT or hi == sc.MAXREPEAT else hi
            return ("rep", lo, hi, op is sc.MAX_REPEAT, self._seq(sub, flags))
        if op is sc.SUBPATTERN:
            grp, add, dele, sub = av
            n = self._seq(sub, (flags | add) & ~dele)
            if grp is None:
                return n
            return ("grp", grp, n)
        if op is sc.AT:
            return ("at", av.name, flags, asc)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            w = sub.getwidth()
            return ("look", d, op is sc.ASSERT_NOT, self._seq(sub, flags), w)
        if op is sc.GROUPREF:
            self.backrefs = True
            return ("ref", av, icase)
        if op is sc.GROUPREF_EXISTS:
            self.backrefs = True
            idx, yes, no = av
            return ("cond", idx, self._seq(yes, flags),
                    self._seq(no, flags) if no else ("seq", []))
        raise Unsupported("regex op %s" % op)


def prog(pattern, flags=0):
    key = (type(pattern), pattern, int(flags))
    p = _parse_cache.get(key)
    if p is None:
        p = _parse_cache[key] = Prog(pattern, int(flags))
    return p


def test_cell(c, node):
    pred, cache = node[1], node[2]
    if isinstance(c, str):
        r = cache.get(c)
        if r is None:
            r = cache[c] = bool(pred(c))
        return r
    return c.test_pred(pred)


class Matcher(object):
    def __init__(self, prog, cells, pos, end):
        self.p = prog
        self.cells = cells
        self.pos = pos
        self.end = end
        self.memo = {}

    # -- anchors ------------------------------------------------------------
    def at(self, node, i):
        kind, flags, asc = node[1], node[2], node[3]
        cs, n = self.cells, self.end
        if kind == "AT_BEGINNING":
            if i == 0:
                return True
            if flags & re.M:
                return self.is_nl(cs[i - 1])
            return False
        if kind == "AT_BEGINNING_STRING":
            return i == 0
        if kind == "AT_END":
            if i == n:
                return True
            if flags & re.M:
                return self.is_nl(cs[i])
            if i == n - 1:
                return self.is_nl(cs[i])
            return False
        if kind == "AT_END_STRING":
            return i == n
        if kind in ("AT_BOUNDARY", "AT_NON_BOUNDARY"):
            if not n:
                return False
            w = lambda c: (is_word(c, asc) if isinstance(c, str)
                           else c.test_pred(lambda x: is_word(x, asc)))
            a = w(cs[i - 1]) if i > 0 else False
            b = w(cs[i]) if i < n else False
            x = or_(and_(a, not_(b)), and_(not_(a), b))
            return x if kind == "AT_BOUNDARY" else not_(x)
        raise Unsupported("regex anchor %s" % kind)

    @staticmethod
    def is_nl(c):
        return c == "\n" if isinstance(c, str) else c.test(("\n",))

    # -- existence formula -----------------------------------------------------
    def ends(self, node, i):
        """{j: condition} over all ways the node can match from i."""
        key = (id(node), i)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._ends(node, i)
        return r

    @staticmethod
    def _put(d, j, c):
        if c is False:
            return
        d[j] = or_(d[j], c) if j in d else c

    def _ends(self, node, i):
        k = node[0]
        if k == "chr":
            if i >= self.end:
                return {}
            c = test_cell(self.cells[i], node)
            return {} if c is False else {i + 1: c}
        if k == "seq":
            cur = {i: True}
            for sub in node[1]:
                nxt = {}
                for j, cj in cur.items():
                    for e, ce in self.ends(sub, j).items():
                        self._put(nxt, e, and_(cj, ce))
                cur = nxt
                if not cur:
                    break
            return cur
        if k == "alt":
            out = {}
            for sub in node[1]:
                for e, ce in self.ends(sub, i).items():
                    self._put(out, e, ce)
            return out
        if k == "rep":
            lo, hi, _, sub = node[1:]
            out = {}
            cur = {i: True}
            n = 0
            if lo == 0:
                out[i] = True
            seen_stop = 0
            while cur and (hi is None or n < hi):
                nxt = {}
                for j, cj in cur.items():
                    for e, ce in self.ends(sub, j).items():
                        if e == j and n >= lo:
                            continue
                        self._put(nxt, e, and_(cj, ce))
                n += 1
                cur = nxt
                if n >= lo:
                    for e, ce in cur.items():
                        self._put(out, e, ce)
                if n > lo + (self.end - i) + 1:
                    break
            return out
        if k == "grp":
            return self.ends(node[2], i)
        if k == "at":
            c = self.at(node, i)
            return {} if c is False else {i: c}
        if k == "look":
            _, d, neg, sub, w = node
            if d >= 0:
                c = or_(*self.ends(sub, i).values())
            else:
                if w[0] != w[1]:
                    raise Unsupported("variable lookbehind")
                c = False
                if i - w[0] >= 0:
                    c = self.ends(sub, i - w[0]).get(i, False)
            if neg:
                c = not_(c)
            return {} if c is False else {i: c}
        raise Unsupported("regex node %s" % k)

    # -- backtracking (sre priority order) ----------------------------------------
    def bt(self, node, i, g, k):
        """Match node at i with group state g (dict), then continuation k."""
        kind = node[0]
        if kind == "chr":
            if i >= self.end:
                return None
            if core.ENGINE.decide(test_cell(self.cells[i], node)):
                return k(i + 1, g)
            return None
        if kind == "seq":
            return self._bt_seq(node[1], 0, i, g, k)
        if kind == "alt":
            for sub in node[1]:
                r = self.bt(sub, i, g, k)
                if r is not None:
                    return r
            return None
        if kind == "rep":
            return self._bt_rep(node, 0, i, -1, g, k)
        if kind == "grp":
            idx, sub = node[1], node[2]

            def kk(j, g2):
                g3 = dict(g2)
                g3[idx] = (i, j)
                g3[0] = idx
                return k(j, g3)
            return self.bt(sub, i, g, kk)
        if kind == "at":
            if core.ENGINE.decide(self.at(node, i)):
                return k(i, g)
            return None
        if kind == "look":
            _, d, neg, sub, w = node
            if d >= 0:
                r = self.bt(sub, i, g, lambda j, g2: (j, g2))
            else:
                if w[0] != w[1]:
                    raise Unsupported("variable lookbehind")
                r = None
                if i - w[0] >= 0:
                    r = self.bt(sub, i - w[0], g,
                                lambda j, g2: (j, g2) if j == i else None)
            if neg:
                return None if r is not None else k(i, g)
            return None if r is None else k(i, r[1])
        if kind == "ref":
            idx, icase = node[1], node[2]
            if idx not in g:
                return None
            a, b = g[idx]
            n = b - a
            if i + n > self.end:
                return None
            x = mkstr(self.cells[a:b])
            y = mkstr(self.cells[i:i + n])
            if icase:
                x, y = x.lower(), y.lower()
            if x == y:
                return k(i + n, g)
            return None
        if kind == "cond":
            idx, yes, no = node[1:]
            return self.bt(yes if idx in g else no, i, g, k)
        raise Unsupported("regex node %s" % kind)

    def _bt_seq(self, subs, n, i, g, k):
        # fast-forward over plain characters
        while n < len(subs) and subs[n][0] == "chr":
            if i >= self.end or not core.ENGINE.decide(
                    test_cell(self.cells[i], subs[n])):
                return None
            i += 1
            n += 1
        if n == len(subs):
            return k(i, g)
        return self.bt(subs[n], i, g,
                       lambda j, g2: self._bt_seq(subs, n + 1, j, g2, k))

    def _bt_rep(self, node, n, i, last, g, k):
        lo, hi, greedy, sub = node[1:]
        subs = sub[1]
        if greedy and len(subs) == 1 and subs[0][0] == "chr" and n == 0:
            # single-char greedy loop without recursion
            ch = subs[0]
            j = i
            while j < self.end and (hi is None or j - i < hi) and \
                    core.ENGINE.decide(test_cell(self.cells[j], ch)):
                j += 1
            while j - i >= lo:
                r = k(j, g)
                if r is not None:
                    return r
                j -= 1
            return None
        if not greedy and len(subs) == 1 and subs[0][0] == "chr" and n == 0:
            ch = subs[0]
            j = i
            while True:
                if j - i >= lo:
                    r = k(j, g)
                    if r is not None:
                        return r
                if j < self.end and (hi is None or j - i < hi) and \
                        core.ENGINE.decide(test_cell(self.cells[j], ch)):
                    j += 1
                    continue
                return None

        def more():
            if hi is not None and n >= hi:
                return None
            if n >= lo and i == last:      # empty iteration guard
                return None
            return self.bt(sub, i, g,
                           lambda j, g2: self._bt_rep(node, n + 1, j, i, g2, k))
        if n < lo:
            return more()
        if greedy:
            r = more()
            if r is not None:
                return r
            return k(i, g)
        r = k(i, g)
        if r is not None:
            return r
        return more()


class SymMatch(object):
    """Match object over a symbolic string."""

    def __init__(self, rex, string, pos, endpos, start, mode, m=None, res=None):
        self.re = rex
        self.string = string
        self.pos = pos
        self.endpos = endpos
        self._start = start          # None: any start >= pos (search)
        self._mode = mode
        self._m = m
        self._res = res
        self._prog = prog(rex.pattern, rex.flags)

    def _solve(self):
        if self._res is None:
            self._res = self._m.find_first(self.pos, self._mode)
            if self._res is None:
                raise core.PathInfeasible()
        return self._res

    def _span(self, g):
        s, e, groups = self._solve()
        if isinstance(g, str):
            if g not in self._prog.groupindex:
                raise IndexError("no such group")
            g = self._prog.groupindex[g]
        if g == 0:
            return s, e
        if not 0 <= g <= self._prog.ngroups:
            raise IndexError("no such group")
        return groups.get(g, (-1, -1))

    def _get(self, g, default=None):
        a, b = self._span(g)
        if a < 0:
            return default
        return mkstr(self._m.cells[a:b], self._prog.isbytes)

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i + 1, default)
                     for i in range(self._prog.ngroups))

    def groupdict(self, default=None):
        return {n: self._get(i, default)
                for n, i in self._prog.groupindex.items()}

    def start(self, g=0): return self._span(g)[0]
    def end(self, g=0): return self._span(g)[1]
    def span(self, g=0): return self._span(g)

    @property
    def lastindex(self):
        return self._solve()[2].get(0)

    def expand(self, t):
        return expand_template(self, t)

    def __bool__(self):
        return True


class M(Matcher):
    def exists(self, pos, mode):
        root = self.p.root
        if mode == "search":
            return or_(*[or_(*self.ends(root, i).values())
                         for i in range(pos, self.end + 1)])
        e = self.ends(root, pos)
        if mode == "fullmatch":
            return e.get(self.end, False)
        return or_(*e.values())

    def find_first(self, pos, mode):
        root = self.p.root
        starts = range(pos, self.end + 1) if mode == "search" else (pos,)
        for i in starts:
            if mode == "fullmatch":
                k = lambda j, g: (j, g) if j == self.end else None
            else:
                k = lambda j, g: (j, g)
            r = self.bt(root, i, {}, k)
            if r is not None:
                return i, r[0], r[1]
        return None


def do(rex, mode, string, pos=0, endpos=None):
    if isinstance(string, SymStr):
        string = string.plain()
        cells = string.cells
    else:
        cells = strs.cells_of(string)
    p = prog(rex.pattern, rex.flags)
    end = len(cells) if endpos is None else min(endpos, len(cells))
    m = M(p, cells, pos, end)
    if not p.backrefs:
        c = m.exists(pos, mode)
        if not core.ENGINE.decide(c):
            return None
        return SymMatch(rex, string, pos, end, None, mode, m)
    r = m.find_first(pos, mode)
    if r is None:
        return None
    return SymMatch(rex, string, pos, end, None, mode, m, r)


def finditer(rex, string, pos=0, endpos=None):
    cells = strs.cells_of(string.plain() if isinstance(string, SymStr) else string)
    p = prog(rex.pattern, rex.flags)
    end = len(cells) if endpos is None else min(endpos, len(cells))
    m = M(p, cells, pos, end)
    i = pos
    lastempty = -1
    while i <= end:
        found = None
        for s in range(i, end + 1):
            def k(j, g, s=s):
                if j == s and s == lastempty:
                    return None      # an empty match may not touch the previous one
                return (j, g)
            r = m.bt(p.root, s, {}, k)
            if r is not None:
                found = (s, r[0], r[1])
                break
        if found is None:
            return
        yield SymMatch(rex, string, pos, end, None, "search", m, found)
        s, e, _ = found
        # Python 3.7+: only an *empty* match blocks an empty match at its end
        i = e
        lastempty = e if e == s else -1


def findall(rex, string, pos=0, endpos=None):
    out = []
    for mm in finditer(rex, string, pos, endpos):
        n = mm._prog.ngroups
        empty = b"" if mm._prog.isbytes else ""
        if n == 0:
            out.append(mm.group())
        elif n == 1:
            out.append(mm._get(1, empty))
        else:
            out.append(mm.groups(empty))
    return out


def expand_template(mm, t):
    if isinstance(t, SymStr):
        t = t.concretize()
    groups, literals = sre_parse.parse_template(t, mm.re)
    lits = list(literals)
    out = [("" if x is None else x) for x in lits]
    empty = b"" if mm._prog.isbytes else ""
    res = [empty if x is None else x for x in lits]
    for idx, g in groups:
        res[idx] = mm._get(g, empty)
    return strs.mkstr(sum((strs.cells_of(x) for x in res), ()), mm._prog.isbytes)


def subn(rex, repl, string, count=0):
    cells = strs.cells_of(string.plain() if isinstance(string, SymStr) else string)
    isb = rex.pattern.__class__ is bytes
    out = []
    last = n = 0
    for mm in finditer(rex, string):
        if count and n >= count:
            break
        out.extend(cells[last:mm.start()])
        r = repl(mm) if callable(repl) else expand_template(mm, repl)
        out.extend(strs.cells_of(r))
        last = mm.end()
        n += 1
    out.extend(cells[last:])
    return mkstr(out, isb), n


def split(rex, string, maxsplit=0):
    cells = strs.cells_of(string.plain() if isinstance(string, SymStr) else string)
    isb = isinstance(rex.pattern, bytes)
    out = []
    last = n = 0
    for mm in finditer(rex, string):
        if maxsplit and n >= maxsplit:
            break
        out.append(mkstr(cells[last:mm.start()], isb))
        out.extend(mm.groups())
        last = mm.end()
        n += 1
    out.append(mkstr(cells[last:], isb))
    return out
