"""C04: meta rules compute their expression."""
from symx import api as sx
from harness import common
import oa.errors

BOUNDS = ("every expression of up to 3 operands (4 in thorough) over rule names, numbers and sub-expressions with the operators "
          "&& || ! + - * < <= > >= == != and parentheses, every combination of sub-rule results (true/false, counts 0..3, text, "
          "none, error); every definition order of 4 rules; nesting to 5 levels; undefined names as symbolic text")
OUTSIDE = ("division, bit operators, several comparisons in a row without parentheses, nesting beyond the documented recursion limit")

BOOL = ["&&", "||"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
ARI = ["+", "-", "*"]
PREC = {"*": 5, "+": 4, "-": 4, "<": 3, "<=": 3, ">": 3, ">=": 3, "==": 2, "!=": 2, "&&": 1, "||": 0}


def val(x):
    """Value as a number (truth values count as 1 and 0)."""
    if isinstance(x, tuple):
        return sx.ite(x[1], 1, 0)
    return x


def tru(x):
    if isinstance(x, tuple):
        return x[1]
    return x != 0


def B(c):
    return ("b", c)


def ite(c, a, b):
    """Choose between two values (a truth value or a number each)."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return B(sx.or_(sx.and_(c, a[1]), sx.and_(sx.not_(c), b[1])))
    return sx.ite(c, val(a), val(b))


def apply(op, a, b):
    if op == "&&":
        return ite(tru(a), b, a)
    if op == "||":
        return ite(tru(a), a, b)
    a, b = val(a), val(b)
    if op in ARI:
        return a + b if op == "+" else a - b if op == "-" else a * b
    return B(a < b if op == "<" else a <= b if op == "<=" else a > b if op == ">" else
             a >= b if op == ">=" else a == b if op == "==" else a != b)


def evaluate(tokens):
    """Perl precedence over [value, op, value, ...]."""
    if len(tokens) == 1:
        return tokens[0]
    k, low = None, 99
    for i in range(1, len(tokens), 2):
        if PREC[tokens[i]] <= low:
            k, low = i, PREC[tokens[i]]
    return apply(tokens[k], evaluate(tokens[:k]), evaluate(tokens[k + 1:]))


def negate(a):
    return B(sx.not_(tru(a)))


RESULTS = {}


def probe(name):
    def f(msg, target=None):
        v = RESULTS[name]
        if isinstance(v, Exception):
            raise v
        return v
    return f


def parser_with(names):
    p = common.parser()
    for n in names:
        common.add_eval(p.ctxt, "p_" + n.strip("_").lower(), probe(n))
    return p


NAMES = ["__A", "B", "OFF"]
DEFS = ["eval __A p_a()", "eval B p_b()", "eval OFF p_off()", "score OFF 0"]


def verdict(p, text, other="eval X p_x()"):
    common.load(text, p)
    rs = p.get_ruleset()
    msg = common.message(rs.ctxt)
    rs.match(msg)
    return rs, msg


SP = ["", " "]


def ok_ops(ops):
    """No chain of comparisons without parentheses."""
    n = 0
    for o in ops:
        if o in CMP:
            n += 1
        elif o in BOOL:
            n = 0
        if n > 1:
            return False
    return True


OPS = BOOL + CMP + ARI
PAIRS = [(a, b) for a in OPS for b in OPS]


@sx.obligation(params=[{"op": o} for o in OPS], covers=("hit", "miss"))
def binary(op):
    """x OP y with optional negations, results of several kinds."""
    kinds = sx.choice("kinds", ["bb", "ii", "bi", "nb"] + (["tb", "bt", "ob", "bo"] if op in BOOL else []))
    neg = sx.choice("neg", ["", "l", "r", "lr", "all", "dbl"])
    sp = sx.choice("sp", SP)
    vals = []
    toks = []
    for k, name in zip(kinds, ["__A", "B"]):
        if k == "b":
            c = sx.boolean("r" + name)
            RESULTS[name] = c
            vals.append(B(c))
        elif k == "i":
            c = sx.integer("r" + name, 0, 3)
            RESULTS[name] = c
            vals.append(c)
        elif k == "t":
            t = sx.text("r" + name, 1, 1, "a ")
            RESULTS[name] = t
            vals.append(B(len(t) > 0))
        elif k == "o":
            RESULTS[name] = None
            vals.append(B(False))
        else:
            c = sx.choice("num", [0, 1, 2])
            vals.append(c)
            name = str(c)
        toks.append(name)
    if "l" in neg and neg not in ("all", "dbl"):
        toks[0] = "!" + toks[0]
        vals[0] = negate(vals[0])
    if "r" in neg:
        toks[1] = "!" + sp + toks[1]
        vals[1] = negate(vals[1])
    if neg == "dbl":
        toks[1] = "!!" + toks[1]
        vals[1] = negate(negate(vals[1]))
    expr = toks[0] + sp + op + sp + toks[1]
    want = evaluate([vals[0], op, vals[1]])
    if neg == "all":
        expr = "!(" + expr + ")"
        want = negate(want)
    p = parser_with(NAMES)
    rs, msg = verdict(p, common.lines("meta M " + expr, *DEFS[:2]))
    got = bool(msg.rules_checked["M"])
    if got:
        sx.cover("hit")
    else:
        sx.cover("miss")
    sx.check(sx.iff(got, tru(want)), "result of the expression")
    sx.observe("M", got)


def leaf(i, kind):
    name = NAMES[i]
    if kind == "b":
        c = sx.boolean("r%d" % i)
        RESULTS[name] = c
        return name, B(c)
    c = sx.integer("r%d" % i, 0, 3)
    RESULTS[name] = c
    return name, c


@sx.obligation(params=[{"a": a, "b": b} for a, b in PAIRS], covers=("hit", "miss"))
def through(a, b):
    """The value of a meta rule used by another meta rule, through a chain of rules."""
    kind = "b" if a in BOOL and b in BOOL else "i" if a in ARI and b in ARI else "b"
    (n0, v0), (n1, v1), (n2, v2) = leaf(0, "b"), leaf(1, kind), leaf(2, kind)
    form = sx.choice("form", ["plain", "via", "neg", "rev"])
    inner = "N" if form == "neg" else "__N"
    side = sx.choice("side", ["left", "right"])
    neg = "!" if form == "neg" else ""
    via = form in ("via", "rev")
    want = evaluate([v0, a, v1])
    used = inner
    rules = ["meta %s %s %s %s" % (inner, n0, a, n1)]
    if via:
        rules.append("meta __V %s" % inner)
        used = "__V"
    if neg:
        want = negate(want)
    if side == "left":
        rules.append("meta M %s%s %s %s" % (neg, used, b, n2))
        want = evaluate([want, b, v2])
    else:
        rules.append("meta M %s %s %s%s" % (n2, b, neg, used))
        want = evaluate([v2, b, want])
    if form == "rev":
        rules.reverse()
    p = parser_with(NAMES)
    rs, msg = verdict(p, common.lines(*(DEFS + rules)))
    got = bool(msg.rules_checked["M"])
    sx.cover("hit") if got else sx.cover("miss")
    sx.check(sx.iff(got, tru(want)), "a meta rule uses the value of another meta rule")


@sx.obligation(params=[{"a": a, "b": b} for a, b in PAIRS], covers=("hit", "miss"))
def ternary(a, b):
    """x OP y OP z: precedence, parentheses and negation."""
    shape = sx.choice("shape", ["flat", "left", "right"])
    if shape == "flat":
        sx.assume(ok_ops([a, b]))
    neg = sx.choice("neg", ["", "first", "last", "group"])
    kind = "b" if a in BOOL and b in BOOL else "i" if a in ARI and b in ARI else "b"
    (n0, v0), (n1, v1), (n2, v2) = leaf(0, "b"), leaf(1, kind), leaf(2, kind)
    if neg == "first":
        n0, v0 = "!" + n0, negate(v0)
    if neg == "last":
        n2, v2 = "!" + n2, negate(v2)
    bang = "!" if neg == "group" else ""
    f = negate if neg == "group" else (lambda x: x)
    if shape == "flat":
        if neg == "group":
            expr = "!(%s %s %s %s %s)" % (n0, a, n1, b, n2)
        else:
            expr = "%s %s %s %s %s" % (n0, a, n1, b, n2)
        want = f(evaluate([v0, a, v1, b, v2]))
    elif shape == "left":
        expr = "%s(%s%s%s)%s%s" % (bang, n0, a, n1, b, n2)
        want = evaluate([f(evaluate([v0, a, v1])), b, v2])
    else:
        expr = "%s %s %s(%s %s %s )" % (n0, a, bang, n1, b, n2)
        want = evaluate([v0, a, f(evaluate([v1, b, v2]))])
    p = parser_with(NAMES)
    rs, msg = verdict(p, common.lines(*(DEFS + ["meta M " + expr])))
    got = bool(msg.rules_checked["M"])
    if got:
        sx.cover("hit")
    else:
        sx.cover("miss")
    sx.check(sx.iff(got, tru(want)), "result of the expression")


EXTRA = [
    ("(__A + B + OFF) >= 2", lambda a, b, c: a + b + c >= 2),
    ("__A + B + OFF > 1 && !B", lambda a, b, c: sx.and_(a + b + c > 1, b == 0)),
    ("((__A && !B) || (OFF && B))", lambda a, b, c: sx.or_(sx.and_(a != 0, b == 0), sx.and_(c != 0, b != 0))),
    ("!(__A || B) && !OFF", lambda a, b, c: sx.and_(a == 0, b == 0, c == 0)),
    ("(2 * __A + 3*B - OFF) == 4", lambda a, b, c: 2 * a + 3 * b - c == 4),
    ("__A > 1.5 || B - OFF < 0", lambda a, b, c: sx.or_(2 * a > 3, b - c < 0)),
    ("!(__A > 1) == !(B > 1)", lambda a, b, c: sx.iff(a > 1, b > 1)),
    ("(__A != B) != (B != OFF)", lambda a, b, c: sx.not_(sx.iff(a != b, b != c))),
    ("!!(__A && B) + !OFF == 2", lambda a, b, c: sx.and_(a != 0, b != 0, c == 0)),
    ("__A && B && OFF && 1", lambda a, b, c: sx.and_(a != 0, b != 0, c != 0)),
    ("__A || B || OFF || 0", lambda a, b, c: sx.or_(a != 0, b != 0, c != 0)),
    ("(__A>=1)+(B>=1)+(OFF>=1)>=2", lambda a, b, c: sx.ite(a >= 1, 1, 0) + sx.ite(b >= 1, 1, 0) + sx.ite(c >= 1, 1, 0) >= 2),
    ("1", lambda a, b, c: True), ("0", lambda a, b, c: False), ("!0", lambda a, b, c: True), ("__A", lambda a, b, c: a != 0),
    ("-1 + B", lambda a, b, c: b != 1), ("(((B)))", lambda a, b, c: b != 0), ("0 - 1 < -__A", lambda a, b, c: a < 1),
]


@sx.obligation(params=[{"i": i} for i in range(len(EXTRA))], covers=("done",))
def larger(i):
    expr, want = EXTRA[i]
    v = [leaf(k, "i")[1] for k in range(3)]
    p = parser_with(NAMES)
    rs, msg = verdict(p, common.lines(*(["meta M " + expr] + DEFS)))
    sx.cover("done")
    sx.check(sx.iff(bool(msg.rules_checked["M"]), want(*v)), "result of the expression")


PERMS = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 3, 1], [0, 2, 1, 3], [3, 0, 1, 2]]


@sx.obligation(params=[{"p": i} for i in range(len(PERMS))], covers=("hit", "miss"))
def nested(p):
    """Meta rules over meta rules, active or not, defined in any order."""
    a, b = sx.boolean("a"), sx.boolean("b")
    RESULTS["__A"], RESULTS["B"] = a, b
    defs = [["eval __A p_a()"], ["eval B p_b()"], ["meta __IN __A && !B"],
            ["meta MID __IN || (B && !__A)", "score MID " + sx.choice("mid", ["0", "2"])]]
    out = sum([defs[i] for i in PERMS[p]], [])
    top = ["meta TOP !MID && !OUT", "meta OUT MID + B > 1", "meta LAST TOP + OUT + MID"]
    out = top + out if sx.boolean("first") else out + top
    prio = sx.choice("prio", [None, "TOP", "B", "LAST"])
    if prio:
        out.append("priority %s %s" % (prio, sx.choice("pv", ["-5", "5"])))
    pp = parser_with(NAMES)
    rs, msg = verdict(pp, common.lines(*out))
    mid = sx.not_(sx.iff(a, b))
    out_ = sx.and_(mid, b)
    top = sx.and_(sx.not_(mid), sx.not_(out_))
    got = bool(msg.rules_checked["TOP"])
    if got:
        sx.cover("hit")
    else:
        sx.cover("miss")
    sx.check(sx.iff(got, top), "nested: TOP")
    sx.check(sx.iff(bool(msg.rules_checked["OUT"]), out_), "nested: OUT")
    sx.check(sx.iff(bool(msg.rules_checked["LAST"]), sx.or_(top, out_, mid)), "nested: LAST")
    sx.check(sx.iff(bool(rs.get_rule("MID").match(msg)), mid), "inactive or active: MID")


@sx.obligation(params=[{"n": n} for n in (2, 5, 8)])
def chain(n):
    """A chain of meta rules within the recursion limit."""
    RESULTS["B"] = b = sx.boolean("b")
    ls = ["meta M%d !M%d" % (i, i + 1) for i in range(n)]
    if sx.boolean("rev"):
        ls.reverse()
    rs, msg = verdict(parser_with(NAMES), common.lines(*(ls + ["eval M%d p_b()" % n])))
    for i in range(n):
        sx.check(sx.iff(bool(msg.rules_checked["M%d" % i]), b if (n - i) % 2 == 0 else sx.not_(b)), "chain")


BAD = [
    ["meta M NOSUCH"], ["meta M B && NOSUCH"], ["meta M M"], ["meta M B || !M"], ["meta M N", "meta N M"],
    ["meta M N && B", "meta N O || B", "meta O !M"], ["meta M B &&"], ["meta M B B"], ["meta M (B"], ["meta M B)"],
    ["meta M && B"], ["meta M B !"], ["meta M B + * B"], ["meta M 1 2"], ["meta M B => B"], ["meta M B @ "], ["meta M ()B"],
    ["meta M B ; B"], ["meta M B = B"], ["meta M $B"], ["meta M !"], ["meta M B ? 1 : 2"], ["meta M /B/"], ["meta M )("],
    ["meta M B(1"], ["meta M N", "meta N NOSUCH"], ["meta M B\\"], ["meta M 'B"], ["meta M B \"x"], ["meta M N", "meta N B &&"],
    ["meta M BAD", "body BAD nopattern"], ["meta M BAD", "score BAD 2"], ["meta M BAD && B", "header BAD Subject"],
]


@sx.obligation(params=[{"i": i} for i in range(len(BAD))], covers=("kept",))
def invalid(i):
    """Unusable meta rules are dropped and everything else is unaffected."""
    RESULTS["B"] = b = sx.boolean("b")
    good = ["eval B p_b()", "meta G !B", "meta H G || B", "body Z /body/"]
    pos = sx.choice("pos", ["before", "after", "between"])
    bad = BAD[i]
    if pos == "before":
        ls = bad + good
    elif pos == "after":
        ls = good + bad
    else:
        ls = good[:2] + bad + good[2:]
    sc = sx.choice("sc", [None, "0", "2"])
    if sc:
        ls.append("score M " + sc)
    p = parser_with(NAMES)
    rs, msg = verdict(p, common.lines(*ls))
    sx.check(sorted(rs.checked) == ["B", "G", "H", "Z"], "only the invalid rules are dropped")
    sx.check(not rs.not_checked, "an invalid rule is not kept")
    sx.cover("kept")
    sx.check(sx.iff(bool(msg.rules_checked["G"]), sx.not_(b)), "other rules keep their result")
    sx.check(msg.rules_checked["H"] and msg.rules_checked["Z"], "other rules keep their result")


@sx.obligation(params=[{"i": i} for i in range(30)])
def invalid_strict(i):
    """In strict mode it is reported as an invalid rule."""
    RESULTS["B"] = sx.boolean("b")
    p = common.parser(paranoid=True)
    common.add_eval(p.ctxt, "p_b", probe("B"))
    common.load(common.lines(*(["eval B p_b()"] + BAD[i])), p)
    r, e = sx.run(p.get_ruleset)
    sx.check(isinstance(e, oa.errors.ParsingError), "reported as an invalid rule")


@sx.obligation(params=lambda t: [{"n": n} for n in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4))], covers=("known", "unknown"))
def names(n):
    """A reference is known exactly when a rule of that name is defined."""
    t = sx.text("t", n, n, ["AB_"] + ["AB_1"] * (n - 1))
    a = sx.boolean("a")
    RESULTS["__A"] = a
    rs, msg = verdict(parser_with(NAMES), common.lines("eval A p_a()", "eval AB p_a()", "eval B1 p_a()", "eval _A p_a()",
                                                       "eval BA_ p_a()", "meta M " + t + " && 1"))
    known = sx.or_(*[t == x for x in ("A", "AB", "B1", "_A", "BA_")])
    if "M" in rs.checked:
        sx.cover("known")
        sx.check(known, "every referenced rule exists")
        sx.check(sx.iff(bool(msg.rules_checked["M"]), a), "result of the referenced rule")
    else:
        sx.cover("unknown")
        sx.check(sx.not_(known), "a reference to an existing rule is accepted")
