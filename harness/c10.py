"""C10: eval rules call the named test with exactly the written arguments."""
from symx import api as sx
from harness import common
import oa.errors
import oa.message
import oa.plugins.base

BOUNDS = ("argument lists of up to 3 literals: quoted strings of up to 3 symbolic characters holding separators, parentheses, quotes and "
          "blanks, and decimal numbers with up to 2 symbolic digits and sign; symbolic blanks between them; function names of up to 4 "
          "symbolic characters; every kind of rule; every outcome of the test; malformed lists of up to 3 symbolic characters")
OUTSIDE = "escape sequences and exotic literals (bytes, hexadecimal, lists) as arguments; comment characters"
ASSUMPTIONS = ["ast.literal_eval on lists of plain strings and decimal numbers is modelled (checked against the real one by replay)"]

QUOTED = "a,)( v'\"1"


class Test(object):
    def __init__(self, outcome):
        self.calls = []
        self.outcome = outcome

    def __call__(self, msg, *args, **kw):
        self.calls.append((msg, args, kw))
        if self.outcome == "error":
            raise [KeyError, ValueError, AttributeError, ZeroDivisionError][len(args) % 4]("x")
        return self.outcome


def ruleset(text, tests, paranoid=False):
    p = common.parser(paranoid)
    for name, f in tests.items():
        common.add_eval(p.ctxt, name, f)
    common.load(text, p)
    return p.get_ruleset()


def literal(i, kind):
    """(source text, value) of one argument."""
    if kind == "str":
        s = sx.text("s%d" % i, 0 if i == 0 else 1, (2 if i == 0 else 1) if sx.TIER == "quick" else 3 - i, QUOTED.replace('"', ""))
        q = '"'
        return q + s + q, s
    if kind == "str1":
        s = sx.text("s%d" % i, 1, 1, QUOTED.replace("'", ""))
        return "'" + s + "'", s
    if kind == "int":
        s = sx.choice("sign%d" % i, ["", "-"])
        a = sx.text("d%d" % i, 1, 2 if i == 0 else 1, ["123456789", "0123456789"])
        return s + a, (-int(a) if s else int(a))
    if kind == "real":
        a = sx.text("d%d" % i, 1, 1, "0123456789")
        return a + ".5", int(a) + 0.5
    return "True", True


KINDS = ["str", "str1", "int", "real", "bool"]


@sx.obligation(params=lambda t: [{"n": n, "first": f} for n in (0, 1, 2, 3) for f in (KINDS if n else [None])
                                 if n < 3 or f in ("str", "int")],
               covers=("called",), max_paths=6000, path_s=90)
def arguments(n, first):
    """The literals reach the test unchanged and in order."""
    src, want = "", []
    for i in range(n):
        kind = first if i == 0 else sx.choice("k%d" % i, ["str1", "int"] if n == 3 else KINDS[:3])
        text, val = literal(i, kind)
        if i:
            src = src + "," + sx.choice("sp%d" % i, ["", " "] if i == 1 else [""])
        src = src + text
        want.append(val)
    rtype, prefix, target = sx.choice("rtype", [("body", "eval:", "body"), ("header", "eval:", "header"), ("eval", "", None),
                                                ("full", "eval:", "full"), ("rawbody", "eval:", "rawbody"),
                                                ("uri", "eval: ", "uri")][:6 if n < 2 else 2])
    test = Test(True)
    other = Test(True)
    rs = ruleset("%s R %scheck_it(" % (rtype, prefix) + src + ")\n", {"check_it": test, "check": other})
    msg = oa.message.Message(rs.ctxt, "\n\n")
    rs.match(msg)
    sx.cover("called")
    sx.check(len(test.calls) == 1 and not other.calls, "the named test is called once", src)
    m, args, kw = test.calls[0]
    sx.check(m is msg, "with the message")
    sx.check(len(args) == len(want), "with as many arguments as written", args)
    for a, b in zip(args, want):
        sx.check(isinstance(a, str) == isinstance(b, str) and sx.same(a, b), "with the written literals", args)
    sx.check(list(kw) == ["target"] and kw["target"] == target, "with the kind of rule", kw)
    sx.check(msg.rules_checked["R"] is True, "its result is the rule's result")


@sx.obligation(params=lambda t: [{"n": n} for n in ((1, 2, 3, 4) if t == "quick" else (1, 2, 3, 4, 5, 6))], covers=("known", "unknown"),
               max_paths=4000)
def names(n):
    """The function called is exactly the one named."""
    name = sx.text("name", n, n, ["evalc", "va_l", "vael1", "l_a", "lv:", "al"][:n])
    test = Test(True)
    tests = {"eval"[:n]: test, "evl_a"[:n]: Test(True), "c": Test(True), "va": Test(True), "l": Test(True), "_l": Test(True), "lva": Test(True)}
    sep = sx.choice("sep", ["", " "])
    rs = ruleset("body R eval:" + sep + name + "()\nbody KEEP /a/\n", tests)
    msg = oa.message.Message(rs.ctxt, "\n\n")
    rs.match(msg)
    sx.check("KEEP" in rs.checked, "other rules stay")
    hit = None
    for k in tests:
        if name == k:
            hit = k
    if n == 4 or n > 1 and hit is None:
        sx.cover("unknown")
    if hit is None:
        sx.cover("unknown")
        sx.check("R" not in rs.checked and "R" not in rs.not_checked, "an unknown test makes the rule invalid")
        for k, v in tests.items():
            sx.check(not v.calls, "no other test is called")
    else:
        sx.cover("known")
        for k, v in tests.items():
            sx.check(len(v.calls) == (1 if k == hit else 0), "exactly the named test is called", k)
    if n > 4:
        sx.cover("known")
    if n == 1:
        sx.cover("unknown")


@sx.obligation(params=[{"shape": s} for s in ("f(%s)", "f(1,%s)", "f('a'%s", "f%s", "f(%s", "%s", "f(1)%s")],
               covers=("invalid",), max_paths=5000)
def malformed(shape):
    """A malformed list makes only this rule invalid, without running anything."""
    n = 2 if sx.TIER == "quick" else 3
    t = sx.text("t", 0, n, "1a,)('[ -=")
    test = Test(True)
    src = shape.split("%s")[0] + t + shape.split("%s")[1]
    rs = ruleset("body R eval:" + src + "\nbody KEEP /a/\n", {"f": test})
    sx.check("KEEP" in rs.checked and "R" not in rs.not_checked, "other rules stay")
    msg = oa.message.Message(rs.ctxt, "\n\na\n")
    rs.match(msg)
    sx.check(msg.rules_checked["KEEP"] is True, "other rules are checked")
    if "R" in rs.checked:
        sx.check(len(test.calls) == 1, "a valid rule calls its test")
        for a in test.calls[0][1]:
            sx.check(isinstance(a, (int, float, str, list, tuple, bool)), "arguments are literals", a)
    else:
        sx.cover("invalid")
        sx.check(not test.calls, "an invalid rule calls nothing")
        rs, e = sx.run(ruleset, "body R eval:" + src + "\n", {"f": test}, True)
        sx.check(isinstance(e, (oa.errors.InvalidRule, oa.errors.InvalidSyntax)), "reported in strict mode", e)


BAD = ["1 2", "a", "'a", "a'", "1,,2", ",", "1,a", "f()", "1)(2", "1),(2", "'a'b", "1;2", "(1", "1]", "1],[2", "__import__('os')", "lambda: 1",
       "x=1", "*[1]", "1 if 1 else 2", "'a' % 1", "1/0", "open('x')", "(lambda:0)()", "[x for x in (1,)]", "{[]: 1}", "0x", "1..2", "'\\x1'", "'a\\"]


@sx.obligation(params=[{"i": i} for i in range(len(BAD))], covers=("invalid",))
def rejected(i):
    """Anything but literals is malformed."""
    test = Test(True)
    pre = sx.choice("pre", ["", "1,", "'x', "])
    rs = ruleset("header R eval:f(" + pre + BAD[i] + ")\nbody KEEP /a/\n", {"f": test})
    sx.cover("invalid")
    sx.check(list(rs.checked) == ["KEEP"] and not rs.not_checked, "a malformed argument list makes the rule invalid", BAD[i])


@sx.obligation(params=[{"k": k} for k in range(8)], covers=("match", "no match"))
def results(k):
    """The result of the test is the result of the rule; errors are no match."""
    outcomes = [True, False, None, 0, 1, "text", "error", 2.5]
    a, b = outcomes[k], sx.choice("b", outcomes)
    n = sx.integer("n", 0, 3)
    ta, tb = Test(a), Test(b)
    args = ["", "1", "1,2", "1,2,3"][sx.conc(n)]
    rs = ruleset("body A eval:fa(" + args + ")\nheader B eval:fb()\nscore A 2\nscore B 3\ndescribe A da\ndescribe B db\n", {"fa": ta, "fb": tb})
    msg = oa.message.Message(rs.ctxt, "\n\n")
    rs.match(msg)
    total = 0
    for name, o, s in (("A", a, 2), ("B", b, 3)):
        hit = o != "error" and bool(o)
        sx.cover("match" if hit else "no match")
        sx.check(bool(msg.rules_checked[name]) == hit, "result of the rule")
        if hit:
            total += s
            sx.check(msg.rules_descriptions[name] == (o if o == "text" else "d" + name.lower()), "description")
    sx.cover("no match" if k in (0, 4, 5, 7) else "match")
    sx.check(msg.score == total, "score")
    sx.check(len(ta.calls) == 1 and len(tb.calls) == 1, "called once per check")
    again = oa.message.Message(rs.ctxt, "\n\n")
    rs.match(again)
    sx.check(len(ta.calls) == 2 and ta.calls[1][0] is again and sx.same(ta.calls[0][1], ta.calls[1][1]),
             "every check calls it again with the same arguments")
