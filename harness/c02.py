"""C02: rules run in descending priority, ties in configuration order."""
from symx import api as sx
from harness import common

BOUNDS = ("2 to 4 rules of every built-in and plugin rule type (5 in thorough), each with a priority text of up to 3 "
          "symbolic characters over digits, signs and junk, or no priority line; pairs of rules with priorities of up to 7 digits; the priority line before or after the rule")
OUTSIDE = "more rules, more digits"

KINDS = [
    ("body", "body %s /x/"), ("rawbody", "rawbody %s /x/"), ("full", "full %s /x/"), ("uri", "uri %s /x/"),
    ("header", "header %s Subject =~ /x/"), ("hraw", "header %s Subject:raw =~ /x/"),
    ("haddr", "header %s From:addr =~ /x/"), ("hname", "header %s From:name =~ /x/"),
    ("hall", "header %s ALL =~ /x/"), ("htocc", "header %s ToCc =~ /x/"),
    ("hmid", "header %s MESSAGEID =~ /x/"), ("exists", "header %s exists:Subject"),
    ("mime", "mimeheader %s Content-Type =~ /x/"), ("mimeraw", "mimeheader %s Content-Type:raw =~ /x/"),
    ("meta", "meta %s __S"), ("eval", "eval %s probe_true()"), ("heval", "header %s eval:probe_true()"),
    ("beval", "body %s eval:probe_true()"), ("uri_detail", "uri_detail %s text =~ /x/"),
]
TEXT = dict(KINDS)


def intp(t):
    try:
        return int(t)
    except ValueError:
        return 0


def setup():
    p = common.parser()
    common.add_eval(p.ctxt, "probe_true", lambda msg, target=None: True)
    p.ctxt.load_plugin("oa.plugins.uri_detail.URIDetailPlugin")
    return p


def order(p, text, names, prios):
    common.load(text, p)
    rs = p.get_ruleset()
    msg = common.message(rs.ctxt, "Subject: x\nFrom: a <b@c.d>\nTo: x\n\nbody x\n")
    rs.match(msg)
    got = list(msg.rules_checked)
    sx.check(sorted(got) == sorted(names), "every rule is evaluated once")
    pos = dict((n, i) for i, n in enumerate(got))
    for i in range(len(names)):
        for j in range(i + 1, len(names)):
            before = pos[names[i]] < pos[names[j]]
            # i is defined first: it runs first unless j has a greater priority
            sx.check(sx.iff(before, prios[i] >= prios[j]), "descending priority, ties in configuration order")
    sx.observe("order", got)


PAIRS = [(KINDS[i][0], KINDS[(i + 1) % len(KINDS)][0]) for i in range(len(KINDS))]


@sx.obligation(params=[{"a": a, "b": b} for a, b in PAIRS], covers=("first later", "tie"))
def kinds(a, b):
    """Two rules of different kinds, each with a symbolic priority."""
    p = setup()
    ta = sx.text("pa", 1, 2, "-2107")
    tb = sx.text("pb", 1, 2, "-3051")
    out = common.lines("body __S /x/", TEXT[a] % "ZZ", "priority ZZ " + ta, "priority AA " + tb, TEXT[b] % "AA")
    pa, pb = intp(ta), intp(tb)
    if pa < pb:
        sx.cover("first later")
    if pa == pb:
        sx.cover("tie")
    # AA's first line comes second either way
    order(p, out, ["ZZ", "AA"], [pa, pb])


@sx.obligation(params=lambda t: [{"n": 3, "w": 1}, {"n": 3, "w": 2}, {"n": 4, "w": 1}] +
               ([{"n": 5, "w": 1}, {"n": 3, "w": 3}] if t == "thorough" else []), covers=("unset", "junk"))
def several(n, w):
    """Several body rules, priorities possibly missing or junk."""
    p = setup()
    names = ["M", "C", "Z", "A", "Q"][:n]
    out, prios = [], []
    for i, nm in enumerate(names):
        if w > 1 and i == 1 and not sx.boolean("has%d" % i):
            out.append("body %s /x/" % nm)
            prios.append(0)
            sx.cover("unset")
            continue
        t = sx.text("p%d" % i, w, w, "-102x" if n < 4 else "012")
        out.append("body %s /x/" % nm)
        out.append("priority %s " % nm + t)
        prios.append(intp(t))
        if w > 1:
            if "x" in t:
                sx.cover("junk")
    if w == 1:
        sx.cover("unset")
        sx.cover("junk")
    order(p, common.lines(*out), names, prios)


@sx.obligation(covers=("junk", "number"))
def values():
    """Every short priority text: a number counts, anything else is 0."""
    p = setup()
    t = sx.text("p", 1, 4, "-+0192x. ")
    sx.assume(t.strip() != "")
    v = intp(t)
    if v != 0:
        sx.cover("number")
    else:
        sx.cover("junk")
    lim = sx.choice("lim", ["-100", "-1", "0", "1", "90"])
    out = common.lines("body A /x/", "priority A " + lim, "body B /x/", "priority B " + t)
    order(p, out, ["A", "B"], [int(lim), v])


@sx.obligation(covers=("swapped",))
def large():
    """Any two priorities of up to seven digits, of two rules in any state."""
    p = setup()
    sa, sb = sx.choice("sa", ("", "-")), sx.choice("sb", ("", "-"))
    n, m = sx.choice("digits", ((7, 7), (7, 6), (4, 4), (4, 5), (5, 7)))
    ta, tb = sx.text("pa", n, n, "0123456789"), sx.text("pb", m, m, "0123456789")
    pa, pb = intp(sa + ta), intp(sb + tb)
    if pa < pb:
        sx.cover("swapped")
    order(p, common.lines("body A /x/", "priority A " + sa + ta, "body B /x/", "priority B " + sb + tb), ["A", "B"], [pa, pb])


@sx.obligation()
def inactive_and_invalid():
    """Inactive or invalid rules in between do not disturb the order."""
    p = setup()
    a = sx.integer("a", 0, 9)
    b = sx.integer("b", 0, 9)
    ta, tb = str(a), str(b)
    k = sx.choice("between", ["body __H /x/", "body OFF /x/\nscore OFF 0", "meta BAD A && NOSUCH",
                              "body BAD x", "header BAD Subject", "eval BAD nosuch()"])
    neg = sx.choice("sign", ["", "-"])
    out = common.lines("body A /x/", "priority A " + neg + ta, k, "priority BAD 5", "priority OFF 7",
                       "body B /x/", "priority B " + neg + tb)
    s = -1 if neg else 1
    order(p, out, ["A", "B"], [s * a, s * b])
