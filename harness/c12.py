"""C12: trusted, internal and MSA networks contain exactly what was configured."""
import ipaddress
from symx import api as sx
from harness import common

BOUNDS = ("lists of up to 2 entries (3 in thorough) with symbolic octets, prefix lengths, brackets and exclusion marks, in every documented form; queries over all "
          "2^32 IPv4 (and all 2^128 IPv6) addresses as one solver variable; configurations of up to 3 lines (4 in thorough) over the three lists and their "
          "clearing options; two contexts configured in any order; invalid entries of up to 3 symbolic characters (4 in thorough)")
OUTSIDE = "entries of two or three octets without a trailing dot (undocumented); scope identifiers; textual forms of IPv6 other than the templates"
ASSUMPTIONS = []

V4 = 2 ** 32
KEYS = ("trusted_networks", "internal_networks", "msa_networks")


def octet(name, wide=False):
    """(text, value) of an octet without leading zero."""
    if not wide:
        t = sx.text(name, 1, 1, "123456789" if name[-1] != "3" else "0123456789")
        return t, int(t)
    t = sx.text(name, 3, 3, ["12", "05", "0156"])
    return t, int(t)


FORMS = ["1.", "2.", "3.", "4", "[4]", "4/", "2./", "[4/]"]


def entry(i, form, masks, wide):
    """Text of an entry and (excluded, value, mask or None when invalid)."""
    ex = sx.boolean("ex%d" % i)
    n = int(form.strip("[]./"))
    text, val, ok = "", 0, True
    for j in range(n):
        t, v = octet("o%d%d" % (i, j), wide=wide and j == n - 1)
        text = text + t + ("." if j < n - 1 else "")
        val = val * 256 + v
        ok = sx.and_(ok, v <= 255)
    val = val * 256 ** (4 - n)
    if "." in form:
        text = text + "."
    mask = 8 * n if n < 4 else 32
    if "/" in form:
        mask = sx.choice("m%d" % i, masks)
    if "[" in form:
        text = "[" + text + "]"
    if "/" in form:
        text = text + "/%d" % mask
    if mask > 32:
        ok = False
    else:
        ok = sx.and_(ok, val % 2 ** (32 - mask) == 0)      # host bits set: not a network
    if ex:
        text = "!" + text
    return text, ex, val, mask, ok


def first_match(entries, q):
    """Is q accepted by the list?"""
    r = False
    for text, ex, val, mask, ok in reversed(entries):
        size = 2 ** (32 - mask) if mask <= 32 else 1
        covered = sx.and_(ok, q // size == val // size)
        r = sx.or_(sx.and_(covered, not ex), sx.and_(sx.not_(covered), r))
    return r


def loopback(q):
    return q // 2 ** 24 == 127


def networks(text, p=None):
    p = common.load(text, p)
    rs = p.get_ruleset()
    return rs.ctxt.networks


def member(nets, which, q, version=4):
    cls = ipaddress.IPv4Address if version == 4 else ipaddress.IPv6Address
    return cls(q) in getattr(nets, which)


@sx.obligation(params=lambda t: [{"form": f, "n": n} for f in FORMS for n in ((1, 2) if t == "quick" else (1, 2, 3))],
               covers=("in", "out"), max_paths=6000)
def lists(form, n):
    """First match wins; exclusions; loopback always."""
    key = sx.choice("list", [0, 1, 2])
    masks = [7, 16, 23, 32, 33] if n == 1 else [9, 31]
    es = [entry(i, form if i == 0 else ["1.", "4/"][(i + len(form)) % 2], masks if i == 0 else [28], n == 1) for i in range(n)]
    q = sx.integer("q", 0, V4 - 1)
    text = KEYS[key] + " " + " ".join("%s" for e in es) % tuple(e[0] for e in es) + "\n"
    nets = networks(text)
    inside = first_match(es, q)
    which = ("trusted", "internal", "msa")[key]
    for w in ("trusted", "internal", "msa"):
        if (n > 1 or len(form) > 2) and w != which:
            continue
        applies = w == which or (w, which) in (("internal", "trusted"), ("trusted", "internal"))
        want = inside if applies else False
        if w != "msa":
            want = sx.or_(want, loopback(q))
        got = member(nets, w, q)
        if got:
            sx.cover("in")
        else:
            sx.cover("out")
        sx.check(sx.iff(got, want), "membership", w, text, q)


@sx.obligation(params=lambda t: [{"first": f, "k": 3 if t == "quick" else 4} for f in ("t", "i", "m")], covers=("in", "fallback", "cleared"), max_paths=6000)
def lines(first, k):
    """Every option reaches exactly its own list; internal falls back to trusted."""
    L = {"t": [], "i": [], "m": []}
    text = ""
    for j in range(k):
        w = first if j == 0 else sx.choice("w%d" % j, ["t", "i", "m", "ct", "ci", "cm"])
        key = {"t": "trusted_networks", "i": "internal_networks", "m": "msa_networks"}[w[-1]]
        if len(w) == 2:
            sx.cover("cleared")
            text = text + "clear_" + key + "\n"
            L[w[1]] = []
        else:
            o = sx.text("o%d" % j, 1, 1, "123456789")
            ex = sx.boolean("ex%d" % j)
            text = text + key + " " + ("!" if ex else "") + o + ".\n"
            L[w].append((o, ex, int(o) * 2 ** 24, 8, True))
    q = sx.integer("q", 0, V4 - 1)
    nets = networks(text)
    lo = loopback(q)
    if not L["i"] and L["t"]:
        sx.cover("fallback")
    sx.cover("in")
    sx.check(sx.iff(member(nets, "trusted", q), sx.or_(lo, first_match(L["t"] + L["i"], q))), "trusted", text, q)
    sx.check(sx.iff(member(nets, "internal", q), sx.or_(lo, first_match(L["i"] or L["t"], q))), "internal", text, q)
    sx.check(sx.iff(member(nets, "msa", q), first_match(L["m"], q)), "msa", text, q)


@sx.obligation(params=[{"key": k, "n": n} for k in KEYS for n in (1, 2)], covers=("in", "out", "no"), max_paths=4000)
def ipv6(key, n):
    """IPv6 entries cover exactly their addresses; versions do not mix."""
    es = []
    text = key
    for i in range(n):
        d = sx.text("d%d" % i, 1, 1, "123456789abcdefABCDEF" if n == 1 else "1eF")
        v = int(d, 16)
        ex = sx.boolean("ex%d" % i)
        form = sx.choice("form%d" % i, ["%s::/4", "2001:%s::/32", "2001:db8::%s", "2001:db8::%s/127"][:4 if n == 1 else 3 if i == 0 else 2])
        val = {"%s::/4": v * 2 ** 124, "2001:%s::/32": 0x2001 * 2 ** 112 + v * 2 ** 96}.get(form, (0x20010db8 << 96) + v)
        mask = {"%s::/4": 4, "2001:%s::/32": 32, "2001:db8::%s": 128}.get(form, 127)
        ok = True
        if mask == 4:
            ok = val % 2 ** 124 == 0
            # "d::/4" has host bits (d is sixteen bits wide)
            val = v * 2 ** 112
            ok = False
        if mask == 127:
            ok = val % 2 == 0
        a, b = form.split("%s")
        text = text + " " + ("!" if ex else "") + a + d + b
        es.append((ex, val, mask, ok))
    ver = sx.choice("version", [6, 4])
    q = sx.integer("q", 0, 2 ** 128 - 1 if ver == 6 else V4 - 1)
    nets = networks(text + "\n")
    which = key.split("_")[0]
    want = False
    if ver == 6:
        for ex, val, mask, ok in reversed(es):
            size = 2 ** (128 - mask)
            covered = sx.and_(ok, q // size == val // size)
            want = sx.or_(sx.and_(covered, not ex), sx.and_(sx.not_(covered), want))
    if which != "msa":
        want = sx.or_(want, q == 1 if ver == 6 else loopback(q))
    got = member(nets, which, q, ver)
    sx.cover("in" if got else "out")
    sx.cover("no")
    if which == "msa" and n == 1:
        sx.cover("in")
    sx.check(sx.iff(got, want), "membership", text, q)


def valid4(t):
    """(valid, excluded, value, mask) of a short dotted text."""
    ex = False
    if t[:1] == "!":
        ex = True
        t = t[1:]
    if t[:1] == "[":
        t = t[1:]
    octets, cur, i = [], "", 0
    while i < len(t) and t[i] in "0129.":
        if t[i] == ".":
            octets.append(cur)
            cur = ""
        else:
            cur = cur + t[i]
        i += 1
    dotted = cur == ""
    octets.append(cur)
    if dotted:
        octets.pop()
    rest = t[i:]
    if rest[:1] == "]":
        rest = rest[1:]
    if rest[:1] == "/":
        rest = rest[1:]
        for c in rest:
            if c not in "0129":
                return None
    elif len(rest):
        return None
    return ex, octets, dotted, rest


@sx.obligation(params=lambda t: [{"n": n} for n in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4))], covers=("invalid", "valid"), max_paths=6000)
def invalid(n):
    """A text that is no network changes nothing."""
    junk = sx.text("junk", n, n, "!.12/]x")
    key = sx.choice("list", [0, 1, 2])
    q = sx.integer("q", 0, V4 - 1)
    nets = networks(KEYS[key] + " 10. " + junk + " !20. 30.\n")
    es = [("", False, 10 * 2 ** 24, 8, True)]
    v = valid4(junk)
    known = False
    if v is not None:
        ex, octets, dotted, mask = v
        if len(octets) < 4 and dotted and len(octets) > 0:
            ok = True
            val = 0
            for o in octets:
                if len(o) == 0 or len(o) > 3 or (len(o) > 1 and o[0] == "0"):
                    ok = False
                else:
                    val = val * 256 + int(o)
                    if int(o) > 255:
                        ok = False
            if ok:
                m = int(mask) if len(mask) else 8 * len(octets)
                m = sx.conc(m)
                val = val * 256 ** (4 - len(octets))
                if m <= 32 and val % 2 ** (32 - m) == 0:
                    sx.cover("valid")
                    es.append(("", ex, val, m, True))
                    known = True
    if not known:
        sx.cover("invalid")
    if n == 1:
        sx.cover("valid")
    es += [("", True, 20 * 2 ** 24, 8, True), ("", False, 30 * 2 ** 24, 8, True)]
    which = ("trusted", "internal", "msa")[key]
    got = member(nets, which, q)
    want = first_match(es, q)
    if key < 2:
        want = sx.or_(want, loopback(q))
    sx.check(sx.iff(got, want), "membership", junk, q)


@sx.obligation(params=[{"order": o} for o in ((0, 1), (1, 0))], covers=("two",), max_paths=4000)
def contexts(order):
    """Lists of one context never affect another."""
    ps = [common.parser(), common.parser()]
    es = {}
    for c in order:
        key = sx.choice("list%d" % c, [0, 1, 2])
        o = sx.text("o%d" % c, 1, 1, "123456789")
        ex = sx.boolean("ex%d" % c)
        common.load(KEYS[key] + " " + ("!" if ex else "") + o + ".\n", ps[c], name="c%d.cf" % c)
        es[c] = (key, (o, ex, int(o) * 2 ** 24, 8, True))
    late = sx.boolean("late")
    nets = {}
    if late:
        for c in order:
            nets[c] = ps[c].get_ruleset().ctxt.networks
    else:
        for c in reversed(order):
            nets[c] = ps[c].get_ruleset().ctxt.networks
    fresh = common.parser().get_ruleset().ctxt.networks
    q = sx.integer("q", 0, V4 - 1)
    sx.cover("two")
    for c in order:
        key, e = es[c]
        for i, w in enumerate(("trusted", "internal", "msa")):
            want = first_match([e], q) if (i == key or (i < 2 and key < 2)) else False
            if i < 2:
                want = sx.or_(want, loopback(q))
            sx.check(sx.iff(member(nets[c], w, q), want), "membership in its own lists", w, q)
    for w in ("trusted", "internal", "msa"):
        sx.check(sx.iff(member(fresh, w, q), loopback(q) if w != "msa" else False), "a new context starts with the defaults", w, q)
