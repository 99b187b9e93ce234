"""C07: header rules test the named header with the requested view."""
import re

from symx import api as sx
from harness import common
import oa.message

BOUNDS = ("up to 2 occurrences of the tested header with values of up to 2 symbolic characters (3 in thorough) next to unrelated "
          "headers; header names in every mix of cases; all views, pseudo-headers, both operators; symbolic address and display-name "
          "parts in nine address layouts, with and without a domain; concrete encoded words; messages of up to 2 MIME parts")
OUTSIDE = "address syntax beyond the nine layouts (comments, groups, source routes), symbolic encoded words, headers added by plugins"
ASSUMPTIONS = ["the meaning of the patterns themselves is Python's re module (see C05)"]

PATTERNS = ["a", "^b", "b$", "^$", "a b", "^a?$"]


def hit(p, text):
    return re.compile(p).search(text) is not None


def expect(got, p, op, values, label):
    if op == "=~":
        want = sx.or_(*[hit(p, v) for v in values])
    else:
        want = sx.or_(*[sx.not_(hit(p, v)) for v in values])
    sx.check(sx.iff(got, want), label, p, op, values)
    if sx.conc(want):
        sx.cover("hit")
    else:
        sx.cover("miss")


def build(rules, raw):
    rs = common.ruleset(common.lines(*rules))
    msg = oa.message.Message(rs.ctxt, raw)
    rs.match(msg)
    return msg.rules_checked


def cased(name, word):
    return sx.text(name, len(word), len(word), ["".join(sorted({c.lower(), c.upper()})) for c in word])


@sx.obligation(params=lambda t: [{"mod": m, "op": o, "k": k} for m in ("", ":raw") for o in ("=~", "!~") for k in (0, 1, 2)],
               covers=("hit", "miss"), max_paths=5000)
def values(mod, op, k):
    """Every occurrence of exactly the named header is tested."""
    hdr = cased("h", "X-q") if k < 2 else "x-Q"
    hdr2 = cased("h2", "X-q") if k == 1 else "X-q"
    n = 2 if sx.TIER == "quick" else 3
    p = sx.choice("p", PATTERNS[:3] if k == 2 else PATTERNS)
    vals = [sx.text("v%d" % i, 0, n if k < 2 else 1, "ab ") for i in range(k)]
    pad = sx.choice("pad", [(" ", " "), ("", ""), ("  ", "\t")])
    rule = "header R " + hdr + mod + pad[0] + op + pad[1] + "/" + p + "/"
    raw = "From: a b\nX-qa: a b\n"
    for v in vals:
        raw = raw + hdr2 + ": " + v + "\n"
        hdr2 = "X-Q"
        raw = raw + "Subject: b a\n"
    raw = raw + "\na b\nX-q: a\n"
    got = build([rule], raw)["R"]
    if k == 0:
        sx.cover("hit")
    expect(got, p, op, [v.lstrip(" \t") for v in vals], "header rule matches exactly when a value satisfies it")
    if k and op == "!~":
        sx.cover("miss")


ADDR = [  # template, first address, first name, of (name part N, address parts A, B)
    ("%N <%A>", "A", "N"), ("%A", "A", ""), ("<%A>", "A", ""), ("\"%N\" <%A>, x@yb", "A", "N"), ("%A, b <%B>", "A", "b"),
    ("%N <%A>,a <x@y>", "A", "N"), ("<>, %N <%A>", "A", "N"), ("x@y, %N <%A>", "x@y", "N"), (" , %A", "A", ""),
]


@sx.obligation(params=lambda t: [{"i": i, "mod": m} for i in range(len(ADDR)) for m in (":addr", ":name", "")],
               covers=("hit", "miss"), max_paths=5000)
def addresses(i, mod):
    """The first address or name of each value."""
    op = sx.choice("op", ["=~", "!~"])
    tmpl, addr, name = ADDR[i]
    N = sx.text("N", 1, 2, "abA")
    A = sx.text("A", 1, 2, "ab") + ("@" + sx.text("D", 1, 2, "ab") if sx.choice("domain", [True, False]) else "")
    B = "b@c"
    p = sx.choice("p", ["^a", "b$", "@a", "[aA]", "^ab$"])
    v = tmpl.replace("%N", "\0N").split("\0N")
    v = N.join(v)
    v = A.join(v.split("%A"))
    v = B.join(v.split("%B"))
    second = sx.boolean("second")
    raw = "From: " + v + "\n"
    if second:
        raw = raw + "From: aa <ab@ab>\n"
    raw = raw + "To: a b <a@b>\n\nbody\n"
    got = build(["header R From" + mod + " " + op + " /" + p + "/"], raw)["R"]
    if mod == ":addr":
        want = [A if addr == "A" else addr]
        if second:
            want.append("ab@ab")
    elif mod == ":name":
        want = [N if name == "N" else name] if name else []
        if second:
            want.append("aa")
    else:
        want = [v]
        if second:
            want.append("aa <ab@ab>")
    if not want:
        sx.cover("hit")
    expect(got, p, op, want, "address and name views")


@sx.obligation(params=lambda t: [{"op": o, "kind": k} for o in ("=~", "!~") for k in ("ToCc", "MESSAGEID", "ALL")],
               covers=("hit", "miss"), max_paths=6000)
def pseudo(op, kind):
    """The pseudo-headers stand for the documented headers."""
    p = sx.choice("p", ["a", "^b", "b$"] if kind != "ALL" else ["a", "^cc: b", "^to: a?$", "x-message-id: .b", "zz"])
    names = {"ToCc": ["To", "Cc", "Bcc"], "MESSAGEID": ["Message-Id", "Resent-Message-Id", "X-Message-Id", "In-Reply-To"],
             "ALL": ["To", "Cc", "X-Message-Id"]}[kind]
    present = []
    raw = ""
    for i, h in enumerate(names):
        shape = sx.choice("s%d" % i, ["", "plain", "upper"])
        if not shape:
            continue
        v = sx.text("v%d" % i, 0, 1, "ab")
        raw = raw + (h.upper() if shape == "upper" else h) + ": " + v + "\n"
        present.append((h, v))
    raw = raw + "\nTo: a b\n"
    got = build(["header R " + kind + " " + op + " /" + p + "/"], raw)["R"]
    if kind == "ALL":
        # names are shown in lower case
        want = [h.lower() + ": " + v for h, v in present]
    else:
        want = [v for h, v in present if h not in ("Bcc", "In-Reply-To")]
    expect(got, p, op, want, "pseudo-header")


@sx.obligation(covers=("hit", "miss"), params=[{"k": k} for k in (0, 1, 2)], max_paths=5000)
def exists(k):
    """exists: tests presence only, whatever the value."""
    hdr = cased("h", "X-q")
    pad = sx.choice("pad", ["", " "])
    name = cased("m", "X-") + sx.text("m2", 1, 2, "qQr")
    raw = "To: a\n"
    if k:
        raw = raw + name + ":" + sx.text("v", 0, k, "a =~") + "\n"
    raw = raw + "\nX-Q: a\n"
    got = build(["header R exists:" + pad + hdr], raw)["R"]
    want = sx.and_(k > 0, name.lower() == "x-q")
    sx.check(sx.iff(got, want), "exists matches exactly when the header is present")
    if k == 0:
        sx.cover("hit")
    sx.cover("hit" if sx.conc(want) else "miss")


WORDS = [("=?utf-8?q?a_b?=", "a b"), ("=?utf-8?b?YiBh?=", "b a"), ("b =?us-ascii?Q?b?=", "b b"), ("=?utf-8?q?a?=\n =?utf-8?q?b?=", "ab"),
         ("=?nope?q?a?=", ""), ("=?utf-8?q?a?= <b@a>", "a <b@a>")]


@sx.obligation(params=[{"kind": k, "mod": m} for k in ("header", "mimeheader") for m in ("", ":raw")], covers=("hit", "miss"))
def encoded(kind, mod):
    """Encoded words are decoded except in the raw view."""
    raw, dec = sx.choice("w", WORDS)
    op = sx.choice("op", ["=~", "!~"])
    tail = sx.text("tail", 0, 1, "ab")
    if raw[-1] == "=":
        tail = tail[:0]
    p = sx.choice("p", ["^a", "b$", "utf", "^$", "a b", "\\?="])
    got = build(["%s R Subject%s %s /%s/" % (kind, mod, op, p)], "Subject: " + raw + tail + "\n\nbody\n")["R"]
    expect(got, p, op, [(raw if mod else dec) + tail], "encoded words")


@sx.obligation(params=[{"mod": m, "op": o} for m in ("", ":raw") for o in ("=~", "!~")], covers=("hit", "miss"), max_paths=5000)
def mime(mod, op):
    """MIME headers of every part are tested, message text is not."""
    hdr = cased("h", "X-q")
    p = sx.choice("p", ["a", "^b", "b$", "^$"])
    vals = []
    raw = "Content-Type: multipart/mixed; boundary=Q\n"
    if sx.boolean("top"):
        raw = raw + "X-q: b\n"
        vals.append("b")
    raw = raw + "\n"
    for i in range(2):
        raw = raw + "--Q\nContent-Type: text/%s\n" % ("plain" if i else "html")
        if sx.boolean("has%d" % i):
            v = sx.text("v%d" % i, 0, 1, "ab")
            vals.append(v)
            raw = raw + (cased("n", "X-Q") if i else "x-q") + ": " + v + "\n"
        raw = raw + "\nX-q: ab\n"
    raw = raw + "--Q--\n"
    got = build(["mimeheader R " + hdr + mod + " " + op + " /" + p + "/"], raw)["R"]
    expect(got, p, op, vals, "mimeheader rule matches exactly when a value satisfies it")


SPLIT = [("Subject =~ /a!~b/", "a!~b", True), ("Subject !~ /a=~b/", "a=~b", False), ("Subject=~/=~/", "=~", True),
         ("Subject:raw !~/!~/", "!~", False), ("Subject =~ m{a:b}", "a:b", True), ("Subject =~ /exists:a/", "exists:a", True),
         ("Subject =~ /a/i", "[aA]", True), ("Subject !~ /^a b$/x", "^ab$", False)]


@sx.obligation(params=[{"i": i} for i in range(len(SPLIT))], covers=("hit", "miss"))
def layout(i):
    """The first operator separates name and pattern."""
    rule, p, pos = SPLIT[i]
    v = sx.choice("v", ["a!~b", "a=~b", "=~", "!~", "a:b", "exists:a", "a", "ab", "A", "a b", "x", "a:raw"])
    got = build(["header R " + sx.choice("lead", ["", " ", "\t"]) + rule], "Subject: " + v + "\nTo: zz\n\nzz\n")["R"]
    expect(got, p, "=~" if pos else "!~", [v], "rule definition is split at its operator")
