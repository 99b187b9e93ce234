"""Differential self-test of the symbolic engine: every operation is observed on
symbolic values, and each path's model is re-run on plain Python values."""
import re
import ipaddress
import email.utils
import email.header
import urllib.parse
import collections

from symx import api as sx

OPS = {
    "strip": lambda s: s.strip(),
    "lstrip_a": lambda s: s.lstrip("a "),
    "rstrip": lambda s: s.rstrip(" b"),
    "split": lambda s: s.split(),
    "split1": lambda s: s.split(None, 1),
    "split_sp": lambda s: s.split(" "),
    "split_a1": lambda s: s.split("a", 1),
    "rsplit_a1": lambda s: s.rsplit("a", 1),
    "partition": lambda s: s.partition("a"),
    "rpartition": lambda s: s.rpartition("a"),
    "find": lambda s: s.find("a"),
    "rfind": lambda s: s.rfind("ab"),
    "count": lambda s: s.count("a"),
    "replace": lambda s: s.replace("a", "xy"),
    "replace1": lambda s: s.replace("ab", "", 1),
    "upper": lambda s: s.upper(),
    "lower": lambda s: s.lower(),
    "title": lambda s: s.title(),
    "isdigit": lambda s: s.isdigit(),
    "isalpha": lambda s: s.isalpha(),
    "isupper": lambda s: s.isupper(),
    "starts": lambda s: s.startswith("ab"),
    "starts_t": lambda s: s.startswith(("a", "1")),
    "ends": lambda s: s.endswith("b"),
    "in": lambda s: "a1" in s,
    "rev": lambda s: s[::-1],
    "sl": lambda s: s[1:],
    "sl2": lambda s: s[:-1],
    "join": lambda s: "-".join(s),
    "splitlines": lambda s: s.splitlines(),
    "add": lambda s: "x" + s + "y",
    "fmt": lambda s: "<%s>%5s" % (s, s),
    "format": lambda s: "{} {x}".format(s, x=s),
    "fstr": lambda s: f"{s}!",
    "enc": lambda s: s.encode("utf8").decode("utf8"),
    "len": lambda s: len(s),
    "sorted": lambda s: sorted(s.split(" ")),
    "dictkey": lambda s: list({s: 1, "a": 2}.items()),
    "setk": lambda s: len({s, "a", "ab"}),
    "counter": lambda s: dict(collections.Counter(s)),
    "cmp": lambda s: s < "ab",
    "zfill": lambda s: s.zfill(4),
    "center": lambda s: s.center(5),
    "expandtabs": lambda s: s.swapcase(),
    "isspace": lambda s: s.isspace(),
    "ljust": lambda s: s.ljust(3) + "|",
    "list": lambda s: list(s),
    "ord": lambda s: [ord(c) for c in s],
    "translate": lambda s: s.translate({97: "q", 98: None}),
}


def _int(s):
    try:
        return int(s)
    except ValueError as e:
        return "VE"


def _float(s):
    try:
        return float(s)
    except ValueError:
        return "VE"


RX = [r"a", r"a*", r"^a+b", r"b$", r"(a|b)(b?)", r"(?i)AB", r"\bA\b", r"[^ab]",
      r"(a+?)(b*)", r"(?=a)\w", r"(?<!a)b", r"a{2}", r"a{1,2}b", r"\s+", r"\d",
      r"(a)(?:b|1)?", r"(?P<x>a)(?P=x)", r"^$", r"", r".", r"(?s).a", r"\w+\b",
      r"(?m)^b", r"a|ab", r"(?:a|ab)(?:1|b)", r"(a*)*b", r"[a-b]+$", r"\Aa\Z",
      r"x*", r"(?:)", r"a??b", r"(?![ab])."]


@sx.obligation(params=[{"op": k} for k in sorted(OPS)])
def strop(op):
    s = sx.text("s", 0, 3, "ab 1A\n")
    sx.observe("r", OPS[op](s))


@sx.obligation(params=[{"op": k} for k in ("int", "float")])
def num(op):
    s = sx.text("s", 0, 4, "-1 0.e_a")
    sx.observe("r", _int(s) if op == "int" else _float(s))


def _m(m):
    if m is None:
        return None
    return [m.group(), m.start(), m.end(), m.groups(), m.groupdict()]


@sx.obligation(params=[{"i": i} for i in range(len(RX))])
def rxop(i):
    s = sx.text("s", 0, 3, "abA1 \n")
    r = re.compile(RX[i])
    sx.observe("search", _m(r.search(s)))
    sx.observe("match", _m(r.match(s)))
    sx.observe("full", _m(r.fullmatch(s)))


@sx.obligation(params=[{"i": i} for i in range(len(RX))])
def rxop2(i):
    s = sx.text("s", 0, 3, "ab 1")
    r = re.compile(RX[i])
    sx.observe("findall", r.findall(s))
    sx.observe("finditer", [_m(x) for x in r.finditer(s)])
    sx.observe("sub", r.sub("<x>", s))
    sx.observe("subn", r.subn(lambda m: m.group().upper(), s))
    sx.observe("split", r.split(s))
    sx.observe("sub1", re.sub(RX[i], "z", s, 1))


@sx.obligation(params=[{"i": i} for i in range(len(RX))])
def rxbool(i):
    s = sx.text("s", 0, 3, "ab 1A\n")
    sx.observe("b", bool(re.search(RX[i], s)))


@sx.obligation()
def ip():
    s = sx.text("s", 3, 7, "1.0")
    try:
        r = str(ipaddress.ip_address(s))
    except ValueError:
        r = "VE"
    sx.observe("r", r)


@sx.obligation()
def net():
    n = sx.integer("n", 20, 32)
    a = sx.integer("a", 0, 3)
    s = "10.0.%d.0/%d" % (a, n)
    try:
        r = str(ipaddress.ip_network(s))
    except ValueError:
        r = "VE"
    sx.observe("r", r)


@sx.obligation()
def addr():
    s = sx.text("s", 0, 4, "a@<>, \"")
    sx.observe("r", email.utils.parseaddr(s))
    sx.observe("g", email.utils.getaddresses([s]))


@sx.obligation()
def hdr():
    s = sx.text("s", 0, 3, "a=?qQ")
    try:
        r = [[str(x), str(y)] for x, y in email.header.decode_header("=?utf8?" + s)]
    except Exception as e:
        r = type(e).__name__
    sx.observe("r", r)


@sx.obligation()
def url():
    s = sx.text("s", 0, 4, "a:/?.#")
    try:
        r = list(urllib.parse.urlparse(s))
    except ValueError:
        r = "VE"
    sx.observe("r", r)


@sx.obligation()
def nums():
    a = sx.integer("a", -7, 7)
    b = sx.integer("b", -3, 3)
    x = sx.real("x", -2, 2, 4)
    sx.observe("s", [a + b, a * b, -a, abs(a), a - 1, min(a, b), max(a, b), sum([a, b]), a < b])
    if b != 0:
        sx.observe("d", [a // b, a % b])
    sx.observe("x", [x + a, x * 2, int(x), round(x), round(x, 1), x > 1])
    sx.observe("f", ["%0.1f" % x, "%d" % a, "%s" % a, "{:.2f}".format(x), str(x)])
    sx.observe("srt", sorted([a, b, 0]))
    sx.observe("rng", list(range(a)))
    sx.observe("dk", {a: 1, 2: 3}.get(2))
    sx.observe("bits", [a & 3, a | 1, a >> 1, a << 1])
    sx.observe("any", [any([a > 1, b > 1]), all([a > 1, b])])


@sx.obligation()
def byts():
    s = sx.data("s", 0, 3, "ab \n1\xe9")
    try:
        u = s.decode("utf8")
    except UnicodeDecodeError:
        u = "UDE"
    sx.observe("r", [u, s.decode("utf8", "ignore"), s.decode("latin-1"), s.strip(), s.split(b" "),
                     s + b"x", s.upper(), s.find(b"a"), s[:1], len(s), b"a" in s])


@sx.obligation()
def msgparse():
    import email
    a = sx.text("a", 0, 3, "ab: \n")
    b = sx.text("b", 0, 2, "a\n-")
    m = email.message_from_string("Subject: " + a + "\nTo: x\n\n" + b)
    sx.observe("h", m._headers)
    sx.observe("p", m.get_payload())
    sx.observe("ct", m.get_content_type())
    sx.observe("s", m.as_string())


@sx.obligation()
def mimeparse():
    import email
    a = sx.text("a", 0, 3, "ab-\n;=")
    b = sx.text("b", 0, 2, "a\n-")
    m = email.message_from_string("Content-Type: multipart/mixed; boundary=a" + a + "\n\n--a\n\nx" + b + "\n--aa--")
    sx.observe("h", m._headers)
    sx.observe("n", [p.get_content_type() for p in m.walk()])
    sx.observe("p", [p.get_payload() for p in m.walk() if not p.is_multipart()])
