"""C14: Received headers are read without crashing and without inventing data."""
import ipaddress
from symx import api as sx
from harness import common
import oa.message
import oa.received_parser

BOUNDS = ("the documented Received templates with one gap of up to 3 symbolic characters (4 in thorough) or two gaps of 1 in the host, helo, ident, address or "
          "protocol position, over letters, digits, blanks and the delimiters the parser looks for; address octets of up to 3 symbolic digits; up to 3 headers")
OUTSIDE = "headers far from every template; characters outside ASCII"
ASSUMPTIONS = []

FIELDS = ("rdns", "ip", "by", "helo", "ident", "id", "envfrom", "auth")

T = [
    "from H (R [1.2.3.4]) by b.c with ESMTP id X; d",
    "from R (HELO H) (1.2.3.4) by b.c with SMTP; d",
    "from [1.2.3.4] (helo=H ident=R) by b.c with esmtp (Exim 4) id X; d",
    "from R (1.2.3.4) by b.c (Postfix) with ESMTPA id X; d",
    "from 1.2.3.4 by b.c (envelope-from R, uid 1) with q; d",
    "from H ([1.2.3.4]) (R@h) by b.c id X; d",
    "from unknown (HELO H) (R [1.2.3.4]) by b.c; d",
    "from R [1.2.3.4] by H [5.6.7.8]; d",
    "from R by H (fetchmail) [1.2.3.4]; d",
    "from (H R) [IPv6:2001:db8::1] by b; d",
    "from H (R [IPv6:::FFFF:1.2.3.4]) by b.c with ESMTP id X; d",
]
ALPHA = "a1.[](@ =:;"


def plausible(ip, text):
    """ip is an address that occurs in text."""
    try:
        ipaddress.ip_address(ip)
    except ValueError:
        return False
    return ip.lower() in text.lower()


def verify(headers):
    received = oa.received_parser.ReceivedParser(list(headers)).received
    pos = 0
    for r in received:
        for f in FIELDS:
            sx.check(f in r and isinstance(r[f], str), "every documented field is present", f)
        if len(r["ip"]):
            found = False
            while pos < len(headers) and not found:
                found = plausible(r["ip"], headers[pos])
                pos += 1
            sx.check(found, "the address is valid and occurs in the header, in order", r, headers)
    return received


@sx.obligation(params=[{"t": i, "gap": g} for i in range(len(T)) for g in ("H", "R") if g in T[i]], covers=("parsed",), max_paths=6000, path_s=120)
def gaps(t, gap):
    """Any text in the name positions."""
    s = sx.text("gap", 0, 3 if sx.TIER == "quick" else 4, ALPHA)
    a, b = T[t].split(gap, 1)
    h = a + s + b
    verify([h])
    sx.cover("parsed")


@sx.obligation(params=[{"t": i} for i in range(len(T))], covers=("parsed",), max_paths=6000, path_s=120)
def two_gaps(t):
    """Two gaps at once."""
    h = T[t]
    for g in ("H", "R"):
        if g in h:
            a, b = h.split(g, 1)
            h = a + sx.text("gap" + g, 0, 1 if sx.TIER == "quick" else 2, ALPHA) + b
    verify([h])
    sx.cover("parsed")


def address(name, form):
    """(text, is a valid IPv4 address, value)"""
    parts, ok = [], True
    for i, f in enumerate(form):
        if f in "0123456789":
            parts.append(f)
            continue
        n = {"a": 1, "b": 2, "c": 3}[f]
        o = sx.text("%s%d" % (name, i), n, n, "01259")
        ok = sx.and_(ok, int(o) <= 255, sx.or_(n == 1, o[0] != "0"))
        parts.append(o)
    return ".".join(parts), ok


@sx.obligation(params=[{"form": f, "t": t} for f in ("ab34", "1b3a", "c234", "123c") for t in (0, 2, 3, 10)], covers=("valid", "invalid"), max_paths=6000, path_s=120)
def octets(form, t):
    """A valid address in the documented place is found; an invalid one is no address."""
    ip, ok = address("o", form)
    h = T[t].replace("H", "hh.x").replace("R", "rr.y")
    a, b = h.split("1.2.3.4")
    h = a + ip + b
    received = verify([h])
    sx.check(len(received) == 1, "one header, one relay")
    if ok:
        sx.cover("valid")
        sx.check(received[0]["ip"] == ip, "the address is found", received[0]["ip"], ip)
    else:
        sx.cover("invalid")


W = "aZ9.-"


@sx.obligation(params=[{"t": i, "n": n} for i in range(5) for n in ((1, 2) if sx.TIER == "quick" else (1, 2, 3))], covers=("fields",), max_paths=6000)
def fields(t, n):
    """The fields of well-formed headers."""
    def word(name):
        if name == "ident" and t != 3:
            return "u@q.x"
        if name in ("id", "by") and t == 3 and n > 1:
            return "b.x"
        w = sx.text(name, n, n, [W[:3]] + [W] * (n - 1))
        return w + "q.x"
    d = sx.text("d", 1, 1, "123456789")
    helo, rdns, by, id_, ident = word("helo"), word("rdns"), word("by"), word("id"), word("ident")
    ip = "8.7.6." + d
    want = {"ip": ip, "by": by, "helo": helo, "rdns": rdns, "ident": "", "id": id_, "envfrom": "", "auth": ""}
    if t == 0:
        h = "from " + helo + " (" + rdns + " [" + ip + "]) by " + by + " with ESMTP id " + id_ + "; Tue"
    elif t == 1:
        h = "from " + rdns + " ([" + ip + "] helo=" + helo + ") by " + by + " with esmtp (Exim 4) id " + id_ + "; Tue"
    elif t == 2:
        h = "from " + helo + " (" + rdns + " [" + ip + "]) by " + by + " (Postfix) with ESMTPSA id " + id_ + "; Tue"
        want["auth"] = "ESMTPSA"
    elif t == 3:
        h = "from " + helo + " (" + rdns + " [" + ip + "]) (envelope-sender <" + ident + ">) by " + by + " with SMTP id " + id_ + "; Tue"
        want["envfrom"] = ident
    else:
        h = "from " + helo + " (" + rdns + " [" + ip + "])\n\tby " + by + " with ESMTP\n id " + id_ + ";\n Tue"
    r = verify([h])
    sx.cover("fields")
    sx.check(len(r) == 1, "one relay")
    for f in FIELDS:
        sx.check(r[0][f] == want[f], "field " + f, h, r[0][f])


SAMPLES = ["from a (b [1.2.3.4]) by c with SMTP id d", "from localhost by e with local id f", "by g with SMTP id h", "from x", "frm y"]


@sx.obligation(params=[{"n": n} for n in (1, 2, 3)], covers=("relays", "none"), max_paths=6000)
def order(n):
    """Relays keep header order; other headers yield none; parsing the message never fails."""
    hs, want = [], []
    for i in range(n):
        k = sx.choice("k%d" % i, SAMPLES)
        d = sx.text("d%d" % i, 1, 1, "0123456789") if n == 1 else str(i + 1)
        h = k.replace("1.2.3.4", "8.7.6." + d)
        hs.append(h)
        if k is SAMPLES[0]:
            want.append("8.7.6." + d)
    p = common.parser()
    rs = p.get_ruleset()
    msg = oa.message.Message(rs.ctxt, "".join("%s" for h in hs) % tuple("Received: " + h + "; x\n" for h in hs) + "\n\nbody\n")
    got = [r["ip"] for r in msg.received_headers if len(r["ip"])]
    sx.cover("relays" if want else "none")
    sx.check(sx.same(got, want), "the addresses in header order", hs, got)
    ips = [str(i) for i in msg.get_header_ips()]
    sx.check(sx.same(ips, want), "header addresses")
    sx.check(sx.same([str(i) for i in msg.get_untrusted_ips()], want), "untrusted addresses")


@sx.obligation(params=[{"n": n} for n in (0, 1, 2, 3)], covers=("parsed",), max_paths=6000, path_s=120)
def originating(n):
    """Configured originating address headers yield a relay for an address, and nothing otherwise."""
    s = sx.text("s", n, n, "12.0[a]: ")
    tail = sx.choice("tail", ["", ".3.4", "1.2.3.4", "::1"])
    rs = common.ruleset("originating_ip_headers X-O\n")
    msg = oa.message.Message(rs.ctxt, "X-O: " + s + tail + "\n\nbody\n")
    sx.cover("parsed")
    sx.check(len(msg.received_headers) <= 1, "at most one relay")
    for r in msg.received_headers:
        sx.check(sx.or_(r["ip"] == "", plausible(r["ip"], s + tail)) if len(r["ip"]) else True, "the address occurs in the header", s + tail, r["ip"])
    n_addr = len(msg.trusted_relays) + len(msg.untrusted_relays)
    sx.check(n_addr == len(msg.get_header_ips()), "relays are exactly those with an address")
