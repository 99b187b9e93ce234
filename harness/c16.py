"""C16: the envelope sender comes from the documented source."""
from symx import api as sx
from harness import common
import oa.message

BOUNDS = ("chains of up to 3 relays (4 in thorough), each with a symbolic address, authentication and recorded envelope sender (absent, blank or an address with "
          "symbolic characters), with nothing, trusted or internal networks configured; up to 3 envelope-sender headers of symbolic content with "
          "symbolic presence and order, default and configured lists, always_trust_envelope_sender 0 or 1; complete Received headers with a "
          "symbolic envelope sender")
OUTSIDE = "how the sender is read from unusual Received formats (C14)"
ASSUMPTIONS = ["in the obligations on relay records the records replace the output of the Received parser (C14)",
               "the documentation also lists From among the default headers, the code and this property do not"]

DEFAULT = ("X-Sender", "X-Envelope-From", "Envelope-Sender", "Return-Path")


class Chain(object):
    relays = []

    def __init__(self, headers):
        self.received = Chain.relays


def relay(i, n):
    """A relay record and whether its address is private / trusted / internal."""
    d = sx.text("d%d" % i, 1, 1, "012")
    env = sx.choice("env%d" % i, ("none", "blank", "addr") if n < 3 else ("none", "addr"))
    c = sx.text("e%d" % i, 1, 1, "ab")
    auth = sx.boolean("auth%d" % i) if n < 3 or i == n - 1 else False
    ev = {"none": "", "blank": " ", "addr": " " + c + "@r%d.x " % i}[env]
    return ({"rdns": "", "ip": "1" + d + ".0.0.7", "by": "", "helo": "", "ident": "", "id": "i%d" % i, "envfrom": ev, "auth": "A" if auth else ""},
            d, auth, (c + "@r%d.x" % i) if env == "addr" else None, env)


def headers_value(headers, names):
    for n in names:
        for h, v, addr in headers:
            if h.lower() == n.lower() and addr is not None:
                return addr
    return ""


def expected(facts, conf, always, headers, names):
    """The first external relay, the last trusted one, or the headers."""
    t = i = True
    first_ext = last_tr = None
    for (r, d, auth, env, kind) in facts:
        if t:
            if conf == "none":
                if sx.and_(d != "0", not auth):
                    t = i = False
            elif conf == "trusted":
                if sx.and_(d != "1", not auth):
                    t = i = False
            else:
                # trusted 11. and internal 12. (which are trusted, too)
                if sx.and_(d == "0", not auth):
                    t = i = False
                elif i and sx.and_(d != "2", not auth):
                    i = False
        if not i and first_ext is None:
            first_ext = (env, kind)
        if t:
            last_tr = (env, kind)
    if first_ext is not None:
        sx.cover("external")
        return first_ext[0] or ""
    if last_tr is not None and not always:
        if last_tr[1] == "addr":
            sx.cover("trusted")
            return last_tr[0]
        if last_tr[1] == "blank":
            return ""
    sx.cover("headers")
    return headers_value(headers, names)


CONFS = {"none": "", "trusted": "trusted_networks 11.\n", "internal": "internal_networks 12.\ntrusted_networks 11.\n"}


@sx.obligation(params=lambda t: [{"n": n, "conf": c, "always": a} for n in ((0, 1, 2, 3) if t == "quick" else (0, 1, 2, 3, 4)) for c in CONFS for a in (0, 1)],
               covers=("external", "trusted", "headers"), max_paths=9000)
def relays(n, conf, always):
    """Which relay (or header) is asked for the sender."""
    facts = [relay(i, n) for i in range(n)]
    Chain.relays = [f[0] for f in facts]
    p = common.load(CONFS[conf] + "always_trust_envelope_sender %d\n" % always)
    rs = p.get_ruleset()
    sx.patch(oa.message, "ReceivedParser", Chain)
    h = sx.boolean("header")
    raw = ("X-Sender: h@h.x\n" if h else "") + "Subject: x\n\nx\n"
    msg = common.message(rs.ctxt, raw)
    want = expected(facts, conf, always, [("X-Sender", "", "h@h.x")] if h else [], DEFAULT)
    for l in ("external", "trusted", "headers"):
        if n == 0 or always:
            sx.cover(l)
    sx.check(msg.sender_address == want, "the envelope sender", conf, always, msg.sender_address, want)


NAMES = ("X-Sender", "X-Envelope-From", "Envelope-Sender", "Return-Path", "X-Other", "From")
CFG = [(), ("X-Other",), ("Return-Path", "X-Sender"), ("x-other", "X-SENDER"), ("From", "X-Other", "X-Envelope-From")]


@sx.obligation(params=lambda t: [{"cfg": c, "n": n} for c in range(len(CFG)) for n in (1, 2) + ((3,) if t != "quick" else ())],
               covers=("found", "missing"), max_paths=9000)
def headers(cfg, n):
    """The first address of the listed headers, in the order of the list."""
    hs, raw = [], ""
    for i in range(n):
        name = sx.choice("name%d" % i, NAMES)
        form = sx.choice("form%d" % i, ("plain", "bracket", "named", "empty", "blank") if n == 1 else ("plain", "empty", "named"))
        c = sx.text("c%d" % i, 1, 1, "abA.")
        sx.assume(c != ".")
        a = c + "@h%d.x" % i
        v = {"plain": a, "bracket": "<" + a + ">", "named": '"N" <' + a + ">, z@z.x", "empty": "<>", "blank": ""}[form]
        raw = raw + name + ": " + v + "\n"
        hs.append((name, v, a if form in ("plain", "bracket", "named") else None))
    text = ""
    for x in CFG[cfg]:
        text = text + "envelope_sender_header " + x + "\n"
    rs = common.load(text).get_ruleset()
    msg = common.message(rs.ctxt, raw + "Subject: x\n\nx\n")
    want = headers_value(hs, CFG[cfg] or DEFAULT)
    sx.cover("found" if want != "" else "missing")
    sx.check(msg.sender_address == want, "the sender from the headers", raw, CFG[cfg], msg.sender_address, want)


FORMS = ["from h.x (h.x [%s]) by m.y with ESMTP id 1 (envelope-from <%s>); Tue, 1 Jan 2019 00:00:00 +0000",
         "from h.x (HELO h.x) (%s) by m.y with SMTP (envelope-sender <%s>); Tue, 1 Jan 2019 00:00:00 +0000",
         "from h.x ([%s] helo=h.x) by m.y with esmtp (Exim 4.0) (envelope-from <%s>) id 1; Tue, 1 Jan 2019 00:00:00 +0000"]


@sx.obligation(params=lambda t: [{"form": f, "conf": c, "n": n} for f in range(len(FORMS)) for c in ("none", "trusted") for n in (1, 2)],
               covers=("external", "trusted"), max_paths=4000)
def received(form, conf, n):
    """The sender recorded in complete Received headers."""
    raw, facts = "", []
    for i in range(n):
        ip = sx.choice("ip%d" % i, ("10.0.0.1", "11.0.0.1"))
        c = sx.text("c%d" % i, 1, 2, "ab-")
        sx.assume(c[-1:] != "-")
        addr = c + "@e%d.x" % i
        pre, mid, post = FORMS[form].split("%s")
        raw = raw + "Received: " + pre + ip + mid + addr + post + "\n"
        facts.append((None, ip[1], False, addr, "addr"))
    rs = common.load(CONFS[conf]).get_ruleset()
    msg = common.message(rs.ctxt, raw + "X-Sender: h@h.x\nSubject: x\n\nx\n")
    want = expected(facts, conf, 0, [], ())
    sx.check(len(msg.received_headers) == n, "the headers are relays", raw)
    sx.check(msg.sender_address == want, "the recorded sender", raw, msg.sender_address, want)
