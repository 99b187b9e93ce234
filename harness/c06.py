"""C06: content rules test exactly the text they are defined on."""
import re

from symx import api as sx
from harness import common
import oa.message

BOUNDS = ("subjects of up to 2 and text parts of up to 3 symbolic characters (4 in thorough) over {a, b, <, blank, line end}; single "
          "plain, HTML and multipart messages; LF, CRLF and CR line ends (chosen per line end); URIs with symbolic "
          "surroundings of up to 3 characters; 10 patterns")
OUTSIDE = ("non-ASCII text, symbolic transfer-encoded text (base64 and quoted-printable parts are concrete), HTML with entities or "
           "unterminated tags, encoded words in the subject (concrete ones only)")
ASSUMPTIONS = ["the meaning of the patterns themselves is Python's re module (see C05)"]

PATTERNS = ["ab", "a b", "^a", "b$", "a.b", "^b?$", "a  b", "b\\na", "(?:a|b) ?a", "a\\n"]
KINDS = ["body", "rawbody", "full"]


def conf(pats):
    out = []
    for k in KINDS:
        for i, p in enumerate(pats):
            out.append("%s %s%d /%s/" % (k, k.upper(), i, p))
    return common.lines(*out)


def hit(p, text):
    return re.compile(p).search(text) is not None


def verdicts(rs, raw, pats, subject, texts, raws):
    msg = oa.message.Message(rs.ctxt, raw)
    rs.match(msg)
    body = " ".join([subject] + texts) if subject is not None else " ".join(texts)
    rawbody = "\n".join(raws)
    full = raw.replace("\r\n", "\n").replace("\r", "\n")
    for k, text in (("body", body), ("rawbody", rawbody), ("full", full)):
        for i, p in enumerate(pats):
            got = msg.rules_checked["%s%d" % (k.upper(), i)]
            want = hit(p, text)
            sx.check(sx.iff(got, want), "%s rule matches exactly its text" % k, p, text, got)
            if want:
                sx.cover(k + " hit")
    return msg


def eol(n):
    """Line ends: n choices."""
    e = sx.choice("eol", ["\n", "\r\n", "\r"])
    return e


@sx.obligation(params=lambda t: [{"p": p, "n": n} for p in range(0, 10, 2) for n in ((0, 2, 3) if t == "quick" else (0, 1, 2, 3, 4))],
               covers=("body hit", "full hit"), max_paths=4000)
def plain(p, n):
    """A message with one plain text part."""
    pats = PATTERNS[p:p + 2]
    rs = common.ruleset(conf(pats))
    subject = sx.choice("subject", [None, "", "b", "a ", "ab"]) if n != 2 else sx.text("subject", 1, 2, "ab ")
    body = sx.text("body", n, n, "ab \n<")
    e = eol(1)
    head = "From: x@y.zz" + e
    if subject is not None:
        head = head + "Subject: " + subject + e
        subject = subject.lstrip(" ")
    raw = head + e + body.replace("\n", e)
    if n == 0:
        sx.cover("body hit")
        sx.cover("full hit")
    verdicts(rs, raw, pats, subject, [body.replace("\n", " ")], [body])


@sx.obligation(params=lambda t: [{"p": p, "k": k} for p in range(0, 10, 2) for k in ((2,) if t == "quick" else (2, 3))], max_paths=4000)
def subjects(p, k):
    """A message with several Subject headers."""
    pats = PATTERNS[p:p + 2]
    rs = common.ruleset(conf(pats))
    e = eol(1)
    subs = [sx.text("s%d" % i, 1, 2, ["ab", "ab "]) for i in range(k)]
    body = sx.text("body", 1, 1, "ab")
    head = ""
    name = sx.choice("name", ["Subject", "SUBJECT"])
    for i, sub in enumerate(subs):
        head = head + (name if i else "Subject") + ": " + sub + e
        if i == 0 and sx.choice("between", [True, False]):
            head = head + "From: x@y.zz" + e
    verdicts(rs, head + e + body, pats, " ".join(subs), [body], [body])


@sx.obligation(params=lambda t: [{"p": p, "n": n} for p in range(0, 10, 2) for n in ((1, 2) if t == "quick" else (0, 1, 2, 3))],
               max_paths=4000)
def html(p, n):
    """A message with one HTML part: tags are removed, pieces separated by a blank."""
    pats = PATTERNS[p:p + 2]
    rs = common.ruleset(conf(pats))
    e = eol(1)
    a = sx.text("a", n, n, "ab \n")
    b = sx.text("b", 1, 1, "ab \n")
    shape = sx.choice("shape", ["<b>%s</b>%s", "%s<br/>%s", "<a\nhref='ab'>%s<i>%s</i></a>", "<!-- ab -->%s<p class=\"a b\">%s"])
    payload = shape.split("%s")[0] + a + shape.split("%s")[1] + b + shape.split("%s")[2]
    raw = "Subject: a" + e + "Content-Type: text/html" + e + e + payload.replace("\n", e)
    pieces = [x.replace("\n", " ").strip() for x in (a, b)]
    verdicts(rs, raw, pats, "a", [" ".join([x for x in pieces if x])], [payload])


@sx.obligation(params=lambda t: [{"p": p} for p in range(0, 10, 2)], max_paths=4000)
def multipart(p, ):
    """Text parts are joined in order; other parts are not text."""
    pats = PATTERNS[p:p + 2]
    rs = common.ruleset(conf(pats))
    e = eol(1)
    a = sx.text("a", 2, 2, "ab \n")
    b = sx.text("b", 1, 1, "ab\n")
    order = sx.choice("order", ["ph", "hp", "p.p", ".h"])
    out = "Subject: b" + e + "Content-Type: multipart/mixed; boundary=Q" + e + e + "preamble ab" + e
    texts, raws = [], []
    for i, k in enumerate(order):
        t = a if i == 0 or order[0] == "." else b
        out = out + "--Q" + e
        if k == "p":
            out = out + "Content-Type: text/plain" + e + e + t.replace("\n", e) + e
            texts.append(t.replace("\n", " "))
            raws.append(t)
        elif k == "h":
            out = out + "Content-Type: text/html" + e + e + "<i>" + t.replace("\n", e) + "</i>" + e
            texts.append(t.replace("\n", " ").strip())
            raws.append("<i>" + t + "</i>")
        else:
            out = out + "Content-Type: application/x-q" + e + e + "a ba b" + e
    out = out + "--Q--" + e + "b a" + e
    verdicts(rs, out, pats, "b", texts, raws)


ENC = [("base64", "YQpi", "a\nb"), ("base64", "YSBi" + "\n" + "IGE=", "a b a"), ("quoted-printable", "a=20b=0Aa", "a b\na"),
       ("quoted-printable", "a=\nb", "ab"), ("7bit", "a b", "a b"), ("8bit", "b\na", "b\na")]


@sx.obligation(params=lambda t: [{"p": p} for p in range(0, 10, 2)], max_paths=4000)
def encoded(p):
    """Transfer encoded parts and encoded subjects are decoded."""
    pats = PATTERNS[p:p + 2]
    rs = common.ruleset(conf(pats))
    e = eol(1)
    cte, text, dec = sx.choice("enc", ENC)
    sub, sdec = sx.choice("subject", [("=?utf-8?B?YSBi?=", "a b"), ("=?us-ascii?Q?a_b?=", "a b"), ("=?x-unknown?Q?ab?=", ""),
                                      ("b =?utf-8?q?a?= b", "b a b")])
    tail = sx.text("tail", 0, 1, "ab")
    if cte[0] not in "78":
        tail = tail[:0]
    if len(tail):
        sx.cover("tail")
    raw = ("Content-Transfer-Encoding: " + cte + e + "Subject: " + sub + e + "Content-Type: text/plain; charset=us-ascii" + e + e
           + text.replace("\n", e) + tail)
    dec = dec + tail
    verdicts(rs, raw, pats, sdec, [dec.replace("\n", " ")], [dec])


STOP = " \t\n<>\"'"


def spans(text, heads):
    """URIs of the text, by a scanner: a head preceded by a non-word
    character, extended up to the first character that cannot be in a URI."""
    out = []
    i = 0
    while i < len(text):
        step = 1
        if i == 0 or not (text[i - 1].isalnum() or text[i - 1] == "_"):
            for h, need in heads:
                if text[i:i + len(h)] == h:
                    j = i + len(h)
                    while j < len(text) and text[j] not in STOP:
                        j += 1
                    if j - i - len(h) >= 1 and (not need or text[i + len(h)] != "."):
                        out.append(text[i:j])
                        step = j - i
                    break
        i += step
    return out


HEADS = [("http://", False), ("https://", False), ("ftp://", False), ("www.", True), ("ftp.", True)]
UPATS = ["^http://a$", "b", "^www.a", "a$", "^ftp", "^https://.b?$"]


@sx.obligation(params=lambda t: [{"h": h, "n": n} for h in range(len(HEADS)) for n in ((1, 2) if t == "quick" else (1, 2, 3))],
               covers=("uri hit", "uri miss"), max_paths=6000)
def uri(h, n):
    """URIs of the text are found and tested one by one."""
    rs = common.ruleset(common.lines(*["uri U%d /%s/" % (i, p.replace("/", "\\/")) for i, p in enumerate(UPATS)]))
    e = eol(1)
    pre = sx.text("pre", 0, 1, "a (\n'_")
    rest = sx.text("rest", n, n, "ab.< \n\"")
    html = sx.choice("html", ["", "<a href=\""])
    second = sx.choice("second", ["", " https://b"])
    body = html + pre + HEADS[h][0] + rest + second
    raw = "Subject: http://a" + e + ("Content-Type: text/html" + e if html else "") + e + body.replace("\n", e)
    msg = oa.message.Message(rs.ctxt, raw)
    rs.match(msg)
    found = spans(body, HEADS)
    for i, p in enumerate(UPATS):
        want = sx.or_(*[hit(p, u) for u in found])
        sx.check(sx.iff(msg.rules_checked["U%d" % i], want), "uri rule matches exactly when some URI matches", p, body, found)
        if sx.conc(want):
            sx.cover("uri hit")
        else:
            sx.cover("uri miss")
    sx.observe("n", len(found))
