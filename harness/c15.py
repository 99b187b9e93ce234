"""C15: parsing a message never fails and preserves its header and text data."""
from symx import api as sx
from harness import common
import oa.config
import oa.message

BOUNDS = ("message texts of up to 4 symbolic characters (5 in thorough) over header, body and line-end characters; structured messages with symbolic gaps of up to "
          "3 characters in header values, content types, boundaries and bodies; every line end of a message chosen independently among LF, CRLF "
          "and CR; up to 3 headers with symbolic letter case; every sequence of up to 3 reads of the views, in lazy and caching mode; "
          "8 plugins loaded with 10 content types, 3 encodings and 7 bodies with a symbolic character")
OUTSIDE = "8-bit text, base64 and quoted-printable bodies with symbolic characters, get_headers (headers added by plugins)"
ASSUMPTIONS = ["SHA-1 is modelled as an injective function"]


class Sha1(object):
    def __init__(self, data=b""):
        self.data = data

    def hexdigest(self):
        return self.data.decode("latin-1")


class Hashlib(object):
    sha1 = Sha1


def parse(raw):
    p = common.parser()
    rs = CTX.get("rs")
    if rs is None:
        rs = p.get_ruleset()
    sx.patch(oa.message, "hashlib", Hashlib)
    return oa.message.Message(rs.ctxt, raw)


CTX = {}
NAMES = ("Subject", "From", "To", "Received", "X-A", "Message-ID", "Content-Type", "Date")


def views(msg):
    out = []
    for n in NAMES:
        out.append(list(msg.get_raw_header(n)))
        out.append(list(msg.get_decoded_header(n)))
        out.append(list(msg.get_addr_header(n)))
        out.append(list(msg.get_name_header(n)))
        out.append(list(msg.get_all_addr_header(n)))
        out.append(list(msg.get_raw_mime_header(n)))
        out.append(list(msg.get_decoded_mime_header(n)))
    out.append(list(msg.iter_decoded_headers()))
    out.append(msg.text)
    out.append(msg.raw_text)
    out.append(sorted(msg.uri_list))
    out.append(msg.msgid)
    out.append(list(msg.get_from_addresses()))
    out.append(list(msg.get_to_addresses()))
    out.append(list(msg.get_all_from_headers_addr()))
    out.append(list(msg.received_headers))
    out.append(msg.sender_address)
    return out


@sx.obligation(params=lambda t: [{"n": n} for n in ((0, 1, 2, 3, 4) if t == "quick" else (0, 1, 2, 3, 4, 5))], covers=("parsed",), max_paths=9000)
def any_text(n):
    """Any short text is a message."""
    raw = sx.text("raw", n, n, "a: \n\r<-=")
    msg = parse(raw)
    views(msg)
    sx.cover("parsed")
    sx.check(msg.raw_msg == raw.replace("\r\n", "\n").replace("\r", "\n"), "the raw message is kept, up to line ends")


GAPS = [
    ("Subject: ", "\nFrom: a@b\n\nx\n", "a=?<\n :_"),
    ("Content-Type: text/plain; charset=", "\n\nx\n", "a8\";-= "),
    ("Content-Type: ", "\n\nx\n", "text/;= \""),
    ("Content-Type: text/html\n\n<", ">a</a>x\n", "a!-[?/ \"=&"),
    ("Content-Type: text/html\n\n&", "b<!", "a#x;![]-"),
    ("Content-Type: multipart/mixed; boundary=b\n\n--b\n\nx\n--b", "y\n", "-b\n a:"),
    ("Content-Type: multipart/mixed; boundary=", "\n\n--b\nA: 1\n\nx\n--b--\n", "b\"\n -;"),
    ("Content-Transfer-Encoding: base64\nSubject: x\n\n", "\n", "QA=\n-"),
    ("Content-Transfer-Encoding: quoted-printable\n\na", "b\n", "=A4\n ."),
    ("Content-Transfer-Encoding: ", "\n\nYQ==\n", "7bit x"),
    ("Received: from ", " by b; x\n\nx", "a [(1.)]@:;"),
    ("From: ", "\nTo: x@y\n\nx", "a<>@,\"():;"),
    ("Message-ID: ", "\nDate: x\n\nx", "<a> @\n\""),
    ("Subject: =?utf-8?", "?=\n\nx", "bqQ?=_a"),
    ("Content-Type: message/rfc822\n\n", "\n\nb\n", "a:\n -"),
    ("X: 1\n", "\n\nhttp://a/", "a: \n\t="),
]


@sx.obligation(params=lambda t: [{"g": g, "n": n} for g in range(len(GAPS)) for n in ((1, 2) if t == "quick" else (1, 2, 3))], covers=("parsed",), max_paths=9000,
               path_s=120)
def gaps(g, n):
    """Messages with anything in one place."""
    a, b, alpha = GAPS[g]
    msg = parse(a + sx.text("gap", n, n, alpha) + b)
    views(msg)
    sx.cover("parsed")


EOLS = [
    "Subject: a@b@Message-ID: <i>@@x@y@",
    "Subject: a@ b@From: q <q@r>@@http://a.b/@",
    "Received: from a (b [1.2.3.4])@@\tby c with SMTP id d; e@@x@@y",
    "Content-Type: multipart/mixed; boundary=b@@--b@A: 1@@x@--b@Content-Type: text/html@@<p>y@z@--b--@",
    "Date: d@Subject: s@@@x@",
]
EOLS = [x.replace("@@@", "\0\0\0").replace("q@r", "q\1r").replace("@", "\0").replace("\1", "@").replace("[1.2.3.4])\0\0", "[1.2.3.4])\0") for x in EOLS]


@sx.obligation(params=[{"m": i} for i in range(len(EOLS))], covers=("mixed",), max_paths=9000)
def line_ends(m):
    """Every mixture of line ends gives the same message."""
    parts = EOLS[m].split("\0")
    c = sx.text("c", 1, 1, "ab ")
    styles = ["\n", "\r\n", "\r"]
    free = 0
    raw, ref = parts[0], parts[0]
    kind = sx.choice("all", ["mixed"] + styles)
    for i, x in enumerate(parts[1:]):
        if kind == "mixed":
            e = sx.choice("e%d" % i, styles) if i < 3 or i == len(parts) - 2 else styles[i % 3]
        else:
            e = kind
        tail = c if i == 1 else ""
        # a carriage return directly before a line feed would be one line end
        if raw[-1:] == "\r" and (x == "" or True) and e == "\n" and parts[i] == "" and not (i and tail):
            e = "\r"
        raw = raw + e + tail + x
        ref = ref + "\n" + tail + x
    # "\r" followed by "\n" of the next, empty line is a different text
    sx.cover("mixed")
    norm = raw.replace("\r\n", "\n").replace("\r", "\n")
    sx.assume(norm == ref)
    sx.check(sx.same(views(parse(raw)), views(parse(ref))), "the same message", raw)


@sx.obligation(params=[{"n": n} for n in (1, 2, 3)], covers=("present", "absent"), max_paths=9000)
def lookup(n):
    """Header lookup ignores case and keeps every occurrence in order."""
    want, raw = [], ""
    for i in range(n):
        name = sx.text("n%d" % i, 3, 3, ["xy", "-", "aA"] if n > 1 else ["xXyY", "-", "aA"])
        v = sx.text("v%d" % i, 1, 1, "uv")
        raw = raw + name + ": " + v + "\n"
        want.append((name, v))
    q = sx.text("q", 3, 3, ["xX", "-", "aA"])
    msg = parse(raw + "\nbody\n")
    vals = []
    for name, v in want:
        if name.lower() == q.lower():
            vals.append(v)
    sx.cover("present" if vals else "absent")
    sx.check(sx.same(list(msg.get_raw_header(q)), vals), "raw values in order", raw, q)
    sx.check(sx.same(list(msg.get_decoded_header(q)), vals), "decoded values in order", raw, q)
    sx.check(sx.same(list(msg.get_raw_mime_header(q)), vals), "part headers in order", raw, q)
    sx.check(len(list(msg.iter_decoded_headers())) == n, "all headers")


VIEWS = ["get_raw_header", "get_decoded_header", "get_addr_header", "get_name_header", "get_all_addr_header", "get_raw_mime_header",
         "get_decoded_mime_header", "iter_decoded_headers", "get_from_addresses", "get_to_addresses", "msgid", "get_all_from_headers_addr",
         "get_header_ips", "get_untrusted_ips", "receive_date"]
HIST = ("From: n <f@x>, g@x\nTo: t@x\nTO: u@x, w <v@x>\nResent-From: r@x\nResent-To: s@x\nSubject: =?utf-8?q?a?=\nSubject: b\n"
        "Received: from a (b [1.2.3.4]) by c; Thu, 1 Jan 2015 00:00:00 +0000\nX-Envelope-From: e@x\nMessage-ID: <")


def read(msg, v, name):
    f = getattr(msg, v)
    if v in ("msgid", "receive_date"):
        return f
    if v.startswith("iter") or v in ("get_from_addresses", "get_to_addresses", "get_all_from_headers_addr", "get_header_ips", "get_untrusted_ips"):
        return list(f())
    return list(f(name))


@sx.obligation(params=[{"first": v, "lazy": l} for v in VIEWS for l in (True, False)], covers=("read",), max_paths=9000)
def histories(first, lazy):
    """Reads never change what later reads return."""
    sx.patch(oa.config, "LAZY_MODE", lazy)
    raw = HIST + sx.text("id", 1, 1, "ab>") + "\n\nbody\n"
    name = sx.choice("name", ["From", "to", "Subject"])
    msg = parse(raw)
    read(msg, first, name)
    second = sx.choice("second", VIEWS[:11])
    read(msg, second, sx.choice("name2", ["From", "tO"]))
    sx.cover("read")
    other = parse(raw)
    for v in reversed(VIEWS):
        sx.check(sx.same(read(msg, v, name), read(other, v, name)), "the same as in an untouched message", v, first, second)
    sx.check(msg.as_string_() == other.as_string_() if hasattr(msg, "as_string_") else msg.msg.as_string() == other.msg.as_string(), "same message")


@sx.obligation(params=[{"kind": k} for k in ("id", "noid", "same", "long")], covers=("id",), max_paths=9000)
def identifier(kind):
    """The identifier is the Message-ID, or depends on the date and body only."""
    date = sx.text("date", 0, 1, "12")
    body = sx.text("body", 0, 2, "ab\n")
    pad = "0123456789" * 7 if kind == "long" else ""
    extra = sx.text("extra", 1, 1, "pq")
    if kind == "id":
        mid = sx.text("mid", 1, 3, ["<ab", "ab@ ", "ab>"])
        msg = parse("X: " + extra + "\nMessage-ID: " + mid + "\nDate: " + date + "\n\n" + body)
        m = mid.strip()
        blank = sx.or_(m == "<>", sx.or_(m == "< >", m == ">"), m == "")
        want = m.lstrip("<").rstrip(">")
        sx.cover("id")
        if m[:2] != "<>" and len(m) and m != "< >":
            sx.check(msg.msgid == want, "the Message-ID without brackets", mid, msg.msgid)
        return
    head = ("Date: " + date + "\n") if len(date) else "Y: 1\n"
    one = parse("X: " + extra + "\n" + head + "\n" + body + pad).msgid
    sx.cover("id")
    sx.check(one.endswith("@sa_generated"), "a generated identifier")
    if kind == "same":
        e = sx.choice("e", ["\r\n", "\r", "\n"])
        two = parse((head + "Z: w\n" + "\n" + body).replace("\n", e)).msgid
        sx.check(one == two, "other headers and line ends do not matter")
    elif kind == "noid":
        date2 = sx.text("date2", 0, 1, "12")
        body2 = sx.text("body2", 0, 2, "ab\n")
        head2 = ("Date: " + date2 + "\n") if len(date2) else "Y: 1\n"
        two = parse(head2 + "\n" + body2).msgid
        sx.check(sx.iff(one == two, sx.and_(date == date2, body.replace("\n", "") == body2.replace("\n", ""))), "depends on exactly the date and the text",
                 date, body, date2, body2)
    else:
        two = parse(head + "\n" + body + pad).msgid
        sx.check(one == two, "the same for the same text")


PLUGINS = ["oa.plugins." + x for x in ("mime_eval.MIMEEval", "body_eval.BodyEval", "header_eval.HeaderEval", "uri_eval.URIEvalPlugin", "uri_detail.URIDetailPlugin",
                                       "image_info.ImageInfoPlugin", "pdf_info.PDFInfoPlugin", "relay_eval.RelayEval")]
TYPES = ["multipart/mixed; boundary=x", "multipart/alternative; boundary=x", "multipart/alternative", "text/plain", "text/html", "message/rfc822", "image/png", "application/pdf",
         "message/delivery-status", "multipart/alternative; boundary=\"\""]
BODIES = [("--x\n\na", "\n--x--\n"), ("a=", "b=\n"), ("Content-Type: text/", "\n\nx\n"), ("<a href='http://", "x'>a</a>"), ("<a href", ">a</a> http://[1]/"), ("", ""), ("\xff", "\n")]


@sx.obligation(params=[{"cte": c, "part": p} for c in ("base64", "quoted-printable", "8bit") for p in (False, True)], covers=("parsed",), max_paths=9000)
def plugins(cte, part):
    """The plugins that look at the parts of a message never make it fail."""
    rs = common.ruleset("", plugins=PLUGINS)
    ct = sx.choice("type", TYPES)
    a, b = sx.choice("body", BODIES)
    text = a + (sx.text("gap", 1, 1, "[]=-\n ") if a else "") + b
    raw = "Content-Type: %s\nContent-Transfer-Encoding: %s\n\n" % (ct, cte) + text
    if part:
        raw = "Subject: x\nContent-Type: multipart/mixed; boundary=y\n\n--y\n" + raw + "\n--y--\n"
    msg = common.message(rs.ctxt, raw)
    sx.check(msg.raw_msg == raw, "the raw message is kept")
    sx.cover("parsed")
