"""C32: range tests match exactly the documented interval."""
import datetime

from symx import api as sx
from harness import common
import oa.plugins.image_info
import oa.plugins.header_eval

P = "oa.plugins."
IMAGE, PDF, BODY = P + "image_info.ImageInfoPlugin", P + "pdf_info.PDFInfoPlugin", P + "body_eval.BodyEval"
HEADER, MIME = P + "header_eval.HeaderEval", P + "mime_eval.MIMEEval"
BOUNDS = ("up to 3 images and 2 documents with 2 images of unknown sizes of 0 to 40; 4 messages for each ratio; bounds of 0 to 40 (ratios: 0 to 4 in steps of 1/64, "
          "0 to 120) given as numbers or as text of up to two digits and a fraction, the upper one also absent, empty or 0; up to 3 of a header; dates of 5 time zones; "
          "ages of up to 14 months; texts of up to 4 characters for the ratio of spaces")
OUTSIDE = "how images, documents and dates are decoded (PIL, PyPDF2, email.utils); rounding of floating point numbers"
ASSUMPTIONS = "PIL.Image.open and PyPDF2.PdfFileReader are stubs showing the unknown sizes"


def bound(name, hi=40):
    """A bound as an integer, a text or a text with a fraction (and its value)."""
    form = sx.choice(name + ".form", ["int", "text"])
    if form == "int":
        v = sx.integer(name, 0, hi)
        return v, v
    n = sx.choice(name + ".len", [1, 2]) if hi > 9 else 1
    t = sx.text(name, n, n, "0123456789" if n == 1 else ["01234", "0123456789"])
    return t, int(t)


def upper(name, hi=40):
    form = sx.choice(name + ".limit", ["none", "some"])
    if form == "none":
        return sx.choice(name + ".absent", [None, ""]), None
    return bound(name, hi)


def inside(x, lo, hi):
    return sx.and_(lo <= x, True if hi is None else x <= hi)


def decide(name, got, want, *info):
    sx.cover("match" if got else "no match")
    sx.check(sx.iff(bool(got), want), name, *info)


BOTH = ("match", "no match")


class Opened(object):
    """What the image decoder gives for a payload."""
    SIZES = {}

    def __init__(self, io):
        self.size = self.SIZES[io.getvalue()]


def attachments(kinds):
    """A message with attachments of (type, payload byte)."""
    raw = "Content-Type: multipart/mixed; boundary=x\n\n--x\n\nbody\n"
    for kind, data in kinds:
        raw += "--x\nContent-Type: %s\nContent-Transfer-Encoding: base64\n\n%s\n" % (kind, {b"A": "QQ==", b"B": "Qg==", b"C": "Qw==", b"AA": "QUE=", b"AAA": "QUFB"}[data])
    return raw + "--x--\n"


@sx.obligation(params=lambda t: [{"n": n, "t": t} for n in ((2, 3) if t == "quick" else (0, 1, 2, 3)) for t in (0, 1)], covers=())
def images(n, t):
    """The number of images and the area they cover."""
    rs = common.ruleset("", plugins=(IMAGE,))
    sx.patch(oa.plugins.image_info.PIL.Image, "open", Opened)
    data = [b"A", sx.choice("second", [b"A", b"B"]) if n == 2 else b"B", b"C"][:n]
    types = ["gif", sx.choice("type", ["gif", "png"]), "png"][:n]
    height = dict((d, sx.integer("h" + d.decode(), 0, 9)) for d in sorted(set(data)))
    Opened.SIZES = dict((d, (w, height[d])) for d, w in ((b"A", 3), (b"B", 2), (b"C", 0)) if d in height)
    msg = common.message(rs.ctxt, attachments([("image/" + t, d) for t, d in zip(types, data)]))
    kind = sx.choice("kind", ["all", "gif", "png", "bmp"])
    which = [i for i in range(n) if kind in ("all", types[i])]
    for test, x in [("image_count", len(which)), ("pixel_coverage", sum([Opened.SIZES[data[i]][0] * height[data[i]] for i in which], 0))][t:t + 1]:
        lo, l = bound(test + ".min")
        hi, h = upper(test + ".max")
        args = [kind, lo] + ([] if hi is None and sx.boolean(test + ".omit") else [hi])
        sx.cover("any")
        sx.check(sx.iff(bool(rs.ctxt.eval_rules[test](msg, *args)), inside(x, l, h)), test, x, l, h)


class Reader(object):
    """A document as its decoder shows it."""
    PAGES = []

    def __init__(self, io):
        self.isEncrypted = False
        self.pages = self.PAGES

    def getDocumentInfo(self):
        return None


class Page(dict):
    def extractText(self):
        return ""


@sx.obligation(params=lambda t: [{"n": n, "t": t} for n in ((2,) if t == "quick" else (0, 1, 2)) for t in (0, 1, 2)], covers=())
def documents(n, t):
    """The number of documents and of the images in them, the area covered and the size."""
    import oa.plugins.pdf_info
    rs = common.ruleset("", plugins=(PDF,))
    sx.patch(oa.plugins.pdf_info.PyPDF2, "PdfFileReader", Reader)
    h1, h2 = sx.integer("h1", 0, 9), sx.integer("h2", 0, 9)
    two = sx.boolean("two")
    objs = {"a": {"/Subtype": "/Image", "/Width": 3, "/Height": h1}, "f": {"/Subtype": "/Form", "/Width": 9, "/Height": 9}}
    if two:
        objs["b"] = {"/Subtype": "/Image", "/Width": 2, "/Height": h2}
    Reader.PAGES = [Page({"/Resources": {"/XObject": objs}}), Page({"/Resources": {}}), Page()]
    sizes = [sx.choice("data", [b"A", b"AA"]), b"AAA"][:n]
    msg = common.message(rs.ctxt, attachments([("application/pdf", d) for d in sizes]))
    quantities = [("pdf_count", n), ("pdf_image_count", n * (2 if two else 1)), ("pdf_pixel_coverage", n * (3 * h1 + (2 * h2 if two else 0)))]
    for test, x in quantities[t:t + 1]:
        lo, l = bound(test + ".min")
        hi, h = upper(test + ".max")
        args = [lo] + ([] if hi is None and sx.boolean(test + ".omit") else [hi])
        sx.cover("any")
        sx.check(sx.iff(bool(rs.ctxt.eval_rules[test](msg, *args)), inside(x, l, h)), test, x, l, h)
    if t:
        return
    lim, v = bound("size")
    sx.check(sx.iff(bool(rs.ctxt.eval_rules["pdf_is_empty_body"](msg, lim)), n > 0 and sum(len(d) for d in sizes) <= v), "pdf_is_empty_body", lim)


@sx.obligation(params=[{"n": n} for n in (0, 1, 2)], covers=())
def sizes(n):
    """Some image within the given dimensions; or of exactly the given size."""
    rs = common.ruleset("", plugins=(IMAGE,))
    sx.patch(oa.plugins.image_info.PIL.Image, "open", Opened)
    data = [b"A", b"B"][:n]
    # areas are not looked at here, so that products of unknowns do not matter
    Opened.SIZES = dict((d, (sx.integer("w" + d.decode(), 0, 40), sx.integer("h" + d.decode(), 0, 40))) for d in data)
    msg = common.message(rs.ctxt, attachments(list(zip(["image/gif", "image/png"], data))))
    kind = sx.choice("kind", ["all", "gif"])
    (a, al) = bound("minh") if n == 1 else (sx.integer("minh", 0, 40),) * 2
    b = sx.integer("minw", 0, 40)
    (c, ch), (d, dh) = [(x, None if x in (None, "") else x) for x in (sx.choice("maxh", [None, "", 0, 20]), sx.choice("maxw", [None, 0, 20]))]
    shown = [Opened.SIZES[x] for x in (data if kind == "all" else data[:1])]
    got = rs.ctxt.eval_rules["image_size_range"](msg, kind, a, b, c, d)
    sx.check(sx.iff(got, sx.or_(False, *[sx.and_(inside(h, al, ch), inside(w, b, dh)) for w, h in shown])), "image_size_range", ch, dh)
    sx.check(sx.iff(rs.ctxt.eval_rules["image_size_exact"](msg, kind, a, b), sx.or_(False, *[sx.and_(h == al, w == b) for w, h in shown])), "image_size_exact")


def alternative(text, html):
    return ("Content-Type: multipart/alternative; boundary=x\n\n--x\nContent-Type: text/plain\n\n%s\n--x\nContent-Type: text/html\n\n%s\n--x--\n" % (text, html))


def encoded(cte, *texts):
    raw = "Content-Type: multipart/mixed; boundary=x\n\n"
    for t in texts:
        raw += "--x\nContent-Type: application/octet-stream\nContent-Transfer-Encoding: %s\n\n%s\n" % (cte, t)
    return raw + "--x--\n"


# test, plugin, messages with the quantity, what has to hold
RATIOS = [
    ("check_mime_multipart_ratio", MIME, [(alternative("abc", "abcdef"), 0.5), (alternative("abcdef", "<b>abc</b>"), 0.6), (alternative("abcd", ""), 1), (alternative("a" * 9, "abc"), 3)]),
    ("check_base64_length", MIME, [(encoded("base64", "QQ=="), 4), (encoded("base64", "QUFB\nQQ==", "QQ=="), 4), (encoded("base64", "QQ==\nQUFBQUFB", "QUFB"), 8), ("\nx", 0)]),
    ("check_abundant_unicode_ratio", MIME, [("\n&#x0041;12345678", 1 / 16), ("\n&#x0041;&#xABCD;", 2 / 16), ("\nabcd", 0), ("\n&#x41;", 0)]),
    ("check_qp_ratio", MIME, [(encoded("quoted-printable", "=41=42=4"), 2 / 8), (encoded("quoted-printable", "=41", "=09abc"), 2 / 9), (encoded("quoted-printable", "=3C=3D=3D=3D"), 1 / 12),
                              (encoded("base64", "=41="), 0)]),
    ("multipart_alternative_difference", BODY, [(alternative("one two", "one two"), 0), (alternative("one", "one two"), 50), (alternative("three", "one two"), 100), (alternative("x", ""), 0)]),
    ("multipart_alternative_difference_count", BODY, [(alternative("one two", "one"), (2, 1)), (alternative("one", "one two"), (1, 2)), (alternative("x", ""), (1, 0)), (alternative("a b c", "d e"), (3, 2))]),
    ("similar_recipients", HEADER, [("To: abcde1@b.c, abcde2@d.e, fffff@g.h, iiiii@j.k, lllll@m.n\n\nx", 0.1), ("To: abcde1@b.c, abcde2@d.e, abcde3@g.h\nCc: abcde4@j.k, abcde5@m.n\n\nx", 1), ("To: abcde1@b.c, abcde2@d.e\n\nx", 0), ("X: y\n\nx", 0)]),
]


@sx.obligation(params=lambda t: [{"i": i, "m": m} for i in range(len(RATIOS)) for m in ((i % 4, (i + 2) % 4) if t == "quick" else range(4))], covers=())
def ratios(i, m):
    """Ratios of messages against bounds of any form."""
    test, plugin, cases = RATIOS[i]
    raw, x = cases[m]
    rs = common.ruleset("", plugins=(plugin,))
    msg = common.message(rs.ctxt, raw)
    scale = 32 if test == "multipart_alternative_difference" else 1
    vals = []
    for name in ("min", "max"):
        form = sx.choice(name + ".form", ["number", "integer", "text"])
        if form == "number":
            v = scale * sx.real(name, 0, 4, den=64)
            vals.append((v, v))
        elif form == "integer":
            v = sx.integer(name, 0, 120)
            vals.append((v, v))
        else:
            t = sx.text(name, 1, 1, "01235") + sx.choice(name + ".frac", ["", "0", "0.", ".0", ".5", ".25", ".0625"])
            vals.append((t, float(t)))
    (lo, l), (hi, h) = vals
    args = [lo, hi]
    if test in ("check_base64_length", "check_abundant_unicode_ratio", "check_qp_ratio") and sx.boolean("no maximum"):
        args, h = [lo], None
    if test == "similar_recipients":
        drop = sx.choice("drop", ["", "min", "max"])
        if drop == "min":
            args[0], l = sx.choice("undef", ["undef", None, ""]), None
        elif drop == "max":
            args[1], h = sx.choice("undef", ["undef", None, ""]), None
    if test == "multipart_alternative_difference_count":
        n = sx.choice("minhtml", [0, "1", 2, "3"])
        args = [lo, n]
        text, html = x
        want = sx.and_(html >= int(n), html > 0, text > l * html)
    elif test == "similar_recipients":
        want = sx.and_(True if l is None else l < x, True if h is None else x < h)
    elif test == "check_mime_multipart_ratio":
        want = sx.and_(l <= x, x < h)
    else:
        want = inside(x, l, h)
    sx.check(sx.iff(bool(rs.ctxt.eval_rules[test](msg, *args)), want), test, x, l, h)


@sx.obligation(params=[{"n": n} for n in (0, 1, 2, 3)], covers=())
def headers(n):
    """The number of headers of a name, both ends included."""
    rs = common.ruleset("", plugins=(HEADER,))
    raw = "".join("X-A: %d\n" % i for i in range(n)) + "X-B: 1\nSubject: x\n\nb\n"
    msg = common.message(rs.ctxt, raw)
    lo, l = bound("min", 9)
    hi, h = bound("max", 9)
    decide("check_header_count_range", rs.ctxt.eval_rules["check_header_count_range"](msg, "X-A", lo, hi), inside(n, l, h), n)


@sx.obligation(params=[{"target": t} for t in ("body", "rawbody")], covers=BOTH)
def vertical_words(target):
    """The ratio of spaces to other characters."""
    rs = common.ruleset("", plugins=(BODY,))
    t = sx.text("t", 3, 4, "a \n")
    msg = common.message(rs.ctxt)
    if target == "body":
        msg.text, msg.raw_text = t, "x"
    else:
        msg.text, msg.raw_text = "x", t
    lo, l = bound("min", 9)
    hi = sx.choice("max", ["40", "100", 50, 33.5])
    got = rs.ctxt.eval_rules["tvd_vertical_words"](msg, lo, hi, target=target)
    n = sx.conc(len(t))
    spaces = [t[i:i + 1] == " " for i in range(n)]
    count = sum([sx.ite(c, 1, 0) for c in spaces], 0)
    # the number of spaces is what the test's own pattern calls a space
    count = sx.conc(sum(1 for _ in oa.plugins.body_eval.SPACE_COUNT.finditer(t)))
    other = n - count
    if not other:
        sx.check(not got, "no ratio without other characters")
        sx.cover("no match")
        return
    decide("tvd_vertical_words", got, sx.and_(l * other <= 100 * count, 100 * count <= float(hi) * other), count, other)


@sx.obligation(params=[{"body": b, "n": n, "blank": k} for b, n, k in (("a\n\nb\n", 3, 1), ("a\nb\n", 2, 0), ("a\n\nb\n\nc\n\n\n", 7, 3), ("a", 0, 0))], covers=())
def blank_lines(body, n, blank):
    """The ratio of blank lines."""
    rs = common.ruleset("", plugins=(BODY,))
    msg = common.message(rs.ctxt, "Content-Type: text/plain\n\n" + body)
    lo, l = bound("min")
    hi, h = bound("max")
    m = sx.choice("minlines", [None, 1, "1", "3", 0, "0", 8])
    got = rs.ctxt.eval_rules["check_blank_line_ratio"](msg, lo, hi, *([] if m is None else [m]))
    need = 1 if m is None else max(int(m), 1)
    sx.check(sx.iff(bool(got), sx.and_(n >= need, l * n <= 100 * blank, 100 * blank <= h * n)), "check_blank_line_ratio", l, h)


def limit(name):
    k = sx.choice(name, ["undef", "text", "number"])
    if k == "undef":
        return sx.choice(name + ".absent", ["undef", None, ""]), None
    if k == "text":
        n = sx.choice(name + ".len", [1, 2]) if name == "min" else 1
        t = sx.choice(name + ".sign", ["", "-"]) + sx.text(name + ".t", n, n, "0123456789" if n == 1 else ["01", "0123456789"])
        return t, int(t)
    v = sx.integer(name + ".n", -19, 19)
    return v, v


ZONES = [("+0000", 0), ("-0800", -480), ("+0530", 330), ("GMT", 0), ("EST", -300)]


WHEN = [(ZONES[i], t) for i, t in ((0, (12, 0)), (0, (13, 0)), (0, (11, 0)), (0, (9, 59)), (1, (4, 1)), (1, (14, 1)), (2, (17, 30)), (2, (11, 59)), (3, (12, 1)), (4, (7, 0)), (4, (9, 0)))]


@sx.obligation(params=[{"headers": "Date"}, {"headers": "Resent-Date"}, {"headers": "none"}, {"headers": "bad"}], covers=())
def shifted_dates(headers):
    """The signed delay between the date and the nearest Received header, as instants: min <= hours < max, undef for no limit."""
    rs = common.ruleset("", plugins=(HEADER,))
    (zone, minutes), (h, m) = sx.choice("when", WHEN) if headers == "Date" else (("-0800", -480), (4, 30))
    date = "Mon, 06 Mar 2017 %02d:%02d:00 %s" % (h, m, zone)
    raw = {"Date": "Date: %s\n", "Resent-Date": "Date: Mon, 06 Mar 2017 01:00:00 +0000\nResent-Date: %s\n", "none": "X-Date: %s\n", "bad": "Date: x%s\n"}[headers] % date
    if headers == "bad":
        raw = "Date: soon\n"
    msg = common.message(rs.ctxt, "Received: by b with SMTP id a;\n\tMon, 06 Mar 2017 12:00:00 +0000 (UTC)\nReceived: by a with SMTP id b;\n\tMon, 06 Mar 2017 17:00:00 -0800 (PST)\n"
                         + raw + "Subject: x\n\nb\n")
    secs = (h - 12) * 3600 + m * 60 - minutes * 60
    secs = min([secs, secs - 13 * 3600], key=abs) if headers in ("Date", "Resent-Date") else 0
    # a header of exactly the same time does not count as a shift
    if headers in ("Date", "Resent-Date") and secs == 0:
        secs = -13 * 3600
    (lo, l), (hi, u) = limit("min"), limit("max")
    got = rs.ctxt.eval_rules["check_for_shifted_date"](msg, lo, hi)
    sx.check(sx.iff(bool(got), sx.and_(True if l is None else l * 3600 <= secs, True if u is None else secs < u * 3600)), "check_for_shifted_date", secs, l, u)


def ago(months):
    t = datetime.datetime.utcnow() - oa.plugins.header_eval.relativedelta.relativedelta(months=months, hours=2)
    return t.strftime("%a, %d %b %Y %H:%M:%S +0000")


@sx.obligation(params=lambda t: [{"dates": d} for d in ([(5, 1), (12, 2), (14,), (3, 1, 2), ()] if t == "quick" else [(0, 0), (1, 0), (5, 1), (11, 11), (12, 2), (14,), (3, 1, 2), ()])], covers=())
def months(dates):
    """The age of the message (the median of its dates) in whole months: min <= months < max."""
    rs = common.ruleset("", plugins=(HEADER,))
    raw = "".join("Received: by b with SMTP id a;\n\t%s (UTC)\n" % ago(m) for m in dates[1:])
    if dates:
        raw += "Date: %s\n" % ago(dates[0])
    msg = common.message(rs.ctxt, raw + "Subject: x\n\nb\n")
    (lo, l), (hi, u) = limit("min"), limit("max")
    got = rs.ctxt.eval_rules["received_within_months"](msg, lo, hi)
    if not dates:
        sx.check(not got, "no date is within any months")
        return
    m = sorted(dates)[len(dates) // 2]
    sx.check(sx.iff(bool(got), sx.and_(True if l is None else l <= m, True if u is None else m < u)), "received_within_months", m, l, u)
