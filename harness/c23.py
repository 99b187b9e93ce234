"""C23: rewriting applies the configured headers and report and nothing else."""
from symx import api as sx
from harness import common
import email
import oa
import oa.plugins.base
import socket

BOUNDS = ("every template of up to 4 characters of A _ % s and space, every documented tag for every combination of results of 3 rules; every list of up to "
          "3 header rules for two names; both verdicts; report_safe 0 to 2; messages with 1 free header character and 1 free body character")
OUTSIDE = ("messages that the email package does not reproduce (line endings other than LF, malformed headers or parts, non-ASCII headers); the same name "
           "added and removed for the same verdict; tags whose name contains an underscore")

TAGCHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_"


def scan(text):
    """[(is a tag, text)] of a template."""
    out, i, n = [], 0, len(text)
    while i < n:
        if text[i] == "_" and i + 1 < n and sx.conc(text[i + 1]) in TAGCHARS[:-1]:
            j = i + 1
            while j < n and sx.conc(text[j]) in TAGCHARS[:-1]:
                j += 1
            if j < n and text[j] == "_":
                out.append((True, text[i + 1:j]))
                i = j + 1
                continue
        out.append((False, text[i]))
        i += 1
    return out


def rules(conf, results=(True, False, False), desc=True):
    p = common.parser()
    ls = list(conf)
    for i, (n, s) in enumerate((("ONE", "1.5"), ("TWO", "2"), ("BIG", "10"))):
        common.add_eval(p.ctxt, "p_%d" % i, (lambda v: lambda msg, target=None: v)(results[i]))
        ls += ["eval %s p_%d()" % (n, i), "score %s %s" % (n, s), "describe %s text of %s" % (n, n)]
    common.load(common.lines(*ls), p)
    return p.get_ruleset()


@sx.obligation(params=lambda t: [{"where": w, "n": n} for w in ("report", "header") for n in ((2, 4) if t == "quick" else (2, 4, 5))], covers=("tag", "text"),
               max_paths=30000)
def template(where, n):
    """Only tags are replaced."""
    text = sx.text("text", n, n, ["A_%", "A_%s ", "A_ ", "A_%s", "A_"][:n] if n > 2 else "A_%s")
    # blanks at the ends belong to the line, not to the value
    sx.assume(sx.and_(text[0] != " ", text[n - 1] != " "))
    rs = rules(["report " + text if where == "report" else "add_header all T " + text])
    msg = common.message(rs.ctxt, "Subject: s\n\nb\n")
    rs.match(msg)
    want, tag = "", False
    for is_tag, t in scan(text):
        want += "@@" + t + "@@" if is_tag else t
        tag = tag or is_tag
    sx.cover("tag" if tag else "text")
    if where == "report":
        sx.check(rs.get_report(msg) == want + "\n", "tags are shown, other text untouched", rs.get_report(msg), want)
    else:
        got = rs.get_adjusted_message(msg)
        sx.check(got == "Subject: s\nX-Spam-T: " + want + "\n\nb\n", "tags are shown, other text untouched", got, want)


HITS = ["ONE", "TWO", "BIG"]
SCORES = {"ONE": "1.5", "TWO": "2.0", "BIG": "10.0"}


def expected(tag, hits, total, req):
    spam = total >= req
    if tag == "YESNO":
        return "Yes" if spam else "No"
    if tag == "YESNOCAPS":
        return "YES" if spam else "NO"
    if tag == "SCORE":
        return "%.1f" % total
    if tag == "REQD":
        return "%.1f" % req
    if tag == "VERSION":
        return oa.__version__
    if tag == "SUBVERSION":
        return oa.__release_date__
    if tag == "HOSTNAME":
        return socket.gethostname()
    if tag == "CONTACTADDRESS":
        return "me@x"
    if tag == "TESTS":
        return ",".join(hits) or "none"
    if tag == "TESTS(; )":
        return "; ".join(hits) or "none"
    if tag == "TESTSSCORES":
        return ",".join(h + "=" + SCORES[h] for h in hits) or "none"
    if tag == "PREVIEW":
        return None
    return "@@" + tag + "@@"


TAGS = ["YESNO", "YESNOCAPS", "SCORE", "REQD", "VERSION", "SUBVERSION", "HOSTNAME", "CONTACTADDRESS", "TESTS", "TESTS(; )", "TESTSSCORES", "FOO"]


@sx.obligation(params=[{"tag": t} for t in TAGS], covers=("spam", "ham"), max_paths=4000)
def tags(tag):
    """The value of each tag, in every place."""
    rs_ = [sx.boolean("r%d" % i) for i in range(3)]
    req = sx.choice("req", [5, 2, -1.5])
    rs = rules(["report [_%s_] _VERSION_" % tag, "unsafe_report u_%s_" % tag, "add_header spam T a_%s_b" % tag, "add_header ham T a_%s_b" % tag,
                "required_score %s" % req, "report_contact me@x", "report_safe 0", "remove_header all Report"], rs_)
    msg = common.message(rs.ctxt, "Subject: s\n\nb\n")
    rs.match(msg)
    hits = [n for n, r in zip(HITS, rs_) if r]
    total = sum((float(SCORES[h]) for h in hits), 0.0)
    sx.cover("spam" if req == -1.5 or (hits and total >= req) else "ham")
    want = expected(tag, hits, total, float(req))
    sx.check(rs.get_report(msg) == "[" + want + "] " + oa.__version__ + "\n", "the report", rs.get_report(msg), want)
    sx.check(rs.get_unsafe_report(msg) == "u" + want + "\n", "the unsafe report", rs.get_unsafe_report(msg), want)
    got = rs.get_adjusted_message(msg, header_only=True)
    sx.check(got == "Subject: s\nX-Spam-T: a" + want + "b\n\n", "the header", got, want)


@sx.obligation(params=[{"tag": t, "safe": s} for t in ("REPORT", "SUMMARY", "PREVIEW") for s in (0, 1)], covers=("hits", "none"), max_paths=4000)
def long_tags(tag, safe):
    """Tags of many lines stay inside their header field."""
    rs_ = [sx.boolean("r%d" % i) for i in range(3)]
    rs = rules(["add_header all T _%s_ end" % tag, "add_header all U last", "report _%s_" % tag, "report_safe %d" % safe, "required_score 11"], rs_)
    body = sx.choice("body", ["b", "one\ntwo\nX-Spam-V: x"])
    raw = "Subject: s\n\n" + body + "\n"
    msg = common.message(rs.ctxt, raw)
    rs.match(msg)
    hits = [n for n, r in zip(HITS, rs_) if r]
    sx.cover("hits" if hits else "none")
    got = rs.get_adjusted_message(msg)
    total = sum((float(SCORES[h]) for h in hits), 0.0)
    spam = total >= 11
    report = rs.get_report(msg)
    head, rest = got.split("\n\n", 1)
    names = [l.split(":", 1)[0] for l in head.split("\n") if l[:1] not in (" ", "\t")]
    if spam and safe:
        sx.check(names[-2:] == ["X-Spam-T", "X-Spam-U"] and "X-Spam-Report" not in names, "the header fields", head)
        sx.check(raw.rstrip("\n") in rest and report.strip().split("\n")[-1] in rest.replace("\r", ""), "the report and the message", rest)
    else:
        sx.check(names == ["Subject"] + (["X-Spam-Report"] if spam and not safe else []) + ["X-Spam-T", "X-Spam-U"], "the header fields", head)
        sx.check(rest == body + "\n", "the body", rest)
    words = " ".join(head.split()).split(" X-Spam-T: ")[1].split(" X-Spam-U: ")[0]
    for h in HITS:
        if tag == "REPORT":
            score = SCORES[h]
        elif tag == "SUMMARY":
            score = {"ONE": "1.5", "TWO": "2", "BIG": "10"}[h]
        else:
            continue
        line = score + " " + h + " text of " + h
        sx.check((line in words) == (h in hits) and (line in " ".join(report.split())) == (h in hits), "the tests that hit", words, report)
    if tag == "PREVIEW":
        sx.check(words == " ".join(body.split("\n")) + " [...] end" or words == " ".join(body.split("\n")) + "[...] end", "the preview", words)


RULES = [("add", s, n) for s in ("all", "spam", "ham") for n in ("A", "b")] + [("remove", s, n) for s in ("all", "spam", "ham") for n in ("a", "B")] + [("clear",)]


@sx.obligation(params=lambda t: [{"safe": s, "first": i} for s in ((0,) if t == "quick" else (0, 1)) for i in range(len(RULES) - 1)], covers=("spam", "ham"), max_paths=30000)
def headers(safe, first):
    """Lists of header rules."""
    n = sx.choice("n", [1, 2] if sx.TIER == "quick" else [1, 2, 3])
    rl = [RULES[first]] + [RULES[sx.choice("rule%d" % i, list(range(len(RULES))))] for i in range(1, n)]
    conf, mods = [], []
    for i, r in enumerate(rl):
        if r[0] == "clear":
            conf.append("clear_headers")
            mods = []
            continue
        conf.append("%s_header %s %s" % (r[0], r[1], r[2]) + (" v%d" % i if r[0] == "add" else ""))
        mods.append(r + ("v%d" % i,))
    for i, r in enumerate(mods):
        for q in mods[i + 1:]:
            sx.assume(not (r[0] != q[0] and r[1] == q[1] and r[2].lower() == q[2].lower()))
    big = sx.boolean("big")
    rs = rules(conf + ["report_safe %d" % safe, "required_score 3"], (False, False, big))
    a, b = sx.text("a", 1, 1, "x:\xa0"[:2]), sx.text("b", 1, 1, "y\n ")
    head = [("Subject", " s"), ("X-Spam-A", " forged " + a), ("X-Spam-b", "1\n\tfolded"), ("x-spam-a", " again")]
    raw = "".join(k + ":" + v + "\n" for k, v in head) + "\nbody" + b + "\n"
    msg = common.message(rs.ctxt, raw)
    rs.match(msg)
    only = sx.choice("only", [False, True])
    got = rs.get_adjusted_message(msg, header_only=only)
    sx.cover("spam" if big else "ham")
    want = list(head)
    want[2] = ("X-Spam-b", " 1\n\tfolded")
    if big and safe == 0:
        want.append(("X-Spam-Report", " \n\t* 10.0 BIG text of BIG"))
    for status in ("all", "spam" if big else "ham"):
        for r in [m for m in mods if m[0] == "add"] + [m for m in mods if m[0] == "remove"]:
            if r[1] != status:
                continue
            if r[0] == "add":
                want.append(("X-Spam-" + r[2], " " + r[3]))
            else:
                want = [w for w in want if w[0].lower() != "x-spam-" + r[2].lower()]
    if safe and big and not only:
        outer = [w for w in want[len(head):]]
        for w in outer:
            sx.check(w[0] + ":" + w[1] + "\n" in got, "the header is added", got, w)
        sx.check(raw[:-1] in got, "the message is enclosed unmodified", got)
        return
    text = "".join(k + ":" + v + "\n" for k, v in want) + "\n" + ("" if only else "body" + b + "\n")
    sx.check(got == text, "the headers and the body", got, text)


@sx.obligation(params=[{"safe": s} for s in (1, 2)], covers=("done",))
def enclosed(safe):
    """Report mode: the outer message and the original inside it."""
    rs = rules(["report_safe %d" % safe, "required_score 3", "report rep _TESTS_", "unsafe_report unsafe", "add_header spam T v", "add_header ham H v"],
               (sx.boolean("one"), False, True))
    fields = [("From", "f@x"), ("To", "t@x"), ("Subject", "s u"), ("Date", "Mon, 1 Jan 2001 01:01:01 +0000"), ("X-Other", "o")]
    keep = [f for f in fields if f[0] == "X-Other" or sx.choice("has" + f[0], [True, False])]
    body = sx.choice("body", ["b\n", "From x\n", "--b\n\n.\n", "  \n", "b", "100%\n"])
    ctype = sx.choice("ctype", ["", "Content-Type: multipart/mixed; boundary=b\n"])
    raw = "".join("%s: %s\n" % f for f in keep) + ctype + "\n" + body
    msg = common.message(rs.ctxt, raw)
    rs.match(msg)
    text = sx.conc(rs.get_adjusted_message(msg))
    out = email.message_from_string(text)
    d = dict(keep)
    sx.cover("done")
    sx.check(out["From"] == d.get("To") and out["To"] == d.get("From") and out["Subject"] == d.get("Subject"), "the outer headers", out.items())
    sx.check("Date" not in d or out["Date"] == d["Date"], "the date", out["Date"])
    sx.check(out["X-Spam-T"] == "v" and out["X-Spam-H"] is None and out["X-Other"] is None, "the added header", out.items())
    parts = out.get_payload()
    sx.check(out.get_content_type() == "multipart/mixed" and len(parts) == 2, "report and message", out.items())
    hits = ",".join(h for h, r in zip(HITS, [p for p in msg.rules_checked.values()]) if r)
    sx.check(parts[0].get_content_type() == "text/plain" and parts[0].get_payload() == "rep " + hits + "\nunsafe\n", "the report", parts[0].as_string())
    sx.check(parts[1].get_content_type() == ("message/rfc882" if safe == 1 else "text/plain"), "the type of the original", parts[1].get_content_type())
    inner = text.split("Content-Description: original message", 1)[1]
    inner = inner[inner.index("\n\n") + 2:]
    sx.check(inner.startswith(raw + "\n--") and inner[len(raw):].count("\n") == 2, "the original is unmodified", inner, raw)
