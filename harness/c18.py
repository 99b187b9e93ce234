"""C18: every output agrees on one spam verdict."""
from symx import api as sx
from harness import common
import oa.plugins.base

BOUNDS = ("every score that is a multiple of 1/64 in -20..20 against every threshold written with up to 2 digits, a sign and 2 decimals; "
          "score made of a rule's score and a change by a plugin; report_safe 0, 1, 2; CHECK, SYMBOLS, REPORT, REPORT_IFSPAM, PROCESS, HEADERS, "
          "the report and the adjusted message")
OUTSIDE = "numbers outside that grid; what report text contains besides the verdict (C23); learning (C25)"


class Change(oa.plugins.base.BasePlugin):
    """Changes the score at the end of the check, as the auto-whitelist does."""
    delta = 0

    def check_end(self, ruleset, msg):
        msg.score += self.delta


CONF = """
report YN _YESNO_ _YESNOCAPS_ SC _SCORE_ RQ _REQD_
add_header all Status _YESNO_ _YESNOCAPS_ _SCORE_ _REQD_
add_header spam Bad is spam
add_header ham Good is ham
remove_header spam Dropspam
remove_header ham Dropham
"""
RAW = "Subject: hello\nX-Spam-Dropspam: here\nX-Spam-Dropham: here\n\nbody\n"


def threshold(coarse):
    if coarse:
        text, v = sx.choice("form", [(None, 5.0), ("2.5", 2.5), ("-1", -1.0), ("5.25", 5.25)])
        return text, v
    form = sx.choice("form", ["", "d", "-d", "dd", "d.d", "-d.dd"])
    if not form:
        return None, 5.0
    text, v, scale = "", 0, 1
    for i, c in enumerate(form):
        if c == "d":
            d = sx.text("d%d" % i, 1, 1, "123456789" if form[0] == "-" and i == 1 else "0123456789")
            v = v * 10 + int(d)
            text = text + d
            if "." in form[:i]:
                scale *= 10
        else:
            text = text + c
    v = v + 0.0
    if form[0] == "-":
        v = 0.0 - v
    return text, v / float(scale) if scale > 1 else v


def setup(safe, coarse=True):
    text, thr = threshold(coarse)
    ls = ["report_safe %d" % safe, CONF]
    if text is not None:
        ls.append("required_score " + text)
    hit = sx.boolean("hit")
    ls += ["eval HIT p_hit()", "score HIT 1.5", "body NO /nothing/", "score NO 100"]
    p = common.parser()
    common.add_eval(p.ctxt, "p_hit", lambda msg, target=None: hit)
    p.ctxt.plugins["change"] = plug = Change(p.ctxt)
    delta = sx.real("delta", -3, 6, 2) if coarse else sx.real("delta", -20, 20, 64)
    plug.delta = delta
    common.load(common.lines(*ls), p)
    rs = p.get_ruleset()
    score = delta + sx.ite(hit, 1.5, 0)
    return rs, hit, score, thr


def headers(text):
    out = {}
    for ln in text.split("\n\n", 1)[0].split("\n"):
        if ":" in ln and not ln.startswith(" "):
            k, v = ln.split(":", 1)
            out.setdefault(k, v.strip())
    return out


def tagged(spam, score, thr):
    return "%s %s %0.1f %0.1f" % ("Yes" if spam else "No", "YES" if spam else "NO", score, thr)


@sx.obligation(params=[{"safe": s} for s in (0, 1, 2)], covers=("spam", "ham"))
def adjusted(safe):
    rs, hit, score, thr = setup(safe)
    msg = common.message(rs.ctxt, RAW)
    rs.match(msg)
    sx.check(msg.score == score, "score")
    spam = bool(score >= thr)
    sx.cover("spam" if spam else "ham")
    order = sx.choice("order", ["report", "adjusted"])
    if order == "report":
        rep = rs.get_report(msg)
        adj = rs.get_adjusted_message(msg)
    else:
        adj = rs.get_adjusted_message(msg)
        rep = rs.get_report(msg)
    head = rs.get_adjusted_message(msg, header_only=True)
    want = "YN %s %s SC %0.1f RQ %0.1f" % ("Yes" if spam else "No", "YES" if spam else "NO", score, thr)
    sx.check(rep == want + "\n", "the report shows the verdict, score and threshold", rep, want)
    for h in (headers(adj), headers(head)):
        sx.check(h.get("X-Spam-Status") == tagged(spam, score, thr), "the tags show the verdict, score and threshold", h)
        sx.check(("X-Spam-Bad" in h) == spam, "headers for spam exactly for spam")
        sx.check(("X-Spam-Good" in h) == (not spam), "headers for ham exactly for ham")
    h = headers(head)
    sx.check(("X-Spam-Dropspam" in h) == (not spam), "headers removed for spam exactly for spam")
    sx.check(("X-Spam-Dropham" in h) == spam, "headers removed for ham exactly for ham")
    encl = "original message before" in adj
    sx.check(encl == (spam and safe != 0), "the message is enclosed exactly for spam, if configured")
    if encl:
        sx.check(want in adj, "the enclosing message has the report")


CMDS = ["CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS"]


@sx.obligation(params=[{"cmd": c, "safe": s} for c in CMDS for s in ((0, 1) if c in ("PROCESS", "HEADERS") else (1,))], covers=("spam", "ham"))
def daemon(cmd, safe):
    rs, hit, score, thr = setup(safe, cmd not in ("CHECK", "SYMBOLS"))
    out = common.request(common.server(rs), (cmd + " SPAMC/1.2\r\n\r\n" + RAW).encode("utf8")).decode("utf8")
    spam = bool(score >= thr)
    sx.cover("spam" if spam else "ham")
    first, verdict, length, rest = out.split("\r\n", 3)
    body = rest.split("\r\n", 1)[1]
    sx.check(verdict == "Spam: %s ; %.1f / %s" % ("True" if spam else "False", score, thr), "the verdict line", verdict)
    want = "YN %s %s SC %0.1f RQ %0.1f\n" % ("Yes" if spam else "No", "YES" if spam else "NO", score, thr)
    if cmd == "CHECK":
        sx.check(body == "", "no body")
    elif cmd == "SYMBOLS":
        sx.check(body == ("HIT" if hit else ""), "symbols")
    elif cmd == "REPORT":
        sx.check(body == want, "the report", body)
    elif cmd == "REPORT_IFSPAM":
        sx.check(body == (want if spam else ""), "the report exactly for spam", body)
    else:
        h = headers(body)
        sx.check(h.get("X-Spam-Status") == tagged(spam, score, thr), "the tags show the verdict, score and threshold", h)
        sx.check(("X-Spam-Bad" in h) == spam, "headers for spam exactly for spam")
        sx.check(("X-Spam-Good" in h) == (not spam), "headers for ham exactly for ham")
