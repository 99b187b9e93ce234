"""C20: daemon responses are well formed."""
from symx import api as sx
from harness import common
import oa
import oa.message

BOUNDS = ("every combination of results of 3 rules, a score change that is a multiple of 1/4 in -4..9, four thresholds, messages and report templates "
          "with up to 2 symbolic characters of 1 to 4 bytes; all commands; report_safe 0 to 2; requests with and without length")
OUTSIDE = "commands whose processing raises (the connection is closed)"

NAMES = ["ZED", "ALPHA", "MID"]
CHARS = ["a", "\u00e9", "\u20ac", "\U0001f600", "%"]


def setup(conf, scores=(1, 2, -1)):
    p = common.parser()
    res = []
    ls = list(conf)
    for i, n in enumerate(NAMES):
        r = sx.boolean("r%d" % i)
        res.append(r)
        common.add_eval(p.ctxt, "p_%d" % i, (lambda v: lambda msg, target=None: v)(r))
        ls.append("eval %s p_%d()" % (n, i))
        ls.append("score %s %d" % (n, scores[i]))
    ls += ["eval __SUB p_0()", "eval OFF p_0()", "score OFF 0", "priority MID 5"]
    common.load(common.lines(*ls), p)
    order = [2, 0, 1]
    total = sum(s for s, r in zip(scores, res) if r)
    return p.get_ruleset(), [NAMES[i] for i in order if res[i]], total


def parse(out):
    """Status line, verdict line, length and body; exactly that."""
    lines = out.split(b"\r\n", 4)
    sx.check(len(lines) == 5, "status, verdict, length, empty line, body", out)
    status, verdict, length, empty, body = lines
    sx.check(status == ("SPAMD/%s 0 EX_OK" % oa.__version__).encode("ascii"), "status line", status)
    sx.check(empty == b"", "an empty line before the body", out)
    sx.check(length == b"Content-length: " + str(len(body)).encode("ascii"), "the length is the number of bytes of the body", length, len(body))
    return verdict, body


BODY = ["CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS"]


@sx.obligation(params=[{"cmd": c, "safe": s} for c in BODY for s in ((0, 1, 2) if c in ("PROCESS", "HEADERS") else (1,))],
               covers=("spam", "ham"), max_paths=5000)
def responses(cmd, safe):
    thr = sx.choice("thr", ["2"] if cmd in ("PROCESS", "HEADERS") else ["2", "-1.5"])
    ch = sx.choice("ch", CHARS)
    where = sx.choice("where", ["subject", "body", "header"] + (["report", "describe"] if cmd.startswith("REPORT") and ch in "a\u00e9%" else []))
    conf = ["required_score " + thr, "report_safe %d" % safe,
            "report got " + (ch if where == "report" and ch != "%" else "x") + " _TESTS_ _SUMMARY_", "add_header all S _TESTS_",
            "describe ZED " + (ch if where == "describe" else "d")]
    rs, hits, total = setup(conf)
    raw = ("Subject: s" + (ch if where == "subject" else "") + "\n" + ("X-A: " + ch + "\n" if where == "header" else "") +
           "\nbody " + (ch if where == "body" else "") + "\n")
    data = raw.encode("utf8")
    sized = (ch == "a") or sx.choice("sized", [True, False])
    req = (cmd + " SPAMC/1.2\r\n").encode("ascii") + (b"Content-length: " + str(len(data)).encode("ascii") + b"\r\n" if sized else b"") + b"\r\n" + data
    out = common.request(common.server(rs), req)
    verdict, body = parse(out)
    spam = total >= float(thr)
    sx.cover("spam" if spam else "ham")
    sx.check(verdict == ("Spam: %s ; %.1f / %s" % (spam, total, float(thr))).encode("ascii"), "the verdict line", verdict)
    msg = oa.message.Message(rs.ctxt, raw)
    rs.match(msg)
    if cmd == "CHECK":
        sx.check(body == b"", "no body")
    elif cmd == "SYMBOLS":
        sx.check(body == ",".join(hits).encode("ascii"), "exactly the matched rules in order", body, hits)
    elif cmd == "REPORT" or cmd == "REPORT_IFSPAM":
        want = rs.get_report(msg).encode("utf8") if cmd == "REPORT" or spam else b""
        sx.check(body == want, "the report, only for spam if so requested", body, want)
    elif cmd == "HEADERS":
        sx.check(body == rs.get_adjusted_message(msg, header_only=True).encode("utf8"), "the headers of the message")
        sx.check(body.endswith(b"\n\n"), "the headers end with an empty line", body)
    else:
        text = body.decode("utf8")
        adj = rs.get_adjusted_message(msg)
        if spam and safe:
            # boundaries and dates differ each time
            sx.check(raw.rstrip("\n") in text and text.count("\n") == adj.count("\n"), "the adjusted message", text)
        else:
            sx.check(text == adj, "the adjusted message", text, adj)


@sx.obligation(params=lambda t: [{"n": n} for n in ((1, 2) if t == "quick" else (1, 2, 3))], covers=("done",), max_paths=6000)
def lengths(n):
    """The announced length for text of any characters."""
    cmd = sx.choice("cmd", ["REPORT", "PROCESS", "HEADERS"])
    text = sx.text("text", n, n, "a\u00e9" if cmd == "REPORT" else "a\u00e9\u20ac\U0001f600")
    rs, hits, total = setup(["report " + text if cmd == "REPORT" else "report x", "report_safe 0", "required_score 50"])
    verdict, body = parse(common.request(common.server(rs), (cmd + " SPAMC/1.2\r\n\r\nSubject: " + text + "\n\n" + text + "\n").encode("utf8")))
    got = body.decode("utf8")
    sx.cover("done")
    if cmd == "REPORT":
        sx.check(got == text + "\n", "the report", got)
    elif cmd == "PROCESS":
        sx.check(got.endswith("\n\n" + text + "\n"), "the body of the message", got)
    else:
        sx.check("\n\n" not in got[:-2], "only headers", got)


@sx.obligation(params=[{"cmd": c} for c in ("PING", "SKIP")])
def simple(cmd):
    """PING and SKIP do not look at any message."""
    rs, hits, total = setup([])
    tail = sx.text("tail", 0, 3, "a\r\n:")
    out = common.request(common.server(rs), (cmd + " SPAMC/1.2\r\n" + tail).encode("ascii"))
    want = ("SPAMD/%s 0 PONG\r\n" % oa.__version__).encode("ascii") if cmd == "PING" else b""
    sx.check(out == want, "the answer to " + cmd, out)
