"""C19: requests to the daemon are framed correctly."""
import zlib
from symx import api as sx
from harness import common
import oa.protocol.base

BOUNDS = ("message bodies of up to 4 symbolic characters of 1 to 3 bytes; any chunk size 1 to 8192, every read short by a symbolic amount; lengths 3 "
          "below to 2 above the real one, or none; option names in mixed case with symbolic surrounding blanks; option lines and lengths of up to "
          "4 symbolic bytes; request lines of up to 3 words; all commands; sequences of 2 requests; compressed messages")
OUTSIDE = "lengths written with + or _ (accepted); sockets and the forking server (the connection is a file pair here)"
ASSUMPTIONS = ["a connection is a byte stream: reads return at least one byte until the client stops sending"]

SEEN = []


def capture(msg, target=None):
    SEEN.append(msg.raw_msg)
    return False


def server():
    del SEEN[:]
    p = common.parser()
    common.add_eval(p.ctxt, "p_cap", capture)
    common.load("eval CAP p_cap()\nreport short\n", p)
    return common.server(p.get_ruleset())


class Reader(object):
    """The read side: every read can return less than asked for."""

    def __init__(self, data, short):
        self.data = data
        self.pos = 0
        self.short = short
        self.cut = sx.integer("cut", 0, len(data)) if short == "some" else -1

    def readline(self):
        e = self.pos
        n = len(self.data)
        while e < n:
            e += 1
            if self.data[e - 1:e] == b"\n":
                break
        r = self.data[self.pos:e]
        self.pos = e
        return r

    def read(self, n):
        if self.short == "one":
            n = 1
        elif self.short == "some" and n > 1 and self.cut == self.pos:
            n = n - 1
        r = self.data[self.pos:self.pos + n]
        self.pos = min(len(self.data), self.pos + n)
        return r


CHARS = ["a", "\u00e9", "\u20ac", "\n"]
NAMES = ["Content-length", "CONTENT-LENGTH", "content-length", "cOnTeNT-LenGTh"]


def conv(data):
    return data.decode("utf8", "ignore").replace("\r\n", "\n").replace("\r", "\n")


@sx.obligation(params=lambda t: [{"n": n, "chunk": c} for n in ((0, 1, 2, 3) if t == "quick" else (0, 1, 2, 3, 4, 5)) for c in (1, 2, 3, 8192)],
               covers=("sized", "until end"), max_paths=8000)
def framing(n, chunk):
    """The message is exactly the announced bytes, else everything."""
    sx.patch(oa.protocol.base.BaseProtocol, "chunk_size", chunk)
    body = "".join(sx.choice("c%d" % i, CHARS) for i in range(n)).encode("utf8")
    message = b"A: x\n\n" + body
    eol = sx.choice("eol", [b"\r\n", b"\n"]) if n == 0 else b"\r\n"
    size = sx.choice("size", [None, -3, -1, 0, 1, 2])
    head = b"CHECK SPAMC/1.2" + eol
    opts = []
    if size is not None:
        sx.cover("sized")
        opts.append(sx.choice("name", NAMES[:1 if n > 0 else 4]).encode("ascii") + b":" + (sx.choice("pad", [b"", b" "]) if n == 0 else b" ") +
                    str(len(message) + size).encode("ascii"))
    else:
        sx.cover("until end")
    extra = sx.choice("extra", [b"", b"X-Other: 7", b"user: nobody"]) if n == 0 else b""
    if extra:
        opts.insert(sx.choice("at", [0, len(opts)]), extra)
    for o in opts:
        head += o + eol
    srv = server()
    out = common.request(srv, b"", Reader(head + eol + message, sx.choice("short", ["no", "one", "some"])))
    want = message if size is None or size >= 0 else message[:size]
    sx.check(len(SEEN) == 1, "one message is processed")
    sx.check(SEEN[0] == conv(want), "exactly the bytes sent are processed", SEEN, want)
    sx.check(out.startswith(b"SPAMD/") and b" 0 EX_OK\r\n" in out, "answered", out)


@sx.obligation(params=lambda t: [{"n": n} for n in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4))], covers=("bad", "end", "option"), max_paths=9000)
def options(n):
    """A malformed option line is answered and nothing is processed."""
    # a and A: bytes that are no UTF-8 text, or a blank
    chars = [sx.choice("b%d" % i, [b"a", b":", b" ", b"\xe9", b"\xc3\xa9", b"\t", b"\r"]) for i in range(n)]
    line = b"".join(chars)
    srv = server()
    where = sx.choice("where", ["first", "second"])
    data = b"CHECK SPAMC/1.2\r\n" + (b"User: x\r\n" if where == "second" else b"") + line + b"\r\n\r\nSubject: y\n\nb"
    out = common.request(srv, b"", Reader(data, "no"))
    try:
        text = line.decode("utf8").strip()
        bad = text != "" and ":" not in text
    except UnicodeDecodeError:
        bad, text = True, None
    if bad:
        sx.cover("bad")
        sx.check(b" 76 Bad header line" in out and out.count(b"\r\n") == 1, "answered with a bad header response", out)
        sx.check(not SEEN, "nothing is processed")
    else:
        sx.check(b" 0 EX_OK\r\n" in out, "answered")
        if text == "":
            sx.cover("end")
            sx.check(SEEN == ["\nSubject: y\n\nb"], "the message starts after the empty line", SEEN)
        else:
            sx.cover("option")
            sx.check(SEEN == ["Subject: y\n\nb"], "the message starts after the empty line", SEEN)


@sx.obligation(params=lambda t: [{"n": n} for n in ((0, 1, 2, 3) if t == "quick" else (0, 1, 2, 3, 4))], covers=(), max_paths=9000)
def lengths(n):
    """A malformed length is answered and nothing is processed."""
    text = sx.text("len", n, n, "015-a. ")
    body = "abcdefghijklmnopqrstuvwxyz"
    message = "Subject: y\n\n" + body
    srv = server()
    out = common.request(srv, b"", Reader(("CHECK SPAMC/1.2\r\n" + "Content-length: " + text + "\r\n\r\n" + message).encode("ascii"), "no"))
    t = sx.conc(text).strip()
    neg = t.startswith("-")
    digits = t[1:] if neg else t
    good = digits.isdigit() and not (neg and int(digits) > 0)
    if good:
        sx.cover("good")
        want = message[:int(digits)]
        sx.check(SEEN == [want], "exactly the announced bytes are processed", SEEN, t)
        sx.check(b" 0 EX_OK\r\n" in out, "answered", out)
    else:
        sx.cover("malformed")
        sx.check(b" 76 Bad header line" in out and out.count(b"\r\n") == 1, "answered with a bad header response", out)
        sx.check(not SEEN, "nothing is processed")


COMMANDS = ["TELL", "PING", "SKIP", "CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS"]


@sx.obligation(params=[{"cmd": c} for c in COMMANDS], covers=("known", "unknown"))
def commands(cmd):
    """Commands in any case; everything else is answered as a bad header."""
    word = ""
    for i, c in enumerate(cmd):
        word = word + (sx.text("k%d" % i, 1, 1, sorted({c, c.lower(), "x"})) if i < 2 else c)
    lead = sx.choice("lead", ["", " "])
    tail = sx.choice("tail", [" SPAMC/1.2", "", " SPAMC/1.5 more", "  SPAMC/1.2 "])
    srv = server()
    out = common.request(srv, b"", Reader((lead + word + tail + "\r\n\r\nSubject: y\n\nb").encode("ascii"), "no"))
    known = bool(word.upper() == cmd) and len(tail.split()) == 1
    if not known:
        sx.cover("unknown")
        sx.check(b" 76 Bad header line" in out, "an unknown request is answered", out)
        sx.check(not SEEN, "nothing is processed")
        return
    sx.cover("known")
    if cmd == "SKIP":
        sx.check(out == b"", "SKIP is not answered")
    else:
        sx.check((b" 0 PONG\r\n" if cmd == "PING" else b" 0 EX_OK\r\n") in out, "the command is answered", out)
    sx.check(len(SEEN) == (0 if cmd in ("PING", "SKIP", "TELL") else 1), "the message is processed")


BAD = [b"\xff\xfe", b"CHECK \xe9", b"", b"\r\n", b"CHECK", b"\x00 \x00"]


@sx.obligation(params=[{"i": i} for i in range(len(BAD))])
def garbage(i):
    srv = server()
    data = BAD[i] + sx.choice("rest", [b"", b"\r\n", b"\r\n\r\nSubject: x\n\ny"])
    out, e = sx.run(common.request, srv, b"", Reader(data, "no"))
    sx.check(e is None, "no request fails", e)
    if data != b"CHECK \xe9" + data[7:] or True:
        known = data.split(b"\n")[0].decode("utf8", "replace").split()
        if len(known) == 2 and known[0] == "CHECK":
            sx.check(b" 0 EX_OK\r\n" in out, "answered")
        else:
            sx.check(b" 76 Bad header line" in out, "answered", out)


@sx.obligation(params=[{"chunk": c} for c in (1, 5, 8192)], covers=("good", "corrupt"))
def compressed(chunk):
    sx.patch(oa.protocol.base.BaseProtocol, "chunk_size", chunk)
    message = ("Subject: x\n\n" + sx.choice("body", ["", "a", "\u20ac\u20ac"])).encode("utf8")
    data = zlib.compress(message)
    how = sx.choice("how", ["good", "cut", "plain"])
    sent = data if how == "good" else data[:-4] if how == "cut" else message
    size = sx.choice("size", [True, False])
    srv = server()
    head = b"CHECK SPAMC/1.5\r\nCompress: zlib\r\n" + (b"Content-length: " + str(len(sent)).encode("ascii") + b"\r\n" if size else b"") + b"\r\n"
    out, e = sx.run(common.request, srv, b"", Reader(head + sent, sx.choice("short", ["no", "one"])))
    sx.check(e is None, "the request is answered", e)
    if how == "good":
        sx.cover("good")
        sx.check(SEEN == [conv(message)], "the message is decompressed", SEEN)
    else:
        sx.cover("corrupt")
        sx.check(b" 76 Bad header line" in out and not SEEN, "corrupt data is answered", out)


@sx.obligation(params=[{"first": f} for f in ("CHECK", "PING", "SKIP", "bad option", "bad length", "cut", "TELL")], covers=("done",))
def sequences(first):
    """An earlier request never shows up in a later one."""
    srv = server()
    n = sx.choice("n", [0, 1, 20])
    one = {"bad option": "CHECK SPAMC/1.2\r\nUser: a\r\nnonsense\r\n\r\nSubject: one\n\n1",
           "bad length": "CHECK SPAMC/1.2\r\nContent-length: x\r\n\r\nSubject: one\n\n1",
           "cut": "CHECK SPAMC/1.2\r\nContent-length: 500\r\n\r\nSubject: one\n\n1"}.get(
        first, first + " SPAMC/1.2\r\nContent-length: %d\r\nUser: a\r\nSet: local\r\n\r\nSubject: one\n\n1" % n)
    common.request(srv, one.encode("ascii"))
    del SEEN[:]
    body = sx.text("body", 0, 3, "ab\n")
    two = "Subject: two\n\n" + body
    sized = sx.boolean("sized")
    out = common.request(srv, ("CHECK SPAMC/1.2\r\n" + ("Content-length: %d\r\n" % len(two) if sized else "") + "\r\n" + two).encode("ascii"))
    sx.check(len(SEEN) == 1 and SEEN[0] == two, "exactly the second message is processed", SEEN)
    sx.check(out.count(b"SPAMD/") == 1, "one response", out)
    sx.cover("done")
