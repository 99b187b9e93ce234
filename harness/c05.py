"""C05: Perl patterns keep their meaning when converted."""
import re

from symx import api as sx
from harness import common
import oa.errors
import oa.regex

BOUNDS = ("every pattern text of up to 4 symbolic characters (5 in thorough) over an alphabet holding the delimiters, flag "
          "letters, escapes and pattern characters; all nine delimiter pairs; up to 3 flag characters; both operators; "
          "subjects of up to 4 symbolic characters for concrete patterns")
OUTSIDE = ("the meaning of a regular expression once handed to Python's re module, Perl constructs with no Python equivalent "
           "(local flags, independent groups, quantified assertions are rewritten as documented in oa/regex.py)")
ASSUMPTIONS = ["re.compile is replaced by a recorder in the obligations on symbolic pattern text: its argument is the observation"]

PAIRS = {"/": "/", "{": "}", "%": "%", "<": ">", "'": "'", "~": "~", ",": ",", "!": "!", ";": ";"}
FLAG = {"i": re.I, "s": re.S, "m": re.M, "x": re.X}


class Fake(object):
    """What the recorder returns for re.compile."""
    last = None

    def __init__(self, pattern, flags, verdict):
        self.pattern = pattern
        self.flags = flags
        self.verdict = verdict

    def search(self, text, *a):
        Fake.last = (self, text)
        return self.verdict

    def match(self, text, *a):
        Fake.last = (None, text)
        return self.verdict

    fullmatch = match

    def __getattr__(self, name):
        return getattr(re.compile(sx.conc(self.pattern), sx.conc(self.flags)), name)


class FakeRe(object):
    def __init__(self, verdict):
        self.verdict = verdict

    def compile(self, pattern, flags=0):
        return Fake(pattern, flags, self.verdict)

    def __getattr__(self, name):
        return getattr(re, name)


def record(source, op, verdict):
    """(pattern, flags, result, text searched) of converting source."""
    sx.patch(oa.regex, "re", FakeRe(verdict))
    Fake.last = None
    if op is None:
        res = oa.regex.perl2re(source)
    else:
        res = oa.regex.perl2re(source, op)
    got = res.match("subject")
    fake, text = Fake.last
    sx.check(fake is not None and text == "subject", "the pattern is searched for in the whole text")
    return fake.pattern, fake.flags, got


ALPHA = {
    "/": "/\\am.g {}", "{": "{}\\amg /", "%": "%\\ams /", "<": "<>\\ax /", "'": "'\\am \"", "~": "~!=am ", ",": ",;\\am ",
    "!": "!~=gs ", ";": ";,\\im ",
}


@sx.obligation(params=lambda t: [{"d": d, "n": n} for d in PAIRS for n in ([0, 2, 3, 4] if t == "quick" else [0, 1, 2, 3, 4, 5])],
               covers=("delimiter inside",))
def text(d, n):
    """The text between the delimiters reaches the regex engine unchanged."""
    body = sx.text("p", n, n, ALPHA[d])
    sx.assume(body[n - 1:] != "\\")
    pre, post, op = sx.choice("shape", [("", "", None), ("m", "i", "=~"), (" ", "", "!~"), ("  m", " ", "!~"),
                                        ("m", "", "=~"), ("", "i", "!~")][:6 if n < 4 else 3])
    verdict = sx.boolean("hit")
    pat, flags, got = record(pre + d + body + PAIRS[d] + post, op, verdict)
    if n == 0:
        sx.cover("delimiter inside")
    elif d in body:
        sx.cover("delimiter inside")
    sx.check(pat == body, "pattern text preserved")
    sx.check(flags == (re.I if post == "i" else 0), "flags")
    sx.check(sx.iff(got, verdict != (op == "!~")), "result per operator")
    sx.observe("pattern", pat)


@sx.obligation(params=lambda t: [{"n": n} for n in range(4 if t == "quick" else 5)], covers=("junk",))
def flags(n):
    """Exactly the listed flags take effect."""
    f = sx.text("f", n, n, "ismxgodpue")
    d, op, m = sx.choice("shape", [("/", "=~", ""), ("{", "!~", "m"), ("%", "=~", "m")])
    verdict = sx.boolean("hit")
    pat, got, res = record(m + d + "a b" + PAIRS[d] + f, op, verdict)
    want = 0
    for c in "ismx":
        want = want + sx.ite(sx.or_(*[x == c for x in f]), int(FLAG[c]), 0)
    if n == 0 or "g" in f:
        sx.cover("junk")
    sx.check(pat == "a b", "pattern text preserved")
    sx.check(got == want, "exactly the listed flags take effect")
    sx.check(sx.iff(res, verdict != (op == "!~")), "result per operator")


@sx.obligation(params=lambda t: [{"n": n} for n in ([0, 1, 2, 3] if t == "quick" else [0, 1, 2, 3, 4])],
               covers=("rejected",))
def never_crashes(n):
    """Any text is converted or rejected as an invalid regex."""
    s = sx.text("s", n, n, "mg/{}<>a\\' ~,")
    sx.patch(oa.regex, "re", FakeRe(True))
    r, e = sx.run(oa.regex.perl2re, s, sx.choice("op", ["=~", "!~"]))
    if e is not None:
        sx.cover("rejected")
        sx.check(isinstance(e, oa.errors.InvalidRegex), "rejected as an invalid regular expression")
        # a proper expression is never rejected
        t = s.strip()
        if len(t) > 2 and t[0] == "m":
            t = t[1:]
        if len(t) > 2:
            for a, b in PAIRS.items():
                sx.check(sx.not_(sx.and_(t[0] == a, t[-1] == b)), "a delimited expression is accepted")
    else:
        sx.check(r is not None, "a pattern is returned")


REAL = [
    ("abc", "abc"), ("a.c", "a.c"), ("^ab$", "^ab$"), ("a|^c", "a|^c"), ("(a)b\\1", "(a)b\\1"), ("[^a]b", "[^a]b"),
    ("a{2}", "a{2}"), (r"\bab\b", r"\bab\b"), ("a b", "a b"), ("(?:a|b)+c", "(?:a|b)+c"), ("(?=a)..", "(?=a).."),
    ("a#b", "a#b"), ("A\nb", "A\nb"), ("a*?b", "a*?b"), ("(?!a)b", "(?!a)b"), ("(?<=a)b", "(?<=a)b"), ("", ""),
    # documented rewrites
    ("(?i:ab)c", "(?:ab)c"), ("(?-i:ab)c", "(?:ab)c"), ("(?^i:ab)c", "(?:ab)c"), ("(?s-m:a.)c", "(?:a.)c"),
    (r"a\b?b", r"a(\b)?b"), ("(?>ab)c", "(?:ab)c"), ("x(?i:a)(?x:b)", "x(?:a)(?:b)"), ("(?i:(?>a))b", "(?:(?:a))b"),
]


@sx.obligation(params=lambda t: [{"i": i, "f": f} for i in range(len(REAL))
                                 for f in (("", "i", "sm", "x") if t == "quick" else ("", "i", "s", "m", "x", "ismx", "gi"))],
               covers=("hit or miss",))
def meaning(i, f):
    """A converted pattern matches exactly the subjects the original matches."""
    src, py = REAL[i]
    want = 0
    for c in f:
        want = want | int(FLAG.get(c, 0))
    d = "%"
    op = sx.choice("op", ["=~", "!~"])
    res = oa.regex.perl2re(d + src + d + f, op)
    s = sx.text("s", 0, 4, "abcAB\n #")
    hit = re.compile(py, want).search(s) is not None
    sx.cover("hit or miss")
    got = res.match(s)
    sx.check(sx.iff(got, hit if op == "=~" else not hit), "same matches as the original")
    sx.observe("got", bool(got))


BAD = ["(", ")", "[", "a**", "*a", "a{2,1}", "(?<=a*)b", "\\", "(?P<a>x)(?P<a>y)", "(?P=n)", "\\2", "(?", "(?#", "[b-a]",
       "a{4294967296}", "(?a)(?u)x", "(?L)x", "\\N{foo}", "(?1)a", "\\u12", "(?P<1>a)", "x{1}{2}", "(?(1)a|b|c)", "\\x1", "\\c"]


@sx.obligation(params=[{"i": i} for i in range(len(BAD))])
def malformed(i):
    """An expression the regex engine refuses is an invalid regex."""
    d = sx.choice("d", list(PAIRS))
    sx.assume(d not in BAD[i] and PAIRS[d] not in BAD[i])
    f = sx.choice("f", ["", "i", "x", "ism"])
    r, e = sx.run(oa.regex.perl2re, sx.choice("m", ["", "m"]) + d + BAD[i] + PAIRS[d] + f, sx.choice("op", ["=~", "!~"]))
    sx.check(isinstance(e, oa.errors.InvalidRegex), "rejected as an invalid regular expression")
