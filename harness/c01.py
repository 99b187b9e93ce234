"""C01: score accounting of one check."""
from symx import api as sx
from harness import common
import oa.context
import oa.errors
import oa.message
import oa.plugins.base
import oa.rules.base
import oa.rules.ruleset

BOUNDS = ("up to 4 checked rules (5 in thorough) of arbitrary rational scores in [-100,100]/4; "
          "outcome of each rule symbolic: match, text, empty text, no match, truthy/falsy "
          "objects, five exception types, stop; two plugins observing the hooks; one or two checks")
OUTSIDE = "more rules; scores beyond the range; exceptions not derived from Exception"


class Rule(oa.rules.base.BaseRule):
    """A rule whose outcome is decided by the solver."""
    rule_type = "probe"

    def __init__(self, i, events):
        super(Rule, self).__init__("R%d" % i, desc="desc%d" % i)
        self.events = events
        self.i = i

    def match(self, msg):
        self.events.append(self.i)
        self.kind = k = sx.choice("out%d" % self.i, OUTCOMES)
        if k == "text":
            return "some text"
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "none":
            return None
        if k == "one":
            return 1
        if k == "zero":
            return 0
        if k == "stop":
            raise oa.errors.StopProcessing("enough")
        raise {"err": ValueError, "key": KeyError, "os": OSError, "type": TypeError,
               "oaerr": oa.errors.PluginError, "inhibit": oa.errors.InhibitCallbacks,
               "assert": AssertionError}[k]("boom")


FULL = ["text", "true", "false", "none", "one", "zero", "stop", "err", "key", "os",
        "type", "oaerr", "inhibit", "assert"]
SHORT = ["text", "true", "false", "stop", "err"]
OUTCOMES = FULL


class P1(oa.plugins.base.BasePlugin):
    events = None

    def check_end(self, ruleset, msg):
        self.events.append("end1")

    def auto_learn_discriminator(self, ruleset, msg):
        self.events.append("learn1")


class P2(oa.plugins.base.BasePlugin):
    events = None

    def check_end(self, ruleset, msg):
        self.events.append("end2")

    def auto_learn_discriminator(self, ruleset, msg):
        self.events.append("learn2")


def build(n, outcomes):
    global OUTCOMES
    sx.patch(globals(), "OUTCOMES", outcomes)
    ctxt = oa.context.GlobalContext()
    events = []
    for c in (P1, P2):
        p = c(ctxt)
        p.events = events
        ctxt.plugins[c.__name__] = p
    rs = oa.rules.ruleset.RuleSet(ctxt)
    rules = []
    for i in range(n):
        r = Rule(i, events)
        rs.add_rule(r)
        r.score = sx.real("score%d" % i, -100, 100, 65536)
        rules.append(r)
    msg = oa.message.Message(ctxt, "Subject: hi\n\nbody\n")
    return ctxt, rs, rules, msg, events


MATCHED = ("text", "true", "one")
STOP = ("stop",)


def verify(rules, msg, events, base=0):
    ran = [e for e in events if isinstance(e, int)]
    # exactly a prefix ran, in order, ended only by a stop request
    sx.check(ran == list(range(len(ran))), "rules run once each and in order")
    for r in rules[:len(ran)]:
        if r.kind == "stop":
            sx.check(r.i == len(ran) - 1, "a stop request ends the evaluation")
    if len(ran) < len(rules):
        sx.check(rules[len(ran) - 1].kind == "stop", "only a stop request ends it early")
    sx.check(events[len(ran):] == ["end1", "end2", "learn1", "learn2"],
             "end of check and auto-learn run once, in order")
    expected = base
    matched = []
    done = [r for r in rules[:len(ran)] if r.kind != "stop"]
    for r in done:
        if r.kind in MATCHED:
            expected = expected + r.score
            matched.append(r)
    sx.check(msg.score == expected, "score is the sum of the matched rules")
    sx.check(list(msg.rules_checked.keys()) == [r.name for r in done],
             "one result for each rule that ran")
    for r in done:
        sx.check(bool(msg.rules_checked[r.name]) == (r.kind in MATCHED),
                 "recorded result is the outcome")
    want = {}
    for r in matched:
        want[r.name] = "some text" if r.kind == "text" else r.description
    sx.check(dict(msg.rules_descriptions) == want, "descriptions of the matched rules")
    sx.observe("score", msg.score)
    sx.observe("checked", {k: bool(v) for k, v in msg.rules_checked.items()})


@sx.obligation(params=lambda t: [{"n": 1, "o": "FULL"}, {"n": 2, "o": "FULL"},
                                 {"n": 3, "o": "FULL" if t == "thorough" else "SHORT"},
                                 {"n": 4, "o": "SHORT"}] +
               ([{"n": 5, "o": "SHORT"}] if t == "thorough" else []),
               covers=("early stop", "all ran", "some matched"))
def accounting(n, o):
    ctxt, rs, rules, msg, events = build(n, FULL if o == "FULL" else SHORT)
    rs.match(msg)
    if len([e for e in events if isinstance(e, int)]) < n:
        sx.cover("early stop")
    else:
        sx.cover("all ran")
    if msg.rules_descriptions:
        sx.cover("some matched")
    verify(rules, msg, events)


@sx.obligation()
def zero_rules():
    ctxt, rs, rules, msg, events = build(0, SHORT)
    rs.match(msg)
    verify(rules, msg, events)


class HookErr(oa.plugins.base.BasePlugin):
    """Stops the chain of the end-of-check event."""

    def check_end(self, ruleset, msg):
        self.inhibit_further_callbacks()


@sx.obligation(covers=("inhibited",))
def hooks_after_inhibit():
    """Even when a plugin stops one chain the other step still runs."""
    ctxt, rs, rules, msg, events = build(1, SHORT)
    ctxt.plugins["HookErr"] = HookErr(ctxt)
    rs.match(msg)
    sx.cover("inhibited")
    verify(rules, msg, events)


@sx.obligation(covers=("meta",))
def real_rules():
    """The same accounting with rules loaded from configuration text."""
    a = sx.boolean("has_a")
    b = sx.boolean("has_b")
    body = ("alpha " if a else "x ") + ("beta" if b else "y")
    sc = sx.choice("sc", ["1", "-2.5", "0.25", "3"])
    sd = sx.choice("sd", ["1", "-2.5", "7"])
    rs = common.ruleset(common.lines(
        "body A /alpha/", "score A " + sc, "describe A about a",
        "body B /beta/", "score B " + sd,
        "body __C /./",
        "body OFF /./", "score OFF 0",
        "meta M A && B", "score M 4"))
    msg = common.message(rs.ctxt, "Subject: s\n\n" + body + "\n")
    rs.match(msg)
    want = 0
    if a:
        want += float(sc)
    if b:
        want += float(sd)
    if a and b:
        want += 4.0
        sx.cover("meta")
    sx.check(msg.score == want, "score is the sum of the matched rules")
    sx.check(sorted(k for k, v in msg.rules_checked.items() if v) ==
             [n for n, f in (("A", a), ("B", b), ("M", a and b)) if f],
             "matched rules are the ones whose text occurs")
    sx.check(sorted(msg.rules_checked) == ["A", "B", "M"], "active rules are recorded")
    sx.check(sorted(msg.rules_descriptions) ==
             [n for n, f in (("A", a), ("B", b), ("M", a and b)) if f],
             "only matched rules are described")
