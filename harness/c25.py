"""C25: automatic learning happens exactly on confident verdicts."""
from symx import api as sx
from harness import common
import oa.plugins.base

BOUNDS = ("every combination of 2 (thorough: 3) rules of the kinds header, body, uri, rawbody and meta with every flag of interest, every outcome and every "
          "score that is a multiple of 1/4 in -20..20; 3 settings of the thresholds; learning on error with BAYES_00 and BAYES_99")
OUTSIDE = "points of rules whose kind is neither header, body, uri nor meta count for the total only (as the plugin defines them)"

LEARNED = []


class BayesPlugin(oa.plugins.base.BasePlugin):
    """Stands for the classifier."""

    def plugin_report(self, msg):
        LEARNED.append("spam")

    def plugin_revoke(self, msg):
        LEARNED.append("ham")


KINDS = ["header", "body", "rawbody", "uri", "meta"]
FLAGS = ["", "learn", "noautolearn", "userconf", "autolearn_force", "net", "learn net", "nice noautolearn"]


def build(rules, conf=()):
    """rules: [(name, kind, flags, result, score)]"""
    del LEARNED[:]
    p = common.parser()
    p.ctxt.load_plugin("oa.plugins.auto_learn_threshold.AutoLearnThreshold")
    p.ctxt.load_plugin("harness.c25.BayesPlugin")
    ls = list(conf)
    for name, kind, flags, result, score in rules:
        if kind == "uri":
            # one that matches exactly if the result says so
            ls.append("uri %s /hit%s/" % (name, name))
        else:
            common.add_eval(p.ctxt, "p_" + name, (lambda v: lambda msg, target=None: v)(result))
            if kind == "meta":
                ls += ["eval __%s p_%s()" % (name, name), "meta %s __%s" % (name, name)]
            else:
                ls.append("%s %s eval:p_%s()" % (kind, name, name))
        ls.append("score %s 1" % name)
        if flags:
            ls.append("tflags %s %s" % (name, flags))
    common.load(common.lines(*ls), p)
    rs = p.get_ruleset()
    body = ""
    for name, kind, flags, result, score in rules:
        rs.get_rule(name).score = score
        if kind == "uri" and result:
            body += "http://x.com/hit%s " % name
    msg = common.message(rs.ctxt, "Subject: s\n\nb " + body + "\n")
    rs.match(msg)
    return msg


def model(rules, required=5.0, low=0.1, high=12.0, on_error=False):
    header = body = learn = points = total = 0.0
    forced = False
    names = []
    for name, kind, flags, result, score in rules:
        flags = flags.split()
        if not result:
            continue
        total += score
        names.append(name)
        if score == 0 or "noautolearn" in flags or "userconf" in flags:
            continue
        if kind == "header" or (kind == "meta" and "net" not in flags):
            header += score
        if kind in ("body", "uri") or (kind == "meta" and "net" not in flags):
            body += score
        if "learn" in flags:
            learn += score
        else:
            points += score
            forced = forced or "autolearn_force" in flags
    least = -99 if forced else 3
    if points >= high:
        if header < least or body < least or learn < -1 or total <= required:
            return []
        if on_error and "BAYES_99" in names:
            return []
        return ["spam"]
    if points < low:
        if learn > 1 or total >= required:
            return []
        if on_error and "BAYES_00" in names:
            return []
        return ["ham"]
    return []


def score(name):
    return sx.real(name, -20, 20, 4)


def rule(i, kind=None, flags=None):
    n = "R%d" % i
    return (n, kind or sx.choice("kind%d" % i, KINDS), flags if flags is not None else sx.choice("flags%d" % i, FLAGS),
            sx.boolean("hit%d" % i), score("score%d" % i))


@sx.obligation(params=lambda t: [{"k0": a, "k1": b} for a in KINDS for b in (["body", "meta"] if t == "quick" else KINDS)], covers=("spam", "ham", "none"), max_paths=20000)
def pairs(k0, k1):
    """Two rules of any kind with any flags."""
    thorough = sx.TIER != "quick"
    rules = [rule(0, k0, sx.choice("f0", FLAGS)), rule(1, k1, sx.choice("f1", FLAGS if thorough else ["", "learn"]))]
    # enough points of the other kinds so that spam is within reach
    rules += [("H", "header", "", True, 4.0), ("B", "body", "", sx.boolean("b") if thorough else True, 4.0)]
    msg = build(rules)
    want = model(rules)
    sx.cover(want[0] if want else "none")
    sx.check(sx.same(list(LEARNED), want), "what is learned", LEARNED, want)
    sx.check(msg.score == sum([r[4] for r in rules if r[3]], 0.0), "the score of the message is not changed", msg.score)


@sx.obligation(params=[{"low": l, "high": h, "req": r} for l, h in ((0.5, 6.0), (-2.0, 12.0)) for r in (5.0, 1.5)], covers=("spam", "ham", "none"))
def thresholds(low, high, req):
    """The configured thresholds."""
    rules = [rule(0, "meta", ""), rule(1, "body", "learn")]
    build(rules, ["bayes_auto_learn_threshold_nonspam %s" % low, "bayes_auto_learn_threshold_spam %s" % high, "required_score %s" % req])
    want = model(rules, req, low, high)
    sx.cover(want[0] if want else "none")
    sx.check(LEARNED == want, "what is learned", LEARNED, want)


@sx.obligation(params=[{"on": o} for o in (True, False)], covers=("spam", "ham", "none"))
def on_error(on):
    """Learning only when the classifier disagrees."""
    rules = [rule(0, "meta", ""), ("BAYES_99", "body", "learn", sx.boolean("b99"), 1.0), ("BAYES_00", "body", "learn", sx.boolean("b00"), -1.0)]
    build(rules, ["bayes_auto_learn_on_error %d" % on])
    want = model(rules, on_error=on)
    sx.cover(want[0] if want else "none")
    sx.check(LEARNED == want, "what is learned", LEARNED, want)


@sx.obligation(covers=("done",))
def history():
    """Each message is decided on its own."""
    a = [("A", "meta", sx.choice("f", ["", "autolearn_force"]), True, score("a"))]
    build(a)
    sx.check(LEARNED == model(a), "the first message", LEARNED)
    b = [("A", "meta", "", sx.boolean("hit"), score("b"))]
    build(b)
    sx.check(LEARNED == model(b), "the second message", LEARNED)
    sx.cover("done")
