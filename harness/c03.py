"""C03: which rules are active and which score they use."""
from symx import api as sx
from harness import common
import oa.errors
import oa.rules.base
import oa.rules.ruleset

BOUNDS = ("score lists of 0 to 6 arbitrary rational scores in [-50,50]/4, the four switches as symbolic booleans, every "
          "subset of up to 3 tflags in any order, names with and without leading underscores; score texts of up to 4 "
          "symbolic characters; every rule type from configuration text")
OUTSIDE = "scores that are not finite, more flags"

FLAGS = ["net", "noautolearn", "learn", "userconf", "nice", "multiple"]


def selected(name, scores, flags, net, bayes, auto, user):
    """(active, score) as documented; scores None when not configured."""
    if name[:2] == "__":
        return False, None
    if scores is None:
        scores = [-1.0 if "nice" in flags else 1.0]
    off = sx.or_(sx.and_("net" in flags, sx.not_(net)), sx.and_("noautolearn" in flags, auto),
                 sx.and_("learn" in flags, sx.not_(bayes)), sx.and_("userconf" in flags, sx.not_(user)))
    if len(scores) == 1:
        s = scores[0]
    else:
        s = sx.ite(bayes, sx.ite(net, scores[3], scores[2]), sx.ite(net, scores[1], scores[0]))
    return sx.and_(sx.not_(off), s != 0), s


def switches(ctxt):
    net, bayes = sx.boolean("use_network"), sx.boolean("use_bayes")
    auto, user = sx.boolean("autolearn"), sx.boolean("user_config")
    ctxt.conf["use_network"] = net
    ctxt.conf["use_bayes"] = bayes
    ctxt.conf["autolearn"] = auto
    ctxt.conf["user_config"] = user
    return net, bayes, auto, user


class R(oa.rules.base.BaseRule):
    def match(self, msg):
        return True


def subsets(k):
    out = [[]]
    for i in range(len(FLAGS)):
        out.append([FLAGS[i]])
        for j in range(len(FLAGS)):
            if i != j and k > 1:
                out.append([FLAGS[i], FLAGS[j]])
    return out


@sx.obligation(params=lambda t: [{"n": n} for n in range(0, 7)] + [{"n": -1}], covers=("active", "inactive", "invalid"))
def selection(n):
    """Scores, flags and switches of one rule."""
    p = common.parser()
    sw = switches(p.ctxt)
    scores = None if n < 0 else [sx.real("s%d" % i, -50, 50, 65536) for i in range(n)]
    flags = sx.choice("flags", subsets(2 if n in (-1, 1, 4) else 1) + [["nice", "net", "learn"], ["userconf", "noautolearn", "net"]])
    name = sx.choice("name", ["A", "_A", "__A", "A__", "___"])
    rule, e = sx.run(R, name, score=scores, tflags=list(flags) or None)
    if n >= 0 and n not in (1, 4) and name[:2] != "__":
        sx.cover("active")
        sx.cover("inactive")
        sx.cover("invalid")
        sx.check(isinstance(e, oa.errors.InvalidRule), "one or four scores")
        return
    sx.cover("invalid")
    sx.check(e is None, "the rule is valid")
    rs = p.ruleset
    rs.add_rule(rule)
    active, want = selected(name, scores, flags, *sw)
    got = name in rs.checked
    sx.check(got != (name in rs.not_checked), "either active or not")
    sx.check(sx.iff(got, active), "active exactly when enabled and the selected score is not zero")
    if got:
        sx.cover("active")
        sx.check(rule.score == want, "the selected score is used")
    else:
        sx.cover("inactive")
    msg = common.message(p.ctxt)
    rs.match(msg)
    sx.check(msg.score == (rule.score if got else 0), "only active rules count")


KINDS = [
    "body %s /x/", "rawbody %s /x/", "full %s /x/", "uri %s /x/", "header %s Subject =~ /x/", "header %s Subject:raw =~ /x/",
    "header %s From:addr =~ /x/", "header %s From:name =~ /x/", "header %s ALL =~ /x/", "header %s ToCc =~ /x/",
    "header %s MESSAGEID =~ /x/", "header %s exists:Subject", "mimeheader %s Content-Type =~ /x/",
    "mimeheader %s Content-Type:raw =~ /x/", "meta %s __S", "eval %s probe_true()", "header %s eval:probe_true()",
    "uri_detail %s text =~ /x/",
]


@sx.obligation(params=[{"i": i} for i in range(len(KINDS))], covers=("active", "inactive"))
def kinds(i):
    """The settings of the configuration reach every kind of rule."""
    p = common.parser()
    common.add_eval(p.ctxt, "probe_true", lambda msg, target=None: True)
    p.ctxt.load_plugin("oa.plugins.uri_detail.URIDetailPlugin")
    sw = switches(p.ctxt)
    name = sx.choice("name", ["NM", "__NM"])
    score, vals = sx.choice("score", [(None, None), ("0", [0]), ("-2.5", [-2.5]), ("1 2 3 4", [1, 2, 3, 4]),
                                      ("0 1.5 0 -2", [0, 1.5, 0, -2]), ("0.0", [0])])
    flags = sx.choice("flags", [[], ["nice"], ["net"], ["learn", "nice"], ["userconf", "noautolearn"]])
    out = ["body __S /x/", KINDS[i] % name]
    if score is not None:
        out.append("score %s %s" % (name, score))
    if flags:
        out.append("tflags %s %s" % (name, " ".join(flags)))
    out.append("describe %s about it" % name)
    common.load(common.lines(*out), p)
    rs = p.get_ruleset()
    active, want = selected(name, vals, flags, *sw)
    sx.check(sx.iff(name in rs.checked, active), "active exactly when enabled and the selected score is not zero")
    sx.check((name in rs.checked) != (name in rs.not_checked), "either active or not")
    rule = rs.get_rule(name)
    if name in rs.checked:
        sx.cover("active")
        sx.check(rule.score == want, "the selected score is used")
    else:
        sx.cover("inactive")
    sx.check(rule.description == "about it", "description")
    sx.observe("score", rule.score)


def num(t):
    try:
        return float(t)
    except ValueError:
        return None


@sx.obligation(params=lambda t: [{"n": n} for n in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4))], covers=("number", "zero", "invalid"))
def score_text(n):
    """The score is the number written in the configuration."""
    t = sx.text("t", n, n, "0125-.x ")
    sx.assume(t.strip() != "")
    p = common.load(common.lines("body A /x/", "score A " + t, "body B /x/", "score B 3"))
    rs = p.get_ruleset()
    sx.check("B" in rs.checked, "the other rule is loaded")
    parts = t.split()
    vals = [num(x) for x in parts]
    if None in vals or len(vals) not in (1, 4):
        sx.cover("invalid")
        if n == 1:
            sx.cover("zero")
        sx.check("A" not in rs.checked and "A" not in rs.not_checked, "an unusable score makes the rule invalid")
        return
    if vals[0] != 0:
        sx.cover("number")
        sx.check(rs.checked["A"].score == vals[0], "the configured score is used")
    else:
        sx.cover("zero")
        sx.check("A" not in rs.checked, "a zero score disables the rule")


@sx.obligation(params=[{"flag": f, "b": b} for f in ("net", "learn", "userconf", "noautolearn") for b in ("0", "1", None)],
               covers=("all",))
def from_text(flag, b):
    """Switches given as configuration lines; four scores; a flag."""
    v = [sx.integer("v%d" % i, 0, 9) if i == 1 else i for i in range(4)]
    opts = ["use_network", "use_bayes", "autolearn", "user_config"]
    mine = {"net": 0, "learn": 1, "noautolearn": 2, "userconf": 3}[flag]
    vals = [sx.choice(o, [None, "0", "1"]) if i == mine else sx.choice(o, ["0", "1"]) if i < 2 and b != o else b
            for i, o in enumerate(opts)]
    text = "".join("%s %s\n" % (o, x) for o, x in zip(opts, vals) if x is not None)
    text = text + "body A /x/\ntflags A multiple " + flag + "\nscore A " + " ".join(str(x) for x in v) + "\n"
    rs = common.ruleset(text)
    sw = [x == "1" if x is not None else o != "autolearn" for o, x in zip(opts, vals)]
    active, want = selected("A", v, [flag], *sw)
    sx.check(sx.iff("A" in rs.checked, active), "active exactly when enabled and the selected score is not zero")
    sx.cover("all")
    if "A" in rs.checked:
        sx.check(rs.checked["A"].score == want, "the selected score is used")
