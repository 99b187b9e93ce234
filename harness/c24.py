"""C24: short-circuit rules decide the message when they hit."""
from symx import api as sx
from harness import common

BOUNDS = ("every combination of settings (none, on, off, spam, ham, two settings, invalid ones) of 3 rules, every outcome (no, yes, count, text), "
          "two orders by priority, two sets of short-circuit scores; meta rules over a short-circuited rule")
OUTSIDE = "short-circuited rules that are not checked themselves (score 0 or a name with __)"

SETTINGS = [[], ["on"], ["off"], ["spam"], ["ham"], ["on", "off"], ["spam", "ham"], ["off", "on"], ["SPAM"], ["maybe", "spam"], ["on", "x y"]]
NAMES = ["A", "B", "C"]
SCORES = {"A": 1.0, "B": 2.5, "C": -0.5}


def effective(settings):
    kind = None
    for s in settings:
        if s in ("on", "off", "spam", "ham"):
            kind = s
    return None if kind == "off" else kind


def outcome(name, kinds):
    kind = sx.choice(name + "k", kinds)
    if kind == "bool":
        return sx.boolean(name)
    if kind == "count":
        return sx.integer(name, 0, 2)
    return sx.text(name, 1, 1, "tu")


def model(order, settings, results, scores):
    hits, score, sc = [], 0.0, None
    checked = []
    for n in order:
        checked.append(n)
        if not results[n]:
            continue
        hits.append(n)
        score += SCORES[n]
        kind = effective(settings[n])
        if kind:
            sc = (n, kind)
            score += {"on": 0.0, "spam": scores[0], "ham": scores[1]}[kind]
            break
    return hits, checked, score, sc


def build(settings, results, scores, extra=()):
    p = common.parser()
    p.ctxt.load_plugin("oa.plugins.short_circuit.ShortCircuit")
    ran = []

    def test(n):
        def f(msg, target=None):
            ran.append(n)
            return results[n]
        return f
    ls = []
    for n in NAMES:
        common.add_eval(p.ctxt, "p_" + n, test(n))
        ls += ["eval %s p_%s()" % (n, n), "score %s %s" % (n, SCORES[n]), "describe %s D%s" % (n, n)]
        ls += ["shortcircuit %s %s" % (n, s) for s in settings[n]]
    if scores is not None:
        ls += ["shortcircuit_spam_score %s" % scores[0], "shortcircuit_ham_score %s" % scores[1]]
    ls += ["report _SCRULE_|_SCTYPE_|_SC_"] + list(extra)
    common.load(common.lines(*ls), p)
    return p.get_ruleset(), ran


@sx.obligation(params=[{"first": i} for i in range(len(SETTINGS))], covers=("stopped", "through", "last"), max_paths=20000)
def decide(first):
    """A sequence of three rules."""
    thorough = sx.TIER != "quick"
    settings = {"A": SETTINGS[first], "B": SETTINGS[sx.choice("b", list(range(len(SETTINGS) if thorough else 5)))],
                "C": SETTINGS[sx.choice("c", [3, 4, 0] if not thorough else list(range(5)))]}
    scores = sx.choice("scores", [None, (7, -3.5)]) if first < 5 else (7, -3.5)
    order = sx.choice("order", [["A", "B", "C"], ["B", "C", "A"]])
    results = {"A": outcome("ra", ["bool", "count", "text"]), "B": sx.boolean("rb"), "C": sx.boolean("rc")}
    rs, ran = build(settings, results, scores, ["priority B 2", "priority C 1"] if order[0] == "B" else [])
    msg = common.message(rs.ctxt)
    rs.match(msg)
    hits, checked, score, sc = model(order, settings, results, scores or (100.0, -100.0))
    if effective(SETTINGS[first]) is None or sc is not None:
        sx.cover("stopped")
    if sc is None:
        sx.cover("through")
    if sc is None or sc[0] == order[-1]:
        sx.cover("last")
    sx.check(ran == checked, "nothing runs after a short-circuit", ran, checked)
    sx.check(msg.score == score, "the score", msg.score, score)
    got = [n for n, r in msg.rules_checked.items() if r]
    sx.check(got == hits, "the rules that hit", got, hits)
    rep = rs.get_report(msg)
    want = "%s|%s|%s (%s)\n" % (sc + sc) if sc else "none|off|no\n"
    sx.check(rep == want, "the recorded class", rep, want)
    desc = results["A"] if sx.conc(len(results["A"]) if isinstance(results["A"], type(SETTINGS[8][0])) else 0) else "DA"
    for n in hits:
        sx.check(msg.rules_descriptions[n] == (desc if n == "A" else "D" + n), "the description", msg.rules_descriptions[n])


@sx.obligation(params=[{"kind": k, "meta": m} for k in ("on", "spam", "ham", "off") for m in ("A && B", "A || B", "B && A", "!A")], covers=("done",))
def metas(kind, meta):
    """A short-circuited rule reached through a meta rule, and a short-circuited meta rule."""
    results = {n: sx.boolean("r" + n) for n in NAMES}
    which = sx.choice("which", ["sub", "meta"])
    rs, ran = build({"A": [kind] if which == "sub" else [], "B": [], "C": []}, results, (10, -10),
                    ["meta M " + meta, "score M 4"] + (["shortcircuit M " + kind] if which == "meta" else ["priority M 5"]) + ["priority C -5"])
    msg = common.message(rs.ctxt)
    rs.match(msg)
    a, b, c = [results[n] for n in NAMES]
    value = {"A && B": sx.and_(a, b), "A || B": sx.or_(a, b), "B && A": sx.and_(a, b), "!A": sx.not_(a)}[meta]
    value = bool(value)
    add = {"on": 0, "off": 0, "spam": 10, "ham": -10}[kind]
    # is the rule reached when the meta rule is computed or afterwards?
    if which == "sub":
        stop = bool(a) and kind != "off"
        if stop:
            reached = meta != "B && A" or bool(b)
            before = {} if reached else {"M": value}
            want = dict(before)
            want["A"] = True
            score = 1.0 + add + (4.0 if before.get("M") else 0.0)
        else:
            want = {"M": value, "A": bool(a), "B": bool(b), "C": bool(c)}
            score = None
    else:
        stop = value and kind != "off"
        want = {"A": bool(a), "B": bool(b), "M": value}
        if not stop:
            want["C"] = bool(c)
        score = None
    if score is None:
        score = sum({"M": 4.0, "A": 1.0, "B": 2.5, "C": -0.5}[n] for n, v in want.items() if v) + (add if stop else 0)
    got = {n: bool(v) for n, v in msg.rules_checked.items() if v}
    sx.cover("done")
    sx.check(got == {n: v for n, v in want.items() if v}, "the rules that hit", got, want)
    sx.check(msg.score == score, "the score", msg.score, score)
