"""C27: Bayes probabilities are sane."""
from symx import api as sx
from harness import common
import oa.plugins.bayes

BOUNDS = ("token counts: every split of 0..12 (thorough: 0..24) sightings for the corpus sizes 24/24, 24/300, 300/24 and 200/1000; scanning: up to 3 known tokens, one with "
          "every split of 0..4 sightings, at most 2 significant ones used, hapaxes on and off; 6 corpus sizes with all minimum numbers 0..300; every combined probability that is a "
          "multiple of 1/1024 for five score ranges")
OUTSIDE = ("the logarithms and exponentials of the chi-square combination (replaced by an arbitrary value between 0 and 1); the real arithmetic of the "
           "solver stands for floating point")

SIZES = [(24, 24), (24, 300), (300, 24), (200, 1000)]


def plugin(text=""):
    p = common.parser()
    p.ctxt.load_plugin("oa.plugins.bayes.BayesPlugin")
    rs = common.load("use_bayes 1\n" + text, p).get_ruleset()
    return rs, p.ctxt.plugins["BayesPlugin"]


@sx.obligation(params=[{"ns": a, "nn": b, "hapaxes": h} for a, b in SIZES for h in (True, False)], covers=("used", "unused"))
def tokens(ns, nn, hapaxes):
    rs, pl = plugin("" if hapaxes else "bayes_use_hapaxes 0\n")
    total = sx.choice("total", list(range(0, 13 if sx.TIER == "quick" else 25)))
    s = sx.integer("spam", 0, total)
    n = total - s
    got = pl._compute_prob_for_all_tokens([(b"a", s, n, 0), (b"b", s + 1, n - 1, 0)], ns, nn)
    sx.check(len(got) == 2, "one value for each token")
    if got[0] is None:
        sx.cover("unused")
        sx.check(s + n < (1 if hapaxes else 2), "no value for a rare token only", s, n)
        return
    sx.cover("used")
    p = got[0]
    sx.check(s + n >= (1 if hapaxes else 2), "no value for a rare token", s, n)
    sx.check(sx.and_(p >= 0, p <= 1), "within 0 and 1", p)
    # (0.03*0.538 + total * ratio) / (0.03 + total) where ratio = (s/ns) / (s/ns + n/nn)
    a, b = s * nn, n * ns
    ratio = (p * (0.03 + total) - 0.01614) / total
    d = ratio * (a + b) - a
    sx.check(sx.and_(d <= 1e-6 * (a + b), d >= -1e-6 * (a + b)), "the probability of a token", p)
    if n >= 1:
        sx.check(got[1] >= p - 1e-9, "a spam sighting in place of a ham one does not lower it", p, got[1])
    if n == 0:
        sx.check(p > 0.5, "seen in spam only", p)
    elif s == 0:
        sx.check(p < 0.5, "seen in ham only", p)


class FakeStore(object):
    def __init__(self, data, ns, nn):
        self.data, self.ns, self.nn, self.touched, self.changed = data, ns, nn, [], []

    def tie_db_readonly(self):
        return True
    tie_db_writeable = tie_db_readonly

    def untie_db(self):
        pass
    cleanup = get_magic_re = untie_db

    def nspam_nham_get(self):
        return self.ns, self.nn

    def tok_get_all(self, toks):
        for t in toks:
            yield self.data.get(t)

    def tok_touch_all(self, toks, atime):
        self.touched.extend(toks)

    def nspam_nham_change(self, *a):
        self.changed.append(a)
    multi_tok_count_change = seen_put = seen_delete = nspam_nham_change


RAW = "Message-Id: <a@x>\nSubject: alpha\n\nbravo charlie delta\n"


@sx.obligation(params=lambda t: [{"ns": a, "nn": b, "hapaxes": h, "known": k, "total": r} for a, b in ((4, 4), (4, 12)) for h in (True, False) for k in (1, 2, 3)
                       for r in (0, 1, 2, 4)],
               covers=(), path_s=60)
def scanning(ns, nn, hapaxes, known, total):
    rs, pl = plugin(("" if hapaxes else "bayes_use_hapaxes 0\n") + "bayes_min_spam_num 1\nbayes_min_ham_num 1\n")
    sx.patch(oa.plugins.bayes, "N_SIGNIFICANT_TOKENS", 2)
    seen = []

    def combine(a, b, probs):
        seen.append((a, b, list(probs)))
        return 0.75
    sx.patch(oa.plugins.bayes, "combine", combine)
    msg = common.message(rs.ctxt, RAW)
    names = dict((text, t) for t, text in pl.tokenise(msg))
    sx.check("bravo" in names and "charlie" in names and "delta" in names, "the words are tokens", sorted(names))
    data, counts = {}, {}
    for i, w in enumerate(("bravo", "charlie", "delta")[:known]):
        if i == 0:
            s = sx.integer("s", 0, total)
            n = total - s
        else:
            s, n = [(3, 0), (0, 2)][i - 1]
        counts[w] = (s, n)
        data[names[w]] = (names[w], s, n, 5)
    store = FakeStore(data, ns, nn)
    pl.store = store
    score = pl.scan(msg)
    # the strength of each token from the formula
    strong = {}
    for w, (s, n) in counts.items():
        if s + n < (1 if hapaxes else 2):
            continue
        a, b = s * nn, n * ns
        pr = (0.01614 + (s + n) * (a / (a + b))) / (0.03 + s + n)
        st = sx.ite(pr >= 0.5, pr - 0.5, 0.5 - pr)
        if st >= 0.346:
            strong[w] = (pr, st)
    sx.check(store.changed == [], "scanning does not learn")
    if not strong:
        sx.check(score is None and seen == [] and store.touched == [], "nothing significant is known", score)
        return
    sx.check(score == 0.75 and len(seen) == 1 and seen[0][:2] == (ns, nn), "the combined probability", score)
    probs = seen[0][2]
    used = [w for w in strong if names[w] in store.touched]
    sx.check(len(store.touched) == len(probs) == len(used) == min(2, len(strong)), "the most significant tokens are used", probs, store.touched)
    for w, p in zip([dict((v, k) for k, v in names.items())[t] for t in store.touched], probs):
        d = strong[w][0] - p
        sx.check(sx.and_(d < 1e-6, d > -1e-6), "the probability belongs to the token", w, p)
    for w in strong:
        if w not in used:
            for u in used:
                sx.check(strong[u][1] >= strong[w][1] - 1e-9, "a stronger token is left out", w, u)


@sx.obligation(params=[{"ns": a, "nn": b} for a, b in ((0, 0), (0, 3), (3, 0), (1, 1), (2, 3), (200, 199))], covers=())
def minimum(ns, nn):
    ms, mn = sx.integer("min_spam", 0, 300), sx.integer("min_ham", 0, 300)
    rs, pl = plugin("body R eval:check_bayes('0.5', '1')\n")
    pl["bayes_min_spam_num"] = ms
    pl["bayes_min_ham_num"] = mn
    sx.patch(oa.plugins.bayes, "combine", lambda *a: 0.75)
    msg = common.message(rs.ctxt, RAW)
    pl.store = FakeStore({t: (t, 1, 0, 5) for t, _ in pl.tokenise(msg)}, ns, nn)
    rs.match(msg)
    ok = sx.and_(ns >= ms, nn >= mn, ns > 0, nn > 0)
    if "R" in msg.rules_checked and msg.rules_checked["R"]:
        sx.check(ok, "a result before enough was learned", ns, ms, nn, mn)
    else:
        sx.check(sx.not_(ok), "no result though enough was learned", ns, ms, nn, mn)


RANGES = [("0.00", "0.01"), ("0.01", "0.5"), ("0.5", "0.6"), ("0.6", "0.99"), ("0.99", "1.00")]


@sx.obligation(params=[{"use": u} for u in ("", "use_learner 0\n", "use_bayes_rules 0\n", "use_bayes 0\n")], covers=())
def ranges(use):
    score = sx.real("score", 0, 1, 1024)
    rs, pl = plugin("".join("body R%d eval:check_bayes('%s', '%s')\n" % (i, a, b) for i, (a, b) in enumerate(RANGES))
                    + "bayes_min_spam_num 1\nbayes_min_ham_num 1\n" + use)
    sx.patch(oa.plugins.bayes, "combine", lambda *a: score)
    msg = common.message(rs.ctxt, RAW)
    pl.store = FakeStore({t: (t, 1, 0, 5) for t, _ in pl.tokenise(msg)}, 5, 5)
    rs.match(msg)
    for i, (a, b) in enumerate(RANGES):
        got = bool(msg.rules_checked.get("R%d" % i))
        inside = sx.and_(sx.or_(score > float(a), float(a) == 0), score <= float(b))
        if use:
            sx.check(not got, "matches though Bayes is not used", i)
        else:
            sx.check(sx.iff(got, inside), "the range of the score", a, b, score)
