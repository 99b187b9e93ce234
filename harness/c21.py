"""C21: each user gets the site configuration and his own preferences."""
from symx import api as sx
from harness import common
import oa
import oa.config
import oa.plugins.base

BOUNDS = ("every history of 3 (thorough: 4) requests by two users or nobody, reloads with another site configuration; five kinds of preferences of "
          "the first user; user rules allowed or not before and after the reload; results of the rules")
OUTSIDE = "site files that change without a reload; user names that contain a path separator"

RESULT = {}


class Evals(oa.plugins.base.BasePlugin):
    """A plugin of the site with an option and eval tests."""
    eval_rules = ("c21_a", "c21_b")
    options = {"c21_opt": ("str", "default"), "c21_list": ("append", [])}

    def c21_a(self, msg, target=None):
        RESULT["opt"] = (self["c21_opt"], list(self["c21_list"]), self.ctxt.username)
        return RESULT["a"]

    def c21_b(self, msg, target=None):
        return RESULT["b"]


def site(v, allow):
    """The files of a version of the site configuration and what they mean."""
    cf = ["allow_user_rules %d" % allow, "required_score %d" % (3 + v), "report_safe 0", "eval A c21_a()", "score A %d" % (1 + v),
          "c21_opt site%d" % v, "c21_list l%d" % v, "add_header all V site%d _TESTS_" % v, "body C /zed/", "score C 0.25"]
    if v == 0:
        cf += ["eval B c21_b()", "score B 2"]
    return ({"site/a.pre": "loadplugin harness.c21.Evals\n", "site/b.cf": common.lines(*cf)},
            {"req": 3.0 + v, "A": 1.0 + v, "B": 2.0 if v == 0 else None, "C": 0.25, "D": None, "opt": "site%d" % v, "list": ["l%d" % v],
             "head": "site%d" % v})


PREFS = {
    "none": ([], {}),
    "score": (["score A -4", "c21_list mine"], {"A": -4.0, "list+": "mine"}),
    "req": (["required_score -20", "c21_opt own"], {"req": -20.0, "opt": "own"}),
    "rule": (["eval D c21_a()", "score D 1.5", "score A 0"], {"D": 1.5, "A": None}),
    "header": (["add_header all V own _TESTS_", "body C /nothing/"], {"head": "own", "C": None}),
    "two": (["score A 8", "required_score 7", "c21_opt two", "eval D c21_b()", "score D -2"], {"A": 8.0, "req": 7.0, "opt": "two", "D-b": -2.0}),
}


def expect(base, prefs, a, b):
    e = dict(base)
    e["list"] = list(base["list"])
    for k, v in prefs.items():
        if k == "list+":
            e["list"].append(v)
        else:
            e[k] = v
    tests = [n for n, r in (("A", a), ("C", True), ("B", b), ("D", a)) if e[n] is not None and r]
    total = sum(e[n] for n in tests)
    if e.get("D-b") is not None and b:
        tests.append("D")
        total += e["D-b"]
    return e, tests, total


@sx.obligation(params=lambda t: [{"prefs": p, "first": f, "n": 3 if t == "quick" else 4} for p in ("none", "score", "req", "rule", "header")
                                 for f in ("ann", "bob", "nobody")], covers=("done",), max_paths=20000)
def histories(prefs, first, n):
    srv = common.server()
    version = 0
    allow = sx.choice("allow", [1, 0])
    users = {"ann": prefs, "bob": "two", "nobody": "none", "eve": "none"}

    def paths(user):
        return srv.configpath + "/../home/" + user + "/prefs"
    sx.patch(oa.config, "get_userprefs_path", paths)

    def load():
        fs, base = site(version, allow)
        for u, p in users.items():
            if p != "none":
                fs["home/" + u + "/prefs"] = common.lines(*PREFS[p][0])
        root = sx.files(fs)
        srv.sitepath = srv.configpath = root + "/site"
        srv.load_config()
        return base
    base = load()
    reloads = 0
    for i in range(n):
        ops = ["ann", "bob", "nobody"] if i < n - 1 else ["ann", "bob", "nobody"]
        op = first if i == 0 else sx.choice("op%d" % i, ops + (["reload"] if 0 < i < n - 1 and not reloads else []) + (["eve"] if i == n - 1 else []))
        if op == "reload":
            version = 1
            reloads += 1
            allow = sx.choice("allow%d" % i, [1, 0])
            base = load()
            continue
        RESULT["a"] = sx.boolean("a%d" % i) if i == n - 1 else True
        RESULT["b"] = sx.boolean("b%d" % i) if i == n - 1 else False
        out = common.request(srv, ("PROCESS SPAMC/1.2\r\n" + ("User: %s\r\n" % op if op != "nobody" else "") +
                                   "\r\nSubject: s\n\nzed\n").encode("ascii"))
        own = PREFS[users[op]][1] if allow else {}
        e, tests, total = expect(base, own, RESULT["a"], RESULT["b"])
        sx.check(out.startswith(("SPAMD/%s 0 EX_OK\r\nSpam: %s ; %.1f / %s\r\n" % (oa.__version__, total >= e["req"], total, e["req"])).encode("ascii")),
                 "the scores and the threshold of the user", out, tests)
        sx.check(("X-Spam-V: " + e["head"] + " " + ",".join(tests)).encode("ascii") in out or not tests, "the rules and headers of the user", out, tests)
        if e["A"] is not None or e["D"] is not None:
            sx.check(RESULT["opt"][:2] == (e["opt"], e["list"]), "the plugin options of the user", RESULT["opt"], e["opt"], e["list"])
            if allow and users[op] != "none":
                sx.check(RESULT["opt"][2] == op, "the user the plugins see", RESULT["opt"][2], op)
    sx.cover("done")


@sx.obligation(covers=("done",))
def home():
    name = sx.text("name", 1, 3, "ab.-")
    sx.assume(sx.not_(sx.or_(name == ".", name == "..")))
    sx.check(oa.config.get_userprefs_path(name) == "/home/" + name + "/.spamassassin/user_prefs", "the preferences of the user")
    sx.cover("done")
