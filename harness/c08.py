"""C08: configuration text means the same however it is laid out."""
from symx import api as sx
from harness import common
import oa.errors
import oa.message
import oa.rules.body
import oa.rules.header

BOUNDS = ("configurations of up to 4 effective lines (5 in thorough) over 2 rules; symbolic separators of up to 2 blanks, tabs and "
          "carriage returns; symbolic comments of up to 2 characters; symbolic values; conditionals nested up to 2 deep (3 in thorough), "
          "conditional keywords with symbolic characters; includes nested up to 2 deep and cycles over 2 files")
OUTSIDE = ("if (...) expressions, which are not supported by the package and treated as true; an else with no open conditional; "
           "conditionals left open at the end of a file; escaped \\# in values")
ASSUMPTIONS = ["files live in the engine's in-memory file system"]


def view(rs):
    """What a loaded configuration consists of."""
    out = {}
    for name, rule in list(rs.checked.items()) + list(rs.not_checked.items()):
        kind = type(rule).__name__
        if not isinstance(rule, (oa.rules.body.BodyRule, oa.rules.header.HeaderRule)):
            kind = rule.rule_type
        out[name] = (kind, rule.score, rule.description, rule.priority)
    return out


@sx.obligation(params=lambda t: [{"at": i} for i in range(4)], covers=("comment", "active"), max_paths=6000)
def layout(at):
    """Whitespace, blank lines and comments do not matter."""
    val = sx.text("val", 1, 2, "ab")
    ws = " \t"
    mid = ["\t", "  ", " \t", " "][at]     # white space inside a value is kept
    pat, desc_ = "/c" + mid + val + "/", "x" + mid + val

    def line(i, *words):
        if i != at:
            return " ".join(words[:-1]) + " " + words[-1] + "\n"
        out = sx.text("lead", 0, 2, ws)
        for j, w in enumerate(words):
            out = out + w
            if j < len(words) - 1:
                out = out + (sx.text("sep%d" % j, 1, 2, ws) if j < 2 else " ")
        tail = sx.text("tail", 0, 1, ws + "\r")
        c = sx.choice("comment", [False, True])
        if c:
            sx.cover("comment")
            tail = tail + " #" + sx.text("ctext", 0, 2, "#a\t'")
        return out + tail + "\n"

    if at != 3:
        text = line(0, "body", "R", pat) + line(1, "describe", "R", desc_) + line(2, "score", "R", "2.5")
        sx.cover("active")
        if at == 0:
            sx.cover("comment")
    else:
        # lines without any effect between the others
        junk = sx.text("j", 0, 3, " \t#b")
        sx.assume("b" not in junk.split("#")[0])
        sx.cover("comment")
        junk = junk + sx.choice("nl", ["\n", "\r\n", ""])
        pos = sx.choice("pos", [0, 1, 2, 3])
        parts = ["body R " + pat + "\n", "describe R " + desc_ + "\n", "score R 2.5\n"]
        if not junk.endswith("\n") and len(junk):
            junk = junk + "\n"
        parts.insert(pos, junk)
        text = "".join(parts)
        sx.cover("active")
    rs = common.ruleset(text)
    got = view(rs)
    sx.check(list(got) == ["R"], "exactly the configured rule")
    kind, score, desc, prio = got["R"]
    sx.check(kind == "BodyRule" and score == 2.5 and prio == 0, "rule settings")
    sx.check(desc == desc_, "description")
    msg = oa.message.Message(rs.ctxt, "Subject: q\n\nxc" + mid + "ab\n")
    rs.match(msg)
    sx.check(sx.iff(msg.rules_checked["R"], sx.or_(val == "a", val == "ab")), "pattern")


SET = [("type", "body %s /ab/"), ("type", "header %s Subject =~ /ab/"), ("score", "score %s 2"), ("score", "score %s 0 3 4 5"),
       ("describe", "describe %s one"), ("describe", "describe %s two  words"), ("priority", "priority %s 7"),
       ("priority", "priority %s -2"), ("tflags", "tflags %s net nice")]


@sx.obligation(params=lambda t: [{"first": i} for i in range(len(SET))], covers=("active", "override"),
               max_paths=9000)
def combine(first):
    """All lines naming a rule are combined; the last setting of a kind wins."""
    n = 3 if sx.TIER == "quick" else 4
    want = {"A": {}, "B": {"type": "body %s /b/"}}
    out = ["body B /b/"]
    seen = []
    for i in range(n):
        k = first if i == 0 else sx.choice("k%d" % i, list(range(len(SET))))
        name = "A" if i == 0 else sx.choice("n%d" % i, ["A", "B"])
        what, tmpl = SET[k]
        if what in want[name]:
            sx.cover("override")
        want[name][what] = tmpl
        out.append(tmpl % name)
        if i == n - 1 and first:
            # in any order: the type can come last as well
            if "type" not in want["A"]:
                out.append("body A /ab/")
                want["A"]["type"] = "body %s /ab/"
    rs = common.ruleset(common.lines(*out))
    got = view(rs)
    for name in ("A", "B"):
        w = want[name]
        if "type" not in w:
            sx.check(name not in got, "a name without a definition is no rule")
            continue
        sx.cover("active")
        kind, score, desc, prio = got[name]
        sx.check((kind == "BodyRule") == w["type"].startswith("body"), "the last definition wins")
        nums = [float(x) for x in w["score"].split()[2:]] if "score" in w else [-1.0 if "tflags" in w else 1.0]
        sx.check(score == (nums[0] if len(nums) == 1 else nums[3]), "the last score wins")
        sx.check(desc == (w["describe"].split("%s ")[1] if "describe" in w else "No description available."), "the last description wins")
        sx.check(prio == (int(w["priority"].split()[2]) if "priority" in w else 0), "the last priority wins")


@sx.obligation(params=lambda t: [{"n": n, "first": f} for n in ((4, 5) if t == "quick" else (4, 5, 6)) for f in ("L", "M")],
               covers=("inactive", "nested", "after"), max_paths=9000)
def conditionals(n, first):
    """Only lines of inactive branches have no effect."""
    p = common.parser()
    p.ctxt.load_plugin("oa.plugins.dump_text.DumpText")
    out = []
    stack = []
    active = []
    budget = 2 if sx.TIER == "quick" else 3
    closed = False
    for i in range(n):
        k = first if i == 0 else sx.choice("k%d" % i, ["L", "M", "else", "endif", "rule"])
        if k in "LM":
            sx.assume(len(stack) < budget)
            name = {"L": sx.choice("as%d" % i, ["DumpText", "Mail::SpamAssassin::Plugin::DumpText"] if i == 0 else ["DumpText"]),
                    "M": "Missing"}[k]
            out.append("ifplugin " + name)
            stack.append(k == "L")
            if len(stack) > 1:
                sx.cover("nested")
        elif k == "else":
            sx.assume(len(stack) > 0)
            stack[-1] = not stack[-1]
            out.append("else")
        elif k == "endif":
            if stack:
                stack.pop()
                closed = True
            out.append("endif")
        else:
            out.append("body R%d /a/" % i)
            if all(stack):
                active.append("R%d" % i)
                if closed:
                    sx.cover("after")
            else:
                sx.cover("inactive")
        if k != "rule" and i == 1:
            out[-1] = out[-1] + sx.text("t", 0, 1, " \t") + sx.choice("c", ["", " # endif", "\r"])
    while stack:
        out.append("endif")
        stack.pop()
    out.append("body LAST /a/")
    common.load(common.lines(*out), p)
    rs = p.get_ruleset()
    sx.check(list(view(rs)) == active + ["LAST"], "exactly the lines of active branches have an effect")


@sx.obligation(covers=("keyword", "not a keyword"), max_paths=9000,
               params=[{"cond": c, "m": m} for c in ("DumpText", "Missing") for m in (4, 5, 6)])
def keywords(cond, m):
    """Only the words else and endif are keywords."""
    p = common.parser()
    p.ctxt.load_plugin("oa.plugins.dump_text.DumpText")
    w = sx.text("w", m, m, ["e", "ln", "sd", "ei", "fs_", "f_ "][:m])
    lead = sx.text("lead", 0, 1, " \t")
    text = "ifplugin " + cond + "\nbody A /a/\n" + lead + w + "\nbody B /b/\nendif\nbody C /c/\n"
    word = w.rstrip(" ")
    common.load(text, p)
    rs = p.get_ruleset()
    on = cond == "DumpText"
    want = ["A"] if on else []
    after = on
    if word == "else":
        after = not on
    elif word == "endif":
        after = True
    if word == "else" or word == "endif":
        sx.cover("keyword")
    else:
        sx.cover("not a keyword")
    if m == 4:
        sx.cover("not a keyword")
    if m == 6:
        sx.cover("keyword")
    if after:
        want.append("B")
    sx.check(list(view(rs)) == want + ["C"], "keywords are whole words")


@sx.obligation(params=[{"pos": i} for i in range(4)], covers=("nested", "missing"))
def include(pos):
    """An include behaves like the text of the file in its place."""
    lines = ["body A /a/", "score A 2", "describe B later"]
    inner = ["score A 3", "body B /b/", "describe B early"]
    deep = sx.choice("deep", ["", "score A 4", "body A /z/"])
    val = sx.text("v", 1, 1, "123")
    inner[0] = "score A " + val
    where = sx.choice("where", [0, 1, 3])
    missing = sx.boolean("missing")
    more = {}
    outer = list(lines)
    flat = list(lines)
    body = list(inner)
    flat_inner = list(inner)
    if deep:
        sx.cover("nested")
        body.insert(where, "include deep.cf")
        flat_inner.insert(where, deep)
        more["deep.cf"] = deep + "\n"
    outer.insert(pos, "include" + sx.text("s", 1, 2, " \t") + ("missing.cf" if missing else "inc.cf") + sx.choice("t", ["", " # x"]))
    if missing:
        sx.cover("missing")
    else:
        flat[pos:pos] = flat_inner
    more["inc.cf"] = common.lines(*body)
    p = common.load(common.lines(*outer), **more)
    q = common.load(common.lines(*flat), name="flat.cf")
    a, b = view(p.get_ruleset()), view(q.get_ruleset())
    sx.check(list(a) == list(b), "same rules in the same order as in place")
    for k in a:
        sx.check(sx.same(a[k], b[k]), "same settings as in place")


@sx.obligation(params=[{"shape": s} for s in ("self", "mutual", "conditional")], covers=("cycle", "no cycle"))
def cycles(shape):
    """Inclusion cycles are reported, other repetitions are not."""
    paranoid = sx.boolean("paranoid")
    back = sx.boolean("back")
    a = "body A /a/\ninclude b.cf\ninclude b.cf\n"
    b = "body B /b/\n"
    if shape == "self":
        if back:
            b = b + "include b.cf\n"
    elif shape == "mutual":
        if back:
            b = b + "include a.cf\n"
    else:
        b = b + ("ifplugin Nope\nelse\n" if back else "ifplugin Nope\n") + "include b.cf\nendif\n"
    p, e = sx.run(common.load, a, paranoid=paranoid, **{"b.cf": b})
    if back:
        sx.cover("cycle")
        sx.check(isinstance(e, oa.errors.MaxRecursionDepthExceeded), "the cycle is reported")
        sx.check(len(e.recursion_list) > 0, "with the chain of includes")
    else:
        sx.cover("no cycle")
        sx.check(e is None, "no cycle, no error")
        if e is None:
            sx.check(list(view(p.get_ruleset())) == ["A", "B"], "files included twice are merged")
