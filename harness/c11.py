"""C11: options take their documented typed values and never leak."""
from fractions import Fraction

from symx import api as sx
from harness import common
import oa.conf
import oa.context
import oa.plugins.base

BOUNDS = ("option texts of up to 4 symbolic characters for numbers and time values (5 in thorough), up to 3 for the other types; sequences "
          "of up to 3 option lines (4 in thorough) distributed over 2 contexts in any order; the real options of the core and of every "
          "importable plugin plus a plugin holding one option of every type")
OUTSIDE = "exponents, infinities and not-a-number in number texts; digits outside ASCII"
ASSUMPTIONS = []


class AllTypes(oa.plugins.base.BasePlugin):
    options = {
        "o_int": ("int", 3), "o_float": ("float", 2.5), "o_bool": ("bool", True), "o_str": ("str", "d"), "o_list": ("list", ["d"]),
        "o_append": ("append", []), "o_append2": ("append", ["d"]), "o_asplit": ("append_split", []), "o_asplit2": ("append_split", ["x", "y"]),
        "o_clear": ("clear", ["o_append", "o_asplit2"]), "o_time": ("timevalue", 7),
    }


def attach(p, cls=AllTypes):
    plugin = cls(p.ctxt)
    p.ctxt.plugins[cls.__name__] = plugin
    return plugin


def snapshot(conf):
    return {k: (list(conf[k]) if isinstance(conf[k], list) else conf[k]) for k, (t, d) in conf.options.items() if t != "clear"}


def number(text, real):
    """(is a number, value) by a hand-written reader."""
    t = text.strip(" \t")
    sign = 1
    if t[:1] == "-" or t[:1] == "+":
        if t[0] == "-":
            sign = -1
        t = t[1:]
    digits, frac, seen = 0, None, False
    scale = 1
    for c in t:
        if c == "." and real and frac is None:
            frac = True
        elif c in "0123456789":
            seen = True
            digits = digits * 10 + int(c)
            if frac:
                scale = scale * 10
        else:
            return False, None
    if not seen:
        return False, None
    v = digits * sign
    if real:
        v = v / float(scale) if scale > 1 else v + 0.0
    return True, v


@sx.obligation(params=lambda t: [{"kind": k, "n": n} for k in ("int", "float") for n in ((1, 2, 3, 4) if t == "quick" else (1, 2, 3, 4, 5))],
               covers=("value", "no value"), max_paths=5000)
def numbers(kind, n):
    """Integers and numbers; anything else leaves the option unchanged."""
    text = sx.text("t", n, n, "1250-+.a" if kind == "float" else "125-+.a")
    p = common.parser()
    plugin = attach(p)
    before = snapshot(plugin)
    common.load("o_" + kind + " " + text + "\n", p)
    ok, val = number(text, kind == "float")
    if n == 1:
        sx.cover("no value")
    got = plugin["o_" + kind]
    if ok:
        sx.cover("value")
        sx.check(got == val, "the option has the value of the text", text, got)
        sx.check(isinstance(got, int) == (kind == "int"), "of the documented type")
    else:
        sx.cover("no value")
        sx.check(got == before["o_" + kind], "a text that is no value leaves the option unchanged", text, got)
    after = snapshot(plugin)
    for k in before:
        if k != "o_" + kind:
            sx.check(sx.same(before[k], after[k]), "other options are unchanged", k)


@sx.obligation(params=lambda t: [{"n": n} for n in ((1, 2, 3) if t == "quick" else (1, 2, 3, 4))], covers=("value", "no value"), max_paths=6000)
def timevalues(n):
    """Time values with a unit are seconds."""
    text = sx.text("t", n, n, ["015.-m"] * (n - 1) + ["05.smhdwx"])
    p = common.parser()
    plugin = attach(p)
    common.load("o_time " + text + "\n", p)
    unit = 1
    num = text
    last = text[n - 1]
    if last in "smhdw":
        unit = sx.ite(last == "s", 1, sx.ite(last == "m", 60, sx.ite(last == "h", 3600, sx.ite(last == "d", 86400, 604800))))
        num = text[:n - 1]
    ok, val = number(num, True)
    got = plugin["o_time"]
    if n == 1:
        sx.cover("no value")
    if ok and val >= 0:
        sx.cover("value")
        sx.check(sx.and_(got - val * unit < 0.000001, val * unit - got < 0.000001), "the option has the value of the text in seconds", text, got)
    else:
        sx.cover("no value")
        sx.check(got == 7, "a text that is no value leaves the option unchanged", text, got)


@sx.obligation(params=lambda t: [{"n": n} for n in ((1, 2, 3, 4) if t == "quick" else (1, 2, 3, 4, 5))], covers=("texts",), max_paths=5000)
def texts(n):
    """Switches, texts and lists."""
    val = sx.text("v", n, n, ["1tTa", "rR0 ,", "uU,", "eEs", "1"])
    sx.assume(val[n - 1:] != " ")
    p = common.parser()
    plugin = attach(p)
    common.load("o_bool " + val + "\no_str " + val + "\no_list " + val + "\no_append " + val + "\no_append2 " + val + "\no_asplit " + val
                + "\no_asplit2 " + val + "\n", p)
    sx.cover("texts")
    sx.check(sx.iff(plugin["o_bool"], sx.or_(val == "1", val.lower() == "true")), "switch")
    sx.check(plugin["o_bool"] is True or plugin["o_bool"] is False or not isinstance(plugin["o_bool"], str), "switch type")
    sx.check(plugin["o_str"] == val, "text")
    parts, words = [""], []
    cur = ""
    for c in val:
        if c == ",":
            parts.append("")
        else:
            parts[-1] = parts[-1] + c
        if c == " ":
            if len(cur):
                words.append(cur)
            cur = ""
        else:
            cur = cur + c
    if len(cur):
        words.append(cur)
    sx.check(sx.same(plugin["o_list"], parts), "list separated by commas")
    sx.check(sx.same(plugin["o_append"], [val]) and sx.same(plugin["o_append2"], ["d", val]), "accumulated list")
    sx.check(sx.same(plugin["o_asplit"], words) and sx.same(plugin["o_asplit2"], ["x", "y"] + words), "accumulated words")


LINES = ["o_append", "o_append2", "o_asplit2", "o_clear", "o_str", "o_int", "o_list"]


@sx.obligation(params=lambda t: [{"first": f, "k": 3 if t == "quick" else 4} for f in LINES], covers=("both", "cleared"), max_paths=9000)
def histories(first, k):
    """Every context sees exactly its own lines, whatever the interleaving."""
    ps = [common.parser(), common.parser()]
    plugins = [attach(p) for p in ps]
    defaults = {"o_append": [], "o_append2": ["d"], "o_asplit2": ["x", "y"], "o_str": "d", "o_int": 3, "o_list": ["d"], "o_asplit": [],
                "o_float": 2.5, "o_bool": True, "o_time": 7}
    model = [dict((a, list(b) if isinstance(b, list) else b) for a, b in defaults.items()) for _ in ps]
    used = set()
    for i in range(k):
        w = first if i == 0 else sx.choice("w%d" % i, LINES)
        c = sx.choice("c%d" % i, [0, 1]) if i else 0
        used.add(c)
        v = sx.text("v%d" % i, 1, 1, "12")
        common.load(w + " " + v + "\n", ps[c], name="f%d.cf" % i)
        m = model[c]
        if w in ("o_append", "o_append2", "o_asplit2"):
            m[w] = m[w] + [v]
        elif w == "o_clear":
            sx.cover("cleared")
            m["o_append"], m["o_asplit2"] = [], []
        elif w == "o_int":
            m[w] = int(v)
        elif w == "o_list":
            m[w] = [v]
        else:
            m[w] = v
    if len(used) == 2:
        sx.cover("both")
    late = common.parser()
    plugins.append(attach(late))
    model.append(defaults)
    for plugin, m in zip(plugins, model):
        for key in m:
            sx.check(sx.same(plugin[key], m[key]), "options hold exactly what was configured in this context", key, plugin[key])


def real_confs(ctxt_parser):
    from harness import c09
    names = []
    for plugin, o in c09.PO:
        if plugin not in names:
            names.append(plugin)
    return names


ADD = {"append": "q1", "append_split": "q1", "list": "q1", "split": "q1", "str": "q1", "int": "41", "float": "41", "bool": "0", "timevalue": "41"}


def typed():
    from harness import c09
    out = []
    for plugin in [None] + sorted({p for p, o in c09.PO}):
        out.append({"plugin": plugin})
    return out


@sx.obligation(params=typed(), covers=("option",), max_paths=3000)
def real(plugin):
    """Every option of the core and of the plugins."""
    ps = [common.parser(), common.parser()]
    confs = []
    for p in ps:
        if plugin:
            p.ctxt.load_plugin(plugin)
            confs.append(p.ctxt.plugins[plugin.rsplit(".", 1)[1]])
        else:
            confs.append(p.ctxt.conf)
    opts = confs[0].options
    names = sorted(k for k in opts if k not in RULE_WORDS)
    sx.cover("option")
    if not names:
        return
    key = sx.choice("key", names)
    kind = opts[key][0]
    before = [snapshot(c) for c in confs]
    digit = sx.text("digit", 1, 1, "56")
    tail = digit if kind not in ("bool", "clear") else ""
    fill = sx.boolean("fill")
    if fill:
        for k in names:
            if k != key and opts[k][0] in ("append", "append_split"):
                common.load(k + " w\n", ps[0], name="fill.cf")
        before[0] = snapshot(confs[0])
    common.load(key + " " + ADD.get(kind, "") + tail + "\n", ps[0])
    after = [snapshot(c) for c in confs]
    text = ADD.get(kind, "") + tail
    for k in before[0]:
        sx.check(sx.same(before[1][k], after[1][k]), "the other context is unaffected", k)
        want = before[0][k]
        if kind == "clear":
            if k in opts[key][1]:
                want = []
        elif k == key:
            want = {"append": lambda: want + [text], "append_split": lambda: want + [text], "list": lambda: [text], "split": lambda: [text],
                    "str": lambda: text, "int": lambda: int(text), "float": lambda: float(int(text)), "bool": lambda: False,
                    "timevalue": lambda: float(int(text))}[kind]()
        sx.check(sx.same(after[0][k], want), "the option, and only it, has the configured value", k, after[0][k])
    third = common.parser()
    if plugin:
        third.ctxt.load_plugin(plugin)
        conf = third.ctxt.plugins[plugin.rsplit(".", 1)[1]]
    else:
        conf = third.ctxt.conf
    now = snapshot(conf)
    for k in now:
        sx.check(sx.or_(sx.same(now[k], before[1][k]), sx.known("F01", k in ("whitelist_subject", "blacklist_subject"))),
                 "a new context starts with the defaults", k)


import oa.rules.parser
RULE_WORDS = oa.rules.parser.KNOWN_2_RTYPE | {"uri_detail", "include", "ifplugin", "loadplugin", "require_version"}
