"""C09: a bad configuration line never takes down the rest."""
import importlib
import inspect
import warnings

from symx import api as sx
from harness import common
from harness.c08 import view
import oa.errors
import oa.plugins.base
import oa.rules.parser

BOUNDS = ("every directive of the core and of every importable plugin, alone, with an argument and with a name and an argument; "
          "argument texts of up to 2 symbolic characters over directive specific alphabets of about 20 characters (3 in thorough), also "
          "after valid prefixes; non-strict and strict mode")
OUTSIDE = ("lines making an inclusion cycle (see C08), plugin files that do harm when loaded, directives with two or more symbolic "
           "words beyond the stated shapes")
ASSUMPTIONS = ["files live in the engine's in-memory file system", "the Pyzor client library is replaced by a stand-in"]

CORE = sorted(oa.rules.parser.KNOWN_RTYPE - {"include"}) + ["unknown_option"]
CONF = sorted(set(common.oa.conf.PADConf.options) - set(CORE))


def plugin_options():
    out = []
    for m in common.MODULES:
        if not m.startswith("oa.plugins."):
            continue
        for k, v in sorted(vars(importlib.import_module(m)).items()):
            if inspect.isclass(v) and issubclass(v, oa.plugins.base.BasePlugin) and v.__module__ == m:
                for o in sorted(set(v.options or ()) | set(v.cmds or ())):
                    out.append((m + "." + k, o))
    return out


def settings(ctxt):
    out = {}
    for plugin, data in ctxt.plugin_data.items():
        for k, v in data.items():
            if isinstance(v, (str, int, float, bool, list, tuple, type(None))):
                out[plugin, k] = list(v) if isinstance(v, (list, tuple)) else v
    return out


KEEP = ["required_score 7.5", "body KEEP1 /a/", "add_header all Keep kept"]
KEEP2 = ["score KEEP1 3", "header KEEP2 Subject =~ /b/", "meta KEEP3 KEEP1 && KEEP2", "meta __KEEP4 KEEP3 + KEEP1 > 1", "meta KEEP5 KEEP1", "trusted_networks 1.2.3.4"]


def load(line, paranoid, plugin):
    p = common.parser(paranoid)
    if plugin:
        if "pyzor" in plugin:
            # the installed library does not work on this interpreter
            import pyzor.client
            sx.patch(pyzor.client, "BatchClient", lambda **k: None)
        p.ctxt.load_plugin(plugin)
    common.load(common.lines(*(KEEP + ([line] if line is not None else []) + KEEP2)), p)
    rs = p.get_ruleset()
    return p, rs


def affected(p, word):
    """Settings the line is about."""
    keys = {word}
    for conf in [p.ctxt.conf] + list(p.ctxt.plugins.values()):
        opt = (conf.options or {}).get(word)
        if opt and opt[0] == "clear":
            keys |= set(opt[1])
    return keys


def judge(word, line, plugin=None, run=False):
    warnings.simplefilter("ignore")
    base, brs = load(None, False, plugin)
    got, e = sx.run(load, line, False, plugin)
    sx.check(e is None, "loading succeeds in non-strict mode", line, e)
    p, rs = got
    skip = affected(p, word)
    if word in ("lang",):
        return
    a, b = settings(base.ctxt), settings(p.ctxt)
    for k in a:
        if k[1] in skip or word == "loadplugin":
            continue
        sx.check(k in b and sx.same(a[k], b[k]), "other options are loaded as without the line", k, line)
    va, vb = view(brs), view(rs)
    for k in va:
        sx.check(k in vb and sx.same(va[k], vb[k]), "other rules are loaded as without the line", k, line)
    if word not in ("add_header", "remove_header", "clear_headers"):
        sx.check(sx.same(brs.header_mod, rs.header_mod), "other header rules are loaded as without the line", line)
    else:
        for k, v in brs.header_mod.items():
            for x in v:
                sx.check(word == "clear_headers" or x in rs.header_mod[k], "other header rules are loaded as without the line", line)
    if word not in ("trusted_networks", "internal_networks", "msa_networks", "clear_trusted_networks"):
        ip = common.oa.message.ipaddress.ip_address("1.2.3.4")
        sx.check(ip in p.ctxt.networks.trusted, "other networks are loaded as without the line", line)
    if run:
        msg = common.message(rs.ctxt, "Subject: b\n\na\n")
        rs.match(msg)
        for k in ("KEEP1", "KEEP2", "KEEP3", "KEEP5"):
            sx.check(bool(msg.rules_checked.get(k)), "other rules work as without the line", k, line)


def strict(line, plugin=None):
    warnings.simplefilter("ignore")
    got, e = sx.run(load, line, True, plugin)
    if e is not None:
        sx.cover("reported")
        sx.check(isinstance(e, oa.errors.PADError), "reported as one of the package's own errors", line, e)


RULEISH = sorted(set(oa.rules.parser.RULES) | {"tflags", "score", "priority", "describe", "lang"})
PREFIX = {
    "body": ["", "/a/"], "rawbody": [""], "full": [""], "uri": [""], "header": ["", "Subject =~ ", "exists:", "To:", "To:addr "],
    "mimeheader": ["", "To =~ ", "To:raw "], "meta": ["", "KEEP1 ", "(KEEP1", "KEEP1 && "], "eval": ["", "eval:f", "f("],
    "score": ["", "1 2 3 ", "1e"], "priority": ["", "1"], "tflags": ["", "net "], "describe": [""],
    "lang": ["en ", "x "],
}
ALPHA = {
    "meta": "A1&|!()<=+/* .'#", "score": "1-.e+ x,", "priority": "1-.+ x_", "eval": "f1(),'\" -#[.\\", "lang": "enC ._", "describe": "a#'% /",
    "tflags": "net ,",
}


@sx.obligation(params=lambda t: [{"word": w, "i": i} for w in sorted(PREFIX) for i in range(len(PREFIX[w]))],
               max_paths=1500, path_s=60)
def rules(word, i):
    """Rule definitions and settings with any argument."""
    n = 2 if sx.TIER == "quick" else 3
    arg = sx.text("arg", 0, n, ALPHA.get(word, "a/m{}=~!:(\\[* #"))
    line = word + (" R " if word != "lang" else " ") + PREFIX[word][i] + arg
    judge(word, line, run=True)


@sx.obligation(params=lambda t: [{"word": w, "i": i} for w in sorted(PREFIX) for i in range(len(PREFIX[w]))],
               max_paths=1200, path_s=60)
def rules_strict(word, i):
    n = 1 if sx.TIER == "quick" else 2
    arg = sx.text("arg", 0, n, ALPHA.get(word, "a/m{}=~!:(\\[* #"))
    strict(word + (" R " if word != "lang" else " ") + PREFIX[word][i] + arg)
    strict("body R /a/\n" + word + (" R " if word != "lang" else " ") + PREFIX[word][i] + arg)


OPT = {
    "trusted_networks": ["", "1.2.3", "!10/", "[::"], "internal_networks": ["", "!", "10."], "msa_networks": ["", "1."],
    "dns_query_restriction": ["", "allow", "deny "], "add_header": ["", "all ", "spam X ", "all X %_"], "remove_header": ["", "all ", "ham "],
    "dns_server": ["", "1.2.3.4:", "[::1]:"], "dns_available": ["", "test:"], "dns_options": ["", "edns="], "required_score": ["", "1."],
    "report_safe": ["", "2"], "report": ["", "_"], "loadplugin": ["", "oa.plugins.", "oa.plugins.dump_text.DumpText", "Mail::", "A /", "os.path"],
    "ifplugin": [""], "unsafe_report": ["_A"], "dns_test_interval": ["", "6"], "require_version": [""],
}
OALPHA = {"loadplugin": ".a/ :", "trusted_networks": "1.:/!a][ ", "internal_networks": "1.:/!a ", "add_header": "a_%X (", "report": "_A%(s",
          "unsafe_report": "_A%(s", "remove_header": "a_% ", "dns_query_restriction": "a. ", "dns_server": "1.:[]a"}


@sx.obligation(params=lambda t: [{"word": w, "i": i} for w in sorted(set(CORE) - set(PREFIX) | set(CONF))
                                 for i in range(len(OPT.get(w, [""])))], max_paths=600, path_s=60)
def options(word, i):
    """Options with any value."""
    n = 2 if sx.TIER == "quick" else 3
    arg = sx.text("arg", 0, n, OALPHA.get(word, "1a-.,_ %#("))
    line = word + " " + OPT.get(word, [""])[i] + arg
    if word == "ifplugin":
        line = line + "\nendif"
    judge(word, line)


@sx.obligation(params=lambda t: [{"word": w, "i": i} for w in sorted(set(CORE) - set(PREFIX) | set(CONF))
                                 for i in range(len(OPT.get(w, [""])))], max_paths=300, path_s=60)
def options_strict(word, i):
    arg = sx.text("arg", 0, 1, OALPHA.get(word, "1a-.,_ %#("))
    line = word + " " + OPT.get(word, [""])[i] + arg
    strict(line)


PO = plugin_options()
PPRE = {"uri_detail": ["", "domain =~ /a/", "raw !~ ", "x "], "replace_tag": ["", "A "], "shortcircuit": ["", "KEEP1 ", "R "],
        "replace_rules": ["", "KEEP1"], "bayes_token_sources": ["", "all "]}


@sx.obligation(params=lambda t: [{"plugin": p, "word": w, "i": i} for p, w in PO for i in range(len(PPRE.get(w, [""])))],
               max_paths=400, path_s=60)
def plugins(plugin, word, i):
    """Plugin options and rules with any value."""
    n = 2 if sx.TIER == "quick" else 3
    arg = sx.text("arg", 0, n, "1a-., %(/~" if word != "uri_detail" else "a/=~! (")
    line = word + " " + ("R " if word == "uri_detail" else "") + PPRE.get(word, [""])[i] + arg
    judge(word, line, plugin)


@sx.obligation(params=lambda t: [{"plugin": p, "word": w, "i": i} for p, w in PO for i in range(len(PPRE.get(w, [""])))],
               max_paths=200, path_s=60)
def plugins_strict(plugin, word, i):
    arg = sx.text("arg", 0, 1, "1a-., %(/~" if word != "uri_detail" else "a/=~! (")
    strict(word + " " + ("R " if word == "uri_detail" else "") + PPRE.get(word, [""])[i] + arg, plugin)
