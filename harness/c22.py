"""C22: TELL performs exactly the requested learning actions."""
from symx import api as sx
from harness import common
import oa
import oa.errors
import oa.plugins.base

BOUNDS = ("every presence, order and letter case of Set, Remove and Message-class; every list of up to 2 targets (local, remote, other text up to 2 "
          "characters) with blanks around them; two plugins, one of which may stop the others")
OUTSIDE = "which plugins are local and which remote (the plugin interface has no such notion); classes other than spam and ham"

CALLS = []
STOP = {}


class First(oa.plugins.base.BasePlugin):
    eval_rules = ("checked",)

    def plugin_report(self, msg):
        CALLS.append(("first", True, msg.raw_msg))
        if STOP["stop"]:
            raise oa.errors.InhibitCallbacks()

    def plugin_revoke(self, msg):
        CALLS.append(("first", False, msg.raw_msg))

    def checked(self, msg, target=None):
        CALLS.append(("check",))


class Second(oa.plugins.base.BasePlugin):
    def plugin_report(self, msg):
        CALLS.append(("second", True, msg.raw_msg))

    def plugin_revoke(self, msg):
        CALLS.append(("second", False, msg.raw_msg))


def start(stop):
    del CALLS[:]
    STOP["stop"] = stop
    p = common.parser()
    p.ctxt.load_plugin("harness.c22.First")
    p.ctxt.load_plugin("harness.c22.Second")
    rs = common.load("eval A checked()\nscore A 1\n", p).get_ruleset()
    flags = []
    report, revoke = rs.ctxt.hook_report, rs.ctxt.hook_revoke

    def hook_report(msg, spam=True, local=True, remote=True):
        flags.append(("Set", spam, local, remote))
        return report(msg, spam, local, remote)

    def hook_revoke(msg, spam=False, local=True, remote=True):
        flags.append(("Remove", spam, local, remote))
        return revoke(msg, spam, local, remote)
    sx.patch(rs.ctxt, "hook_report", hook_report)
    sx.patch(rs.ctxt, "hook_revoke", hook_revoke)
    return common.server(rs), flags


def expect(setv, remv, spam, raw, stop, said):
    """(flags, calls, acknowledgements); the values are lists of targets."""
    flags, calls, ack = [], [], ""
    if setv:
        flags.append(("Set", spam, "local" in setv, "remote" in setv))
        calls.append(("first", spam, raw))
        if not (spam and stop):
            calls.append(("second", spam, raw))
        ack += "DidSet: " + said["Set"] + "\r\n"
    if remv:
        flags.append(("Remove", spam, "local" in remv, "remote" in remv))
        calls += [("first", False, raw), ("second", False, raw)]
        ack += "DidRemove: " + said["Remove"] + "\r\n"
    return flags, calls, ack


def run(headers, setv, remv, spam, stop, raw, said):
    srv, flags = start(stop)
    data = raw.encode("ascii")
    out = common.request(srv, ("TELL SPAMC/1.2\r\n" + "".join(h + "\r\n" for h in headers) + "\r\n").encode("ascii") + data)
    f, c, ack = expect(setv, remv, spam, raw, stop, said)
    sx.check(sx.same(CALLS, c), "the plugins are told exactly what was requested", CALLS, c)
    sx.check(flags == f, "the class and targets handed to the plugins", flags, f)
    sx.check(out == ("SPAMD/%s 0 EX_OK\r\n" % oa.__version__ + ack).encode("ascii"), "exactly the performed actions are acknowledged", out, ack)


VALUES = {"local": ["local"], "remote": ["remote"], "local,remote": ["local", "remote"], "remote, local": ["remote", "local"]}


@sx.obligation(params=[{"cls": c, "first": f} for c in ("spam", "ham", None) for f in ("Set", "Remove")], covers=("both", "one", "none"))
def actions(cls, first):
    """Every combination of headers, with the class anywhere."""
    setv = sx.choice("set", [None] + sorted(VALUES))
    remv = sx.choice("remove", [None] + sorted(VALUES))
    case = sx.choice("case", [str, str.lower, str.upper])
    hs = [(n, v) for n, v in (("Set", setv), ("Remove", remv)) if v is not None]
    if first == "Remove":
        hs.reverse()
    if cls is not None:
        hs.insert(sx.choice("pos", list(range(len(hs) + 1))), ("Message-class", case(cls)))
    stop = sx.boolean("stop")
    raw = "Subject: s\n\n" + sx.text("body", 1, 1, "ab\n") + "\n"
    sx.cover("both" if setv and remv else "one" if setv or remv else "none")
    run([case(n) + ": " + v for n, v in hs], VALUES.get(setv), VALUES.get(remv), cls != "ham", stop, raw,
        {"Set": setv, "Remove": remv})


def piece(name):
    """A target and its meaning (None: it has none)."""
    kind = sx.choice(name, ["local", "remote", "text", "part"])
    if kind == "text":
        return sx.text(name + "t", 0, 2, "lo x;"), None
    if kind == "part":
        return sx.choice(name + "p", ["loca", "locall", "remot", "no-remote", "local remote"]), None
    return (sx.choice(name + "b", ["", " ", "\t"]) + kind + sx.choice(name + "a", ["", " "])), kind


@sx.obligation(params=[{"header": h, "n": n} for h in ("Set", "Remove") for n in (1, 2)], covers=("some", "none"))
def targets(header, n):
    """Only valid targets count."""
    ps = [piece("t%d" % i) for i in range(n)]
    value = ",".join(p[0] for p in ps)
    want = [p[1] for p in ps if p[1] is not None]
    cls = sx.choice("cls", ["spam", "ham"])
    sx.cover("some" if want else "none")
    run([header + ": " + value, "Message-class: " + cls], want if header == "Set" else None, want if header == "Remove" else None,
        cls == "spam", False, "Subject: s\n\nb\n", {header: value.strip()})


@sx.obligation(params=[{"cmd": c} for c in ("CHECK", "SYMBOLS", "REPORT", "REPORT_IFSPAM", "PROCESS", "HEADERS", "PING", "SKIP")], covers=("done",))
def others(cmd):
    """Nothing is learned by the other commands."""
    srv, flags = start(False)
    header = sx.choice("header", ["Set", "Remove"])
    cls = sx.choice("cls", ["spam", "ham"])
    common.request(srv, (cmd + " SPAMC/1.2\r\n" + header + ": local\r\nMessage-class: " + cls + "\r\n\r\nSubject: s\n\nb\n").encode("ascii"))
    sx.check(not flags and all(c == ("check",) for c in CALLS), "nothing is learned", flags, CALLS)
    sx.cover("done")
