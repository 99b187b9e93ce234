"""C13: relays split into trusted/untrusted and internal/external consistently."""
from symx import api as sx
from harness import common
import oa.message

BOUNDS = ("chains of up to 3 relays (4 in thorough); every relay's address has a symbolic digit and may be missing, private, public or IPv6; symbolic "
          "authentication; symbolic trusted, internal (with exclusion) and MSA networks; nothing configured")
OUTSIDE = "configurations with MSA networks but neither trusted nor internal networks (undocumented)"
ASSUMPTIONS = ["the relay records come from the Received parser (C14); here they are symbolic records handed over in its place"]


class Chain(object):
    relays = []

    def __init__(self, headers):
        self.received = Chain.relays


KINDS = ("v4", "none", "v6")


def build(n, kinds=KINDS):
    relays, facts = [], []
    for i in range(n):
        kind = kinds[0] if len(kinds) == 1 else sx.choice("kind%d" % i, kinds)
        d = sx.text("d%d" % i, 1, 1, "0123")
        auth = sx.boolean("auth%d" % i)
        ip = {"v4": "1" + d + ".0.0.7", "none": "", "v6": "260" + d + "::7"}[kind]
        relays.append({"rdns": "r%d" % i, "ip": ip, "by": "b%d" % i, "helo": "h%d" % i, "ident": "", "id": "i%d" % i, "envfrom": "",
                       "auth": "ESMTPA" if auth else ""})
        facts.append((kind, d, auth))
    return relays, facts


def member(entries, kind, d):
    r = False
    for k, e, ex in reversed(entries):
        c = sx.and_(k == kind, e == d)
        r = sx.or_(sx.and_(c, not ex), sx.and_(sx.not_(c), r))
    return r


def net(kind, d):
    return {"v4": "1" + d + ".", "v6": "260" + d + "::/16"}[kind]


def tag(rs):
    return " ".join("%s" for r in rs) % tuple(
        "[ ip=" + r["ip"] + " rdns=" + r["rdns"] + " helo=" + r["helo"] + " by=" + r["by"] + " ident= envfrom= intl=" + str(r["intl"]) + " id="
        + r["id"] + " auth=" + r["auth"] + " msa=" + str(r["msa"]) + " ]" for r in rs)


def ids(rs):
    return [r["id"] for r in rs]


def verify(text, relays, facts, T, I, M, configured):
    p = common.load(text)
    rs = p.get_ruleset()
    sx.patch(oa.message, "ReceivedParser", Chain)
    Chain.relays = relays
    msg = common.message(rs.ctxt)
    trusted, internal = [], []
    t = i = True
    msa = False
    want = []
    for r, (kind, d, auth) in zip(relays, facts):
        if kind == "none":
            continue
        if t and not msa:
            if configured:
                if sx.and_(sx.not_(sx.or_(member(T, kind, d), False)), not auth):
                    t = i = False
                else:
                    if i and sx.and_(not auth, sx.not_(member(I, kind, d))):
                        i = False
                    if member(M, kind, d):
                        msa = True
            else:
                private = sx.and_(kind == "v4", d == "0")
                if sx.and_(sx.not_(private), not auth):
                    t = i = False
        want.append((r["id"], t, i))
    sx.cover("trusted" if want and want[0][1] else "untrusted")
    if want and want[-1][2] != want[-1][1]:
        sx.cover("split")
    sx.check(ids(msg.trusted_relays) == [w[0] for w in want if w[1]], "trusted relays", text)
    sx.check(ids(msg.untrusted_relays) == [w[0] for w in want if not w[1]], "untrusted relays", text)
    sx.check(ids(msg.internal_relays) == [w[0] for w in want if w[2]], "internal relays", text)
    sx.check(ids(msg.external_relays) == [w[0] for w in want if not w[2]], "external relays", text)
    for r in msg.trusted_relays + msg.untrusted_relays:
        sx.check(int(r["intl"]) == (1 if r["id"] in ids(msg.internal_relays) else 0), "the intl mark", text)
    for name, rl in (("RELAYSTRUSTED", msg.trusted_relays), ("RELAYSUNTRUSTED", msg.untrusted_relays),
                     ("RELAYSINTERNAL", msg.internal_relays), ("RELAYSEXTERNAL", msg.external_relays)):
        sx.check(msg.plugin_tags[name] == tag(rl), "the tag describes the relays", name, msg.plugin_tags[name])


def params(t):
    out = []
    for n in ((0, 1, 2, 3) if t == "quick" else (0, 1, 2, 3, 4)):
        for conf in ("none", "t", "i", "ti", "tim", "t!i"):
            out.append({"n": n, "conf": conf})
    return out


@sx.obligation(params=params, covers=("trusted", "untrusted", "split"), max_paths=9000)
def chains(n, conf):
    """The split of a chain under networks and authentication."""
    kinds = KINDS if n < 2 or (n == 2 and conf in ("ti", "none")) else ("v4",) if n > 2 else ("v4", "none")
    relays, facts = build(n, kinds)
    T, I, M = [], [], []
    text = ""
    nk = "v6" if n == 1 and sx.boolean("netv6") else "v4"
    if "t" in conf:
        d = sx.text("tn", 1, 1, "012" if n < 3 else "01")
        text = text + "trusted_networks " + net(nk, d) + "\n"
        T.append((nk, d, False))
    if "i" in conf:
        ex = "!" in conf
        d = sx.text("in", 1, 1, "012" if n < 3 else "1")
        text = text + "internal_networks " + ("!" if ex else "") + net("v4", d) + "\n"
        I.append(("v4", d, ex))
        T.append(("v4", d, ex))
        if ex:
            # one more entry covering something
            text = text + "internal_networks 10.\n"
            I.append(("v4", "0", False))
            T.append(("v4", "0", False))
    else:
        I = list(T)
    if "m" in conf:
        d = sx.text("mn", 1, 1, "012" if n < 3 else "1")
        text = text + "msa_networks " + net("v4", d) + "\n"
        M.append(("v4", d, False))
    if n < 2 or conf == "none" or "i" not in conf:
        sx.cover("split")
    if n == 0:
        sx.cover("trusted")
        sx.cover("untrusted")
    verify(text, relays, facts, T, I, M, bool(T))
