"""C31: white and black lists match whole addresses as configured."""
from symx import api as sx
from harness import common

PLUGIN = "oa.plugins.wlbl_eval.WLBLEvalPlugin"
BOUNDS = ("senders and recipients of up to 6 characters out of 'abA.@' against 11 patterns with at most two '*'; two addresses and two patterns of a list; "
          "up to two relays (trusted or not) out of 6 names and 5 addresses with 9 forms of the host of a whitelist_from_rcvd entry; "
          "hosts of URIs of up to 6 characters out of 'aA.-' in 4 forms of URI with listed, excluded and delisted hosts")
OUTSIDE = "'?' in patterns; patterns without '@' and '.' (ignored); how the addresses are extracted from the headers (C14)"
ASSUMPTIONS = "the addresses of the message are those returned by Message.get_from_addresses and get_to_addresses"

PATTERNS = ["a@b.a", "*@b.a", "*@*.a", "a*@b", "*.a", "b.a", "*.b", "A@B.*", "a.a@b", "*@b.*", "a*.a"]


def matches(pattern, address):
    """Whole-address match with "*" for any text, ignoring the case."""
    if "@" not in pattern:
        pattern = "*@" + pattern
    p, a = pattern.lower().split("*"), address.lower()
    if len(p) == 1:
        return a == p[0]
    res = sx.and_(a.startswith(p[0]), a.endswith(p[-1]), len(a) >= sum(len(x) for x in p))
    if len(p) == 3 and p[1]:
        return sx.and_(res, sx.or_(*[a[i:i + len(p[1])] == p[1] for i in range(len(p[0]), sx.conc(len(a)) - len(p[2]) - len(p[1]) + 1)]))
    return res


def message(rs, sender=(), to=(), headers=""):
    msg = common.message(rs.ctxt, headers + "Subject: x\n\nbody\n")
    msg.get_from_addresses = lambda: iter(list(sender))
    msg.get_to_addresses = lambda: iter(list(to))
    return msg


def start(rs, msg):

    def call(name, *args):
        return bool(rs.ctxt.eval_rules[name](msg, *(args + ("header",))))
    return call


LISTS = [("whitelist_from", "check_from_in_whitelist", 0), ("blacklist_from", "check_from_in_blacklist", 0), ("whitelist_to", "check_to_in_whitelist", 1),
         ("blacklist_to", "check_to_in_blacklist", 1), ("all_spam_to", "check_to_in_all_spam", 1), ("more_spam_to", "check_to_in_more_spam", 1)]


@sx.obligation(params=lambda t: [{"pattern": p, "which": i % 6} for i, p in enumerate(PATTERNS)], covers=("listed", "not listed"))
def addresses(pattern, which):
    option, test, to = LISTS[which]
    rs = common.ruleset("%s %s\n" % (option, pattern), plugins=(PLUGIN,))
    addr = sx.text("address", 1, 6, "abA.@") if "@" in pattern else sx.text("local", 0, 2, "abA.") + "@" + sx.text("domain", 1, 4, "abA.")
    call = start(rs, message(rs, *([[], [addr]] if to else [[addr], []])))
    want, got = matches(pattern, addr), call(test)
    sx.cover("listed" if got else "not listed")
    sx.check(sx.iff(got, want), "the address matches the list", pattern, addr, got)
    if option.endswith(("_from", "_to")) and option != "all_spam_to":
        other = call("check_to_in_list" if to else "check_from_in_list", option)
        sx.check(sx.iff(other, want), "the address matches the list", pattern, addr, other)
    for o, t, k in LISTS:
        if o != option:
            sx.check(not call(t), "the other lists stay empty", t)


@sx.obligation(params=[{"which": i} for i in range(6)], covers=())
def several(which):
    """Several lines of an option, several patterns on one line, several addresses."""
    option, test, to = LISTS[which]
    pats = [sx.choice("p%d" % i, ["a@b", "*@a.b", "b@*"]) for i in range(2)]
    text = "%s %s %s\n" % (option, pats[0], pats[1]) if sx.choice("one line", [True, False]) else "%s %s\n%s %s\n" % (option, pats[0], option, pats[1])
    addrs = [sx.choice("a%d" % i, ["A@B", "x@a.b", "b@c", "a@ba", "c@b"]) for i in range(2)]
    rs = common.ruleset(text, plugins=(PLUGIN,))
    call = start(rs, message(rs, *([[], addrs] if to else [addrs, []])))
    want = any(bool(matches(p, a)) for p in pats for a in addrs)
    sx.check(call(test) == want, "any address matches any pattern", pats, addrs)


NAMES = ["mx.b.org", "b.org", "xb.org", "MX.B.ORG", "", None]
IPS = ["1.2.3.4", "1.2.3.40", "1.2.4.9", "9.9.9.9", "2001:db8::1"]
HOSTS = ["b.org", "[1.2.3.4]", "1.2.3.4", "[1.2.3.0/24]", "1.2.", "B.Org", "mx.b.org", "[2001:db8::/32]", "c.org"]


def in_host(host, relay):
    h = host.strip("[]").lower()
    nets = {"1.2.3.4": ["1.2.3.4"], "1.2.3.0/24": ["1.2.3.4", "1.2.3.40"], "1.2.": ["1.2.3.4", "1.2.3.40", "1.2.4.9"], "2001:db8::/32": ["2001:db8::1"]}
    if h in nets:
        return relay["ip"] in nets[h]
    name = (relay["rdns"] or "").lower()
    return name == h or name.endswith("." + h)


@sx.obligation(params=[{"host": i, "untrusted": u, "trusted": t} for i in range(len(HOSTS)) for u, t in ((0, 0), (1, 0), (1, 1), (0, 1), (0, 2), (2, 0)) if u + t < 2 or i < 4], covers=())
def received(host, untrusted, trusted):
    default = (host + untrusted) % 2 == 1
    option, test, forged = (("def_whitelist_from_rcvd", "check_from_in_default_whitelist", "check_forged_in_default_whitelist") if default
                            else ("whitelist_from_rcvd", "check_from_in_whitelist", "check_forged_in_whitelist"))
    pattern = sx.choice("pattern", ["a@b", "*@b", "b.a"])
    allowed = sx.choice("allowed", [None, "a@b", "b@b"])
    text = "%s %s %s\n" % (option, pattern, HOSTS[host]) + ("whitelist_allow_relays %s\n" % allowed if allowed else "")
    if trusted or sx.choice("second entry", [False, True]):
        text += "%s z@z z.org\n" % option
    rs = common.ruleset(text, plugins=(PLUGIN,))
    addr = sx.text("address", 3, 4, "abA@") if (untrusted, trusted) == (1, 0) else sx.choice("address", ["A@b", "a@a", "B@b.A"])
    relays = []
    for i in range(untrusted + trusted):
        relays.append({"ip": sx.choice("ip%d" % i, IPS if untrusted + trusted == 1 else IPS[i:i + 3]) if ":" in HOSTS[host] or HOSTS[host].strip("[")[0].isdigit() else "9.9.9.9",
                       "rdns": sx.choice("rdns%d" % i, NAMES if untrusted + trusted == 1 else NAMES[i::2]) if not HOSTS[host].strip("[")[0].isdigit() else "mx.b.org"})
    msg = message(rs, [addr])
    msg.untrusted_relays, msg.trusted_relays = relays[:untrusted], relays[untrusted:]
    call = start(rs, msg)
    used = relays[:1] if untrusted else relays
    listed = matches(pattern, addr)
    right = any(in_host(HOSTS[host], r) for r in used)
    got = call(test)
    sx.check(sx.iff(got, sx.and_(listed, right)), "the address and the relay match", text, addr, used, got)
    want = sx.and_(listed, bool(used) and not right, sx.not_(matches(allowed, addr)) if allowed else True)
    got = call(forged)
    sx.check(sx.iff(got, want), "a listed address through another relay", text, addr, used, got)


SENDERS = ["a@b.org", "a@x.b.org", "A@MX.B.Org", "a@c.org", "a", "", None, "a@co.uk", "a@b.co.uk", "a@"]


@sx.obligation(params=[{"untrusted": u, "trusted": t} for u, t in ((0, 0), (1, 0), (1, 1), (0, 1), (0, 2), (2, 0))], covers=())
def mailfrom(untrusted, trusted):
    rs = common.ruleset("util_rb_2tld co.uk\n", plugins=(PLUGIN,))
    sender = sx.choice("sender", SENDERS)
    relays = [{"ip": "9.9.9.9", "rdns": sx.choice("rdns%d" % i, NAMES + ["x.co.uk", "mx.b.co.uk"])} for i in range(untrusted + trusted)]
    msg = message(rs)
    msg.sender_address = sender
    msg.untrusted_relays, msg.trusted_relays = relays[:untrusted], relays[untrusted:]
    got = start(rs, msg)("check_mailfrom_matches_rcvd")
    base = {"a@b.org": "b.org", "a@x.b.org": "b.org", "A@MX.B.Org": "b.org", "a@c.org": "c.org", "a@co.uk": "co.uk", "a@b.co.uk": "b.co.uk"}.get(sender)
    used = relays[:1] if untrusted else relays
    want = base is not None and any((r["rdns"] or "").lower() == base or (r["rdns"] or "").lower().endswith("." + base) for r in used)
    sx.check(got == want, "the domain of the sender is the one of the relay", sender, used, got)


URIS = ["http://%s", "%s", "https://%s:8080/b.a?x=a.a#b", "http://u:p@%s/"]


def under(host, name):
    return sx.or_(host == name, host.endswith("." + name))


@sx.obligation(params=[{"form": f, "conf": c} for f in range(len(URIS)) for c in range(5)], covers=())
def hosts(form, conf):
    host = sx.text("host", 1, 6, ["aA-", "aA.-", "aA.-", "aA.-", "aA.-", "aA"])
    sx.assume(sx.not_(host.endswith(".")))
    lines = {0: "enlist_uri_host (L) a.a\nenlist_uri_host (M) -a\n", 1: "enlist_uri_host (L) a.a !a.a.a -\n", 2: "enlist_uri_host (L) a.a -a\ndelist_uri_host (L) a.a\nenlist_uri_host (M) a.a\n",
             3: "enlist_uri_host (L) A.a -a\ndelist_uri_host -a\nenlist_uri_host (M) -a\n", 4: "whitelist_uri_host a.a\nblacklist_uri_host a-a\n"}[conf]
    rs = common.ruleset(lines, plugins=(PLUGIN,))
    msg = message(rs)
    pre, post = URIS[form].split("%s")
    msg.uri_list = {pre + host + post} if not sx.choice("two", [False, True]) else ["http://b.b/a.a", pre + host + post]
    call = start(rs, msg)
    h = host.lower()
    if conf == 4:
        sx.check(sx.iff(call("check_uri_host_in_whitelist"), under(h, "a.a")), "the white list of hosts", host)
        sx.check(sx.iff(call("check_uri_host_in_blacklist"), under(h, "a-a")), "the black list of hosts", host)
        return
    want = {0: under(h, "a.a"), 1: sx.and_(sx.or_(under(h, "a.a"), under(h, "-")), sx.not_(under(h, "a.a.a"))), 2: under(h, "-a"), 3: under(h, "a.a")}[conf]
    other = {0: under(h, "-a"), 1: False, 2: under(h, "a.a"), 3: False}[conf]
    for name, w in (("L", want), ("M", other)):
        sx.check(sx.iff(call("check_uri_host_listed", name), w), "the list of hosts", name, host)
