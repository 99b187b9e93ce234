"""C29: DNS is queried only when allowed."""
from symx import api as sx
from harness import common
import dns.exception
import dns.name
import dns.resolver
import oa.dns_interface

BOUNDS = ("every name of 1..5 (thorough: 6) characters over a, b, A and the dot with 8 sets of restrictions; availability yes, no and test with every combination of answers of "
          "up to 4 test domains and every pair of times up to 2000 s apart for 6 intervals; 8 failures of the resolver; 10 settings of the resolver")
OUTSIDE = "the DNS client library and the network; names with other characters"


class Resolver(object):
    """The DNS client: records the questions."""
    port, rotate, payload, edns, lifetime, timeout, nameservers = 53, False, 0, 0, 30.0, 2.0, ["192.0.2.1"]

    def __init__(self, answer=None):
        self.asked, self.answer = [], answer

    def query(self, name, qtype="A", *args, **kw):
        self.asked.append((name, qtype))
        return self.answer(name) if self.answer else ["answer"]
    resolve = query


def setup(text, answer=None):
    resolver = Resolver(answer)
    sx.patch(oa.dns_interface.dns.resolver, "Resolver", lambda *a, **kw: resolver)
    rs = common.ruleset(text)
    return rs.ctxt.dns, resolver


RESTRICTIONS = {
    "none": [],
    "one": [("deny", "a.b")],
    "parent": [("deny", "b"), ("allow", "a.b")],
    "inverse": [("allow", "b"), ("deny", "a.b")],
    "case": [("deny", "A.B")],
    "last": [("deny", "a"), ("allow", "a")],
    "deep": [("deny", "a"), ("allow", "a.a"), ("deny", "b.a.a")],
    "order": [("allow", "b.a.a"), ("deny", "a.a")],
}


@sx.obligation(params=[{"which": k, "available": a} for k in sorted(RESTRICTIONS) for a in ("yes", "no") if a == "yes" or k in ("none", "parent")], covers=())
def restrictions(which, available):
    text = "dns_available %s\n" % available + "".join("dns_query_restriction %s %s\n" % r for r in RESTRICTIONS[which])
    iface, resolver = setup(text)
    name = sx.text("name", 1, 5 if sx.TIER == "quick" else 6, "abA.")
    before = len(resolver.asked)
    got = iface.query(name, "TXT")
    # the longest listed domain that covers the name decides
    denied, best, low = False, 0, name.lower()
    for option, domain in RESTRICTIONS[which]:
        domain = domain.lower()
        if len(domain) >= best and (low == domain or low.endswith("." + domain)):
            best, denied = len(domain), option == "deny"
    asked = resolver.asked[before:]
    if denied or available == "no":
        sx.check(asked == [] and got == [], "a query that is not allowed", name, asked)
    else:
        sx.check(len(asked) == 1 and got == ["answer"], "a query that is allowed", name, asked)
        sx.check(asked[0][0] == name and asked[0][1] == "TXT", "the question", name, asked)


class Clock(object):
    """Stands for the datetime module; the times are plain numbers."""
    UNITS = {"seconds": 1, "minutes": 60, "hours": 3600, "days": 86400, "weeks": 604800}
    now_ = 0

    @classmethod
    def timedelta(cls, **kw):
        return sum(cls.UNITS[k] * v for k, v in kw.items())

    class datetime(object):
        @staticmethod
        def now():
            return Clock.now_


def sample(population, k):
    sx.check(k <= len(population), "the sample is no larger than the list")
    return sorted(population)[:k]


INTERVALS = {"600": 600, "600s": 600, "10m": 600, "1h": 3600, "90s": 90, "0": 0, "": 600}


@sx.obligation(params=[{"interval": i, "domains": d} for i in sorted(INTERVALS) for d in ("one.org", "d.org c.org b.org a.org", "x.org x.org", "", ":")
                       if i in ("90s", "600") or d == "one.org"], covers=())
def availability(interval, domains):
    up = {}
    phase = ["0"]

    def answer(name):
        name = str(name)
        if name == "asked.org":
            return ["answer"]
        k = (phase[0], name)
        if k not in up:
            up[k] = sx.boolean("up_%s_%s" % (phase[0], name)) if len(up) < 4 else False
        if up[k]:
            return ["1.2.3.4"]
        raise dns.resolver.NXDOMAIN()
    Clock.now_ = 0
    sx.patch(oa.dns_interface, "datetime", Clock)
    sx.patch(oa.dns_interface.random, "sample", sample)
    text = "dns_test_interval %s\n" % interval if interval else ""
    if domains == ":":
        text += "dns_available test:\n"
    else:
        text += "dns_available test%s\n" % (": " + domains if domains else "")
    iface, resolver = setup(text, answer)
    t = 0
    last, state = None, None
    for i in range(2):
        phase[0] = str(i)
        if i:
            t = sx.integer("elapsed", 0, 2000)
        Clock.now_ = t
        before = len(resolver.asked)
        got = iface.query("asked.org")
        names = [str(n) for n, q in resolver.asked[before:]]
        tests = [n for n in names if n != "asked.org"]
        due = last is None or t - last >= INTERVALS[interval]
        if due:
            sx.check(1 <= len(tests) <= 3 and len(set(tests)) == len(tests), "the number of test queries", names)
            if domains not in ("", ":"):
                sx.check(set(tests) <= set(domains.split()) and (len(tests) == min(3, len(set(domains.split()))) or up[phase[0], tests[-1]]),
                         "the domains of the test", names)
            state = sx.conc(sx.or_(*[up[phase[0], n] for n in tests]))
            last = t
        else:
            sx.check(tests == [], "the test is repeated too early", t, names)
        sx.check(("asked.org" in names) == bool(state) and (got == ["answer"]) == bool(state), "the query after the test", names, got)


ERRORS = [dns.resolver.NoAnswer, dns.resolver.NoNameservers, dns.resolver.NXDOMAIN, dns.exception.Timeout, ValueError, dns.name.EmptyLabel,
          dns.name.LabelTooLong, dns.name.NameTooLong]


@sx.obligation(covers=("ptr",))
def failures():
    exc = sx.choice("error", ERRORS)

    def answer(name):
        raise exc()
    iface, resolver = setup("", answer)
    sx.check(iface.query("x.org", "A") == [], "an error gives an empty answer")
    iface, resolver = setup("")
    addr = sx.choice("address", ["1.2.3.4", "::1", "1.2.3", "text", "", "1.2.3.4.5"])
    got = iface.query(addr, "PTR")
    if addr in ("1.2.3.4", "::1"):
        sx.cover("ptr")
        want = {"1.2.3.4": "4.3.2.1.in-addr.arpa.", "::1": "1." + "0." * 31 + "ip6.arpa."}[addr]
        sx.check(got == ["answer"] and [str(n) for n, q in resolver.asked] == [want], "the question for an address", resolver.asked)
    else:
        sx.check(isinstance(got, list), "an invalid address", got)


SETTINGS = [("", {"nameservers": ["192.0.2.1"], "port": 53, "rotate": False, "lifetime": 10.0, "timeout": 2.0, "payload": 4096}),
            ("default_dns_lifetime 5.5\n", {"lifetime": 5.5}), ("default_dns_timeout 1\n", {"timeout": 1.0}),
            ("dns_server 127.0.0.1\ndns_server [::1]:5353\n", {"nameservers": ["127.0.0.1", "::1"], "port": 5353}),
            ("dns_server 127.0.0.1\nclear_dns_servers\n", {"nameservers": ["192.0.2.1"]}),
            ("dns_server nonsense!\n", {"nameservers": ["192.0.2.1"]}),
            ("dns_options rotate\n", {"rotate": True, "payload": 4096}), ("dns_options norotate, edns=1400\n", {"rotate": False, "payload": 1400}),
            ("dns_options edns0=1200,rotate\n", {"rotate": True, "payload": 1200}), ("dns_options noedns\n", {"payload": 512})]


@sx.obligation(covers=())
def settings():
    text, want = sx.choice("settings", SETTINGS)
    iface, resolver = setup(text)
    for k, v in want.items():
        sx.check(getattr(resolver, k) == v, "a setting of the resolver", text, k, getattr(resolver, k))
