"""C30: block-list tests ask about the right addresses and match only listed ones."""
from symx import api as sx
from harness import common
import dns.resolver
import re
import oa.dns_interface

BOUNDS = ("chains of up to 3 relays out of 5 addresses (public IPv4 and IPv6, trusted, private) with every combination of listed addresses and answers 127.0.0.N "
          "(N any number 1..15 for one relay, three numbers at the edge of the rule for more); 8 forms of rules; block-list checks enabled and disabled; 8 senders with every answer of the lists of domains")
OUTSIDE = "the suffixes -lastexternal, -firsttrusted and -notfirsthop of zone names; integer masks of several bits; the DNS client library"

ADDRS = ["8.8.1.1", "9.9.9.10", "172.16.3.4", "10.1.2.3", "2001:db8::1"]
REVERSED = {"8.8.1.1": "1.1.8.8", "9.9.9.10": "10.9.9.9", "172.16.3.4": "4.3.16.172",
            "2001:db8::1": ".".join(reversed("20010db8" + "0" * 23 + "1"))}


class Resolver(object):
    port, rotate, payload, edns, lifetime, timeout, nameservers = 53, False, 0, 0, 30.0, 2.0, []

    def __init__(self, answer):
        self.asked, self.answer = [], answer

    def query(self, name, qtype="A", *args, **kw):
        self.asked.append((str(name), qtype))
        res = self.answer(str(name), qtype)
        if not res:
            raise dns.resolver.NXDOMAIN()
        return res
    resolve = query


def setup(text, answer, plugin="dns_eval.DNSEval"):
    resolver = Resolver(answer)
    sx.patch(oa.dns_interface.dns.resolver, "Resolver", lambda *a, **kw: resolver)
    return common.ruleset(text, plugins=("oa.plugins." + plugin,)), resolver


RULES = ["eval:check_rbl('zone', 'list.org')", "eval:check_rbl('zone', 'list.org', '127.0.0.[2-4]$')", "eval:check_rbl_txt('zone', 'list.org')",
         "eval:check_rbl_sub('zone', '4')", "eval:check_rbl_sub('zone', '127.0.0.2')", "eval:check_rbl('zone', 'list.org', '127\\.0\\.0\\.1$')",
         "eval:check_rbl_accreditor('zone', 'list.org', '127.0.0.4', 'acme')", "eval:check_rbl_sub('other', '4')"]


def wanted(rule, n):
    """Does the answer 127.0.0.n satisfy the rule?"""
    if rule in (0, 2):
        return True
    return {1: sx.and_(n >= 2, n <= 4), 3: sx.or_(sx.and_(n >= 4, n <= 7), n >= 12), 4: sx.or_(n == 2, n == 3, n == 6, n == 7, n == 10, n == 11, n == 14, n == 15),
            5: n == 1, 6: n == 4}[rule]


class Answer(object):
    """An address 127.0.0.n whose n is symbolic."""

    def __init__(self, n):
        self.n = n

    def __str__(self):
        return "127.0.0.%d" % sx.conc(self.n)


@sx.obligation(params=lambda t: [{"rule": r, "count": c, "skip": s} for r in range(len(RULES)) for c in (0, 1, 2, 3) for s in (False, True)
                                 if (r < 2 or c in (1, 2)) and (not s or c == 2)], covers=())
def relays(rule, count, skip):
    ips = []
    for i in range(count):
        ips.append(sx.choice("ip%d" % i, ADDRS if count == 1 else ADDRS[i:i + 2] + ADDRS[3:5 - i]))
    listed = {}

    def answer(name, qtype):
        for ip, rev in REVERSED.items():
            if name == rev + ".list.org":
                if ip not in listed:
                    listed[ip] = (sx.boolean("listed_" + ip), 2 if rule in (0, 2) else sx.integer("answer_" + ip, *((1, 15) if count == 1 else (1, 2) if rule == 5 else (3, 5))))
                return [Answer(listed[ip][1])] if listed[ip][0] else None
        return None
    text = "trusted_networks 10.\nheader R %s\n" % RULES[rule] + ("skip_rbl_checks 1\n" if skip else "")
    if rule in (3, 4):
        text += "header BASE eval:check_rbl('zone', 'list.org')\nscore BASE 0\n"
    rs, resolver = setup(text, answer)
    acc = rule != 6 or sx.choice("accreditor", [True, False])
    msg = common.message(rs.ctxt, "".join("Received: from h.net (h.net [%s]) by mx.net with ESMTP id 1; Mon, 1 Feb 2016 10:00:00 +0000\n" % ip for ip in ips)
                         + ("Accreditor: other, x=y; acme, x=z\n" if rule == 6 and acc else "") + "Subject: s\n\nbody\n")
    before = len(resolver.asked)
    rs.match(msg)
    got = bool(msg.rules_checked.get("R"))
    asked = resolver.asked[before:]
    eligible = [ip for ip in ips if ip != "10.1.2.3"]
    if skip or not acc or rule == 7:
        sx.check(asked == [] and not got, "nothing is asked when the test is not enabled", asked)
        return
    qtype = "TXT" if rule == 2 else "A"
    names = [REVERSED[ip] + ".list.org" for ip in eligible]
    sx.check(all(n in names and q == qtype for n, q in asked), "the questions", ips, asked)
    hits = [sx.and_(listed[ip][0], wanted(rule, listed[ip][1])) for ip in eligible if ip in listed]
    sx.check(sx.iff(got, sx.or_(False, *hits)), "the result of the test", ips, asked, got)
    if not got:
        sx.check(set(names) == set(n for n, q in asked), "each eligible address is asked about", ips, asked)


DOMAIN_RULES = ["eval:check_rbl_envfrom('z', 'list.org')", "eval:check_rbl_envfrom('z', 'list.org', '127.0.0.2')", "eval:check_rbl_from_host('z', 'list.org')",
                "eval:check_rbl_from_domain('z', 'list.org', '127.0.0.[23]$')", "eval:check_dns_sender()"]


@sx.obligation(params=[{"rule": r, "skip": s} for r in range(len(DOMAIN_RULES)) for s in (False, True)], covers=())
def domains(rule, skip):
    sender = sx.choice("sender", ["a@one.org", "two.net", "", None])
    author = sx.choice("from", ["B <b@three.org>", None])
    listed, n = sx.boolean("listed"), 2 if rule in (0, 2, 4) else sx.integer("answer", 1, 15)
    mx = sx.boolean("mx")

    def answer(name, qtype):
        return [Answer(n)] if (mx if qtype == "MX" else listed) else None
    rs, resolver = setup("envelope_sender_header X-Env\nheader R %s\n" % DOMAIN_RULES[rule] + ("skip_rbl_checks 1\n" if skip else ""), answer)
    msg = common.message(rs.ctxt, ("" if sender is None else "X-Env: %s\n" % sender) + ("" if author is None else "From: %s\n" % author) + "Subject: s\n\nbody\n")
    before = len(resolver.asked)
    rs.match(msg)
    got = bool(msg.rules_checked.get("R"))
    asked = resolver.asked[before:]
    dom = {"a@one.org": "one.org", "two.net": "two.net"}.get(sender) if rule in (0, 1, 4) else author and "three.org"
    if dom is None or (skip and rule != 4):
        sx.check(asked == [] and not got, "nothing to ask about", sender, asked)
    elif rule == 4:
        sx.check(set(asked) <= {(dom, "A"), (dom, "MX")}, "the questions about the sender", asked)
        sx.check(sx.iff(got, sx.not_(sx.or_(listed, mx))), "a sender without records", asked)
    else:
        sx.check(asked == [(dom + ".list.org", "A")], "the question about the domain", asked)
        ok = {0: True, 2: True, 1: n == 2, 3: sx.and_(n >= 2, n <= 3)}[rule]
        sx.check(sx.iff(got, sx.and_(listed, ok)), "the result of the test", asked, got)
