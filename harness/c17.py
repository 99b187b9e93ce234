"""C17: checking one message never affects the result of another."""
from symx import api as sx
from harness import common
import oa.config
import oa.message
import oa.plugins.dkim
import oa.plugins.spf

BOUNDS = ("for every plugin without a store of its own: every pair of messages made from that plugin's templates (4 to 7 each), with symbolic "
          "characters and symbolic presence of headers in both, checked one after the other against all its eval tests in one context and in a "
          "fresh one; the same message parsed twice, and re-checked after clear_matches; lazy and caching mode; sequences of up to 3 messages")
OUTSIDE = "auto-whitelist and Bayes stores (their purpose is to remember), messages handled at the same time in one process"
ASSUMPTIONS = ["a process handles one message at a time (the daemon's workers do)",
               "SPF library, DKIM verification and DNS are replaced by deterministic functions of their arguments"]

HDR = "Received: from m.x (m.x [1.2.3.4]) by b.y with ESMTP id 1; Tue, 1 Jan 2019 00:00:00 +0000\n"
HDR2 = HDR + "Received: from u.x (HELO [5.6.7.8]) (9.8.7.6) by c.z with SMTP id 2; Tue, 1 Jan 2019 00:00:00 +0000\n"

# name: (plugins, configuration, [message templates]); @ is a symbolic character, ? optional lines
GROUPS = {
    "rules": ((), """
body B1 /x@/
header H1 Subject =~ /a/
header H2 X-A:addr =~ /a@/
header H3 exists:X-A
header H4 ALL =~ /x-a: a/
rawbody R1 /a\\nb/
uri U1 /a\\.c/
full F1 /X-A/
mimeheader MH1 Content-Type =~ /html/
meta M1 B1 || H1 && !H3
meta M2 H1 + H2 > 1
""", ["Subject: @\n\nx@\n", "?X-A: a@b\n\na\nb http://a.c/\n", "Subject: a\n?X-A: a\nContent-Type: text/html\n\n<b>x@</b>\n", "X-A: b\n\n"]),
    "header_eval": (("oa.plugins.header_eval.HeaderEval",), """
eval H01 check_for_fake_aol_relay_in_rcvd()
eval H02 check_for_unique_subject_id()
eval H03 check_illegal_chars('ALL', '0.1', '1')
eval H04 check_illegal_chars('Subject', '0.1', '1')
eval H05 check_for_forged_hotmail_received_headers()
eval H06 check_for_no_hotmail_received_headers()
eval H07 check_for_msn_groups_headers()
eval H11 check_for_matching_env_and_hdr_from()
eval H12 sorted_recipients()
eval H13 similar_recipients('0.65','undef')
eval H14 check_for_missing_to_header()
eval H16 subject_is_all_caps()
eval H17 check_for_to_in_subject('user')
eval H18 check_outlook_message_id()
eval H19 check_messageid_not_usable()
eval H20 check_header_count_range('To','2','9')
eval H21 check_unresolved_template()
eval H22 check_ratware_name_id()
eval H23 check_ratware_envelope_from()
eval H24 gated_through_received_hdr_remover()
eval H25 check_equal_from_domains()
header H30 Subject =~ /./
header H31 From =~ /./
""", ["Subject: \u00e9@\nFrom: a@b\n\nx\n", "?Received: from x.hotmail.com by y\nFrom: @@hotmail.com\n\nx\n", "?From: @@hotmail.com\nSubject: AB CD EFGH\n\nx\n",
      "To: @@b, c@d\n?To: e@f\nSubject: c\n\n\nx\n", HDR + "From: x@y\nMessage-ID: <%A@y>\n\nx\n"]),
    "relay_eval": (("oa.plugins.relay_eval.RelayEval",), """
trusted_networks 1.2.3.4
eval E1 check_for_numeric_helo()
eval E2 check_all_trusted()
eval E3 check_no_relays()
eval E4 check_for_sender_no_reverse()
eval E5 check_for_from_domain_in_received_headers('hotmail.com', 'true')
eval E6 check_for_forged_received_trail()
eval E7 check_for_forged_received_ip_helo()
eval E8 helo_ip_mismatch()
eval E9 check_for_no_rdns_dotcom_helo()
header T1 X-Spam =~ /x/
""", ["Subject: a\n\nx\n", HDR + "?From: a@hotmail.com\n\nx\n", HDR2 + "\nx\n",
      "Received: from a.b.c (HELO 1.2.3.@) (5.6.7.8) by d.e.f with SMTP id 2; Tue, 1 Jan 2019 00:00:00 +0000\n"
      "Received: from g.h.i (HELO 4.4.4.4) (9.6.7.8) by j.k.l with SMTP id 3; Tue, 1 Jan 2019 00:00:00 +0000\n"
      "?Received: from m.n.o (HELO q.r) (9.6.7.9) by p.q.r with SMTP id 3; Tue, 1 Jan 2019 00:00:00 +0000\n\nx\n"]),
    "spf": (("oa.plugins.spf.SpfPlugin",), """
whitelist_from_spf *@b.c
eval S1 check_for_spf_pass()
eval S2 check_for_spf_fail()
eval S3 check_for_spf_helo_pass()
eval S4 check_for_spf_helo_fail()
eval S5 check_for_spf_none()
eval S6 check_for_spf_helo_none()
eval S7 check_for_spf_whitelist_from()
eval S8 check_for_spf_softfail()
eval S9 check_for_spf_neutral()
header R1 Received-SPF =~ /^pass/
""", ["Received-SPF: pass (x) identity=mailfrom\n?Received-SPF: fail (x) identity=helo\n\nx\n", HDR + "?X-Sender: a@b.c\n\nx\n",
      HDR + "Received-SPF: @one\n\nx\n", "Authentication-Results: h; spf=fail smtp.mailfrom=a@b\n\nx\n", "Subject: x\n\nx\n"]),
    "dkim": (("oa.plugins.dkim.DKIMPlugin",), """
whitelist_from_dkim *@b.c
eval D1 check_dkim_signed()
eval D2 check_dkim_valid()
eval D3 check_dkim_valid_author_sig()
eval D4 check_dkim_dependable()
eval D5 check_for_dkim_whitelist_from()
eval D6 check_dkim_adsp('D')
eval D7 check_dkim_adsp('*', 'b.c')
eval D8 check_dkim_valid('b.c')
eval D9 check_dkim_adsp('U')
""", ["From: a@b.c\nDKIM-Signature: v=1; d=b.c\n\nx\n", "From: a@@.c\n?DKIM-Signature: v=1; d=b.c\n\nx\n", "From: a@b.c\n\nx\n", "Subject: x\n\nx\n",
      "From: a@d.e\n?DKIM-Signature: bad\n\nx\n", "From: a@d.e\n?DKIM-Signature: v=1; d=b.c\n\nx\n"]),
    "freemail": (("oa.plugins.free_mail.FreeMail",), """
util_rb_tld com net
freemail_domains f.com g.*
freemail_max_body_freemails 2
eval F1 check_freemail_replyto('replyto')
eval F2 check_freemail_replyto('reply')
eval F3 check_freemail_from()
eval F4 check_freemail_header('X-A')
eval F5 check_freemail_body()
eval F6 check_freemail_body('^a')
""", ["From: a@f.com\n?Reply-To: b@f.com\n\nx\n", "From: a@f.com\n\nb@f.com\n", "?X-A: @@f.com\n\na@f.com\n", "From: q@q.com\n\na@f.com b@f.com c@f.com\n", "Subject: x\n\nx\n"]),
    "subject": (("oa.plugins.whitelist_subject.WhiteListSubjectPlugin", "oa.plugins.short_circuit.ShortCircuit", "oa.plugins.replace_tags.ReplaceTags"), """
whitelist_subject good
blacklist_subject b?d
header W1 eval:check_subject_in_whitelist()
header W2 eval:check_subject_in_blacklist()
header S1 Subject =~ /stop/
shortcircuit S1 spam
priority S1 -5
body A1 /x/
add_header all SC _SC_ _SCRULE_ _SCTYPE_
""", ["Subject: good\n\nx\n", "Subject: b@d\n\nx\n", "?Subject: stop\n\nx\n", "Subject: y\n\ny\n"]),
    "mime": (("oa.plugins.mime_eval.MIMEEval", "oa.plugins.body_eval.BodyEval"), """
eval M1 check_for_mime('mime_attachment')
eval M2 check_for_mime_html()
eval M3 check_for_mime_html_only()
eval M4 check_mime_multipart_ratio('0.1','0.9')
eval M5 check_msg_parse_flags('missing_mime_head_body_separator')
eval M6 check_for_ascii_text_illegal()
eval M8 check_for_uppercase('10','100')
eval M9 check_ma_non_text()
eval MA check_base64_length('1')
eval MB check_for_mime('mime_base64_encoded_text')
eval MC check_qp_ratio('0.1')
eval MD multipart_alternative_difference('50','100')
eval ME multipart_alternative_difference_count('1','1')
eval MF check_blank_line_ratio('10','90','1')
eval MG tvd_vertical_words('1','90')
eval MH check_stock_info('1')
""", ["Subject: a\n\nx@\n\nAB\n", "Content-Type: text/html\n\n<b>A@</b>\n", "Content-Type: text/plain\nContent-Transfer-Encoding: base64\n\neHg=\n",
      "Content-Type: multipart/alternative; boundary=b\n\n--b\nContent-Type: text/plain\n\nx y\n--b\nContent-Type: text/@tml\n\n<p>z\n--b--\n",
      "Content-Type: text/plain\nContent-Transfer-Encoding: quoted-printable\n\nx=41=42\n", "no header\n"]),
    "wlbl": (("oa.plugins.wlbl_eval.WLBLEvalPlugin", "oa.plugins.uri_eval.URIEvalPlugin", "oa.plugins.uri_detail.URIDetailPlugin"), """
trusted_networks 7.7.7.7
whitelist_from *@w.x
blacklist_from b@*
whitelist_to t@w.x
all_spam_to u@w.x
whitelist_from_rcvd *@r.x m.x
blacklist_uri_host bad.com
whitelist_uri_host good.com
uri_detail UD1 domain =~ /bad/
eval L1 check_from_in_whitelist()
eval L2 check_from_in_blacklist()
eval L3 check_to_in_whitelist()
eval L4 check_to_in_all_spam()
eval L5 check_forged_in_whitelist()
eval L6 check_mailfrom_matches_rcvd()
eval L7 check_uri_host_in_blacklist()
eval L8 check_uri_host_in_whitelist()
eval U1 check_for_http_redirector()
eval U2 check_https_ip_mismatch()
eval U3 check_uri_truncated()
""", ["From: a@w.x\n\nhttp://bad.com/\n", "From: b@@.x\n?To: t@w.x\n\nhttp://good.com/\n", HDR + "From: a@r.x\n\nx\n", "To: u@w.x\n\nhttp://1.2.3.4/\n", "Subject: x\n\nx\n"]),
    "attach": (("oa.plugins.image_info.ImageInfoPlugin", "oa.plugins.pdf_info.PDFInfoPlugin", "oa.plugins.dump_text.DumpText"), """
eval I1 image_count('all','1','5')
eval I2 image_named('a.gif')
eval I3 image_size_range('all','1','1')
eval I4 pixel_coverage('all','1')
eval I5 image_to_text_ratio('all','0.1')
eval P1 pdf_count('1')
eval P2 pdf_named('a.pdf')
eval P3 pdf_is_empty_body('10')
""", ["Subject: a\n\nx\n", "Content-Type: image/gif; name=a.gif\nContent-Transfer-Encoding: base64\n\nR0lGODlhAQABAAAAACw=\n",
      "Content-Type: image/gif; name=b.gif\nContent-Transfer-Encoding: base64\n\nR0lGODlhAgACAAAAACw=\n", "Content-Type: application/pdf; name=@.pdf\n\nx\n"]),
}
TAGS = "add_header all T1 _SCORE_ _TESTS_ _YESNO_ _SUMMARY_ _RELAYSTRUSTED_\nrequired_score 2\nreport_safe 0\n"


def dkim_verify(message, logger=None, dnsfunc=None, minkey=1024):
    return b"d=b.c" in message


class Spf(object):
    @staticmethod
    def check2(i, s, h, timeout=None, querytime=None):
        return ("pass" if h.startswith("m") and s == "" else "fail" if s == "a@b.c" else "none"), ""


def build(name, tpl):
    """A message from a template: symbolic characters, optional lines."""
    out = ""
    k = 0
    for ln in tpl.split("\n"):
        if ln.startswith("?"):
            if not sx.boolean("%s_line%d" % (name, k)):
                k += 1
                continue
            ln = ln[1:]
        if k < 1 and "@" in ln:
            a, b = ln.split("@", 1)
            if b.startswith("@") or ":" not in ln or a.endswith((".", "/", "\u00e9", " ")):
                out = out + a + sx.text("%s_c%d" % (name, k), 1, 1, "abn") + b + "\n"
                k += 1
                continue
        out = out + ln + "\n"
        k += 1
    return out[:-1]


def context(group):
    plugins, text, tpls = GROUPS[group]
    rs = common.ruleset(TAGS + text, plugins=plugins)
    return rs


def outcome(rs, msg):
    return [("score", msg.score), ("rules", list(msg.rules_checked.items())), ("descriptions", sorted(msg.rules_descriptions.items())),
            ("plugin tags", sorted(msg.plugin_tags.items())), ("sender", msg.sender_address), ("text", msg.text), ("uris", sorted(msg.uri_list)),
            ("headers", [(k, list(v)) for k, v in msg.raw_headers.items()]),
            ("report", rs.get_matched_report(msg)), ("adjusted", rs.get_adjusted_message(msg))]


def check(rs, raw):
    msg = oa.message.Message(rs.ctxt, raw)
    rs.match(msg)
    return msg


def compare(a, b, *info):
    for (n, x), (_, y) in zip(a, b):
        sx.check(sx.same(x, y), "the " + n, *(info + (x, y)))


def prepare(lazy):
    sx.patch(oa.config, "LAZY_MODE", lazy)
    sx.patch(oa.plugins.spf, "spf", Spf)
    sx.patch(oa.plugins.dkim.dkim, "verify", dkim_verify)


@sx.obligation(params=lambda t: [{"group": g, "a": a, "lazy": l} for g in GROUPS for a in range(len(GROUPS[g][2])) for l in (True, False)],
               max_paths=4000)
def pairs(group, a, lazy):
    """A message checked after another one and on its own."""
    prepare(lazy)
    tpls = GROUPS[group][2]
    ra = build("a", tpls[a])
    b = sx.choice("second", list(range(len(tpls))))
    rb = build("b", tpls[b])
    one = context(group)
    check(one, ra)
    after = outcome(one, check(one, rb))
    two = context(group)
    alone = outcome(two, check(two, rb))
    compare(after, alone, ra, rb)


@sx.obligation(params=lambda t: [{"group": g, "lazy": l} for g in GROUPS for l in (True, False)], max_paths=4000)
def twice(group, lazy):
    """The same message parsed and checked twice; re-checked after clear_matches."""
    prepare(lazy)
    tpls = GROUPS[group][2]
    raw = build("a", tpls[sx.choice("first", list(range(len(tpls))))])
    rs = context(group)
    first = check(rs, raw)
    o = outcome(rs, first)
    compare(outcome(rs, check(rs, raw)), o, raw)
    compare(outcome(rs, first), o, "reading the outcome again", raw)


@sx.obligation(params=lambda t: [{"group": g} for g in GROUPS if g not in ("subject",)], max_paths=4000)
def again(group):
    """Matching again after clear_matches gives the same result."""
    prepare(True)
    tpls = GROUPS[group][2]
    raw = build("a", tpls[sx.choice("first", list(range(len(tpls))))])
    rs = context(group)
    msg = check(rs, raw)
    o = outcome(rs, msg)
    msg.clear_matches()
    sx.check(msg.score == 0 and not msg.rules_checked, "cleared")
    rs.match(msg)
    compare(outcome(rs, msg), o, "matched again", raw)


@sx.obligation(params=lambda t: [{"group": g} for g in (GROUPS if t != "quick" else ("rules", "relay_eval", "freemail", "spf", "dkim"))], max_paths=4000)
def triples(group):
    """Two messages before."""
    prepare(True)
    tpls = GROUPS[group][2]
    one = context(group)
    seq = [sx.choice("m%d" % i, list(range(len(tpls)))) for i in range(3)]
    plain = [t.replace("?", "") for t in tpls]
    for i in seq[:2]:
        check(one, plain[i])
    rb = build("b", tpls[seq[2]])
    after = outcome(one, check(one, rb))
    two = context(group)
    compare(after, outcome(two, check(two, rb)), seq, rb)
