From 262db92dea416c47b732ba647bc4b2eb37a364cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 01/54] fix: honour the priority of mimeheader rules

---
 oa/rules/header.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 38c9a94..0a0c5c1 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -46,7 +46,9 @@ class _PatternMimeHeaderRule(MimeHeaderRule):
     def __init__(self, name, pattern=None, header_name=None, score=None,
                  desc=None, priority=0, tflags=None):
         super(_PatternMimeHeaderRule, self).__init__(name, score=score,
-                                                     desc=desc, tflags=tflags)
+                                                     desc=desc,
+                                                     priority=priority,
+                                                     tflags=tflags)
         self._header_name = header_name
         self._pattern = pattern
 
-- 
2.43.0


From e300ea9770850e1334367b037d3a7e84f522e796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 02/54] fix: honour score, description, priority and flags of
 uri_detail rules

---
 oa/plugins/uri_detail.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/uri_detail.py b/oa/plugins/uri_detail.py
index 5d530c1..c4f4c80 100644
--- a/oa/plugins/uri_detail.py
+++ b/oa/plugins/uri_detail.py
@@ -10,6 +10,7 @@ except ImportError:
     from urlparse import urlparse
 
 import oa.regex
+import oa.rules.base
 import oa.rules.uri
 import oa.plugins.base
 import oa.html_parser
@@ -23,8 +24,11 @@ class URIDetailRule(oa.rules.uri.URIRule):
     """
     _rule_type = "uri_detail"
 
-    def __init__(self, name, pattern, score=None, desc=None):
-        super(URIDetailRule, self).__init__(name, pattern, score, desc)
+    def __init__(self, name, pattern, score=None, desc=None, priority=0,
+                 tflags=None):
+        super(URIDetailRule, self).__init__(name, pattern, score=score,
+                                            desc=desc, priority=priority,
+                                            tflags=tflags)
 
     def check_single_item(self, value):
         """Checks one item agains the patterns, return True if all
@@ -59,7 +63,8 @@ class URIDetailRule(oa.rules.uri.URIRule):
         for key, oper, regex in checks:
             pyregex = oa.regex.perl2re(regex, oper)
             patterns.append((key, pyregex))
-        kwargs = {"pattern": patterns}
+        kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
+        kwargs["pattern"] = patterns
         return kwargs
 
 
-- 
2.43.0


From fffc56439419dda5ceca264f7cdf50a63553dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 03/54] fix: keep pattern text equal to the delimiter and
 reject empty or overflowing regexes

---
 oa/regex.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oa/regex.py b/oa/regex.py
index f7de36b..b767535 100644
--- a/oa/regex.py
+++ b/oa/regex.py
@@ -85,6 +85,8 @@ def perl2re(pattern, match_op="=~"):
     """Convert a Perl type regex to a Python one."""
     # We don't need to consider the pre-flags
     pattern = pattern.strip().lstrip("mgs")
+    if not pattern:
+        raise oa.errors.InvalidRegex("Empty regex")
     delim = pattern[0]
     try:
         rev_delim = DELIMS[delim]
@@ -92,7 +94,9 @@ def perl2re(pattern, match_op="=~"):
         raise oa.errors.InvalidRegex("Invalid regex delimiter %r in %r" %
                                      (delim, pattern))
     try:
-        pattern, flags_str = pattern.lstrip(delim).rsplit(rev_delim, 1)
+        # Only the first character is a delimiter, the pattern itself might
+        # start with the same character.
+        pattern, flags_str = pattern[1:].rsplit(rev_delim, 1)
     except ValueError:
         raise oa.errors.InvalidRegex("Invalid regex %r. Please make sure you "
                                       "have escaped all the special characters "
@@ -107,7 +111,7 @@ def perl2re(pattern, match_op="=~"):
         if match_op == "=~":
             return MatchPattern(re.compile(pattern, flags))
         elif match_op == "!~": return NotMatchPattern(re.compile(pattern, flags))
-    except re.error as e:
+    except (re.error, ValueError, OverflowError) as e:
         raise oa.errors.InvalidRegex("Invalid regex %r: %s" % (pattern, e))
 
 
-- 
2.43.0


From 39c202f55c44c332fbfc5c09b0e937ebc2d64d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 04/54] fix: parse the name, operator and modifier of header
 rules exactly

---
 oa/rules/header.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/oa/rules/header.py b/oa/rules/header.py
index 0a0c5c1..0184a27 100644
--- a/oa/rules/header.py
+++ b/oa/rules/header.py
@@ -5,6 +5,21 @@ import oa.errors
 import oa.rules.base
 
 
+def _split_match_op(value):
+    """Split the value of a header rule by its match operator, that's the first
+    one in the value, as the pattern might include the other.
+
+    Returns a tuple (header_name, match_op, pattern), with match_op set to None
+    if there is no operator in the value.
+    """
+    positions = [(value.index(op), op) for op in ("=~", "!~") if op in value]
+    if not positions:
+        return value.strip(), None, None
+    match_op = min(positions)[1]
+    header_name, pattern = value.split(match_op, 1)
+    return header_name.strip(), match_op, pattern
+
+
 class MimeHeaderRule(oa.rules.base.BaseRule):
     """Abstract class for all MIME header rules."""
     _rule_type = "BODY: "
@@ -18,21 +33,17 @@ class MimeHeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"].strip()
 
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
-        else:
+        header_name, match_op, pattern = _split_match_op(value)
+        if match_op is None:
             raise oa.errors.InvalidRule(name, "Missing match operator")
 
-        header_name, pattern = value.split(match_op, 1)
-        header_name = header_name.strip()
         kwargs["pattern"] = oa.regex.perl2re(pattern, match_op)
         if ":" in header_name:
             header_name, mod = header_name.rsplit(":", 1)
             kwargs["header_name"] = header_name.strip()
             if mod == "raw":
                 return _PatternMimeRawHeaderRule(name, **kwargs)
+            raise oa.errors.InvalidRule(name, "Unknown modifier %r" % mod)
         else:
             kwargs["header_name"] = header_name.strip()
             return _PatternMimeHeaderRule(name, **kwargs)
@@ -84,15 +95,9 @@ class HeaderRule(oa.rules.base.BaseRule):
         kwargs = cls.get_rule_kwargs(data)
         value = data["value"]
 
-        match_op = None
-        if "=~" in value:
-            match_op = "=~"
-        elif "!~" in value:
-            match_op = "!~"
+        header_name, match_op, pattern = _split_match_op(value)
 
         if match_op is not None:
-            header_name, pattern = value.split(match_op, 1)
-            header_name = header_name.strip()
             kwargs["pattern"] = oa.regex.perl2re(pattern, match_op)
             if header_name == "ALL":
                 return _AllHeaderRule(name, **kwargs)
@@ -110,12 +115,14 @@ class HeaderRule(oa.rules.base.BaseRule):
                     return _PatternAddrHeaderRule(name, **kwargs)
                 if mod == "name":
                     return _PatternNameHeaderRule(name, **kwargs)
+                raise oa.errors.InvalidRule(name, "Unknown modifier %r" % mod)
             else:
                 kwargs["header_name"] = header_name.strip()
                 return _PatternHeaderRule(name, **kwargs)
         elif value.startswith("exists:"):
-            kwargs["header_name"] = value.lstrip("exists:").strip()
+            kwargs["header_name"] = value[len("exists:"):].strip()
             return _ExistsHeaderRule(name, **kwargs)
+        raise oa.errors.InvalidRule(name, "Missing match operator")
 
 
 class _ExistsHeaderRule(HeaderRule):
-- 
2.43.0


From 54c45482ce32ee9ee9390bd00c55f6640a1e7609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:27 +0000
Subject: [PATCH 05/54] fix: select among four scores even when the first one
 is zero

---
 oa/rules/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index a36bdc2..b03c309 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -73,7 +73,7 @@ class BaseRule(object):
                 self.score = 0
                 return
 
-        if len(self._scores) != 4 or self.score == 0:
+        if len(self._scores) != 4:
             # Nothing to do
             return
         flags = ruleset.conf["use_bayes"], ruleset.conf["use_network"]
-- 
2.43.0


From ac5bea06df056324cb23f2f934f49a15b00e9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:27 +0000
Subject: [PATCH 06/54] fix: report a non-numeric score as an invalid rule

---
 oa/rules/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oa/rules/base.py b/oa/rules/base.py
index b03c309..ae06ad3 100644
--- a/oa/rules/base.py
+++ b/oa/rules/base.py
@@ -113,6 +113,9 @@ class BaseRule(object):
             kwargs["score"] = list(map(float, data["score"].strip().split()))
         except KeyError:
             pass
+        except ValueError:
+            raise oa.errors.InvalidRule("score", "Invalid score value: %r" %
+                                        data["score"])
         try:
             kwargs["desc"] = data["describe"].strip()
         except KeyError:
-- 
2.43.0


From 4e095c08d831bb4b0f921c030592e26abf0dc406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 07/54] fix: translate negation in meta rules exactly and
 reject malformed expressions

---
 oa/rules/meta.py | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/oa/rules/meta.py b/oa/rules/meta.py
index d9e85ba..24fb90c 100644
--- a/oa/rules/meta.py
+++ b/oa/rules/meta.py
@@ -12,7 +12,6 @@ from oa.regex import Regex
 CONVERT = (
     ("&&", " and "),
     ("||", " or "),
-    ("!", " not "),
 )
 
 # Simple protection against recursion, or infinite loops with the meta rules.
@@ -20,6 +19,33 @@ MAX_RECURSION = 10
 
 _SUBRULE_P = Regex(r"([_a-zA-Z]\w*)(?=\W|$)")
 
+# The negation operator (but not the inequality one), a simple operand and a
+# parenthesis.
+_NOT_P = Regex(r"!(?!=)")
+_OPERAND_P = Regex(r"\s*[\w.]*(\(msg\))?")
+_PAREN_P = Regex(r"[()]")
+
+
+def _convert_not(rule):
+    """Convert the Perl negation to the Python one.
+
+    In Perl this applies only to the operand that follows, while in Python it
+    applies to the whole arithmetic expression or comparison that follows.
+    """
+    # Starting with the last one, so that the operand is always converted.
+    for operator in reversed(list(_NOT_P.finditer(rule))):
+        head, tail = rule[:operator.start()], rule[operator.end():]
+        end = _OPERAND_P.match(tail).end()
+        if tail.lstrip().startswith("("):
+            depth = 0
+            for paren in _PAREN_P.finditer(tail):
+                depth += 1 if paren.group() == "(" else -1
+                if depth == 0:
+                    end = paren.end()
+                    break
+        rule = "%s(not %s)%s" % (head, tail[:end], tail[end:])
+    return rule
+
 
 class MetaRule(oa.rules.base.BaseRule):
     """These rules are boolean or arithmetic combinations of other rules."""
@@ -47,12 +73,19 @@ class MetaRule(oa.rules.base.BaseRule):
 
         subrules = set(_SUBRULE_P.findall(self.rule))
         rule = _SUBRULE_P.sub(r"\1(msg)", self.rule)
+        rule = _convert_not(rule)
         for operator, repl in CONVERT:
             rule = rule.replace(operator, repl)
-        rule_match = "match = lambda msg: %s" % rule
+        rule_match = "match = lambda msg: (%s)" % rule
         # XXX we should check for potentially unsafe code or run it in
         # XXX RestrictedPython.
-        _code_obj = compile(rule_match, "<meta>", "exec")
+        try:
+            # The rule must be a single expression.
+            compile(rule.strip(), "<meta>", "eval")
+            _code_obj = compile(rule_match, "<meta>", "exec")
+        except (SyntaxError, ValueError) as e:
+            raise oa.errors.InvalidRule(self.name, "Invalid expression %r: %s" %
+                                        (self.rule, e))
 
         oa.rules.base.BaseRule.postparsing(self, ruleset)
         for subrule_name in subrules:
-- 
2.43.0


From 0b78c0b056cb925a3945a08bb6de9f6a6b872b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 08/54] fix: parse messages with malformed HTML declarations or
 encoded words

---
 oa/message.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 1ff8278..11db1d0 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -185,7 +185,7 @@ class Message(oa.context.MessageContext):
         stripper = _ParseHTML(data)
         try:
             stripper.feed(payload)
-        except (UnicodeDecodeError, html.parser.HTMLParseError):
+        except (UnicodeDecodeError, NotImplementedError, AssertionError):
             # We can't parse the HTML, so just strip it.  This is still
             # better than including generic HTML/CSS text.
             pass
@@ -200,7 +200,8 @@ class Message(oa.context.MessageContext):
         try:
             decoded_header = email.header.decode_header(header)
         except (ValueError, email.header.HeaderParseError):
-            return
+            # Nothing can be decoded, use the header as is.
+            return str(header)
 
         for value, encoding in decoded_header:
             if encoding:
-- 
2.43.0


From 5d0dd347f76cd1279bbc515289cdad4653669296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 09/54] fix: don't add originating IPs to the cached Received
 headers

---
 oa/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index 11db1d0..35e05f6 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -472,7 +472,8 @@ class Message(oa.context.MessageContext):
         self.text = " ".join(body)
         self.raw_text = "\n".join(raw_body)
 
-        received_headers = self.get_decoded_header("Received")
+        # The decoded headers are cached, so don't change that list.
+        received_headers = list(self.get_decoded_header("Received"))
         for header in self.ctxt.conf["originating_ip_headers"]:
             headers = ["X-ORIGINATING-IP: %s" % x
                        for x in self.get_decoded_header(header)]
-- 
2.43.0


From 5641101589eb592f28a0a07ad127b8c2205ec2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 10/54] fix: message ID and receive date of messages without
 headers or valid dates

---
 oa/message.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/oa/message.py b/oa/message.py
index 35e05f6..ccd71c8 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -566,7 +566,12 @@ class Message(oa.context.MessageContext):
         # Use the hexdigest of a SHA1 hash of (Date: and top N bytes of
         # body), where N is min(1024 bytes, 1/2 of body length).
         date = self.msg[u"Date"] or u"None"
-        body = self.msg.as_string().split("\n\n", 1)[1]
+        body = self.msg.as_string()
+        if body.startswith("\n"):
+            # No headers in this message.
+            body = body[1:]
+        else:
+            body = body.split("\n\n", 1)[1]
         if len(body) > 64:
             keep = 1024 if len(body) > 2048 else (len(body) // 2)
             body = body[:keep]
@@ -591,8 +596,11 @@ class Message(oa.context.MessageContext):
                 ts = header.rsplit(";", 1)[1]
             except IndexError:
                 continue
-            ts = email.utils.parsedate(ts)
-            return calendar.timegm(ts)
+            try:
+                return calendar.timegm(email.utils.parsedate(ts))
+            except (TypeError, ValueError, OverflowError):
+                # Not a valid date
+                continue
         # SA will look in other headers too. Perhaps we should also?
         return time.time()
 
-- 
2.43.0


From 23da960b28f486d886e15b8041ef04773e62ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 11/54] fix: nest conditionals and match their keywords exactly

---
 oa/rules/parser.py | 67 +++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 1742080..5224e0e 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -105,7 +105,14 @@ class PADParser(object):
         # XXX This could be a default OrderedDict
         self.results = collections.OrderedDict()
         self.ruleset = oa.rules.ruleset.RuleSet(self.ctxt)
-        self._ignore = False
+        # Whether the current branch of every open conditional is active, the
+        # innermost one is last.
+        self._conditions = []
+
+    @property
+    def _ignore(self):
+        """True if the current line is in an inactive conditional branch."""
+        return not all(self._conditions)
 
     @contextlib.contextmanager
     def _paranoid(self, *exceptions):
@@ -141,29 +148,7 @@ class PADParser(object):
         except UnicodeDecodeError as e:
             raise oa.errors.InvalidSyntax(filename, line_no, line,
                                           "Decoding Error: %s" % e)
-        # if line.startswith("if can"):
-        #     # XXX We don't support for this check, simply
-        #     # XXX skip everything for now.
-        #     self._ignore = True
-        #     return
-
-        if line.startswith("endif"):
-            self._ignore = False
-            return
-
-        if line.startswith("else"):
-            if self._ignore:
-                self._ignore = False
-            else:
-                self._ignore = True
-            return
-
-        if line.startswith("require_version"):
-            # XXX We don't really have any use for this now
-            # XXX Just skip it.
-            return
-
-        if not line or line.startswith("#") or self._ignore:
+        if not line or line.startswith("#"):
             return
 
         # Remove any comments
@@ -175,14 +160,39 @@ class PADParser(object):
             # Some plugin might know how to handle this line
             rtype, value = line, ""
 
+        if rtype == "endif":
+            if self._conditions:
+                self._conditions.pop()
+            return
+
+        if rtype == "else":
+            if self._conditions:
+                self._conditions[-1] = not self._conditions[-1]
+            return
+
+        if rtype == "ifplugin":
+            self._handle_ifplugin(value)
+            return
+
+        if rtype == "if":
+            # XXX We don't support any other check, simply use everything
+            # XXX for now.
+            self._conditions.append(True)
+
+        if self._ignore:
+            return
+
+        if rtype == "require_version":
+            # XXX We don't really have any use for this now
+            # XXX Just skip it.
+            return
+
         if rtype == "include":
             dirname = None
             if os.path.isabs(filename):
                 dirname = os.path.dirname(filename)
             self._handle_include(value, line, line_no, _depth,
                                  dirname=dirname)
-        elif rtype == "ifplugin":
-            self._handle_ifplugin(value)
         elif rtype == "loadplugin":
             self._handle_loadplugin(value)
         elif rtype in KNOWN_2_RTYPE or rtype in self.ctxt.cmds:
@@ -266,9 +276,10 @@ class PADParser(object):
             plugin_name = plugin_name.rsplit(".", 1)[1]
         except IndexError:
             pass
-        if plugin_name not in self.ctxt.plugins:
+        loaded = plugin_name in self.ctxt.plugins
+        if not loaded:
             self.ctxt.log.debug("Plugin %s not loaded, skipping.", plugin_name)
-            self._ignore = True
+        self._conditions.append(loaded)
 
     def _handle_loadplugin(self, value):
         """Handles the 'loadplugin' keyword."""
-- 
2.43.0


From 3ef428b173fc8d0d391ab6b2cdee19eff330d600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:21 +0000
Subject: [PATCH 12/54] fix: ignore lines with invalid option values unless
 paranoid

---
 oa/rules/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index 5224e0e..c75a1f0 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -140,6 +140,10 @@ class PADParser(object):
                 except oa.errors.PluginLoadError as e:
                     warnings.warn(str(e))
                     self.ctxt.log.warn("%s", e)
+                except oa.errors.PluginError as e:
+                    self.ctxt.err("%s:%s %s", filename, line_no + 1, e)
+                    if self.ctxt.paranoid:
+                        raise
 
     def _handle_line(self, filename, line, line_no, _depth=0):
         """Handles a single line."""
-- 
2.43.0


From ea50fffdd91a6b5f4875be36815ee0061565df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:21 +0000
Subject: [PATCH 13/54] fix: report every failure to load a plugin as a load
 error, and keep the plugin loaded before

---
 oa/context.py | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 1f53d5f..c252f2b 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -170,32 +170,36 @@ class GlobalContext(_Context):
         """Load the specified plugin from the given path."""
         self.log.debug("Loading plugin %s from %s", name, path)
         class_name = name.rsplit(".", 1)[-1]
-        if class_name in self.plugins:
-            self.log.warning("Redefining plugin %s.", class_name)
-            self.unload_plugin(class_name)
-
-        if path is None:
-            # The plugin should be sys.path already
-            module_name, class_name = name.rsplit(".", 1)
-            try:
+        try:
+            if path is None:
+                # The plugin should be sys.path already
+                module_name, class_name = name.rsplit(".", 1)
                 module = importlib.import_module(module_name)
-            except ImportError as e:
-                raise oa.errors.PluginLoadError("Unable to load %s: %s" %
-                                                (module_name, e))
-        elif sys.version_info[0] == 3 and sys.version_info[1] > 2:
-            # For Python 3.3+
-            module = self._load_module_py3(path)
-        else:
-            # For Python 2 and < 3.3
-            module = self._load_module_py2(path)
-
-        plugin_class = getattr(module, class_name)
+            elif sys.version_info[0] == 3 and sys.version_info[1] > 2:
+                # For Python 3.3+
+                module = self._load_module_py3(path)
+            else:
+                # For Python 2 and < 3.3
+                module = self._load_module_py2(path)
+        except Exception as e:
+            # The module can be anything, so this can also fail with anything.
+            raise oa.errors.PluginLoadError("Unable to load %s: %s" %
+                                            (name, e))
+
+        plugin_class = getattr(module, class_name, None)
         if plugin_class is None:
             raise oa.errors.PluginLoadError("Missing plugin %s in %s" %
                                             (class_name, path))
-        if not issubclass(plugin_class, oa.plugins.base.BasePlugin):
+        try:
+            is_plugin = issubclass(plugin_class, oa.plugins.base.BasePlugin)
+        except TypeError:
+            is_plugin = False
+        if not is_plugin:
             raise oa.errors.PluginLoadError("%s is not a subclass of "
                                              "BasePlugin" % class_name)
+        if class_name in self.plugins:
+            self.log.warning("Redefining plugin %s.", class_name)
+            self.unload_plugin(class_name)
         # Initialize the plugin and load any additional data
         plugin = plugin_class(self)
         self._load_cmds(plugin, class_name)
-- 
2.43.0


From 40a62e393cb7a5d3a077ded1be0d710ce3ce060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 14/54] fix: handle lang lines in any locale and with any
 option

---
 oa/rules/parser.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/oa/rules/parser.py b/oa/rules/parser.py
index c75a1f0..409aec5 100644
--- a/oa/rules/parser.py
+++ b/oa/rules/parser.py
@@ -205,18 +205,19 @@ class PADParser(object):
             except ValueError:
                 raise oa.errors.InvalidSyntax(filename, line_no, line,
                                               "Missing argument")
-            if rtype == "tflags":
-                value = value.split()
-
             if rtype == "lang":
-                locale.setlocale(locale.LC_ALL, '')
-                locale_language = locale.getlocale(locale.LC_MESSAGES)[0]
-                if not locale_language.startswith(name):
+                try:
+                    locale.setlocale(locale.LC_ALL, '')
+                    locale_language = locale.getlocale(locale.LC_MESSAGES)[0]
+                except (locale.Error, ValueError):
+                    locale_language = None
+                # There is no language in the default (C) locale.
+                if not (locale_language or "").startswith(name):
                     self.ctxt.log.debug("Lang argument does not"
                                         "correspond with locales")
                     return
 
-                if "report" in value:
+                if "report" in value.split(None, 1)[0]:
                     try:
                         rtype, value = value.split(None, 1)
                     except ValueError:
@@ -234,6 +235,12 @@ class PADParser(object):
                 except ValueError:
                     raise oa.errors.InvalidSyntax(filename, line_no, line,
                                                   "Missing argument")
+                if rtype not in KNOWN_2_RTYPE and rtype not in self.ctxt.cmds:
+                    raise oa.errors.InvalidSyntax(filename, line_no, line,
+                                                  "Unknown rule option")
+
+            if rtype == "tflags":
+                value = value.split()
 
             if name not in self.results:
                 self.results[name] = dict()
-- 
2.43.0


From 80fa6a6a77716344db61116ddce7f35d2e16c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:48 +0000
Subject: [PATCH 15/54] fix: ignore malformed header and DNS restriction
 options

---
 oa/rules/ruleset.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index fbf6ca5..70bc2ef 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -154,12 +154,16 @@ class RuleSet(object):
         instead of added.
         """
         self.ctxt.log.debug("Adding header rule: %s (%s)", value, remove)
-        if not remove:
-            msg_status, header_name, header_value = value.split(None, 2)
-            header_value = self._convert_tags(header_value)
-        else:
-            msg_status, header_name = value.split(None, 1)
-            header_value = None
+        try:
+            if not remove:
+                msg_status, header_name, header_value = value.split(None, 2)
+                header_value = self._convert_tags(header_value)
+            else:
+                msg_status, header_name = value.split(None, 1)
+                header_value = None
+        except ValueError:
+            raise oa.errors.InvalidRule(
+                "remove_header" if remove else "add_header", value)
 
         msg_status = msg_status.lower()
         if msg_status not in self.header_mod:
@@ -300,10 +304,14 @@ class RuleSet(object):
             self._convert_tags(value)
             for value in self.conf["unsafe_report"]
         )
-        for value in self.conf["add_header"]:
-            self._add_header_rule(value, False)
-        for value in self.conf["remove_header"]:
-            self._add_header_rule(value, True)
+        for option, remove in (("add_header", False), ("remove_header", True)):
+            for value in self.conf[option]:
+                try:
+                    self._add_header_rule(value, remove)
+                except oa.errors.InvalidRule as e:
+                    self.ctxt.err(e)
+                    if self.ctxt.paranoid:
+                        raise
 
         for value in self.conf['dns_query_restriction']:
             try:
@@ -311,6 +319,7 @@ class RuleSet(object):
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
+                continue
 
             if option not in ("allow", "deny"):
                 self.ctxt.log.info(
-- 
2.43.0


From 69782dae4fd64a08ce146debb4bba1572374003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:54 +0000
Subject: [PATCH 16/54] fix: parse the name and the arguments of eval rules
 exactly

---
 oa/rules/eval_.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/oa/rules/eval_.py b/oa/rules/eval_.py
index 0bba136..1467d3c 100644
--- a/oa/rules/eval_.py
+++ b/oa/rules/eval_.py
@@ -1,6 +1,7 @@
 """Rule that evaluate a predefined registered function."""
 
 import re
+import ast
 
 import oa.errors
 import oa.rules.base
@@ -35,12 +36,13 @@ class EvalRule(oa.rules.base.BaseRule):
         try:
             eval_rule_name, eval_args = _EVAL_RULE_P.match(eval_rule).groups()
             self.eval_rule_name = eval_rule_name
-            if eval_args:
-                self.eval_args = tuple(
-                        eval(arg) for arg in eval_args.split(","))
-            else:
-                self.eval_args = tuple()
-        except (TypeError, ValueError, AttributeError):
+            # The literals can include any of the separators.
+            args = ast.literal_eval("[%s]" % eval_args)
+            if not isinstance(args, list):
+                raise ValueError(eval_args)
+            self.eval_args = tuple(args)
+        except (TypeError, ValueError, AttributeError, MemoryError,
+                RuntimeError):
             raise oa.errors.InvalidRule(self.name, "Invalid eval rule: %s" %
                                         eval_rule)
         except SyntaxError:
@@ -79,7 +81,10 @@ class EvalRule(oa.rules.base.BaseRule):
     @staticmethod
     def get_rule_kwargs(data):
         kwargs = oa.rules.base.BaseRule.get_rule_kwargs(data)
-        kwargs["eval_rule"] = data['value'].lstrip('eval:').strip()
+        value = data['value'].strip()
+        if value.startswith("eval:"):
+            value = value[len("eval:"):].strip()
+        kwargs["eval_rule"] = value
         if "target" in data:
             kwargs["target"] = data['target']
         return kwargs
-- 
2.43.0


From 97ebc02a76f96a8be7c973256d198ade866b3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:35 +0000
Subject: [PATCH 17/54] fix: keep the networks of each context apart

---
 oa/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oa/networks.py b/oa/networks.py
index 3e3f121..0e7adc5 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -72,11 +72,11 @@ class MSANetworks(NetworkListBase):
 
 
 class NetworkList(object):
-    internal = InternalNetworks()
-    trusted = TrustedNetworks()
-    msa = MSANetworks()
 
     def __init__(self):
+        self.internal = InternalNetworks()
+        self.trusted = TrustedNetworks()
+        self.msa = MSANetworks()
         self.log = logging.getLogger("oa-logger")
 
     @property
-- 
2.43.0


From 339b62fa7a6681c59d174b65fd4a4e11f447fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:35 +0000
Subject: [PATCH 18/54] fix: ignore invalid networks

---
 oa/networks.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oa/networks.py b/oa/networks.py
index 0e7adc5..06a1e5d 100644
--- a/oa/networks.py
+++ b/oa/networks.py
@@ -84,7 +84,10 @@ class NetworkList(object):
         return self.internal.configured or self.trusted.configured
 
     def _extract_network(self, network_str):
-        excluded, network, mask = _NETWORK_RE.match(network_str).groups()
+        match = _NETWORK_RE.match(network_str)
+        if match is None:
+            return None, None
+        excluded, network, mask = match.groups()
         clean_value = _format_network_str(network, mask)
         try:
             network = ipaddress.ip_network(clean_value)
@@ -94,6 +97,9 @@ class NetworkList(object):
 
     def add_trusted_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return
         self.trusted.configured = True
         self.trusted.add(network, not excluded)
         if not self.internal.configured:
@@ -101,6 +107,9 @@ class NetworkList(object):
 
     def add_internal_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return
         if not self.internal.configured and self.internal:
             self.internal.clear()
         self.internal.configured = True
@@ -109,5 +118,8 @@ class NetworkList(object):
 
     def add_msa_network(self, network_str):
         excluded, network = self._extract_network(network_str)
+        if network is None:
+            self.log.warning("Invalid network: %s", network_str)
+            return
         self.internal.configured = True
         self.msa.add(network, not excluded)
-- 
2.43.0


From 7e094195026bde22f45a26d65f9840e88d1dcd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:36 +0000
Subject: [PATCH 19/54] fix: don't share the default values of options between
 contexts

---
 oa/conf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oa/conf.py b/oa/conf.py
index f6b4daf..bb5cecb 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -1,5 +1,7 @@
 """Manage configuration option parsing."""
 
+import copy
+
 import oa.errors
 
 from datetime import timedelta
@@ -38,7 +40,8 @@ class Conf(object):
         self._plugin_name = self.__class__.__name__
         if self.options:
             for key, (dummy, value) in self.options.items():
-                self.set_global(key, value)
+                # The values can be changed, so don't share the defaults.
+                self.set_global(key, copy.copy(value))
 
     def __setitem__(self, key, value):
         self.set_global(key, value)
-- 
2.43.0


From 6023835befba564c7360008dcd4d44dbd030e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:36 +0000
Subject: [PATCH 20/54] fix: report time values out of range as invalid

---
 oa/conf.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/oa/conf.py b/oa/conf.py
index bb5cecb..b7c68db 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -114,18 +114,22 @@ class Conf(object):
             # raise oa.errors.PluginError("Negative value for %s: %s" %
             #                              (global_key, value))
         if unit:
-            if unit == "m":
-                time_unit = timedelta(minutes=value)
-            elif unit == "h":
-                time_unit = timedelta(hours=value)
-            elif unit == "d":
-                time_unit = timedelta(days=value)
-            elif unit == "w":
-                time_unit = timedelta(weeks=value)
-            elif unit == "s":
-                time_unit = timedelta(seconds=value)
-            else:
-                return
+            try:
+                if unit == "m":
+                    time_unit = timedelta(minutes=value)
+                elif unit == "h":
+                    time_unit = timedelta(hours=value)
+                elif unit == "d":
+                    time_unit = timedelta(days=value)
+                elif unit == "w":
+                    time_unit = timedelta(weeks=value)
+                elif unit == "s":
+                    time_unit = timedelta(seconds=value)
+                else:
+                    return
+            except (OverflowError, ValueError):
+                raise oa.errors.PluginError("Invalid value for %s: %s" %
+                                            (global_key, value))
 
             value = time_unit.total_seconds()
 
-- 
2.43.0


From 7a33d4dc35f54890395c918891a9d2b6f63d8ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:52 +0000
Subject: [PATCH 21/54] fix: ignore invalid database settings unless paranoid

---
 oa/plugins/base.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/base.py b/oa/plugins/base.py
index e6fb0b2..bf17310 100644
--- a/oa/plugins/base.py
+++ b/oa/plugins/base.py
@@ -15,6 +15,7 @@ except ImportError:
 from collections import defaultdict
 
 import oa.conf
+import oa.errors
 
 
 def dbi_to_mysql(dsn, user, password):
@@ -114,8 +115,20 @@ class BasePlugin(oa.conf.Conf, object):
         By default this prepares the SQLAlchemy engine if the plugin has any
         set.
         """
-        connect_string = None
         self["engine"] = None
+        try:
+            self._create_engine()
+        except Exception as e:
+            # The settings are invalid or the database driver is missing.
+            err = oa.errors.PluginError("Invalid database settings for %s: %s"
+                                        % (self._plugin_name, e))
+            self.ctxt.err(err)
+            if self.ctxt.paranoid:
+                raise err
+
+    def _create_engine(self):
+        """Prepare the SQLAlchemy engine."""
+        connect_string = None
         if self.dsn:
             if self.dsn.upper().startswith("DBI"):
                 # Convert from SA format.
-- 
2.43.0


From dd8e63b71df3649822295e9108758c5270e9181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:52 +0000
Subject: [PATCH 22/54] fix: accept the bayes_token_sources option

---
 oa/conf.py          | 7 +++++++
 oa/plugins/bayes.py | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/oa/conf.py b/oa/conf.py
index b7c68db..749022b 100644
--- a/oa/conf.py
+++ b/oa/conf.py
@@ -23,6 +23,7 @@ class Conf(object):
     * bool
     * str
     * list
+    * split
     * append
     * append_split
     * clear
@@ -147,6 +148,12 @@ class Conf(object):
         """Parse and set a list option."""
         self.set_global(global_key, value.split(separator))
 
+    def set_split_option(self, global_key, value):
+        """Parse and set a list option, the values are separated by
+        whitespace.
+        """
+        self.set_global(global_key, value.split())
+
     def set_append_option(self, key, value):
         """This option can be specified multiple times and the
         result are appended to the list.
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 65a1f6d..b871611 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -479,7 +479,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         u'bayes_sql_username': ('str', ''),
         u'bayes_sql_password': ('str', ''),
         u'bayes_auto_expire': ('int', 0),
-        u'bayes_token_sources': ('split', 'header visible invisible uri'),
+        u'bayes_token_sources': ('split', ['header', 'visible', 'invisible', 'uri']),
     }
 
     eval_rules = ("check_bayes",)
-- 
2.43.0


From 32f312b949993a0517a20c7ec9ac5ed6ee087525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:12 +0000
Subject: [PATCH 23/54] fix: ignore texts in Received headers that are no
 addresses

---
 oa/message.py         | 3 ++-
 oa/received_parser.py | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index ccd71c8..e293ed5 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -250,7 +250,8 @@ class Message(oa.context.MessageContext):
     def get_header_ips(self):
         values = list()
         for header in self.received_headers:
-            values.append(ipaddress.ip_address(header["ip"]))
+            if header["ip"]:
+                values.append(ipaddress.ip_address(header["ip"]))
         return values
 
     @_memoize("addr_headers")
diff --git a/oa/received_parser.py b/oa/received_parser.py
index 1f4b26c..7b5fb59 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -11,6 +11,9 @@ It extracts the following metadata:
 """
 
 import re
+import ipaddress
+
+from builtins import str
 from oa.regex import Regex
 
 LOCALHOST = Regex(r"""
@@ -542,6 +545,12 @@ class ReceivedParser(object):
             clean_ip = item.strip("[ ]();\n")
             clean_ip = clean_ip.lower().replace('ipv6:','')
             clean_ip = clean_ip.lower().replace('::ffff:','')
+            try:
+                ipaddress.ip_address(str(clean_ip))
+            except ValueError:
+                # Not an address, e.g. leading zeros in an octet.
+                no_ips -= 1
+                continue
             if IP_PRIVATE.search(clean_ip):
                 count += 1
                 private_ips.append(clean_ip)
-- 
2.43.0


From 3c08924597a99e5f6ee3f7ad1970328984928d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 24/54] fix: recognise IPv6 addresses in upper case in Received
 headers

---
 oa/received_parser.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/oa/received_parser.py b/oa/received_parser.py
index 7b5fb59..c0ab54f 100644
--- a/oa/received_parser.py
+++ b/oa/received_parser.py
@@ -184,32 +184,32 @@ IP_ADDRESS = Regex(r"""
               # IPv6 addresses
               # don't use \b here, it hits on :'s
               (?:IPv6:    # with optional prefix
-                        | (?<![a-f0-9:])
+                        | (?<![a-fA-F0-9:])
                       )
               (?:
             # IPv4 mapped in IPv6
             # note the colon after the 12th byte in each here
             (?:
               # first 6 (12 bytes) non-zero
-              (?:[a-f0-9]{1,4}:){6}
+              (?:[a-fA-F0-9]{1,4}:){6}
               |
               # leading zeros omitted (note {0,5} not {1,5})
-              ::(?:[a-f0-9]{1,4}:){0,5}
+              ::(?:[a-fA-F0-9]{1,4}:){0,5}
               |
               # trailing zeros (in the first 6) omitted
-              (?:[a-f0-9]{1,4}:){1,5}:
+              (?:[a-fA-F0-9]{1,4}:){1,5}:
               |
               # 0000 in second up to (including) fifth omitted
-              [a-f0-9]{1,4}::(?:[a-f0-9]{1,4}:){1,4}
+              [a-fA-F0-9]{1,4}::(?:[a-fA-F0-9]{1,4}:){1,4}
               |
               # 0000 in third up to (including) fifth omitted
-              (?:[a-f0-9]{1,4}:){2}:(?:[a-f0-9]{1,4}:){1,3}
+              (?:[a-fA-F0-9]{1,4}:){2}:(?:[a-fA-F0-9]{1,4}:){1,3}
               |
               # 0000 in fourth up to (including) fifth omitted
-              (?:[a-f0-9]{1,4}:){3}:(?:[a-f0-9]{1,4}:){1,2}
+              (?:[a-fA-F0-9]{1,4}:){3}:(?:[a-fA-F0-9]{1,4}:){1,2}
               |
               # 0000 in fifth omitted
-              (?:[a-f0-9]{1,4}:){4}:[a-f0-9]{1,4}:
+              (?:[a-fA-F0-9]{1,4}:){4}:[a-fA-F0-9]{1,4}:
             )
             # and the IPv4 address appended to all of the 12 bytes above
             (?:1\d\d|2[0-4]\d|25[0-5]|\d\d|\d)\.
@@ -220,31 +220,31 @@ IP_ADDRESS = Regex(r"""
             | # or (separately) a pure IPv6 address
 
             # all 8 (16 bytes) of them present
-            (?:[a-f0-9]{1,4}:){7}[a-f0-9]{1,4}
+            (?:[a-fA-F0-9]{1,4}:){7}[a-fA-F0-9]{1,4}
             |
             # leading zeros omitted
-            :(?::[a-f0-9]{1,4}){1,7}
+            :(?::[a-fA-F0-9]{1,4}){1,7}
             |
             # trailing zeros omitted
-            (?:[a-f0-9]{1,4}:){1,7}:
+            (?:[a-fA-F0-9]{1,4}:){1,7}:
             |
             # 0000 in second up to (including) seventh omitted
-            [a-f0-9]{1,4}:(?::[a-f0-9]{1,4}){1,6}
+            [a-fA-F0-9]{1,4}:(?::[a-fA-F0-9]{1,4}){1,6}
             |
             # 0000 in third up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){2}(?::[a-f0-9]{1,4}){1,5}
+            (?:[a-fA-F0-9]{1,4}:){2}(?::[a-fA-F0-9]{1,4}){1,5}
             |
             # 0000 in fouth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){3}(?::[a-f0-9]{1,4}){1,4}
+            (?:[a-fA-F0-9]{1,4}:){3}(?::[a-fA-F0-9]{1,4}){1,4}
             |
             # 0000 in fifth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){4}(?::[a-f0-9]{1,4}){1,3}
+            (?:[a-fA-F0-9]{1,4}:){4}(?::[a-fA-F0-9]{1,4}){1,3}
             |
             # 0000 in sixth up to (including) seventh omitted
-            (?:[a-f0-9]{1,4}:){5}(?::[a-f0-9]{1,4}){1,2}
+            (?:[a-fA-F0-9]{1,4}:){5}(?::[a-fA-F0-9]{1,4}){1,2}
             |
             # 0000 in seventh omitted
-            (?:[a-f0-9]{1,4}:){6}:[a-f0-9]{1,4}
+            (?:[a-fA-F0-9]{1,4}:){6}:[a-fA-F0-9]{1,4}
             |
             # :: (the unspecified address 0:0:0:0:0:0:0:0)
             # dos: I don't expect to see this address in a header, and
@@ -252,7 +252,7 @@ IP_ADDRESS = Regex(r"""
             # include it for now since it is valid
             ::
               )
-              (?![a-f0-9:])
+              (?![a-fA-F0-9:])
             )""", re.X)
 
 IPFRE = Regex(r"[\[ \(]{1}[a-fA-F\d\.\:]{7,}?[\] \n;\)]{1}")
-- 
2.43.0


From 6a353867662f164fddaf2bd145a50850c6c3df5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 25/54] fix: don't share the cached lists of decoded headers

---
 oa/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oa/message.py b/oa/message.py
index e293ed5..a2efe8e 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -117,7 +117,8 @@ class _memoize(object):
             if result is None:
                 result = func(fself, name)
                 cache[name] = result
-            return result
+            # The caller can change the list, but not the cached one.
+            return list(result)
 
         return wrapped_func
 
-- 
2.43.0


From aceba3923d345f7716c5818241470464aac22291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 26/54] fix: clear the descriptions and tags of the matched
 rules with the rules

---
 oa/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oa/message.py b/oa/message.py
index a2efe8e..dfe3b8f 100644
--- a/oa/message.py
+++ b/oa/message.py
@@ -171,6 +171,8 @@ class Message(oa.context.MessageContext):
     def clear_matches(self):
         """Clear any already checked rules."""
         self.rules_checked = dict()
+        self.rules_descriptions = dict()
+        self.interpolate_data = dict()
         self.score = 0
 
     @staticmethod
-- 
2.43.0


From 1c1ff8b0bdccffccaa7d1edce9907c768f19594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 27/54] fix: don't use the Received mismatches of the previous
 message

---
 oa/plugins/relay_eval.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oa/plugins/relay_eval.py b/oa/plugins/relay_eval.py
index 606b62b..89a79af 100644
--- a/oa/plugins/relay_eval.py
+++ b/oa/plugins/relay_eval.py
@@ -123,6 +123,11 @@ class RelayEval(oa.plugins.base.BasePlugin):
                 return desired == "true"
         return desired != "true"
 
+    def check_start(self, msg):
+        """The mismatches of the previous message don't count for this one."""
+        self.set_global("mismatch_from", None)
+        self.set_global("mismatch_ip_helo", None)
+
     def check_for_forged_received_trail(self, msg, option=None, target=None):
         """Check if there are more than one untrusted relays and verify if
         rdns is different than the other relay's by."""
-- 
2.43.0


From 2dd9bceb688e058ec166e513bdb64acdc66cac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 28/54] fix: don't keep the SPF results of the previous message

---
 oa/plugins/spf.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oa/plugins/spf.py b/oa/plugins/spf.py
index 391bfc1..b7d38e0 100644
--- a/oa/plugins/spf.py
+++ b/oa/plugins/spf.py
@@ -73,6 +73,13 @@ class SpfPlugin(oa.plugins.base.BasePlugin):
         "check_def_spf_whitelist_from": 0
     }
 
+    def check_start(self, msg):
+        """The results of the previous message don't count for this one."""
+        self.spf_check = False
+        self.spf_check_helo = False
+        self.no_valid_identity = False
+        self.check_result = dict.fromkeys(self.check_result, 0)
+
     def parsed_metadata(self, msg):
         if self.get_global("ignore_received_spf_header"):
             # The plugin will ignore the spf headers and will perform
-- 
2.43.0


From 356ffab352ba4438b48df6193e96ce8745f0a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 29/54] fix: don't keep the DKIM results of the previous
 message

---
 oa/plugins/dkim.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index e6f8368..e3aa168 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -57,6 +57,18 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         "U": "unknown"
     }
 
+    def check_start(self, msg):
+        """The results of the previous message don't count for this one."""
+        self.author_addresses = []
+        self.author_domains = []
+        self.dkim_checked_signature = 0
+        self.dkim_signed = 0
+        self.dkim_valid = 0
+        self.dkim_has_valid_author_sig = 0
+        self.dkim_signatures_dependable = 0
+        self.is_valid = 1
+        self.match_adsp = 0
+
     def get_txt(self, name):
         """Return a TXT record associated with a DNS name.
 
-- 
2.43.0


From 573ada44ca4e503944b5fd2b24c636d71705ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:32 +0000
Subject: [PATCH 30/54] fix: don't remove headers from messages checked for
 illegal characters

---
 oa/plugins/header_eval.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index eb863c5..923844b 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -157,16 +157,9 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                                   "invalid option: %s", count)
             return False
         if header == 'ALL':
-            raw_headers = msg.raw_headers
-            key_headers = []
-            for keys in raw_headers.keys():
-                key_headers.append(keys)
-            for key in key_headers:
-                if key.lower() in ("subject", "from"):
-                    try:
-                        del raw_headers[key]
-                    except KeyError:
-                        pass
+            raw_headers = {key: values for key, values
+                           in msg.raw_headers.items()
+                           if key.lower() not in ("subject", "from")}
         else:
             raw_headers = {header: msg.get_raw_header(header)}
 
-- 
2.43.0


From 4473fa03345ff671df2f01760af7dcfc0e165e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:19 +0000
Subject: [PATCH 31/54] fix: parse messages with malformed PDF attachments

---
 oa/plugins/pdf_info.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 25c1c99..4b5c576 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -341,4 +341,9 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
             name = part.get_param("name")
             self._add_name(msg, name)
             self._update_counts(msg, incr=1)
-            self._save_stats(msg, part.get_payload(decode=True))
+            try:
+                self._save_stats(msg, part.get_payload(decode=True))
+            except Exception as e:
+                # The attachment can be anything, so this can also fail with
+                # anything.
+                self.ctxt.log.debug("Unable to process PDF: %s", e)
-- 
2.43.0


From 00caaf117d1e28fdb20701cb8e7c0716783dd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:19 +0000
Subject: [PATCH 32/54] fix: describe the rules that short-circuited a message

---
 oa/plugins/short_circuit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index a427a81..616ae7a 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -3,6 +3,8 @@ Short-circuiting a test will force all other pending rules to be
 skipped, if that test is hit.
 """
 
+from builtins import str
+
 import functools
 
 import oa.errors
@@ -36,6 +38,11 @@ class ShortCircuitRule(object):
         msg.plugin_tags["SC"] = "%s (%s)" % (self.rule.name, self.stype)
         # Add the score of the current rule (this will
         # be skipped in the ruleset otherwise
+        if isinstance(result, str):
+            msg.rules_descriptions[self.rule.name] = result
+            result = True
+        else:
+            msg.rules_descriptions[self.rule.name] = self.rule.description
         msg.rules_checked[self.rule.name] = result
         msg.score += self.rule.score
 
-- 
2.43.0


From 8af74e890def1e2cb8729107f969ea14a46aea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 33/54] fix: DKIM signatures that can't be parsed or verified
 are not valid

---
 oa/plugins/dkim.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/dkim.py b/oa/plugins/dkim.py
index e3aa168..cbefd99 100644
--- a/oa/plugins/dkim.py
+++ b/oa/plugins/dkim.py
@@ -284,7 +284,15 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         signature = msg.msg.get('DKIM-Signature', "")
         if not signature:
             self.dkim_signed = 0
-        parsed_signature = dkim.util.parse_tag_value(signature.encode())
+        try:
+            parsed_signature = dkim.util.parse_tag_value(signature.encode())
+        except dkim.util.InvalidTagValueList:
+            # There is nothing that could be valid.
+            parsed_signature = {}
+            self.is_valid = 0
+            self.dkim_signed = 0
+            self.dkim_has_valid_author_sig = 0
+            self.dkim_signatures_dependable = 0
         try:
             if parsed_signature[b'd'] not in self.author_domains:
                 self.dkim_valid = 0
@@ -313,6 +321,12 @@ class DKIMPlugin(oa.plugins.base.BasePlugin):
         except dkim.KeyFormatError:
             self.dkim_valid = 0
             self.dkim_has_valid_author_sig = 0
+        except Exception as e:
+            # For example a failed DNS query, so nothing is known to be valid.
+            self.ctxt.log.info("Unable to verify the DKIM signature: %s", e)
+            self.is_valid = 0
+            self.dkim_valid = 0
+            self.dkim_has_valid_author_sig = 0
 
 
 
-- 
2.43.0


From 91160968e823cc8f168c701d95c253fa4a7fc6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:38 +0000
Subject: [PATCH 34/54] fix: decode complete messages in the daemon and answer
 undecodable requests

---
 oa/protocol/base.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/oa/protocol/base.py b/oa/protocol/base.py
index 78a5b04..4954342 100644
--- a/oa/protocol/base.py
+++ b/oa/protocol/base.py
@@ -33,7 +33,10 @@ class BaseProtocol(object):
         """Get any options added to the command."""
         options = dict()
         while True:
-            line = self.rfile.readline().decode("utf8").strip()
+            try:
+                line = self.rfile.readline().decode("utf8").strip()
+            except UnicodeDecodeError:
+                raise oa.errors.InvalidOption("header is not valid UTF-8")
             if not line:
                 break
             self.log.debug("Got line: %s", line)
@@ -67,12 +70,19 @@ class BaseProtocol(object):
                                         self.chunk_size))
             if not chunk:
                 break
-            message_chunks.append(chunk.decode("utf8"))
+            message_chunks.append(chunk)
             if content_length is not None:
                 content_length -= len(chunk)
+        # A character can be split between chunks, so only decode the
+        # complete message.
+        message = b"".join(message_chunks)
         if options.get('compress') == "zlib":
-            return zlib.decompress("".join(message_chunks))
-        return "".join(message_chunks)
+            try:
+                message = zlib.decompress(message)
+            except zlib.error as e:
+                raise oa.errors.InvalidOption("Invalid compressed data: %s" %
+                                              e)
+        return message.decode("utf8", "ignore")
 
     def get_and_handle(self):
         """Get data from the client and call the handle method."""
-- 
2.43.0


From 42c2f62a1cf796e73e4f764ee0d19af39ca94114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:38 +0000
Subject: [PATCH 35/54] fix: answer malformed request lines and don't hide
 errors of the commands

---
 oa/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index b7b4419..724f4f1 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -38,15 +38,17 @@ class RequestHandler(spoon.server.TCPGulp):
         """Get the command from the client and pass it to the
         correct handler.
         """
-        line = self.rfile.readline().decode("utf8").strip()
-        command, proto_version = line.split()
+        line = self.rfile.readline().decode("utf8", "replace").strip()
         try:
-            # Run the command handler
-            COMMANDS[command.upper()](self.rfile, self.wfile, self.server)
-        except KeyError:
+            command, proto_version = line.split()
+            handler = COMMANDS[command.upper()]
+        except (KeyError, ValueError):
             error_line = ("SPAMD/%s 76 Bad header line: %s\r\n" %
                           (oa.__version__, line))
             self.wfile.write(error_line.encode("utf8"))
+            return
+        # Run the command handler
+        handler(self.rfile, self.wfile, self.server)
 
 
 class Server(spoon.server.TCPSpoon):
-- 
2.43.0


From 38266f55948346d360fd4cff54431f7beb914189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:38 +0000
Subject: [PATCH 36/54] fix: the length of a response is in bytes

---
 oa/protocol/check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oa/protocol/check.py b/oa/protocol/check.py
index 1664266..3ddb3ba 100644
--- a/oa/protocol/check.py
+++ b/oa/protocol/check.py
@@ -20,7 +20,7 @@ class CheckCommand(oa.protocol.base.BaseProtocol):
         yield "Spam: %s ; %.1f / %s\r\n" % (spam, msg.score,
                                             self.ruleset.conf["required_score"])
         result = "".join(self.extra_details(msg, options))
-        yield "Content-length: %s\r\n\r\n" % len(result)
+        yield "Content-length: %s\r\n\r\n" % len(result.encode("utf8"))
         yield result
 
     def extra_details(self, msg, options):
-- 
2.43.0


From 5cb72ade27492b9c10dce176fc381784cc684ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:46 +0000
Subject: [PATCH 37/54] fix: apply the site options and plugins to the users of
 the daemon

---
 oa/server.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/oa/server.py b/oa/server.py
index 724f4f1..49bef56 100644
--- a/oa/server.py
+++ b/oa/server.py
@@ -4,7 +4,6 @@ returns the result.
 from __future__ import absolute_import
 
 import os
-import copy
 
 import spoon.server
 
@@ -65,6 +64,7 @@ class Server(spoon.server.TCPSpoon):
         self._ruleset = None
         self._user_rulesets = {}
         self._parser_results = None
+        self._config_files = []
         self.sitepath = sitepath
         self.configpath = configpath
 
@@ -73,13 +73,14 @@ class Server(spoon.server.TCPSpoon):
     def load_config(self):
         """Reads the configuration files and reloads the ruleset."""
         self._user_rulesets.clear()
+        # Store the files to generate user settings later
+        self._config_files = oa.config.get_config_files(self.configpath,
+                                                        self.sitepath)
         parser = oa.rules.parser.parse_pad_rules(
-            oa.config.get_config_files(self.configpath, self.sitepath),
+            self._config_files,
             paranoid=self.paranoid, ignore_unknown=self.ignore_unknown
         )
         self._ruleset = parser.get_ruleset()
-        # Store a copy of the parser results to generate user
-        # settings later
         self._parser_results = parser.results
 
     def get_user_ruleset(self, user=None):
@@ -103,9 +104,10 @@ class Server(spoon.server.TCPSpoon):
                 self._ruleset.ctxt.paranoid,
                 self._ruleset.ctxt.ignore_unknown
             )
-            # Use the already parsed results and pass the user
-            # ones.
-            parser.results = copy.deepcopy(self._parser_results)
+            # The site options and plugins apply to the user too, and
+            # the user must not change any of them.
+            for filename in self._config_files:
+                parser.parse_file(filename)
             parser.parse_file(path)
             ruleset = parser.get_ruleset()
             ruleset.ctxt.username = user
-- 
2.43.0


From 80a6301c5c6b6d72117d484dfddc624bd7b7b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:31 +0000
Subject: [PATCH 38/54] fix: report ham as ham and only to the valid targets of
 TELL

---
 oa/context.py       |  9 +++++++--
 oa/protocol/tell.py | 14 ++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index c252f2b..2e680e8 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -359,9 +359,14 @@ class GlobalContext(_Context):
 
     @_callback_chain
     def hook_report(self, msg, spam=True, local=True, remote=True):
-        """Hook when the message should be reported as spam."""
+        """Hook when the message should be reported as spam, or as ham if
+        it's not spam.
+        """
         for plugin in self.plugins.values():
-            plugin.plugin_report(msg)
+            if spam:
+                plugin.plugin_report(msg)
+            else:
+                plugin.plugin_revoke(msg)
 
     @_callback_chain
     def hook_revoke(self, msg, spam=False, local=True, remote=True):
diff --git a/oa/protocol/tell.py b/oa/protocol/tell.py
index fb24035..71254c1 100644
--- a/oa/protocol/tell.py
+++ b/oa/protocol/tell.py
@@ -12,17 +12,23 @@ class TellCommand(oa.protocol.base.BaseProtocol):
     has_options = True
     has_message = True
 
+    @staticmethod
+    def get_targets(value):
+        """Get the valid targets from a comma separated list."""
+        targets = [target.strip() for target in value.split(",")]
+        return [target for target in targets if target in ("local", "remote")]
+
     def handle(self, msg, options):
         spam = options.get("message-class", "spam").lower() == "spam"
         response = []
-        if "set" in options:
-            targets = options.get("set").split(",")
+        targets = self.get_targets(options.get("set", ""))
+        if targets:
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_report(msg, spam, local, remote)
             response.append("DidSet: %s\r\n" % options.get("set"))
-        if "remove" in options:
-            targets = options.get("remove").split(",")
+        targets = self.get_targets(options.get("remove", ""))
+        if targets:
             local = "local" in targets
             remote = "remote" in targets
             self.ruleset.ctxt.hook_revoke(msg, spam, local, remote)
-- 
2.43.0


From fc52aee190b66a26d50208017e855689bc7552cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:06 +0000
Subject: [PATCH 39/54] fix: keep the text of templates and fold the added
 headers

---
 oa/rules/ruleset.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index 70bc2ef..d1521dd 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -18,7 +18,9 @@ import oa
 import oa.errors
 import oa.regex
 
-_TAG_RE = oa.regex.Regex(r"(_([A-Z_]*?)_)")
+_TAG_RE = oa.regex.Regex(r"(_(TESTS\([^()]*\)|[A-Z][A-Z_]*?)_)")
+# A line break which doesn't continue the header.
+_NOT_FOLDED_RE = oa.regex.Regex(r"(?:\r\n|\r|\n)(?![ \t])")
 
 _DNS_OPTIONS_RE = oa.regex.Regex(r"""
 [
@@ -87,9 +89,15 @@ class RuleSet(object):
                 data["TESTS"] = "none"
             else:
                 data["TESTS"] = ",".join(matched_rules)
+        for tag in self.tags:
+            if tag.startswith("TESTS("):
+                separator = tag[len("TESTS("):-1]
+                matched_rules = [name for name, result
+                                 in msg.rules_checked.items() if result]
+                data[tag] = separator.join(matched_rules) or "none"
 
         if "TESTSSCORES" in self.tags:
-            matched_rules = ["%s=%s" % (name, int(result))
+            matched_rules = ["%s=%s" % (name, self.get_rule(name).score)
                              for name, result in msg.rules_checked.items()
                              if result]
             if not matched_rules:
@@ -122,7 +130,7 @@ class RuleSet(object):
 
     def _convert_tags(self, text):
         """Replace _TAGS_ with placeholders. %(TAG)s"""
-        text = text.strip("'\"")
+        text = text.strip("'\"").replace("%", "%%")
         for tag in _TAG_RE.findall(text):
             self.tags.add(tag[1])
         return _TAG_RE.sub(r"%(\2)s", text)
@@ -180,9 +188,9 @@ class RuleSet(object):
             newmsg = email.message_from_string(msg.raw_msg)
         else:
             newmsg = self._get_bounce_message(msg)
-        if self.conf["report_safe"] == 0:
-            newmsg.add_header("X-Spam-Report",
-                              self.get_matched_report(msg))
+        if spam and self.conf["report_safe"] == 0:
+            report = _NOT_FOLDED_RE.sub("\n\t", self.get_matched_report(msg))
+            newmsg.add_header("X-Spam-Report", report)
         self._adjust_headers(msg, newmsg, self.header_mod["all"])
         if spam:
             self._adjust_headers(msg, newmsg, self.header_mod["spam"])
@@ -206,7 +214,10 @@ class RuleSet(object):
             if remove:
                 del newmsg[name]
             else:
-                newmsg.add_header(name, self._interpolate(value, msg))
+                # The value of a tag can have many lines.
+                value = _NOT_FOLDED_RE.sub("\n\t",
+                                           self._interpolate(value, msg))
+                newmsg.add_header(name, value)
 
     def _get_bounce_message(self, msg):
         """Create a bounce message from the original."""
-- 
2.43.0


From 2717dd2ee76c64dcc367401d2ee499f8ecdbd1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:07 +0000
Subject: [PATCH 40/54] fix: use the last short-circuit setting of a rule

---
 oa/plugins/short_circuit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/oa/plugins/short_circuit.py b/oa/plugins/short_circuit.py
index 616ae7a..3201d69 100644
--- a/oa/plugins/short_circuit.py
+++ b/oa/plugins/short_circuit.py
@@ -5,7 +5,7 @@ skipped, if that test is hit.
 
 from builtins import str
 
-import functools
+import collections
 
 import oa.errors
 import oa.plugins.base
@@ -88,12 +88,19 @@ class ShortCircuit(oa.plugins.base.BasePlugin):
         configuration and shortcircuit them.
         """
         super(ShortCircuit, self).finish_parsing_end(ruleset)
+        # The last valid setting of each rule is used.
+        settings = collections.OrderedDict()
         for config in self["shortcircuit"]:
             try:
                 rule_name, stype = config.split(None, 1)
             except ValueError:
                 self.ctxt.err("Invalid short circuit: %s", config)
                 continue
+            if stype not in ("on", "off", "ham", "spam"):
+                self.ctxt.err("Invalid short circuit type: %s" % stype)
+                continue
+            settings[rule_name] = stype
+        for rule_name, stype in settings.items():
             try:
                 rule = ruleset.get_rule(rule_name)
             except KeyError:
@@ -103,9 +110,6 @@ class ShortCircuit(oa.plugins.base.BasePlugin):
             # Nothing to do here.
             if stype == "off":
                 continue
-            if stype not in ("on", "ham", "spam"):
-                self.ctxt.err("Invalid short circuit type: %s" % stype)
-                continue
             self.ctxt.log.debug("Short-circuiting rule: %s (%s)",
                                 rule.name, stype)
             new_method = self.get_wrapped_method(rule, stype)
-- 
2.43.0


From 3f27c30f0dd62e792dd95494e3e27b0acbdbcca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:41 +0000
Subject: [PATCH 41/54] fix: learn automatically from the rules that matched,
 also as ham

---
 oa/plugins/auto_learn_threshold.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/auto_learn_threshold.py b/oa/plugins/auto_learn_threshold.py
index 3039752..2475e5b 100644
--- a/oa/plugins/auto_learn_threshold.py
+++ b/oa/plugins/auto_learn_threshold.py
@@ -2,6 +2,8 @@
 fall outside the defined threshold"""
 from __future__ import absolute_import
 
+import collections
+
 import oa.plugins.base
 
 MIN_BODY_POINTS = 3
@@ -166,9 +168,12 @@ class AutoLearnThreshold(oa.plugins.base.BasePlugin):
         and submits it
         """
         bayes = self.ctxt.plugins.get("BayesPlugin", None)
-        self.prepare_learning_metadata(msg, tests=ruleset.checked)
+        tests = collections.OrderedDict(
+            (name, rule) for name, rule in ruleset.checked.items()
+            if msg.rules_checked.get(name))
+        self.prepare_learning_metadata(msg, tests=tests)
         if self.should_learn(msg) and bayes is not None:
             if self.get_local(msg, "learner_thinks_spam"):
                 bayes.plugin_report(msg)
-            elif self.get_local(msg, "learner_thinks_spam"):
+            elif self.get_local(msg, "learner_thinks_ham"):
                 bayes.plugin_revoke(msg)
-- 
2.43.0


From dd8575a418e9aca7ee7dc76fa5fb924c1ba2f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:57 +0000
Subject: [PATCH 42/54] fix: keep the Bayes counters and tokens consistent

The stores failed for messages not seen before, overwrote the counts
instead of adding to them and never created a row; learning passed the
clear text along with the hash of a token. Words like a.com looped
forever, tokens that are mail addresses raised an error, and with
bayes_use_hapaxes off the probabilities were assigned to other tokens.
The most significant tokens are used instead of the least.
---
 oa/db/bayes/mysql.py      | 42 ++++++++++++++++++--------
 oa/db/bayes/sqlalchemy.py | 62 +++++++++++++++++++++++++++------------
 oa/plugins/bayes.py       | 16 +++++-----
 3 files changed, 80 insertions(+), 40 deletions(-)

diff --git a/oa/db/bayes/mysql.py b/oa/db/bayes/mysql.py
index acd0324..f45cbb7 100644
--- a/oa/db/bayes/mysql.py
+++ b/oa/db/bayes/mysql.py
@@ -57,9 +57,9 @@ class Store(object):
         cursor = self.conn.cursor()
         cursor.execute("SELECT flag FROM bayes_seen WHERE msgid=%s",
                        (msgid,))
-        result = cursor.fetchone()[0]
+        result = cursor.fetchone()
         cursor.close()
-        return result
+        return result[0] if result else None
 
     def seen_delete(self, msgid):
         cursor = self.conn.cursor()
@@ -67,14 +67,22 @@ class Store(object):
             "DELETE FROM bayes_seen WHERE msgid = %s",
             (msgid,)
         )
+        self.conn.commit()
         cursor.close()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
+        seen = self.seen_get(msgid)
         cursor = self.conn.cursor()
-        cursor.execute(
-            "UPDATE bayes_seen SET flag=%s WHERE msgid=%s", (flag, msgid)
-        )
+        if seen is None:
+            cursor.execute(
+                "INSERT INTO bayes_seen (flag, msgid) VALUES (%s, %s)",
+                (flag, msgid)
+            )
+        else:
+            cursor.execute(
+                "UPDATE bayes_seen SET flag=%s WHERE msgid=%s", (flag, msgid)
+            )
         self.conn.commit()
         cursor.close()
 
@@ -90,24 +98,34 @@ class Store(object):
         )
         result = cursor.fetchone()
         cursor.close()
-        return result
+        return result or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
+        """Add to the spam and ham counts for the database."""
         cursor = self.conn.cursor()
-        cursor.execute("UPDATE bayes_vars SET spam_count=%s, ham_count=%s",
-                       (spam, ham))
+        cursor.execute("UPDATE bayes_vars SET spam_count=spam_count + %s, "
+                       "ham_count=ham_count + %s", (spam, ham))
+        if not cursor.rowcount:
+            cursor.execute(
+                "INSERT INTO bayes_vars (spam_count, ham_count) "
+                "VALUES (%s, %s)", (spam, ham))
         self.conn.commit()
         cursor.close()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Add to the spam and ham counts, and update the access time for the
+        specified tokens."""
         cursor = self.conn.cursor()
         for token in tokens:
             cursor.execute(
                 "UPDATE bayes_token "
-                "SET spam_count=%s, ham_count=%s, atime=%s "
-                "WHERE token=%s", (spam, ham, msgatime, token))
+                "SET spam_count=spam_count + %s, ham_count=ham_count + %s, "
+                "atime=%s WHERE token=%s", (spam, ham, msgatime, token))
+            if not cursor.rowcount:
+                cursor.execute(
+                    "INSERT INTO bayes_token "
+                    "(spam_count, ham_count, atime, token) "
+                    "VALUES (%s, %s, %s, %s)", (spam, ham, msgatime, token))
         self.conn.commit()
         cursor.close()
 
diff --git a/oa/db/bayes/sqlalchemy.py b/oa/db/bayes/sqlalchemy.py
index 567a655..a4979dc 100644
--- a/oa/db/bayes/sqlalchemy.py
+++ b/oa/db/bayes/sqlalchemy.py
@@ -131,21 +131,29 @@ class Store(object):
 
     def seen_get(self, msgid):
         """Get the "seen" flag for the specified message."""
-        return self.conn.execute(
+        row = self.conn.execute(
             "SELECT flag FROM bayes_seen WHERE msgid=:msgid",
-            {'msgid': msgid}).fetchone()[0]
+            {'msgid': msgid}).fetchone()
+        return row[0] if row else None
 
-    def seen_delete(self, id, msgid):
+    def seen_delete(self, msgid):
         self.conn.execute(
             "DELETE FROM bayes_seen WHERE msgid = :msgid",
             {"msgid": msgid}
         )
+        self.conn.commit()
 
     def seen_put(self, msgid, flag):
         """Set the "seen" flag for the specified message."""
-        self.conn.execute(
-            "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid",
-            {"flag": flag, "msgid": msgid})
+        if self.seen_get(msgid) is None:
+            self.conn.execute(
+                "INSERT INTO bayes_seen (id, msgid, flag) "
+                "VALUES (0, :msgid, :flag)",
+                {"flag": flag, "msgid": msgid})
+        else:
+            self.conn.execute(
+                "UPDATE bayes_seen SET flag=:flag WHERE msgid=:msgid",
+                {"flag": flag, "msgid": msgid})
         self.conn.commit()
 
     def cleanup(self):
@@ -154,31 +162,47 @@ class Store(object):
 
     def nspam_nham_get(self):
         """Get the spam and ham counts for the database."""
-        return self.conn.execute(
+        row = self.conn.execute(
             "SELECT spam_count, ham_count FROM bayes_vars LIMIT 1"
         ).fetchone()
+        return row or (0, 0)
 
     def nspam_nham_change(self, spam, ham):
-        """Set the spam and ham counts for the database."""
-        self.conn.execute(
+        """Add to the spam and ham counts for the database."""
+        counts = {'spam_count': spam, 'ham_count': ham}
+        result = self.conn.execute(
             "UPDATE bayes_vars "
-            "SET spam_count=:spam_count, ham_count=:ham_count",
-            {'spam_count': spam, 'ham_count': ham}
+            "SET spam_count=spam_count + :spam_count, "
+            "ham_count=ham_count + :ham_count", counts
         )
+        if not result.rowcount:
+            self.conn.execute(
+                "INSERT INTO bayes_vars (username, spam_count, ham_count) "
+                "VALUES ('', :spam_count, :ham_count)", counts
+            )
         self.conn.commit()
 
     def multi_tok_count_change(self, spam, ham, tokens, msgatime):
-        """Update the spam and ham counts, and access time for the specified tokens."""
+        """Add to the spam and ham counts, and update the access time for the
+        specified tokens."""
         for token in tokens:
-            self.conn.execute(
+            counts = {
+                'spam_count': spam, 'ham_count': ham,
+                'atime': msgatime, 'token': token
+            }
+            result = self.conn.execute(
                 "UPDATE bayes_token "
-                "SET spam_count=:spam_count, ham_count=:ham_count, "
-                "atime=:atime WHERE token=:token",
-                {
-                    'spam_count': spam, 'ham_count': ham,
-                    'atime': msgatime, 'token': token
-                }
+                "SET spam_count=spam_count + :spam_count, "
+                "ham_count=ham_count + :ham_count, "
+                "atime=:atime WHERE token=:token", counts
             )
+            if not result.rowcount:
+                self.conn.execute(
+                    "INSERT INTO bayes_token "
+                    "(id, token, spam_count, ham_count, atime) "
+                    "VALUES (0, :token, :spam_count, :ham_count, :atime)",
+                    counts
+                )
         self.conn.commit()
 
     def tok_touch_all(self, touch_tokens, msgatime):
diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index b871611..4516c64 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -675,7 +675,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # a safety measure.
         if msgatime - time.time() > 86400:
             msgatime = time.time()
-        tokens = self.tokenise(msg)
+        tokens = [token for token, _ in self.tokenise(msg)]
         # XXX SA puts this in a timer.
         if isspam:
             self.store.nspam_nham_change(1, 0)
@@ -723,7 +723,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             self.ctxt.log.debug("bayes: forget: msgid %s not learnt, ignored",
                                 msgid)
             return False
-        tokens = self.tokenise(msg)
+        tokens = [token for token, _ in self.tokenise(msg)]
         if isspam:
             self.store.nspam_nham_change(-1, 0)
             self.store.multi_tok_count_change(-1, 0, tokens, msg.receive_date)
@@ -845,14 +845,12 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
             # Are we in the body? If so, apply some body-specific breakouts.
             if region in (1, 2):
                 if CHEW_BODY_MAILADDRS and re.match(r"\S\@\S", token):
-                    rettokens.add(self._tokenise_mail_addrs(token))
+                    rettokens.update(self._tokenise_mail_addrs(token))
                 elif CHEW_BODY_URIS and re.match(r"\S\.[a-z]", token, re.I):
                     rettokens.add(u"UD:" + token)  # The full token.
                     bit = token
-                    while True:
-                        bit = re.sub(r"^[^\.]+\.(.+)$", "\1", bit)
-                        if not bit:
-                            break
+                    while "." in bit:
+                        bit = bit.split(".", 1)[1]
                         rettokens.add("UD:" + bit)  # UD = URL domain
 
             # Note: do not trim down overlong tokens if they contain '*'.
@@ -1154,7 +1152,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # XXX This has a timer in SA.
         msgtokens = dict(t for t in self.tokenise(msg))
         tokensdata = list(d for d in self.store.tok_get_all(msgtokens) if d is not None)
-        probabilities_ref = (ref for ref in self._compute_prob_for_all_tokens(tokensdata, ns, nn) if ref is not None)
+        probabilities_ref = self._compute_prob_for_all_tokens(tokensdata, ns, nn) or ()
         pw = {}
         for tokendata, prob in zip(tokensdata, probabilities_ref):
             if prob is None:
@@ -1194,7 +1192,7 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # Robinson's formula.
         pw_keys = pw.keys()
         # XXX This is really inefficient.
-        pw_keys = sorted(pw_keys, key=tok_strength.get)
+        pw_keys = sorted(pw_keys, key=tok_strength.get, reverse=True)
         # pw_keys.sort(cmp=lambda a, b: tok_strength(b) > tok_strength(a))
         pw_keys = pw_keys[:N_SIGNIFICANT_TOKENS]
 
-- 
2.43.0


From 48b8ba151cdb2c22f4d44933c3297103c98cada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:44 +0000
Subject: [PATCH 43/54] fix: match the certain ham with a Bayes range that
 starts at 0

---
 oa/plugins/bayes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oa/plugins/bayes.py b/oa/plugins/bayes.py
index 4516c64..400877b 100644
--- a/oa/plugins/bayes.py
+++ b/oa/plugins/bayes.py
@@ -1069,7 +1069,9 @@ class BayesPlugin(oa.plugins.base.BasePlugin):
         # XXX SA has a timer here.
         bayes_score = self.scan(msg)
         self.set_local(msg, 'bayes_score', bayes_score)
-        if bayes_score and (min_score < bayes_score <= max_score):
+        # A minimum of 0 includes the messages that are certainly ham.
+        if bayes_score is not None and bayes_score <= max_score and (
+                bayes_score > min_score or not min_score):
 
             # TODO: Find test_log implementation.
             if self["detailed_bayes_score"]:
-- 
2.43.0


From 98f69d589642833587b9abbec56646b94dc3ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:20 +0000
Subject: [PATCH 44/54] fix: keep the auto-whitelist record of each sender
 apart

The MySQL queries had no condition, so each check read the first record
and overwrote all of them; a mean of exactly 0 was ignored; the
declarative base is imported from where every SQLAlchemy version has it.
---
 oa/plugins/awl.py | 58 +++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/oa/plugins/awl.py b/oa/plugins/awl.py
index 008d3d8..6998bfe 100644
--- a/oa/plugins/awl.py
+++ b/oa/plugins/awl.py
@@ -30,7 +30,7 @@ try:
     from sqlalchemy.types import String
     from sqlalchemy.types import Integer
     from sqlalchemy.sql.schema import PrimaryKeyConstraint
-    from sqlalchemy.ext.declarative.api import declarative_base
+    from sqlalchemy.ext.declarative import declarative_base
 
     Base = declarative_base()
     has_sqlalchemy = True
@@ -167,28 +167,25 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                                db=self.engine["db_name"],
                                )
         cursor = conn.cursor()
-        cursor.execute("SELECT * FROM awl WHERE username=%s AND email=%s AND "
-                       "signedby=%s AND ip=%s",
-                       (self.ctxt.username, address, signed_by, ip))
-        try:
-            result = cursor.fetchall()
-            if result:
-                result = result[0]
-        except pymysql.DatabaseError:
-            result = cursor.execute(
-                "SELECT * FROM awl WHERE username=%s AND email=%s AND "
-                "signedby=%s AND ip=%s",
-                (self.ctxt.username, address, signed_by, "none"))
-
-            if result:
-                result = cursor.execute(
-                    "UPDATE awl SET ip=%s", (ip))
-                conn.commit()
+        where = " WHERE username=%s AND email=%s AND signedby=%s AND ip=%s"
+        sender = (self.ctxt.username, address, signed_by)
+        columns = "SELECT username, email, ip, count, totscore, signedby FROM awl"
+        cursor.execute(columns + where, sender + (ip,))
+        result = cursor.fetchone()
         if not result:
-            result = cursor.execute(
-                "INSERT INTO awl VALUES (%s, %s, %s, %s, %s, %s) ",
-                (self.ctxt.username, address, ip, 0, 0, signed_by))
+            cursor.execute(columns + where, sender + ("none",))
+            if cursor.fetchone():
+                cursor.execute("UPDATE awl SET ip=%s" + where,
+                               (ip,) + sender + ("none",))
+            else:
+                cursor.execute(
+                    "INSERT INTO awl "
+                    "(username, email, ip, count, totscore, signedby) "
+                    "VALUES (%s, %s, %s, %s, %s, %s)",
+                    (self.ctxt.username, address, ip, 0, 0, signed_by))
             conn.commit()
+            cursor.execute(columns + where, sender + (ip,))
+            result = cursor.fetchone()
 
         cursor.close()
         conn.close()
@@ -232,7 +229,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                        "mean: %s, IP: %s, address: %s %s")
             self.ctxt.log.debug(log_msg,
                                 msg.score,
-                                "%.3f" % mean if mean else "undef",
+                                "%.3f" % mean,
                                 origin_ip if origin_ip else "undef",
                                 addr,
                                 "signed by %s" % signed_by if signed_by
@@ -241,7 +238,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
@@ -260,6 +257,9 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
         session.close()
 
     def plugin_tags_mysql(self, msg, origin_ip, addr, signed_by, score, factor):
+        awl_key_ip = self.ip_to_awl_key(origin_ip) if origin_ip else "none"
+        key = (self.ctxt.username, addr, signed_by, awl_key_ip)
+        where = " WHERE username=%s AND email=%s AND signedby=%s AND ip=%s"
         try:
             conn = pymysql.connect(host=self.engine["hostname"], port=3306,
                                    user=self.engine["user"],
@@ -268,8 +268,8 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
                                    )
 
             cursor = conn.cursor()
-            cursor.execute("SELECT totscore, count FROM awl")
-            entry_totscore, entry_count = cursor.fetchall()[0]
+            cursor.execute("SELECT totscore, count FROM awl" + where, key)
+            entry_totscore, entry_count = cursor.fetchone()
 
         except pymysql.Error:
             self.ctxt.log.error("DB connection failed")
@@ -282,7 +282,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
             self.ctxt.log.debug(log_msg,
                             msg.score,
-                            "%.3f" % mean if mean else "undef",
+                            "%.3f" % mean,
                             origin_ip if origin_ip else "undef",
                             addr,
                             "signed by %s" % signed_by if signed_by
@@ -291,7 +291,7 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
             mean = None
 
 
-        if mean:
+        if mean is not None:
             delta = mean - score
             delta *= factor
             msg.plugin_tags["AWL"] = "%2.1f" % delta
@@ -306,8 +306,8 @@ class AutoWhiteListPlugin(oa.plugins.base.BasePlugin):
 
         try:
             result = cursor.execute(
-                "UPDATE awl SET count=%s, totscore=%s",
-                (entry_count, entry_totscore))
+                "UPDATE awl SET count=%s, totscore=%s" + where,
+                (entry_count, entry_totscore) + key)
         except pymysql.Error:
             return False
 
-- 
2.43.0


From bfd5134fe814311a0a62ec343405cdb32384d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:18 +0000
Subject: [PATCH 45/54] fix: apply the DNS settings and restrictions as
 documented

dns_test_interval, default_dns_lifetime, default_dns_timeout and the
rotate option had no effect, restrictions were case sensitive, an empty
or repeated list of test domains made the test fail, and names that
cannot be looked up raised an error.
---
 oa/context.py       |  5 +++++
 oa/dns_interface.py | 32 ++++++++++++++++++++++++++------
 oa/rules/ruleset.py | 24 ++++++++++--------------
 3 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/oa/context.py b/oa/context.py
index 2e680e8..86a9a2f 100644
--- a/oa/context.py
+++ b/oa/context.py
@@ -324,6 +324,11 @@ class GlobalContext(_Context):
                           cport)
             self.dns.namerservers = nameservers
             self.dns.port = int(cport)
+        try:
+            self.dns.test_interval = self.conf["dns_test_interval"]
+        except (ValueError, OverflowError):
+            self.err("Invalid dns_test_interval: %s",
+                     self.conf["dns_test_interval"])
         self.dns.available = self.conf['dns_available']
 
     def _add_networks(self):
diff --git a/oa/dns_interface.py b/oa/dns_interface.py
index 5ebca20..e7b109d 100644
--- a/oa/dns_interface.py
+++ b/oa/dns_interface.py
@@ -7,6 +7,7 @@ import logging
 import datetime
 
 import dns
+import dns.exception
 import dns.resolver
 import dns.reversename
 
@@ -65,6 +66,22 @@ class DNSInterface(object):
     def port(self, port):
         self._resolver.port = port
 
+    @property
+    def lifetime(self):
+        return self._resolver.lifetime
+
+    @lifetime.setter
+    def lifetime(self, lifetime):
+        self._resolver.lifetime = lifetime
+
+    @property
+    def timeout(self):
+        return self._resolver.timeout
+
+    @timeout.setter
+    def timeout(self, timeout):
+        self._resolver.timeout = timeout
+
     @property
     def rotate_nameservers(self):
         return self._resolver.rotate
@@ -119,8 +136,8 @@ class DNSInterface(object):
         """Checks whether the dns is available. Depending on how it is
         configured a test may be performed to determine the result"""
         if self.test and self.next_test <= datetime.datetime.now():
-            for qname in random.sample(
-                    set(self.test_qnames), min(3, len(self.test_qnames))):
+            test_qnames = set(self.test_qnames)
+            for qname in random.sample(test_qnames, min(3, len(test_qnames))):
                 if self._query(qname, "A"):
                     self._available = True
                     break
@@ -137,7 +154,8 @@ class DNSInterface(object):
             self.test = True
             if ":" in value:
                 test_servers = value.split(":")[1].split()
-                self.test_qnames = test_servers
+                if test_servers:
+                    self.test_qnames = test_servers
 
     def is_query_restricted(self, qname):
         """Checks whether the qname is restricted by the dns_query_restriction
@@ -152,6 +170,7 @@ class DNSInterface(object):
         if not self.query_restrictions:
             return False
 
+        qname = qname.lower()
         while True:
             if qname in self.query_restrictions:
                 self.log.debug(self.query_restrictions)
@@ -182,9 +201,9 @@ class DNSInterface(object):
 
     def _query(self, qname, qtype):
         self.log.debug("Querying %s %s", qname, qtype)
-        if qtype == "PTR":
-            qname = dns.reversename.from_address(qname)
         try:
+            if qtype == "PTR":
+                qname = dns.reversename.from_address(qname)
             result = self._resolver.query(qname, qtype)
             self.log.debug("Got %s for %s %s", result, qname, qtype)
             return result
@@ -192,7 +211,8 @@ class DNSInterface(object):
                 dns.resolver.NXDOMAIN, dns.exception.Timeout) as e:
             self.log.warn("Failed to resolve %s (%s): %s", qname, qtype, e)
             return []
-        except (ValueError, IndexError, struct.error) as e:
+        except (ValueError, IndexError, struct.error,
+                dns.exception.DNSException) as e:
             self.log.info("Invalid DNS entry %s (%s): %s", qname, qtype, e)
             return []
 
diff --git a/oa/rules/ruleset.py b/oa/rules/ruleset.py
index d1521dd..854b4ea 100644
--- a/oa/rules/ruleset.py
+++ b/oa/rules/ruleset.py
@@ -22,13 +22,7 @@ _TAG_RE = oa.regex.Regex(r"(_(TESTS\([^()]*\)|[A-Z][A-Z_]*?)_)")
 # A line break which doesn't continue the header.
 _NOT_FOLDED_RE = oa.regex.Regex(r"(?:\r\n|\r|\n)(?![ \t])")
 
-_DNS_OPTIONS_RE = oa.regex.Regex(r"""
-[
-(?P<edns>(no)?edns0?=\d*)?,?
-(?P<rotate>(no)?rotate)?,?
-(?P<dns0x20>(no)?dns0x20)?,?
-]
-""", re.I | re.X | re.M)
+_EDNS_OPTION_RE = re.compile(r"noedns0?$|edns0?=\d+$")
 
 
 class RuleSet(object):
@@ -326,7 +320,7 @@ class RuleSet(object):
 
         for value in self.conf['dns_query_restriction']:
             try:
-                option, qname = value.split(" ", 1)
+                option, qname = value.split(None, 1)
             except ValueError:
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction: %s", value)
@@ -336,14 +330,16 @@ class RuleSet(object):
                 self.ctxt.log.info(
                     "Invalid value for dns_query_restriction %s", value)
                 continue
+            qname = qname.strip().lower()
             self.ctxt.dns.query_restrictions[qname] = option == "deny"
         dns_options = {"edns": "edns=4096",
-                       "rotate": "norotate",
-                       "dns0x20": "nodns0x20"}
-        dns_options_match = _DNS_OPTIONS_RE.match(self.conf['dns_options'])
-        if dns_options_match:
-            dns_options.update(dns_options_match.groupdict())
-        self.ctxt.dns.rotate = dns_options['rotate']
+                       "rotate": "norotate"}
+        for option in self.conf['dns_options'].lower().replace(",", " ").split():
+            if option in ("rotate", "norotate"):
+                dns_options["rotate"] = option
+            elif _EDNS_OPTION_RE.match(option):
+                dns_options["edns"] = option
+        self.ctxt.dns.rotate_nameservers = dns_options['rotate']
         self.ctxt.dns.edns = dns_options['edns']
 
     def call_postparsing(self):
-- 
2.43.0


From a69d8d8e834216d0681890573cf11f45a2d66453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:41 +0000
Subject: [PATCH 46/54] fix: check every bit of an address mask in
 check_rbl_sub

Any answer of a list matched 127.0.0.2, because all of them are in
127.0.0.0/8; rules with missing arguments made loading fail.
---
 oa/plugins/dns_eval.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/dns_eval.py b/oa/plugins/dns_eval.py
index df445ca..2e79650 100644
--- a/oa/plugins/dns_eval.py
+++ b/oa/plugins/dns_eval.py
@@ -57,8 +57,13 @@ class DNSEval(oa.plugins.base.BasePlugin):
                     continue
                 # This eval rule actually check one rbl servers
                 # and adds a zone id.
-                zone_id = rule.eval_args[0].rsplit("-")[0].strip()
-                rbl_server = rule.eval_args[1]
+                try:
+                    zone_id = rule.eval_args[0].rsplit("-")[0].strip()
+                    rbl_server = rule.eval_args[1]
+                except (AttributeError, IndexError):
+                    self.ctxt.err("Invalid arguments for %s: %s", name,
+                                  rule.eval_args)
+                    continue
                 zones[zone_id] = rbl_server
         self["zones"] = zones
 
@@ -111,12 +116,15 @@ class DNSEval(oa.plugins.base.BasePlugin):
         if self.ctxt.skip_rbl_checks:
             return False
 
+        whole_mask = False
         if mask is not None:
             try:
                 mask = int(mask)
             except (ValueError, TypeError):
                 try:
                     mask = int(ipaddress.ip_address(str(mask)))
+                    # Every list answers with addresses of the same network.
+                    whole_mask = True
                 except ValueError as e:
                     self.ctxt.err("Invalid mask %s: %s", mask, e)
                     return False
@@ -130,7 +138,8 @@ class DNSEval(oa.plugins.base.BasePlugin):
 
             for result in results:
                 result = ipaddress.ip_address(str(result))
-                if int(result) & mask:
+                bits = int(result) & mask
+                if bits == mask if whole_mask else bits:
                     return True
         return False
 
-- 
2.43.0


From cf779a78e2097f51d0c9cc2c25d88c82cd39477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:15 +0000
Subject: [PATCH 47/54] fix: match whole addresses and hosts against the white
 and black lists

---
 docs/pad.plugins.wlbl_eval.rst | 12 ++---
 oa/plugins/wlbl_eval.py        | 93 +++++++++++++++++++++++-----------
 2 files changed, 69 insertions(+), 36 deletions(-)

diff --git a/docs/pad.plugins.wlbl_eval.rst b/docs/pad.plugins.wlbl_eval.rst
index 0496964..1f83632 100644
--- a/docs/pad.plugins.wlbl_eval.rst
+++ b/docs/pad.plugins.wlbl_eval.rst
@@ -40,11 +40,11 @@ Options
 **blacklist_to** [] (type `append_split`)
     If the given address appears as a recipient in the message headers
     (Resent-To, To, Cc, obvious envelope recipient, etc.) the mail will be blacklisted.
-**def_whitelist_from_rcvd** [] (type `list`)
+**def_whitelist_from_rcvd** [] (type `append`)
     Same as whitelist_from_rcvd, but used for the default whitelist entries
     in the OrangeAssassin distribution. The whitelist score is lower, because these
     are often targets for spammer spoofing.
-**whitelist_from_rcvd** [] (type `list`)
+**whitelist_from_rcvd** [] (type `append`)
     Works similarly to whitelist_from, except that in addition to matching a sender
     address, a relay's rDNS name or its IP address must match too for the whitelisting
     rule to fire. The first parameter is a sender's e-mail address to whitelist,
@@ -52,13 +52,13 @@ Options
 **whitelist_allow_relays** [] (type `append_split`)
     Specify addresses which are in whitelist_from_rcvd that sometimes send through
     a mail relay other than the listed ones.
-**enlist_uri_host** [] (type `list`)
+**enlist_uri_host** [] (type `append`)
     Adds one or more host names or domain names to a named list of URI domains.
-**delist_uri_host** [] (type `list`)
+**delist_uri_host** [] (type `append`)
     Removes one or more specified host names from a named list of URI domains.
-**blacklist_uri_host** [] (type `list`)
+**blacklist_uri_host** [] (type `append`)
     Is a shorthand for a directive: enlist_uri_host (BLACK) host.
-**whitelist_uri_host** [] (type `list`)
+**whitelist_uri_host** [] (type `append`)
     Is a shorthand for a directive: enlist_uri_host (WHITE) host
 **util_rb_tld** [] (type `append_split`)
     This option maintains list of valid TLDs in the RegistryBoundaries code.
diff --git a/oa/plugins/wlbl_eval.py b/oa/plugins/wlbl_eval.py
index 263d9cf..a5b4ae4 100644
--- a/oa/plugins/wlbl_eval.py
+++ b/oa/plugins/wlbl_eval.py
@@ -33,15 +33,15 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         "all_spam_to": ("append_split", []),
         "more_spam_to": ("append_split", []),
 
-        "def_whitelist_from_rcvd": ("list", []),
-        "whitelist_from_rcvd": ("list", []),
+        "def_whitelist_from_rcvd": ("append", []),
+        "whitelist_from_rcvd": ("append", []),
 
         "whitelist_allow_relays": ("append_split", []),
 
-        "enlist_uri_host": ("list", []),
-        "delist_uri_host": ("list", []),
-        "blacklist_uri_host": ("list", []),
-        "whitelist_uri_host": ("list", []),
+        "enlist_uri_host": ("append", []),
+        "delist_uri_host": ("append", []),
+        "blacklist_uri_host": ("append", []),
+        "whitelist_uri_host": ("append", []),
         "util_rb_tld": ("append_split", []),
         "util_rb_2tld": ("append_split", []),
         "util_rb_3tld": ("append_split", [])
@@ -101,12 +101,19 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
     def escape_addr(self, address):
         return re.escape(address).replace(r"\*", ".*").replace(r"\?", ".?")
 
+    def entries(self, list_name):
+        """All the entries of an option that can be given several times,
+        the entries of one line are separated by commas.
+        """
+        return [entry for line in self[list_name]
+                for entry in line.split(",")]
+
     def parse_input(self, list_name):
         """Parse the list into a dictionary with the regex as key and the
         domain as value.
         """
         parsed_list = defaultdict(list)
-        for addr in self[list_name]:
+        for addr in self.entries(list_name):
             line = addr.split(None, 1)
             if len(line) == 2:
                 if self.check_input(line[0]):
@@ -134,7 +141,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
             then apply for all lists.
         """
         parsed_list = defaultdict(list)
-        for x in self['delist_uri_host']:
+        for x in self.entries('delist_uri_host'):
             uri_host_list = x.split()
             if "(" in x:
                 key = uri_host_list[0].strip("( ").rstrip(" )")
@@ -160,14 +167,15 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         delist = self['parsed_delist_uri_host']
         for item in list_name:
-            if item not in delist[key] and item not in delist['ALL']:
+            name = item.strip("!")
+            if name not in delist[key] and name not in delist['ALL']:
                 self.add_in_list(key, item, parsed_list)
 
     def parse_wlbl_uri(self, list_name):
         """Parse witleist_uri_host and blacklist_uri_host
         """
         parsed_list = set()
-        for x in self[list_name]:
+        for x in self.entries(list_name):
             parsed_list.update(x.split())
         return parsed_list
 
@@ -178,8 +186,10 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         from config file
         """
         parsed_list = defaultdict(self.my_list)
-        for x in self[list_name]:
+        for x in self.entries(list_name):
             uri_host_list = x.split()
+            if not uri_host_list:
+                continue
             key = uri_host_list[0].strip("( ").rstrip(" )")
             self.add_in_dict(uri_host_list[1:], key, parsed_list)
 
@@ -190,6 +200,11 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
 
         return parsed_list
 
+    @staticmethod
+    def match_address(pattern, address):
+        """Check if the regex matches the whole address, ignoring the case."""
+        return Regex(r"(?:%s)\Z" % pattern, re.I | re.S).match(address)
+
     def check_in_list(self, msg, addresses, list_name):
         """Check if addresses match the regexes from list_name and modify
         "from_in_whitelist" msg value based on the list name
@@ -197,7 +212,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         param = "from_in_whitelist"
         for address in addresses:
             for regex in self[list_name]:
-                if Regex(regex).search(address):
+                if self.match_address(regex, address):
                     self.set_local(msg, param, 1)
                     return True
             wh = self.check_whitelist_rcvd(msg, "parsed_whitelist_from_rcvd",
@@ -214,7 +229,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         for address in addresses:
             for regex in self[list_name]:
-                if Regex(regex).search(address):
+                if self.match_address(regex, address):
                     return True
         return False
 
@@ -344,9 +359,14 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         address = msg.sender_address
         relays = []
-        if address:
-            domain = self.base_domain(address.split("@")[1])
-        else:
+        if not address:
+            return False
+        try:
+            domain = self.base_domain(address.split("@")[1].lower())
+        except IndexError:
+            return False
+        domain = domain.lstrip(".")
+        if not domain:
             return False
         if len(msg.untrusted_relays) > 0:
             relays.append(msg.untrusted_relays[0])
@@ -355,8 +375,8 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         else:
             return False
         for relay in relays:
-            relay_domain = relay["rdns"]
-            if relay_domain.endswith(domain):
+            relay_domain = (relay["rdns"] or "").lower()
+            if ("." + relay_domain).endswith("." + domain):
                 return True
 
         return False
@@ -394,15 +414,18 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         elif len(msg.trusted_relays) > 0:
             relays.extend(msg.trusted_relays)
 
-        address = address.lower()
         found_forged = 0
         for white_addr in self[list_name]:
-            regexp = white_addr.replace("*", ".*")
+            # The "*" have already been converted when the list was parsed.
+            regexp = re.sub(r"(?<!\.)\*", ".*", white_addr)
+            if "@" not in white_addr:
+                regexp = ".*@" + regexp
+            if not self.match_address(regexp, address):
+                continue
             for domain in self[list_name][white_addr]:
-                if Regex(regexp).search(address):
-                    match = self.check_rcvd(domain, relays)
-                    if match == 1:
-                        return 1
+                match = self.check_rcvd(domain, relays)
+                if match == 1:
+                    return 1
                 found_forged = -1
         found_forged = self.check_found_forged(address, found_forged)
         return found_forged
@@ -413,7 +436,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         """
         match = -1
         for relay in relays:
-            wl_ip = domain.strip("[ ").rstrip(" ]")
+            wl_ip = domain.strip("[ ").rstrip(" ]").lower()
             try:
                 swl_ip =str(wl_ip)
                 network = ipaddress.ip_network(_format_network_str(swl_ip,
@@ -422,7 +445,7 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
                     match = 1
                     break
             except ValueError:
-                rdns = relay['rdns'].lower()
+                rdns = (relay['rdns'] or "").lower()
                 if wl_ip == rdns or rdns.endswith(".%s" % wl_ip):
                     match = 1
                     break
@@ -433,21 +456,31 @@ class WLBLEvalPlugin(oa.plugins.base.BasePlugin):
         if found_forged:
             wlist = self['parsed_whitelist_allow_relays']
             for addr in wlist:
-                if Regex(addr).search(address):
+                if self.match_address(addr, address):
                     found_forged = 0
                     break
         return found_forged
 
+    @staticmethod
+    def uri_host(uri):
+        """Extract the name of the host from an URI."""
+        host = re.sub(r"^(?:[a-z][a-z0-9+.-]*:)?//|^mailto:", "", uri.strip(), flags=re.I)
+        host = re.split(r"[/?#\\]", host, 1)[0].rsplit("@", 1)[-1]
+        return host.split(":", 1)[0].rstrip(".").lower()
+
     def check_uri_host_listed(self, msg, list_name, target=None):
         """Check if the message has URIs that are listed
         in the specified hostname
         """
         parsed_list = 'parsed_enlist_uri_host'
         for uri in msg.uri_list:
-            if uri in self[parsed_list][list_name]['not_in_list']:
+            host = "." + self.uri_host(uri)
+            lists = self[parsed_list][list_name]
+            if any(host.endswith("." + name.strip(".").lower())
+                   for name in lists['not_in_list']):
                 continue
-            for _uri_list_name in self[parsed_list][list_name]['in_list']:
-                if uri.endswith(_uri_list_name):
+            for name in lists['in_list']:
+                if host.endswith("." + name.strip(".").lower()):
                     return True
         return False
 
-- 
2.43.0


From 24ba7480bf95b7710a136dd130d235a62f5ebee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:31 +0000
Subject: [PATCH 48/54] fix: parse messages with images of excessive size

---
 oa/plugins/image_info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index c485380..676dfa6 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -42,8 +42,9 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
                     "error", category=PIL.Image.DecompressionBombWarning)
             try:
                 image = PIL.Image.open(img_io)
-            except (PIL.Image.DecompressionBombWarning, IOError, ValueError,
-                    TypeError) as e:
+            except Exception as e:
+                # The attachment can be anything, so this can also fail with
+                # anything.
                 self.ctxt.log.debug("Unable to process image: %s", e)
                 raise BadImageFile
 
-- 
2.43.0


From 35eecbb44a7c2cc4873f2a66ddf8eb63ec1f0df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:27 +0000
Subject: [PATCH 49/54] fix: apply the limits of range tests as numbers

---
 oa/plugins/body_eval.py   |  1 +
 oa/plugins/header_eval.py | 70 +++++++++++++++++++++------------------
 oa/plugins/image_info.py  | 12 ++++---
 oa/plugins/pdf_info.py    | 18 +++++++---
 4 files changed, 60 insertions(+), 41 deletions(-)

diff --git a/oa/plugins/body_eval.py b/oa/plugins/body_eval.py
index b0e6b25..ca71f9b 100644
--- a/oa/plugins/body_eval.py
+++ b/oa/plugins/body_eval.py
@@ -190,6 +190,7 @@ class BodyEval(oa.plugins.base.BasePlugin):
           and False otherwise.
 
         """
+        minr, maxr = float(minr), float(maxr)
         if target == "rawbody":
             text = msg.raw_text
         else:
diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 923844b..9380614 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -384,7 +384,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         if not recipients:
             self.set_local(msg, "tocc_similar", 0)
             self.set_local(msg, "tocc_sorted", False)
-            return
+            return 0
 
         sorted_recipients = sorted(recipients)
         self.set_local(msg, "tocc_sorted", sorted_recipients == recipients)
@@ -397,7 +397,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
 
         if len(addresses) < self.tocc_similar_count:
             self.set_local(msg, "tocc_similar", 0)
-            return
+            return 0
 
         hits = 0
         combinations = 0
@@ -427,6 +427,10 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         :param maxr: The maximum for the ratio
         """
         ratio = self._check_recipients(msg)
+        if minr in ("", "undef"):
+            minr = None
+        if maxr in ("", "undef"):
+            maxr = None
         try:
             return (
                 (minr is None or float(minr) < ratio) and
@@ -466,7 +470,7 @@ class HeaderEval(oa.plugins.base.BasePlugin):
             time_in_seconds = time.mktime(parsed_date)
             date_time = datetime.datetime.utcfromtimestamp(
                 time_in_seconds)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return
         return date_time
 
@@ -525,13 +529,15 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         received_header_times = self._get_received_header_times(msg)
 
         diffs = []
+        if date_header_time in (None, -1):
+            return datetime.timedelta(0)
         for received_header_time in received_header_times:
-            diff = abs(received_header_time - date_header_time)
+            diff = date_header_time - received_header_time
             if diff:
                 diffs.append(diff)
 
         try:
-            date_diff = sorted(diffs)[0]
+            date_diff = sorted(diffs, key=abs)[0]
             self.set_local(msg, "date_diff", date_diff)
             return date_diff
         except IndexError:
@@ -753,39 +759,45 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         except KeyError:
             pass
 
-        all_times = self._get_received_header_times(msg) + [
-            self._get_date_header_time(msg)
-        ]
+        all_times = list(self._get_received_header_times(msg))
+        date_header_time = self._get_date_header_time(msg)
+        if date_header_time not in (None, -1):
+            all_times.append(date_header_time)
+        if not all_times:
+            return None
         median = int(len(all_times)/2)
         date_received = sorted(all_times, reverse=True)[median]
         self.set_local(msg, "date_received", date_received)
         return date_received
 
+    @staticmethod
+    def _get_limit(value):
+        """Convert a limit to a number, None means there is no limit."""
+        if value in (None, "", "undef"):
+            return None
+        return int(value)
+
     def received_within_months(self, msg, min, max, target=None):
         """Check if the date from received is in past"""
-        if min == "undef":
-            min = None
-        if max == "undef":
-            max = None
         try:
-            if min:
-                min = int(min)
-            if max:
-                max = int(max)
+            min = self._get_limit(min)
+            max = self._get_limit(max)
         except ValueError:
             self.ctxt.log.warn("HeaderEval::Plugin received_within_months "
                                "min and max should be integer values")
             return False
 
+        date_received = self._check_date_received(msg)
+        if date_received is None:
+            return False
         diff = relativedelta.relativedelta(
-            datetime.datetime.utcnow(),
-            self._check_date_received(msg)
+            datetime.datetime.utcnow(), date_received
         )
 
-        number_months = (diff.year or 0) * 12 + (diff.months or 0)
+        number_months = diff.years * 12 + diff.months
 
-        if ((not min or number_months >= min) and
-                (not max or number_months < max)):
+        if ((min is None or number_months >= min) and
+                (max is None or number_months < max)):
             return True
         return False
 
@@ -796,21 +808,15 @@ class HeaderEval(oa.plugins.base.BasePlugin):
         * min: minimum time express in hours
         * max: maximum time express in hours
         """
-        if min == "undef":
-            min = None
-        if max == "undef":
-            max = None
         try:
-            if min:
-                min = int(min)
-            if max:
-                max = int(max)
+            min = self._get_limit(min)
+            max = self._get_limit(max)
         except ValueError:
             self.ctxt.log.warn("HeaderEval::Plugin check_for_shifted_date "
                                "min and max should be integer values")
             return False
-        diff = int(self._check_date_diff(msg).total_seconds() / 3600)
-        if ((not min or diff >= min) and
-                (not max or diff < max)):
+        diff = self._check_date_diff(msg).total_seconds()
+        if ((min is None or diff >= min * 3600) and
+                (max is None or diff < max * 3600)):
             return True
         return False
diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index 676dfa6..d18b37e 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -202,7 +202,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
         count = self._get_count(msg, img_type)
         min_count = int(min_count)
-        if max_count:
+        if max_count not in (None, ""):
             max_count = int(max_count)
             return min_count <= count <= max_count
         else:
@@ -213,7 +213,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         """Determine the pixel coverage"""
         coverage = self._get_coverage(msg, img_type)
         min_coverage = int(min_coverage)
-        if max_coverage:
+        if max_coverage not in (None, ""):
             max_coverage = int(max_coverage)
             return min_coverage <= coverage <= max_coverage
         return min_coverage <= coverage
@@ -230,10 +230,12 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
             if img['height'] < int(min_height):
                 continue
 
-            if max_width and img['width'] > int(max_width):
+            if (max_width not in (None, "") and
+                    img['width'] > int(max_width)):
                 continue
 
-            if max_height and img['height'] > int(max_height):
+            if (max_height not in (None, "") and
+                    img['height'] > int(max_height)):
                 continue
 
             return True
@@ -254,7 +256,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
         except ZeroDivisionError:
             ratio = text_len
         min_ratio = float(min_ratio)
-        if max_ratio:
+        if max_ratio not in (None, ""):
             max_ratio = float(max_ratio)
             return min_ratio <= ratio <= max_ratio
 
diff --git a/oa/plugins/pdf_info.py b/oa/plugins/pdf_info.py
index 4b5c576..fdc6cba 100644
--- a/oa/plugins/pdf_info.py
+++ b/oa/plugins/pdf_info.py
@@ -29,12 +29,22 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         "pdf_named",
         "pdf_name_regex",
         "pdf_match_md5",
+        "pdf_match_fuzzy_md5",
         "pdf_match_details",
         "pdf_is_encrypted",
         "pdf_is_empty_body",
     )
     options = {}
 
+    @staticmethod
+    def _in_range(value, minimum, maximum=None):
+        """Check if the value is between the limits, these can be numbers or
+        texts and without a maximum there is no upper limit.
+        """
+        if maximum in (None, ""):
+            maximum = "inf"
+        return float(minimum) <= value <= float(maximum)
+
     def _get_count(self, msg):
         """Get the number of PDF files in the message"""
         try:
@@ -62,7 +72,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
           'minimum' and less or equal than 'maximum' (if set)
         """
         count = self._get_count(msg)
-        return minimum <= count <= (maximum or float("inf"))
+        return self._in_range(count, minimum, maximum)
 
     def _get_image_count(self, msg):
         """Get the number of Images in PDF attachments"""
@@ -92,7 +102,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         less or equal than 'maximum'.
         """
         count = self._get_image_count(msg)
-        return minimum <= count <= (maximum or float("inf"))
+        return self._in_range(count, minimum, maximum)
 
     def _get_pixel_coverage(self, msg):
         """Return the cumulative pixel coverage"""
@@ -123,7 +133,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
         'minimum' and less or equal to 'maximum'.
         """
         coverage = self._get_pixel_coverage(msg)
-        return minimum <= coverage <= (maximum or float("inf"))
+        return self._in_range(coverage, minimum, maximum)
 
     def _get_pdf_names(self, msg):
         try:
@@ -292,7 +302,7 @@ class PDFInfoPlugin(oa.plugins.base.BasePlugin):
             pdfbytes = self.get_local(msg, "pdf_bytes")
         except KeyError:
             return 0
-        return pdfbytes <= byts
+        return pdfbytes <= float(byts)
 
     def _save_stats(self, msg, payload):
         """Extracts and saves the PDF stats once per unique file"""
-- 
2.43.0


From 8b072fea5c7668aa72b646dd7a157a254198561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:41 +0000
Subject: [PATCH 50/54] fix: parse messages with malformed or nested MIME parts

---
 oa/plugins/mime_eval.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index 79295c6..cfef2e2 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -54,6 +54,15 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         "mime_bad_iso_charset": False,
     }
 
+    @staticmethod
+    def _get_encoded_text(part):
+        """Get the text of the part as it was transferred.
+
+        Parts that contain other parts don't have any text of their own.
+        """
+        payload = part.get_payload()
+        return payload if isinstance(payload, str) else ""
+
     def _update_base64_information(self, msg, text):
 
         base64_length = self.get_local(msg, "base64_length")
@@ -68,12 +77,13 @@ class MIMEEval(oa.plugins.base.BasePlugin):
 
     def _update_quopri_stats(self, msg, part):
         max_line_len = 79
+        text = self._get_encoded_text(part)
         qp_count = self.get_local(msg, "mime_qp_count")
         qp_bytes = self.get_local(msg, "qp_bytes")
         qp_chars = self.get_local(msg, "qp_chars")
         quoted_printables = Regex(r"=(?:09|3[0-9ABCEF]|[2456][0-9A-F]|7["
-                                  r"0-9A-E])").search(part.get_payload())
-        qp_bytes += len(part.get_payload())
+                                  r"0-9A-E])").search(text)
+        qp_bytes += len(text)
         self.set_local(msg, "qp_bytes", qp_bytes)
         if quoted_printables:
             qp_chars += len(quoted_printables.groups())
@@ -152,6 +162,8 @@ class MIMEEval(oa.plugins.base.BasePlugin):
 
     def _update_mime_ma_non_text(self, msg, part):
         if not self.get_local(msg, "mime_ma_non_text"):
+            if not part.is_multipart():
+                return
             for ma_part in part.get_payload():
                 if(ma_part.get_content_maintype() != "text" and
                    ma_part.get_content_type not in (
@@ -205,7 +217,8 @@ class MIMEEval(oa.plugins.base.BasePlugin):
                                        charset)
 
         if "base64" in content_transfer_encoding.lower():
-            self._update_base64_information(msg, part.get_payload())
+            self._update_base64_information(
+                msg, self._get_encoded_text(part))
 
         if "quoted-printable" in content_transfer_encoding.lower():
             self._update_quopri_stats(msg, part)
-- 
2.43.0


From 83da7d5e13cfc4cf7dfed6c11d89d2140ba8f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:17 +0000
Subject: [PATCH 51/54] fix: parse messages with malformed links

---
 oa/html_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oa/html_parser.py b/oa/html_parser.py
index d1baca5..f808070 100644
--- a/oa/html_parser.py
+++ b/oa/html_parser.py
@@ -35,7 +35,7 @@ class HTML(HTMLParser):
             self.last_start_tag = tag
             for item in attrs:
                 prop, value = item
-                if prop not in ("href", "src"):
+                if prop not in ("href", "src") or value is None:
                     continue
                 link = parse_link(value, tag)
                 if value in self.links:
@@ -66,10 +66,15 @@ def parse_link(value, linktype):
     link = {}
     link[linktype] = {}
     link[linktype]["raw"] = value
-    urlp = urlparse(value)
-    link[linktype]["scheme"] = urlp.scheme
+    try:
+        urlp = urlparse(value)
+        scheme, domain = urlp.scheme, urlp.netloc
+    except ValueError:
+        # The link is malformed, e.g. "http://[x"
+        scheme, domain = "", ""
+    link[linktype]["scheme"] = scheme
     link[linktype]["cleaned"] = unquote(value)
-    link[linktype]["domain"] = urlp.netloc
+    link[linktype]["domain"] = domain
     return link
 
 
-- 
2.43.0


From ba530863366ceb99cda9a462eaa466f7a558f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:05 +0000
Subject: [PATCH 52/54] fix: measure the whole text of base64 and
 quoted-printable parts

---
 oa/plugins/mime_eval.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/oa/plugins/mime_eval.py b/oa/plugins/mime_eval.py
index cfef2e2..353a763 100644
--- a/oa/plugins/mime_eval.py
+++ b/oa/plugins/mime_eval.py
@@ -70,7 +70,8 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         if text:
             self.set_local(
                 msg, "base64_length",
-                base64_length + max(len(line) for line in text.splitlines()))
+                max([base64_length] +
+                    [len(line) for line in text.splitlines()]))
 
         base64_count = self.get_local(msg, "mime_base64_count")
         self.set_local(msg, "mime_base64_count", base64_count + 1)
@@ -82,20 +83,17 @@ class MIMEEval(oa.plugins.base.BasePlugin):
         qp_bytes = self.get_local(msg, "qp_bytes")
         qp_chars = self.get_local(msg, "qp_chars")
         quoted_printables = Regex(r"=(?:09|3[0-9ABCEF]|[2456][0-9A-F]|7["
-                                  r"0-9A-E])").search(text)
+                                  r"0-9A-E])").findall(text)
         qp_bytes += len(text)
         self.set_local(msg, "qp_bytes", qp_bytes)
-        if quoted_printables:
-            qp_chars += len(quoted_printables.groups())
-            self.set_local(msg, "qp_chars", qp_chars)
+        qp_chars += len(quoted_printables)
+        self.set_local(msg, "qp_chars", qp_chars)
         self.set_local(msg, "mime_qp_count", qp_count + 1)
-        raw = msg.translate_line_breaks(part.as_string())
         has_long_line = self.get_local(msg, "mime_qp_long_line")
         if not has_long_line:
             has_long_line = any(
-                len("".join(line.split(":")[1:])) > max_line_len and not
-                line.startswith("SPAM")
-                for line in raw.splitlines())
+                len(line) > max_line_len and not line.startswith("SPAM")
+                for line in text.splitlines())
             self.set_local(msg, "mime_qp_long_line", has_long_line)
 
     def _update_base64_text_stats(self, msg, content_type,
@@ -145,12 +143,10 @@ class MIMEEval(oa.plugins.base.BasePlugin):
             ascii_count = self.get_local(msg, "ascii_count")
             ascii_count += len(text)
             self.set_local(msg, "ascii_count", ascii_count)
-            unicode_chars = Regex(r"(&\#x[0-9A-F]{4};)", re.X).search(text)
-            unicode_count = 0
-            if unicode_chars:
-                unicode_count = self.get_local(msg, "unicode_count")
-                unicode_count += len(unicode_chars.groups())
-                self.set_local(msg, "unicode_count", unicode_count)
+            unicode_chars = Regex(r"(&\#x[0-9A-F]{4};)", re.X).findall(text)
+            unicode_count = self.get_local(msg, "unicode_count")
+            unicode_count += len(unicode_chars)
+            self.set_local(msg, "unicode_count", unicode_count)
             # XXX This does not work properly anymore
             if not charset or charset == r"us-ascii":
                 try:
-- 
2.43.0


From 5f7107e1afa161ba063b36b230a7132dd7e73bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:19 +0000
Subject: [PATCH 53/54] fix: find every image of a type

---
 oa/plugins/image_info.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oa/plugins/image_info.py b/oa/plugins/image_info.py
index d18b37e..cd15a8e 100644
--- a/oa/plugins/image_info.py
+++ b/oa/plugins/image_info.py
@@ -137,6 +137,7 @@ class ImageInfoPlugin(oa.plugins.base.BasePlugin):
 
         if image_id in sizes['all']:
             img = sizes['all'][image_id]
+            sizes[subtype][image_id] = img
             area = img['width'] * img['height']
             self._update_coverage(msg, subtype, area)
 
-- 
2.43.0


From 9f8b9a8c38d8b96c7bef141d7c67db78fe0b190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:19 +0000
Subject: [PATCH 54/54] fix: compare the dates of headers as instants

---
 oa/plugins/header_eval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oa/plugins/header_eval.py b/oa/plugins/header_eval.py
index 9380614..56aac90 100644
--- a/oa/plugins/header_eval.py
+++ b/oa/plugins/header_eval.py
@@ -466,8 +466,8 @@ class HeaderEval(oa.plugins.base.BasePlugin):
 
     def _parse_rfc822_date(self, date):
         try:
-            parsed_date = email.utils.parsedate(date)
-            time_in_seconds = time.mktime(parsed_date)
+            parsed_date = email.utils.parsedate_tz(date)
+            time_in_seconds = email.utils.mktime_tz(parsed_date)
             date_time = datetime.datetime.utcfromtimestamp(
                 time_in_seconds)
         except (ValueError, TypeError, OverflowError):
@@ -487,6 +487,8 @@ class HeaderEval(oa.plugins.base.BasePlugin):
                 date_time = self._parse_rfc822_date(date)
                 if date_time:
                     break
+            if date_time:
+                break
         if date_time:
             self.set_local(msg, "date_header_time", date_time)
         else:
-- 
2.43.0

