# Executed by props.py.  One prop(...) per property.

prop("C01", "A message's score is exactly the sum of the rules that matched",
     "After a message has been checked, its score equals the sum of the scores of the checked rules whose test "
     "reported a match, every checked rule has exactly one recorded result, and exactly the matched rules carry a "
     "description (the text returned by the rule if it returned text, otherwise the rule's own description). A rule "
     "that fails with an error counts as not matched and never stops the remaining rules from being evaluated. Only "
     "an explicit request to stop processing ends the evaluation early, and even then the end-of-check and "
     "auto-learn steps still run exactly once, in that order.",
     ["inputs", "configurations", "fault_sequences"],
     "every assignment of scores to up to 4 rules, every combination of match / text / no match / error / stop per rule, every order",
     "Tests check single rules with fixed scores; the sum and the isolation of failures must hold for every combination of outcomes and scores.",
     ["oa/rules/ruleset.py", "oa/context.py"],
     [("rule loop with error isolation", "RuleSet.match in oa/rules/ruleset.py"),
      ("end of check hooks", "GlobalContext.hook_check_end / hook_auto_learn in oa/context.py")],
     ["msg.score, msg.rules_checked and msg.rules_descriptions after RuleSet.match"])

prop("C02", "Rules are evaluated in descending priority, ties in configuration order",
     "Once a configuration has been loaded, rules are evaluated in descending order of their priority; rules of equal "
     "priority keep the order in which the configuration defined them. A missing or non-integer priority counts as 0, "
     "and the priority given in the configuration is honoured for every kind of rule.",
     ["inputs", "configurations"],
     "every assignment of priority texts (signed integers and junk) to up to 4 rules of every built-in rule type",
     "The functional tests order two or three body rules with fixed priorities; nothing covers the other rule kinds, ties or junk values.",
     ["oa/rules/ruleset.py", "oa/rules/base.py", "oa/rules/parser.py", "oa/rules/header.py"],
     [("sort in post_parsing", "RuleSet.post_parsing"), ("rule comparison", "BaseRule.__lt__"),
      ("priority parsing", "BaseRule.__init__")],
     ["order of evaluation observed by RuleSet.match"])

prop("C03", "Which rules are active and which score they use",
     "A rule contributes to the verdict exactly when its name does not start with a double underscore and the score "
     "selected for it is not zero. The selected score is the single configured score, or the one of four picked by the "
     "(Bayes enabled, network enabled) pair in the documented order, defaulting to 1.0 (or -1.0 for rules flagged nice); "
     "a rule flagged net, learn, userconf or noautolearn is disabled when the corresponding facility is off (for "
     "noautolearn: when autolearning is on). Any other number of scores makes the rule invalid.",
     ["inputs", "configurations"],
     "every combination of 1..5 numeric scores, tflags subsets, the four global switches and rule-name prefixes",
     "Tests fix one combination of flags and scores at a time; the selection is a function of about ten independent switches.",
     ["oa/rules/base.py", "oa/rules/ruleset.py", "oa/rules/parser.py", "oa/plugins/uri_detail.py"],
     [("score selection", "BaseRule.preprocess in oa/rules/base.py"),
      ("activation", "BaseRule.should_check"), ("options extraction", "BaseRule.get_rule_kwargs")],
     ["ruleset.checked / ruleset.not_checked and rule.score after loading a configuration"])

prop("C04", "Meta rules compute their boolean or arithmetic expression",
     "A meta rule matches exactly when its configured expression (&&, ||, !, parentheses, unchained comparisons, + - * over rule "
     "names and numbers, nested less deeply than the recursion limit) is true when every rule name is replaced by that rule's own result, regardless of whether "
     "the referenced rules are active, inactive or meta rules themselves and of definition order. A meta rule that "
     "refers to an unknown rule, refers to itself in a cycle, or whose expression is malformed is rejected as invalid "
     "without affecting any other rule.",
     ["inputs", "configurations", "programs"],
     "every expression over a grammar up to the stated depth and every combination of sub-rule outcomes",
     "Tests evaluate a handful of fixed expressions; translation by text replacement has to be right for every operator combination.",
     ["oa/rules/meta.py", "oa/rules/ruleset.py"],
     [("expression translation", "MetaRule.postparsing"), ("removal of invalid rules", "RuleSet.call_postparsing")],
     ["MetaRule.match results, ruleset.checked"])

prop("C05", "Perl patterns keep their meaning when they are converted",
     "Converting a Perl match expression with any supported delimiter pair, optional leading m and any combination of "
     "the flags i, s, m, x, g and the prefix operator =~ or !~ yields a pattern that matches exactly the strings the "
     "original matches: the pattern text between the delimiters is preserved (delimiters that belong to the pattern "
     "included; only the Perl-only constructs (?flags:...), \\b? and (?>...) are replaced by their documented substitutes), only the listed flags take effect, and !~ negates the result. An unusable expression is rejected as an "
     "invalid regular expression and never crashes in any other way.",
     ["inputs", "programs"],
     "every pattern text up to the bounded length over an alphabet containing delimiters, flag letters and pattern characters",
     "Tests convert a list of sample patterns; delimiter and flag stripping fails only for patterns starting or ending in particular characters.",
     ["oa/regex.py"],
     [("delimiter and flag handling", "perl2re in oa/regex.py"), ("match wrappers", "MatchPattern / NotMatchPattern in oa/regex.py")],
     ["value returned by perl2re and its match()"])

prop("C06", "Content rules test exactly the text they are defined on",
     "A body rule matches exactly when its pattern is found in the subject and decoded, tag-stripped text parts; a "
     "rawbody rule when it is found in the decoded but otherwise unmodified text parts; a full rule when it is found in "
     "the raw message; and a uri rule when it is found in at least one URI of the message text. Line ends of any style "
     "do not affect any of these results.",
     ["inputs"], "every short message subject and body over the bounded alphabet, for each rule kind and pattern",
     "Tests use fixed messages; where text ends up depends on every character of the message.",
     ["oa/rules/body.py", "oa/rules/full.py", "oa/rules/uri.py", "oa/message.py"],
     [("text extraction", "Message._parse_message"), ("rule matching", "BodyRule/RawBodyRule/FullRule/URIRule.match")],
     ["rule.match(msg)"])

prop("C07", "Header rules test the named header with the requested view",
     "A header or mimeheader rule matches exactly when at least one value of the named header (looked up without regard "
     "to case, in the raw, decoded, first-address or first-name view selected by its modifier, or over the documented "
     "pseudo-headers ALL, ToCc and MESSAGEID) satisfies its pattern, and with !~ exactly when at least one value does not; "
     "ALL is the text of all headers with lower-cased names, exists: matches exactly when the header is present, and mimeheader "
     "rules look at the headers of every part, including the message itself.",
     ["inputs", "configurations"], "every short header name/value/modifier/operator combination within the bounds",
     "Tests cover each modifier with one value.",
     ["oa/rules/header.py", "oa/message.py"],
     [("rule construction", "HeaderRule.get_rule / MimeHeaderRule.get_rule"), ("views", "Message.get_*_header")],
     ["rule.match(msg)"])

prop("C08", "Configuration text means the same however it is laid out",
     "Loading configuration depends only on the effective lines: comments, blank lines and surrounding whitespace are "
     "ignored, a rule is the combination of all lines naming it in any order with the last value of each setting "
     "winning, lines in the inactive branch of a conditional have no effect while lines after its end do, and included "
     "files behave as if their text were in place, with inclusion cycles reported instead of followed forever.",
     ["inputs", "configurations", "programs"],
     "every short sequence of configuration lines from the bounded grammar with symbolic separators, comments and values",
     "Tests parse fixed files; layout and ordering equivalences quantify over all texts.",
     ["oa/rules/parser.py"],
     [("line handling", "PADParser._handle_line"), ("include", "PADParser._handle_include")],
     ["parser results and resulting ruleset"])

prop("C09", "A bad configuration line never takes down the rest",
     "When strict mode is off, loading a configuration succeeds whatever text a line contains (inclusion cycles apart), and every other rule and "
     "option in it is loaded exactly as if the offending line were not there; when strict mode is on, a malformed "
     "rule definition is reported as one of the package's own errors and not as an internal failure.",
     ["inputs", "configurations", "fault_sequences"],
     "every known directive with every short argument text over the bounded alphabet",
     "Tests cover the error kinds the authors thought of; the guarantee is for every possible line.",
     ["oa/rules/parser.py", "oa/rules/base.py", "oa/rules/header.py", "oa/rules/ruleset.py", "oa/conf.py", "oa/context.py"],
     [("error filter", "PADParser._paranoid"), ("rule validation", "BaseRule.get_rule_kwargs, HeaderRule.get_rule")],
     ["PADParser.parse_file / get_ruleset outcome"])

prop("C10", "Eval rules call the named test with exactly the written arguments",
     "An eval rule calls the registered test function it names once per check with the message, the arguments written "
     "in its definition as literals in order, and the kind of rule it was declared as; its result is the rule's result "
     "and an error inside the test counts as no match. An unknown function name or malformed argument list makes only "
     "that rule invalid.",
     ["inputs", "configurations", "fault_sequences"],
     "every short function name and argument list (numbers, quoted strings with commas and parentheses)",
     "Tests use two or three argument lists; quoting and separators need all texts.",
     ["oa/rules/eval_.py", "oa/rules/parser.py", "oa/context.py"],
     [("argument parsing", "EvalRule.__init__"), ("dispatch", "EvalRule.preprocess / match")],
     ["arguments seen by the registered function, rule.match(msg)"])

prop("C11", "Options take their documented typed values and never leak",
     "An option line sets exactly the named option to the value its documented type gives the text (integer, number, "
     "switch, text, list, accumulated list, time value with unit s/m/h/d/w), a clearing option empties exactly the lists it "
     "names, unset options keep their default, and a text that is not a value of the type leaves the option unchanged. "
     "Settings made while loading one configuration are never visible in another one loaded in the same process.",
     ["inputs", "configurations", "histories"],
     "every short option value and every sequence of up to 3 option lines over two contexts",
     "Tests set one option at a time in a fresh process state.",
     ["oa/conf.py", "oa/context.py", "oa/plugins/base.py"],
     [("typed setters", "Conf.set_*_option"), ("default storage", "Conf.__init__")],
     ["conf[...] after parse_config"])

prop("C12", "Trusted, internal and MSA networks contain exactly what was configured",
     "An address belongs to the trusted, internal or MSA networks exactly when the first configured entry of that list "
     "covering it is not an exclusion (!), and the loopback networks are always trusted and internal. An unparsable entry "
     "changes nothing, internal falls back to trusted as documented, and lists configured for one context never affect another.",
     ["inputs", "configurations", "histories"],
     "every address and every list of up to 3 entries with symbolic prefix bits, lengths and exclusion marks",
     "Tests check a few addresses against a few lists.",
     ["oa/networks.py", "oa/context.py"],
     [("membership", "NetworkList / _NetworkList.__contains__"), ("configuration", "GlobalContext._add_networks")],
     ["ip in ctxt.networks.trusted / internal / msa"])

prop("C13", "Relays split into trusted/untrusted and internal/external consistently",
     "Every relay with an address ends up in exactly one of trusted and untrusted and exactly one of internal and "
     "external; both trusted and internal relays form a leading run of the chain, internal relays are always "
     "trusted, and the boundary is at the first relay that is neither covered by the configured networks nor authenticated "
     "(or by being public when nothing is configured). The relay tags describe the same split (the LASTEXTERNAL tags are not covered).",
     ["inputs", "configurations"],
     "every chain of up to 4 relays with every combination of network membership, authentication and configuration",
     "Tests cover a few chains; the partition is a property of all chains.",
     ["oa/message.py", "oa/networks.py"],
     [("relay walk", "Message._parse_relays")],
     ["msg.trusted_relays, untrusted_relays, internal_relays, external_relays, plugin_tags"])

prop("C14", "Received headers are read without crashing and without inventing data",
     "Parsing any Received header never fails, and every relay it yields has a syntactically valid IP address that "
     "occurs in the header text, with all documented fields present. Header text that carries no usable address yields no "
     "relay, and the relays keep header order.",
     ["inputs"], "every short address/hostname/helo text in the documented Received templates",
     "Tests list sample headers; the parser is a cascade of regular expressions over attacker-controlled text.",
     ["oa/received_parser.py", "oa/message.py"],
     [("header cascade", "ReceivedParser")], ["ReceivedParser(...).received"])

prop("C15", "Parsing a message never fails and preserves its header and text data",
     "Every message text can be parsed; all line-end styles give the same parsed message, header lookup ignores case and "
     "returns every occurrence in order, reading views of a message never changes what later reads return, and the computed "
     "message identifier depends only on Message-ID, or else on the date and body text regardless of line-end style. Messages are parsed one at a time.",
     ["inputs", "histories"], "every short header block and body, every sequence of up to 3 reads",
     "Tests parse fixed messages.",
     ["oa/message.py"], [("parsing", "Message._parse_message"), ("views", "Message.get_*")],
     ["Message attributes and getters"])

prop("C16", "The envelope sender comes from the documented source",
     "The sender of a message is the envelope sender recorded by the first external relay if there are external relays; "
     "otherwise that of the last trusted relay (unless envelope-sender headers are always trusted), else of the first "
     "untrusted relay, else the first address in the configured (or default) envelope-sender headers in order, else empty.",
     ["inputs", "configurations"], "every combination of relay kinds, recorded senders, headers and settings",
     "Tests cover single sources in isolation.",
     ["oa/message.py"], [("sender selection", "Message._parse_sender")], ["msg.sender_address"])

prop("C17", "Checking one message never affects the result of another",
     "The results (score, matched rules, tags, report) of checking a message depend only on that message and the loaded "
     "configuration: checking other messages before it, with any plugin loaded, or the same message twice, changes nothing (messages are checked one at a time, each one to its end).",
     ["histories", "inputs"], "every ordered pair of messages from a bounded message space, for every plugin's tests",
     "Each test builds a fresh context; leakage needs histories of two or more messages.",
     ["oa/plugins", "oa/message.py", "oa/rules/ruleset.py"],
     [("per-message storage", "BasePlugin.set_local"), ("reset", "Message.clear_matches")],
     ["RuleSet.match results across messages"])

prop("C18", "All outputs agree on one spam verdict",
     "A message is spam exactly when its score is at least the required score, and every place that reports or acts on the "
     "verdict (the CHECK line, conditional report, YESNO tags, choice of spam or ham header rules, rewriting of the "
     "message, exit status) uses that same verdict, score and threshold.",
     ["inputs", "configurations"], "every score and required score, including equality and negative values",
     "Tests use one score above and one below the threshold.",
     ["oa/protocol/check.py", "oa/rules/ruleset.py", "oa/scripts/match.py"],
     [("comparison with required_score", "CheckCommand.handle, RuleSet._interpolate, RuleSet.get_adjusted_message")],
     ["protocol responses, adjusted messages"])

prop("C19", "Requests to the daemon are framed correctly",
     "For every request, however it is split into reads, the daemon processes exactly the bytes the client sent as message "
     "(the number announced by Content-length if given, else all until the client stops sending), with option names "
     "case-insensitive and values stripped; the bytes are read as UTF-8, undecodable ones being dropped. A malformed request line, option line or length is answered with a bad-header response, never "
     "with silence or another message's content.",
     ["inputs", "fault_sequences"], "every short header block and body, every read split within the bounds",
     "Tests feed complete well-formed requests.",
     ["oa/protocol/base.py", "oa/server.py"],
     [("option parsing", "BaseProtocol.get_options"), ("message reading", "BaseProtocol.get_message")],
     ["message handed to the command, bytes written"])

prop("C20", "Daemon responses are well formed",
     "Each response consists of one status line, the verdict line with the exact score and threshold, a Content-length "
     "equal to the number of bytes of the body that follows, and that body; SYMBOLS lists exactly the matched rules in order, "
     "REPORT_IFSPAM has an empty body for ham, PING answers PONG and SKIP answers nothing.",
     ["inputs", "configurations"], "every outcome of up to 3 rules, every score and body text including non-ASCII",
     "Tests mock the ruleset and compare fixed strings.",
     ["oa/protocol/check.py", "oa/protocol/base.py", "oa/protocol/process.py", "oa/protocol/noop.py"],
     [("response generation", "CheckCommand.handle / extra_details")], ["bytes written to the client"])

prop("C21", "The daemon serves each user with exactly the right rules",
     "A request naming a user is checked with the site configuration overlaid by that user's preferences exactly when user "
     "rules are allowed and that user has a preferences file; in every other case the site configuration is used. No user's "
     "settings ever affect the site configuration or another user, and a reload replaces all of them (the files do not change between reloads).",
     ["histories", "configurations"], "every sequence of up to 4 requests/reloads over two users and the switches",
     "Tests check one user at a time.",
     ["oa/server.py", "oa/config.py"], [("per-user cache", "Server.get_user_ruleset"), ("reload", "Server.load_config")],
     ["ruleset used for the request"])

prop("C22", "TELL performs exactly the requested learning actions",
     "A TELL request reports the message with the class given by Message-class when Set lists a target and revokes it when Remove does, to exactly the targets "
     "listed (local, remote), in that order; it acknowledges exactly the header fields that led to an action, and does "
     "nothing else.",
     ["inputs"], "every combination of headers and short header values",
     "Tests use fixed option dictionaries.",
     ["oa/protocol/tell.py", "oa/context.py", "oa/plugins/base.py"], [("dispatch", "TellCommand.handle")],
     ["plugin callbacks, bytes written"])

prop("C23", "Rewriting applies the configured headers and report and nothing else",
     "Rewriting a message removes and adds exactly the headers configured for its verdict with every tag replaced by its "
     "value for this message (unknown tags shown as such, other text untouched), and keeps all other headers and the body, "
     "up to line ends; in report mode the original message is enclosed unmodified. No name is both added and removed for one verdict.",
     ["inputs", "configurations"], "every short template text, header rule list and report_safe value",
     "Tests use a few templates.",
     ["oa/rules/ruleset.py"], [("templates", "RuleSet._convert_tags / _interpolate"), ("headers", "RuleSet._adjust_headers")],
     ["RuleSet.get_adjusted_message / get_report"])

prop("C24", "Short-circuit rules decide the message when they hit",
     "When a rule with a short-circuit setting matches, evaluation stops after it with the configured class recorded: "
     "type spam or ham forces the configured short-circuit score, type on keeps the score so far; rules set to off, or "
     "without a setting, never stop evaluation.",
     ["inputs", "configurations"], "every sequence of up to 3 rules with every setting and outcome",
     "Tests cover one rule at a time.",
     ["oa/plugins/short_circuit.py", "oa/rules/ruleset.py"], [("match wrapper", "ShortCircuit plugin")],
     ["evaluation order, score, tags"])

prop("C25", "Automatic learning happens exactly on confident verdicts",
     "A message is automatically learned as spam only above the spam threshold and as ham only below the ham threshold, with "
     "the documented header/body point minimums for spam and only when the current classifier opinion does not strongly "
     "contradict it; only rules that matched count, rules flagged userconf or noautolearn never influence the decision and rules flagged learn do not add to its points.",
     ["inputs", "configurations"], "every combination of rule scores, kinds, flags and thresholds within the bounds",
     "Tests mock most of the decision.",
     ["oa/plugins/auto_learn_threshold.py"], [("decision", "AutoLearnThreshold plugin")],
     ["learn calls"])

prop("C26", "Learning and forgetting keep the Bayes counters consistent",
     "After any sequence of learn-spam, learn-ham and forget operations, the stored message and token counts equal the "
     "multiset of messages currently learned in each class: learning the same message again in the same class changes nothing, "
     "re-learning in the other class moves it, forgetting removes it, and counts never become negative.",
     ["histories"], "every history of up to 3 operations over two messages and two classes",
     "Tests exercise single operations against mocks.",
     ["oa/plugins/bayes.py"], [("state machine", "BayesPlugin learn/forget"), ("store", "bayes store classes")],
     ["store contents"])

prop("C27", "Bayes probabilities are sane",
     "The probability of a token follows Robinson's formula from its spam and ham sightings, lies within [0,1], is on the spam "
     "(ham) side for a token seen only in spam (ham), and is never lower when one of its sightings was in spam instead of ham; "
     "a message is scored by its most significant known tokens with their own probabilities, not at all before the minimum "
     "numbers of messages were learned or when no significant token is known, and check_bayes matches exactly the messages "
     "scored within its range.",
     ["inputs"], "all counts within the bounds as solver integers",
     "Tests compute a few values.",
     ["oa/plugins/bayes.py"], [("probability", "BayesPlugin")], ["token and combined probabilities"])

prop("C28", "Auto-whitelisting pulls the score towards the sender's average",
     "Checking a message adds (average - score) * factor for the sender's history and records exactly this message's score "
     "for exactly this sender and network (a record kept without an address is taken over by the sender's next address); other senders' records never change.",
     ["histories", "inputs"], "every history of up to 3 messages over two senders with symbolic scores",
     "Tests mock the storage.",
     ["oa/plugins/awl.py"], [("adjustment", "AWL plugin")], ["score, stored totals"])

prop("C29", "DNS is queried only when allowed",
     "A DNS query for a name is sent exactly when DNS is available and the most specific dns_query_restriction covering the "
     "name (by stripping labels from the left) does not deny it, case-insensitively; otherwise the lookup returns an empty answer. "
     "The availability setting yes/no/test decides as documented.",
     ["inputs", "configurations"], "every name of up to 4 labels and up to 3 restrictions",
     "Tests use two or three names.",
     ["oa/dns_interface.py", "oa/rules/ruleset.py"], [("restriction lookup", "DNSInterface"), ("configuration", "RuleSet.post_parsing")],
     ["queries reaching the resolver"])

prop("C30", "Block-list tests ask about the right addresses and match only listed ones",
     "A DNS block-list test queries the reversed form of exactly the message's eligible relay addresses (those outside the trusted networks) in "
     "the given zone and matches exactly when one of the answers satisfies the requested sub-test; nothing is queried when "
     "block-list checks are disabled.",
     ["inputs", "configurations"], "every chain of up to 3 relays and every answer within the bounds",
     "Tests mock single answers.",
     ["oa/plugins/dns_eval.py"], [("lookups", "DNSEval plugin")], ["DNS queries and rule results"])

prop("C31", "White and black lists match whole addresses as configured",
     "A sender or recipient is on a configured list exactly when its full address matches one of the listed patterns "
     "(* any text, everything else literal, ignoring case, any local part when the pattern has no @), and for "
     "received-qualified entries only when the relay's host or network matches as well; such an address coming through another relay is forged "
     "unless that is allowed. A URI is on a list of hosts exactly when its host is, or lies below, a host of the list that is neither excluded nor removed.",
     ["inputs", "configurations"], "every short address and host and every pattern within the bounds",
     "Tests use a few patterns.",
     ["oa/plugins/wlbl_eval.py"], [("glob conversion and lookup", "WLBLEval plugin")], ["eval results"])

prop("C32", "Range tests match exactly the documented interval",
     "Tests that compare a measured quantity with configured bounds (ratios, counts, sizes, delays, pixel areas) match exactly "
     "when the quantity, measured over the whole message as documented, lies in the documented interval, treating the bounds as numbers "
     "whatever way they are written and an absent bound as unlimited, and never fail.",
     ["inputs"], "every quantity and bounds within the stated numeric ranges",
     "Tests sample a few values around the bounds.",
     ["oa/plugins/body_eval.py", "oa/plugins/header_eval.py", "oa/plugins/mime_eval.py", "oa/plugins/image_info.py", "oa/plugins/pdf_info.py"],
     [("interval comparisons", "the *_eval plugins")], ["eval results"])

prop("C33", "Plugins see every event in load order and unloading is complete",
     "Every loaded plugin receives each event of the message life cycle once, in load order, until one asks to stop the chain; "
     "loading a plugin registers exactly its tests and commands, loading it again replaces the former instance, and unloading "
     "removes everything it registered so that no stale test remains reachable.",
     ["histories", "fault_sequences"], "every sequence of up to 4 load/unload operations over plugins with overlapping names",
     "Tests load single mock plugins.",
     ["oa/context.py", "oa/plugins/base.py"], [("registry", "GlobalContext.load_plugin / unload_plugin"), ("chains", "_callback_chain")],
     ["ctxt.plugins, ctxt.eval_rules, ctxt.cmds, callback order"])

prop("C34", "Configuration files are loaded in the documented order",
     "The files loaded are exactly the .pre and .cf files of the site and configuration directories and the user's preference "
     "file if it exists, each once: all .pre files before any .cf file, configuration defaults before site files, each group in "
     "alphabetical order, and user preferences last.",
     ["inputs", "configurations"], "every directory content of up to 3 names per directory",
     "Tests use mocks of the listing.",
     ["oa/config.py"], [("ordering", "get_config_files")], ["returned list of paths"])

prop("C90", "Compiled rule sets behave as the source rule sets",
     "Serialising a loaded rule set and loading it again yields the same verdict for every message.",
     ["programs", "inputs"], "every rule set", "Tests compare one rule set.",
     ["oa/scripts/compile.py"], [("pickling", "scripts/compile.py")],
     na="pickle's object graph walk is interpreter code (C/RPython) that cannot be encoded for the solver; the restored state is "
        "not a function of symbolic inputs but of the pickle protocol, so nothing solver-decidable remains.")

prop("C91", "Remote reporting services are contacted with the right data",
     "Reporting to Pyzor, Razor and SpamCop sends exactly the message being reported and maps the service's answer to the "
     "documented result.",
     ["inputs", "fault_sequences"], "every message and service answer", "Tests mock the client libraries.",
     ["oa/plugins/pyzor.py", "oa/plugins/razor2.py", "oa/plugins/spam_cop.py"], [("clients", "pyzor / razor / smtp clients")],
     na="the behaviour lives in third-party client libraries and network services that are absent here; the glue left over is a "
        "direct call, which symbolic execution of stubs would only restate.")

prop("C92", "Image and document metadata are decoded correctly",
     "Image dimensions, PDF page counts and detected languages reported for an attachment equal those of the real content.",
     ["inputs"], "every attachment", "Tests use sample files.",
     ["oa/plugins/image_info.py", "oa/plugins/pdf_info.py", "oa/plugins/textcat.py"], [("decoders", "PIL / PyPDF2 / langdetect")],
     na="decoding is done by PIL, PyPDF2 and langdetect (native or unavailable code outside the repository) on kilobyte inputs; out "
        "of reach of a bounded encoding. The range tests on the decoded values are covered by C32.")
