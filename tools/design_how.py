HOW.update({
"C01": "RuleSet.match runs over real rule objects whose match outcome, score and failure are solver variables; the oracle adds up the scores of the matches. Tests sample a few outcomes; here every combination is decided.",
"C02": "Configuration text with symbolic priority texts is loaded through the parser for every rule type; the order of evaluation is observed and compared pairwise with the numeric order of the texts, ties with the order of definition.",
"C03": "Switches, flags and scores are symbolic; the oracle is the documented table. Score texts are symbolic characters.",
"C04": "All expression shapes of the grammar are generated, sub-rule results are solver variables and the oracle evaluates the syntax tree directly; what the code computes goes through its text translation and compile.",
"C05": "Patterns are symbolic texts; what reaches re.compile is compared with the text between the delimiters, cell by cell.",
"C06": "Messages with symbolic text are parsed and matched by rules loaded from configuration; the oracle builds the expected text independently (decode, strip tags, join).",
"C07": "Rules come from configuration text with symbolic names, modifiers and operators, values are symbolic; the oracle computes the views.",
"C08": "Two layouts of the same effective lines are loaded and the resulting rule sets compared; separators, comments and values are symbolic.",
"C09": "A bad line of symbolic text is put between good ones; the good ones must be loaded as if it were absent, in non-strict mode nothing may be raised and in strict mode only the package's errors.",
"C10": "Argument lists are built from symbolic literals; the registered function records what it receives.",
"C11": "Option lines with symbolic values; the oracle is the documented meaning per type; a second context is loaded around it in every order.",
"C12": "Networks with symbolic octets and lengths, the queried address is one 32/128-bit solver variable; the oracle is first match by masked comparison.",
"C13": "Relay records with symbolic membership and authentication; the invariants (partition, leading runs, boundary) are asserted.",
"C14": "Received headers out of templates with symbolic gaps; relays must have valid addresses which occur in the header.",
"C15": "Message texts with symbolic characters; metamorphic oracle over line ends, letter case, repeated reads.",
"C16": "All sources of the sender are present or absent symbolically; oracle is the documented precedence.",
"C17": "Two runs, one after another message and one in a fresh context, are compared on everything observable (a 2-safety property decided on the product of both runs).",
"C18": "One symbolic score and threshold; every output's verdict is compared with score >= required.",
"C19": "Requests are byte streams whose reads return a symbolic number of bytes; oracle is the announced or remaining bytes.",
"C20": "Responses for every combination of rule results and for symbolic non-ASCII text are parsed by an independent reader.",
"C21": "Histories of requests and reloads chosen by the solver; the rule set used for each is identified by the rules that match.",
"C22": "Headers are symbolic, plugins record calls; oracle computes the expected calls and DidSet/DidRemove.",
"C23": "Templates are symbolic texts; an independent scanner replaces tags; messages are compared header by header.",
"C24": "Settings and outcomes of rules are symbolic; oracle follows the documented order and stops.",
"C25": "Scores are rationals of the solver, kinds and flags choices; oracle sums the points.",
"C26": "Histories of operations over a real SQLite store; oracle keeps the multiset of learned messages.",
"C27": "Counts and probabilities are solver integers/reals; oracle is Robinson's formula, and monotonicity is asserted directly.",
"C28": "Histories with symbolic scores over a model of the two storage backends; oracle keeps totals per sender and network.",
"C29": "Names are symbolic texts, restrictions concrete; what reaches the resolver is observed.",
"C30": "Chains of relays and answers chosen by the solver; questions and results compared with the reversed addresses and the sub-test's meaning.",
"C31": "Addresses and hosts are symbolic texts, the oracle compares prefix and suffix.",
"C32": "Measured quantities and bounds are solver numbers; oracle is lo <= x <= hi.",
"C33": "Histories of load, unload and events over plugins with overlapping names; oracle is a list.",
"C34": "Directory contents are choices of the solver over a model of the file system; oracle is the sorted listing.",
})
