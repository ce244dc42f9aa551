# One entry per property; tools/gen.py derives properties.jsonl and MANIFEST.json.
def q(over, text): return {"over": over, "text": text}
def mech(*a): return [{"name": n, "where": w} for n, w in a]

NOTE = ("Exhaustive within the stated bounds: every unit of the space is executed on the real code and compared with "
        "the reference model; nothing is sampled. Trusts the reference model (harness/ref) and says nothing beyond the bounds. ")

PROPS = [
 dict(id="C01", title="IsValid decides exactly the language RFC 5234/7405 gives the grammar",
  statement="For every grammar and rule, asking whether an input is valid answers true exactly when the whole input is derivable from that rule under RFC 5234 and RFC 7405 (literal case rules, ranges, series, repetition bounds, options, groups, core rules), and it always terminates without panicking. This includes left-, right-, hidden- and mutually recursive grammars, nullable elements, ambiguous grammars and arbitrary bytes as input.",
  quantifier=q(["programs","inputs"], "all grammars and all input byte strings (explored: all grammars of the bounded families, each on all inputs up to its length bound)"),
  why_tests_cant="The tests pin a few dozen (grammar, input) pairs and compare the engines with each other, which share lowering and terminal code; they cannot range over grammar shapes where recursion, nullability and counted repetition interact.",
  anchors={"files":["grammar.go","recognize.go","leftrec.go","dag.go","utils.go"], "mechanism":mech(("reachable end-set fixpoint","recognize.go: reachElem/reachRep/computeElem"),("left-recursion seed growing","recognize.go: reachLeftRec; leftrec.go: leftRecursiveSCCs"),("nullability analysis","leftrec.go: nullableRules"))},
  technique="exhaustive bounded enumeration of grammars x inputs, executed on the implementation against a derivability fixpoint model",
  note=NOTE),
 dict(id="C02", title="Parse forest validity, tree count and ambiguity are exact",
  statement="For every grammar and input, the shared parse forest reports valid exactly when the input is derivable, its number of trees equals the number of distinct derivations of the input (two derivations differ if they choose a different alternative, repetition count or split anywhere), reported as -1 exactly when there are infinitely many, and it reports ambiguity exactly when that number is not 0 or 1.",
  quantifier=q(["programs","inputs"], "all grammars and all inputs (explored: the bounded families of C01)"),
  why_tests_cant="Tests pin a dozen tree counts; counting bugs come from merging or splitting shared nodes and only show for particular combinations of nesting, nullable parts, alternatives and counts.",
  anchors={"files":["sppf.go"], "mechanism":mech(("GLL descriptors and graph-structured stack","sppf.go: gllParser.process/create/pop"),("shared packed nodes","sppf.go: getNodeP/addPack"),("counted repetition","sppf.go: addRepAlts/capRC"),("queries","sppf.go: Forest.NumTrees/Ambiguous"))},
  technique="exhaustive bounded enumeration of grammars x inputs, executed on the implementation against a derivation-counting model",
  note=NOTE),
 dict(id="C03", title="Binary-subtree parsing gives the same exact validity, count and ambiguity",
  statement="For every grammar and input, the binary-subtree parse result reports valid exactly when the input is derivable, its number of trees equals the number of distinct derivations (-1 exactly when infinite), and it reports ambiguity exactly when that number is not 0 or 1; so it always agrees with the shared parse forest and with the validity query.",
  quantifier=q(["programs","inputs"], "all grammars and all inputs (explored: the bounded families of C01)"),
  why_tests_cant="The differential tests run a fixed corpus; disagreement needs particular grammar shapes and inputs.",
  anchors={"files":["bsr.go","sppf.go"], "mechanism":mech(("BSR element recording","bsr.go: record/create/pop"),("queries","bsr.go: BSRForest.NumTrees/Ambiguous/Valid"),("slot lowering","sppf.go: compileSlots"))},
  technique="exhaustive bounded enumeration of grammars x inputs, executed on the implementation against a derivation-counting model",
  note=NOTE),
 dict(id="C04", title="An extracted parse tree is a genuine derivation of the input",
  statement="Whenever an input is accepted and has finitely many derivations, the tree extracted from either parse representation is one of them: the root is the start rule over the whole input, every node's children follow some alternative of its rule with repetition bounds respected, siblings tile their parent's span in order, and every leaf is text its terminal matches. Rejected inputs have no tree.",
  quantifier=q(["programs","inputs"], "all grammars and all inputs with finitely many derivations (explored: the bounded families of C01)"),
  why_tests_cant="Tests look at a handful of trees; extraction picks one of many shared sub-results, in map order, so a wrong combination shows only on some grammars and some runs.",
  anchors={"files":["sppf.go","bsr.go"], "mechanism":mech(("tree extraction","sppf.go: Forest.Tree/collect; bsr.go: BSRForest.Tree/collectElem"))},
  technique="exhaustive bounded enumeration of grammars x inputs; each extracted tree replayed step by step as a derivation in the model",
  note=NOTE),
 dict(id="C05", title="Generated Go parsers compile and behave exactly like the library",
  statement="For every grammar, the source produced by the code generator compiles as a standalone program with only the standard library, and the compiled parser accepts exactly the grammar's language, reports the exact number of derivations (-1 when infinite), and yields a genuine derivation tree for accepted, finitely ambiguous inputs: the same answers the library gives.",
  quantifier=q(["programs","inputs"], "all grammars and all inputs (explored: bounded families of grammars, generated, compiled and run on every input up to the bound)"),
  why_tests_cant="Tests compile and run a handful of generated parsers; the generator has its own copy of the parsing engine and its own encoding of slots and terminals, so divergence needs particular shapes.",
  anchors={"files":["codegen.go"], "mechanism":mech(("slot emission","codegen.go: GenerateParser"),("embedded runtime","codegen.go: runtime template"))},
  technique="exhaustive bounded enumeration of grammars x inputs; each generated parser is compiled, executed and compared with the derivation-counting model",
  note=NOTE),
 dict(id="C06", title="A grammar's regular expression matches exactly the rule's language",
  statement="For every rule without a cycle and without prose, the regular expression built from it compiles in Go's regexp dialect and, anchored, matches a UTF-8 string exactly when the rule derives that string, including case-insensitive literals, character classes, metacharacters, ranges around the surrogate gap and every repetition bound the dialect supports. Rules that depend on a cycle, contain prose or do not exist are refused with an error, and building it leaves the grammar unchanged.",
  quantifier=q(["programs","inputs"], "all acyclic grammars and all UTF-8 inputs (explored: the bounded families of regularCases)"),
  why_tests_cant="Tests compare a few expected regex strings; escaping, class merging and quantifier simplification interact, and wrong rewrites only show for particular neighbouring characters or nestings.",
  anchors={"files":["regex.go","dag.go"], "mechanism":mech(("regex syntax tree and simplification","regex.go"),("cycle refusal","regex.go: Regex; dag.go: RuleContainsCycle"))},
  technique="exhaustive bounded enumeration of grammars x inputs; the built regex is compiled, executed and compared with the derivability model",
  note=NOTE),
 dict(id="C07", title="ABNF text is read exactly as RFC 5234/7405 define it",
  statement="For every byte string, parsing it as an ABNF grammar succeeds exactly when it is a valid rule list under RFC 5234 and RFC 7405, and then the resulting grammar has exactly the rules, alternatives, repetition bounds, literals and numeric values the text says, independent of the white space, comments and line folding used. It always terminates, without a panic.",
  quantifier=q(["inputs"], "all byte strings (explored: all token sequences, single-byte edits, lexical contexts and layouts up to the bounds)"),
  why_tests_cant="Tests parse a dozen real grammars and a few malformed ones; comments, folding and adjacent tokens can be combined in unboundedly many ways.",
  anchors={"files":["grammar.go","abnf.go","rules.go"], "mechanism":mech(("meta-grammar","abnf.go: ABNF"),("evaluation of parse forests","grammar.go: EvaluateABNF"),("element model","rules.go"))},
  technique="exhaustive bounded enumeration of texts, executed on the implementation against an independent character-level reader",
  note=NOTE),
 dict(id="C08", title="Printing a grammar and reading it back gives the same grammar",
  statement="For every grammar, its string form and its pretty-printed form are valid ABNF that parse back to a grammar with the same rules, alternatives, bounds, case sensitivity and numeric values, and so the same language; printing is stable under repetition of this round trip.",
  quantifier=q(["programs"], "all grammars (explored: all grammars of bounded size over every element kind, bound, base and printable character)"),
  why_tests_cant="Tests round-trip a few grammars; losing a marker (case sensitivity, a base, parentheses, a bound) only matters for grammars where that marker changes the meaning.",
  anchors={"files":["rules.go","grammar.go"], "mechanism":mech(("rendering","rules.go: String methods; grammar.go: String/PrettyPrint"))},
  technique="exhaustive bounded enumeration of grammars; each printed form is parsed back by the implementation and by the reference reader",
  note=NOTE),
 dict(id="C09", title="A transition graph spells exactly the rule's language",
  statement="For every acyclic rule and every combination of expansion options, the strings spelled by walks from an entry point to an end point of the transition graph are exactly the strings the rule derives, and the graph contains no rule, multi-value or case-insensitive node that the options asked to expand. Cyclic rules, prose and repetitions beyond the threshold are refused with the matching error, and the grammar is left unchanged.",
  quantifier=q(["programs","configurations","inputs"], "all acyclic grammars, all option combinations and all inputs (explored: the bounded families of regularCases)"),
  why_tests_cant="Tests compare a few drawn graphs; wiring mistakes need particular nestings of optional, repeated and shared parts.",
  anchors={"files":["transition_graph.go"], "mechanism":mech(("graph construction and expansion","transition_graph.go: TransitionGraph/rebranch"),("graph cloning","transition_graph.go: clone"))},
  technique="exhaustive bounded enumeration of grammars x options x inputs; the built graph is simulated as an automaton against the derivability model",
  note=NOTE),
 dict(id="C10", title="Transition-graph readers enumerate exactly what their mode promises",
  statement="For every transition graph, the all-trails reader ends after emitting exactly the strings of every entry-to-end walk that uses each edge at most once, over every combination of the nodes' values; the compact reader ends after a small set of strings that covers every reachable vertex, every edge and every terminal value at least once. Every string either reader emits belongs to the rule's language, and reading again gives the same strings.",
  quantifier=q(["programs","configurations"], "all acyclic grammars and option combinations (explored: the bounded families of c10Cases)"),
  why_tests_cant="Tests pin the output of a few graphs; missed or repeated trails depend on branch order, shared nodes and combinations of variations.",
  anchors={"files":["transition_graph.go"], "mechanism":mech(("trail enumeration","transition_graph.go: TransitionGraphReader.Next/Scan"),("compact cover","transition_graph.go: CoverageCompact"))},
  technique="exhaustive bounded enumeration of grammars x options; each reader is drained and compared with an independent enumeration of the graph's trails",
  note=NOTE),
 dict(id="C11", title="Every production of the graph generator is a word of the language",
  statement="For every expanded transition graph, budget and tape of bytes or random source, generation ends and yields a string the rule derives; the same tape always gives the same string, the tape is not modified, and once a budget is spent the walk takes a shortest way to an end. Every short word can be generated by some sequence of choices, and graphs that still contain rule references or admit no string are refused.",
  quantifier=q(["programs","configurations","inputs"], "all expanded graphs, budgets, tapes and random sources (explored: bounded families, all short tapes and all short decision sequences of a controlled random source)"),
  why_tests_cant="Tests generate from a few graphs with some seeds; a wrong steering decision needs a particular budget to run out at a particular node.",
  anchors={"files":["fuzz.go"], "mechanism":mech(("graph walk under budgets","fuzz.go: Generate/walk"),("distance to the nearest end","fuzz.go: NewGenerator"))},
  technique="exhaustive bounded enumeration of graphs x budgets x tapes, and of all decision sequences of a controlled random source, against the derivability model",
  note=NOTE),
 dict(id="C12", title="Every production of the recursive generator is a word of the language",
  statement="For every grammar, recursive ones included, generation from any tape or random source under any depth, length and repetition bound ends and yields a string the rule derives, the same for the same tape. Construction is refused exactly when a rule it can reach is undefined or derives nothing; for small grammars every word within the repetition cap can be generated.",
  quantifier=q(["programs","configurations","inputs"], "all grammars, budgets, tapes and random sources (explored: bounded families, all short tapes and all short decision sequences of a controlled random source)"),
  why_tests_cant="Tests generate from a few recursive grammars; runaway recursion and dead branches need particular mixes of recursion, repetition and dead terminals.",
  anchors={"files":["ast.go"], "mechanism":mech(("minimum-cost steering","ast.go: computeMinCosts/cheapestConcat"),("recursive walk","ast.go: Generate/GenerateRand"))},
  technique="exhaustive bounded enumeration of grammars x budgets x tapes, and of all decision sequences of a controlled random source, against the derivability model",
  note=NOTE),
 dict(id="C13", title="The seeded generator always ends, with a reproducible word of the language",
  statement="For every grammar, rule, seed and option, seeded generation either reports that the rule cannot be generated (it is unknown or derives nothing) or ends with a string the rule derives; the same seed on an equal grammar gives the same string, and the grammar is left unchanged.",
  quantifier=q(["programs","configurations","inputs"], "all grammars, seeds and options (explored: bounded families x seeds x options)"),
  why_tests_cant="Tests use a few seeds on a few grammars; termination and validity depend on recursion, dead parts and options together.",
  anchors={"files":["generate.go"], "mechanism":mech(("random descent","generate.go: generateAlt"),("safety check","generate.go: checkCanGenerateSafely"))},
  technique="exhaustive bounded enumeration of grammars x options x a seed range, executed on the implementation against the derivability model",
  note=NOTE),
 dict(id="C14", title="A near miss is never a word of the language and says truly how it fails",
  statement="For every expanded transition graph and tape, a near miss that is reported is a string the rule does not derive, obtained from the production of the same tape by one small edit, and its label names that edit and its place correctly. The answer is the same for the same tape, and the search always ends.",
  quantifier=q(["programs","inputs"], "all expanded graphs and tapes (explored: bounded families x all short tapes)"),
  why_tests_cant="Tests check a few grammars; whether an edit leaves the language depends on the whole grammar (a mutated string may still be a word).",
  anchors={"files":["fuzz.go"], "mechanism":mech(("mutation and rejection test","fuzz.go: NearMiss"),("acceptance simulation","fuzz.go: ExpectedNext/simulate"))},
  technique="exhaustive bounded enumeration of graphs x tapes, executed on the implementation; each near miss checked against the derivability model",
  note=NOTE),
 dict(id="C15", title="ExpectedNext lists exactly the octets that can follow a prefix",
  statement="For every expanded transition graph and every byte string as prefix, the analysis either declines, which it only does for a character range too wide to be followed, or the octets reported are exactly those that extend the prefix to a prefix of some word of the language, acceptance is reported exactly when the prefix is itself a word, and a prefix of no word yields no octets and no acceptance. This holds inside multi-octet characters too.",
  quantifier=q(["programs","inputs"], "all expanded graphs and prefixes (explored: bounded families x all prefixes of all bounded inputs)"),
  why_tests_cant="Tests query a few prefixes; dead ends, partial UTF-8 sequences and case-insensitive literals combine per grammar.",
  anchors={"files":["fuzz.go"], "mechanism":mech(("octet automaton","fuzz.go: ExpectedNext"))},
  technique="exhaustive bounded enumeration of graphs x prefixes, executed on the implementation against a viable-prefix model",
  note=NOTE),
 dict(id="C18", title="Cycle and dependency answers match reachability between rules",
  statement="For every grammar, the dependency graph has exactly the rules and the references that occur in it (names compared without regard to case, core rules when used), the grammar is reported acyclic exactly when no rule can reach itself, and a rule is reported to contain a cycle exactly when it can reach a rule that can reach itself. The answers do not depend on the order of rules or on repetition of the query.",
  quantifier=q(["programs"], "all grammars (explored: all directed graphs on up to 4 rules, every syntactic position, long chains with every back edge)"),
  why_tests_cant="Tests check a handful of graphs; the traversal visits a map in random order, so a numbering or stack bug shows for some graph and some order only.",
  anchors={"files":["dag.go"], "mechanism":mech(("Tarjan strongly connected components","dag.go: IsDAG"),("per-rule cycle search","dag.go: RuleContainsCycle"),("dependency graph","dag.go: DependencyGraph"))},
  technique="exhaustive enumeration of all digraphs up to a size, executed on the implementation against plain reachability",
  note=NOTE),
 dict(id="C19", title="Redefinition, extension and semantic validation follow the rules",
  statement="For every sequence of rule definitions, extensions with =/ append alternatives in order to the rule of that name (compared without regard to case), a second plain definition is an error, core rules can be redefined or extended only when the option allows it, and with validation on a grammar is refused exactly when it references an undefined rule, has a repetition whose minimum exceeds its maximum, or has a numeric value beyond the supported range. Each refusal is the documented error and names the culprit.",
  quantifier=q(["programs","configurations"], "all sequences of definitions and all option combinations (explored: all sequences up to three over a pool, all numerals around the bound)"),
  why_tests_cant="Tests try a few duplicates and extensions; order, letter case, core rules and options multiply, and evaluation goes through maps with random order.",
  anchors={"files":["grammar.go","option.go","utils.go"], "mechanism":mech(("rule registration","grammar.go: EvaluateABNF"),("semantic validation","grammar.go: SemvalABNF"))},
  technique="exhaustive bounded enumeration of definition sequences x options, executed on the implementation against a reference evaluator",
  note=NOTE),
 dict(id="C16", title="A size budget gives its own error or leaves the answer unchanged",
  statement="For every grammar, input and budget (parse-forest and binary-subtree node budgets, grammar-size budget, the generated parser's element limit, regular-expression length, transition-graph nodes), the call either returns that budget's documented error or exactly the answer it gives without a budget, never a truncated one. Whether it errors is monotone in the budget: a budget at least as large as what is built is never refused, and a smaller one never gets more than it allows. A budget also bounds the work, so constructions of astronomic size are refused promptly.",
  quantifier=q(["programs","inputs","configurations"], "all grammars, inputs and budgets (explored: bounded families x inputs x every budget from 1 to beyond the full size, plus a fixed list of exploding constructions)"),
  why_tests_cant="Tests set one budget on one grammar; an off-by-one or a missed check shows only when the budget runs out at one particular step.",
  anchors={"files":["sppf.go","bsr.go","codegen.go","regex.go","transition_graph.go"], "mechanism":mech(("node budgets","sppf.go: WithMaxForestNodes/getNodeP; bsr.go: record"),("grammar budget","sppf.go: WithMaxSlots/compileSlots"),("regex length budget","regex.go: WithMaxRegexLen"),("graph node budget","transition_graph.go: WithMaxNodes"))},
  technique="exhaustive bounded enumeration of grammars x inputs x all budget values, executed on the implementation and compared with the unbudgeted answer",
  note=NOTE),
 dict(id="C17", title="Operations are pure: no history or concurrency changes an answer",
  statement="For every sequence of operations on shared grammars, parse results, transition graphs and generators, each operation answers as it would on freshly built values with the same content (the same tree for the same ambiguous input; also after the caller has edited a grammar's rules between two calls), leaves its inputs and the grammar untouched, and hands out results the caller may overwrite without affecting later answers. One grammar may be used by several goroutines at once without data races and with the same answers.",
  quantifier=q(["histories","schedules"], "all operation histories and all interleavings of concurrent operations on one grammar (explored: all histories up to three operations of a pool over shared values, all pairs with an edit of the grammar between them, every question repeated over the bounded grammar families, all concurrent pairs on grammars nothing has used before, cold starts)"),
  why_tests_cant="Tests run each operation once on its own grammar; leaked state needs a particular earlier operation, and races need a particular schedule.",
  anchors={"files":["grammar.go","rules.go","regex.go","transition_graph.go","ast.go","fuzz.go","sppf.go","bsr.go"], "mechanism":mech(("core rules shared by all grammars","rules.go: coreRules; utils.go: GetRule"),("graph cloning when expanding rules","transition_graph.go: clone"),("per-call parser state","recognize.go; sppf.go; bsr.go"))},
  technique="exhaustive enumeration of operation histories up to a depth against fresh-state answers; all concurrent pairs executed under a happens-before race monitor (a pair without conflicting accesses has one equivalence class of schedules)",
  note=NOTE+"Concurrency: pairs of operations only; a pair whose run has no conflicting unsynchronised access has a single Mazurkiewicz trace, so that run stands for all its schedules. "),
 dict(id="C20", title="A parse diagnostic points at the true place and names what was expected",
  statement="For every grammar and every input that is not in its language, the diagnostic reports the furthest offset to which the input can be followed over complete terminals, the line and column of that offset, what stands there (or the end of input), and exactly the terminals that could have continued the parse at that offset. It is the documented error kind, and accepted inputs have no diagnostic.",
  quantifier=q(["programs","inputs"], "all grammars and rejected inputs (explored: bounded families x all inputs up to a length, and ABNF texts with every single-byte edit)"),
  why_tests_cant="Tests pin a few messages; the furthest position depends on how alternatives, repetition and recursion advance on each particular input.",
  anchors={"files":["errors.go","sppf.go"], "mechanism":mech(("furthest-failure tracking","sppf.go: gllParser fail tracking"),("diagnostic construction","errors.go: ParseError/newParseError"))},
  technique="exhaustive bounded enumeration of grammars x rejected inputs, executed on the implementation against a top-down reachability model",
  note=NOTE),
 dict(id="C21", title="Rule names are case-insensitive in every operation",
  statement="For every grammar, changing the letter case of any occurrence of a rule name (in a definition, an extension, a reference, or the name a caller passes as root) changes no answer: parsing the grammar text, validity, parse results and trees, diagnostics, regular expressions, transition graphs, all generators, cycle and dependency answers and generated parsers. A second definition under another spelling is a duplicate, and core rules are found under any spelling.",
  quantifier=q(["programs","inputs"], "all grammars and all spellings of their rule names (explored: all spellings of every name occurrence in a set of base grammars covering every kind of reference, on all short inputs)"),
  why_tests_cant="Tests spell names one way; every operation compares names in its own place, so a slip shows only in one operation for one particular mix of spellings.",
  anchors={"files":["utils.go","grammar.go","leftrec.go","recognize.go","sppf.go","regex.go","transition_graph.go","dag.go","ast.go","generate.go","codegen.go"], "mechanism":mech(("rule lookup","utils.go: GetRule/getRuleIn"),("name keys of analyses","leftrec.go, dag.go, regex.go, transition_graph.go: strings.ToLower"))},
  technique="exhaustive enumeration of spellings of all name occurrences x operations, executed on the implementation against case-blind models",
  note=NOTE),
 dict(id="C22", title="Drawings show exactly the graph they are made from",
  statement="For every transition graph, the Mermaid flowchart has exactly one node per reachable graph node, with its label, marks exactly the entry and end points, draws every edge once and no other, and shows the empty word exactly when the graph accepts it. The dependency flowchart has exactly the references between the grammar's rules and the core rules they use, each rule drawn as one node.",
  quantifier=q(["programs","configurations"], "all grammars and option combinations (explored: bounded regular families, name spellings, all digraphs on three rules)"),
  why_tests_cant="Tests only check that a drawing is not empty.",
  anchors={"files":["transition_graph.go","dag.go"], "mechanism":mech(("transition graph drawing","transition_graph.go: ToMermaid"),("dependency drawing","dag.go: DependencyGraph/Mermaid"))},
  technique="exhaustive bounded enumeration of grammars x options; each drawing is parsed back and compared with the graph and with the grammar's references",
  note=NOTE),
 dict(id="C23", title="The command-line tools answer exactly what the library answers",
  statement="For every grammar text given by file or standard input and every combination of flags, the pap commands (validate, generate, regex, transition-graph) and abnf-gen exit with 0 and output the library's answer to the same request, or exit with 1, a message on standard error and no output when the library refuses or an argument is missing. Input files are left untouched, and abnf-gen writes its output file only on success.",
  quantifier=q(["inputs","configurations"], "all grammar texts and flag combinations (explored: texts valid and refused at every stage x ways of input x all flag values of a list)"),
  why_tests_cant="The repository has no tests of its programs.",
  anchors={"files":["cmd/pap/commands/validate.go","cmd/pap/commands/generate.go","cmd/pap/commands/regex.go","cmd/pap/commands/transition_graph.go","cmd/pap/commands/utils.go","cmd/abnf-gen/main.go"], "mechanism":mech(("flag handling","cmd/pap/commands/*.go; cmd/abnf-gen/main.go: run"))},
  technique="exhaustive enumeration of command lines x grammar texts; each is executed in a scratch directory and compared with the library called directly",
  note=NOTE),
 dict(id="C24", title="Work stays polynomial in the input and in the grammar",
  statement="For every grammar, recognising an input, building either parse representation and querying it (validity, ambiguity, number of trees, one tree) takes work at most cubic in the length of the input, however ambiguous or recursive the grammar. For every grammar, reading and checking its text, recognition and both parses, cycle and dependency analysis, printing, parser generation, preparing a generator, and budgeted regular expressions and transition graphs take work polynomial in the size of the grammar, even where shared sub-rules make the number of paths exponential; generating one word is polynomial where the shortest derivation is.",
  quantifier=q(["programs","inputs"], "all grammars and inputs (explored: growth under doubling of the input for all grammars of the bounded recursion, nullability, repetition and structure families, and growth under doubling of the grammar for all ladders and towers of a list of reference shapes)"),
  why_tests_cant="Tests run single small inputs; a lost memo or cache changes no answer and only shows as growth on particular shapes of sharing or recursion.",
  anchors={"files":["recognize.go","leftrec.go","sppf.go","bsr.go","dag.go","generate.go","ast.go","regex.go","transition_graph.go","codegen.go","grammar.go"], "mechanism":mech(("memoised recognition","recognize.go: reachElem/computeElem"),("shared descriptors and nodes","sppf.go: gllParser; bsr.go"),("counting over shared nodes","sppf.go: NumTrees; bsr.go: NumTrees"),("generation check","generate.go: checkCanGenerateSafely"))},
  technique="exhaustive enumeration of grammar families x input shapes x sizes; the implementation's own work (allocations) is measured on each and its growth under doubling compared with the cubic law",
  note=NOTE+"Work is observed as memory allocated; steps that allocate nothing are bounded only by the watchdog (an exponential one does not end)."),
 dict(id="C25", title="A refusal names its true cause, and nothing is refused without one",
  statement="For every grammar, validated or not, and every name asked for, each operation (semantic validation, recognition, both parses, cycle query, parser generation, regular expression, transition graph, both generators) either answers or returns an error and no answer. It returns an error exactly when there is a cause for it: the rule asked for is not defined, or what the operation cannot handle is reachable (a cycle, a prose-val, contradictory bounds, a bound over the threshold, a number beyond Unicode, an undefined reference). The error is the documented kind for one of those causes and carries the rule name, repetition or numeral at fault.",
  quantifier=q(["programs","inputs"], "all grammars and all names (explored: all combinations of nineteen elements, faulty and sound, in four shapes over three rules, with nine names)"),
  why_tests_cant="Tests sample one fault at a time; which cause is reported, and whether one is reported at all, depends on how several faults and sound paths combine over rules.",
  anchors={"files":["errors.go","grammar.go","generate.go","regex.go","transition_graph.go","utils.go","sppf.go","bsr.go","recognize.go","ast.go","codegen.go","dag.go"], "mechanism":mech(("rule lookup","utils.go: GetRule/getRuleIn"),("generation check","generate.go: checkCanGenerateSafely"),("semantic validation","grammar.go: SemvalABNF"),("refusals of the regex and graph builders","regex.go; transition_graph.go"))},
  technique="exhaustive bounded enumeration of grammars with combined faults x names x operations, executed on the implementation against a model of the causes",
  note=NOTE),
 dict(id="C26", title="The built-in grammars are those of the RFCs",
  statement="The core rules every grammar has without defining them (ALPHA to WSP) accept exactly the words RFC 5234 appendix B.1 gives them, by every route that uses them: recognition, both parses, regular expressions and transition graphs. The built-in ABNF grammar accepts, with every engine, exactly the texts the meta-grammar of RFC 5234 section 4 with the updates of RFC 7405 does. A grammar that defines a rule of a core rule's name is answered from its own definition.",
  quantifier=q(["inputs"], "all words and texts (explored: all one-byte words and all short words over each rule's boundary bytes for every core rule, all sequences of up to three ABNF tokens from every rule of the meta-grammar)"),
  why_tests_cant="Tests read a few grammars; a bound of a core rule or a missing alternative of the meta-grammar shows only on the one byte or text concerned.",
  anchors={"files":["rules.go","abnf.go","utils.go","grammar.go"], "mechanism":mech(("core rules","rules.go: coreRules"),("ABNF grammar of ABNF","abnf.go: ABNF"),("lookup with core fallback","utils.go: GetRule/getRuleIn"))},
  technique="exhaustive bounded enumeration of words and texts, executed on the implementation by every engine against the RFCs' own grammar text read by a reference interpreter",
  note=NOTE),
]
NOT_APPLICABLE = []
