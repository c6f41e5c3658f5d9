import json
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=observe or [],hook_needed=hook)))
EX="src/parser/expression/mod.rs"; AT="src/parser/atom/mod.rs"; PM="src/parser/mod.rs"; LIB="src/lib.rs"; PEG="src/peg/mod.rs"; GC="src/peg/gcode.rs"; P2="src/peg/peg2code.rs"; RU="src/peg/rules.rs"; AST="src/ast/mod.rs"; FL="src/ast/flat.rs"
add("C01","Parsing accepts exactly the PEG language of the rules",
 "For every rule set and every text, parsing succeeds exactly when the rule called main, read as a parsing expression grammar (ordered choice committing to the first alternative that matches, greedy repetition that never gives back, lookahead that consumes nothing, sequence, literals, character classes, any-char, end-of-input), matches the whole text. A match of only a prefix is an error, and a failing alternative, repetition attempt or lookahead leaves the position where it was.",
 ["programs","inputs"],"every rule set (any nesting and recursion of the constructors) and every input text",
 "The tests try about twenty fixed grammar/text pairs with one or two operators each; interactions (choice under repetition under lookahead, backtracking across rule calls) are quantified over all grammars and texts.",
 [LIB,EX,AT],[("ordered choice","parse_or"),("greedy repetition","parse_repeat"),("lookahead","parse_not"),("sequence","parse_and"),("whole-input test","parse_with_debug")],
 [("position","how much text has been consumed","parser::Status.pos/it_parsing")],["dynparser::parse result is Ok/Err"])
add("C02","The AST is exactly the derivation of the text",
 "When parsing succeeds the returned tree is rooted at main and has exactly one rule node per rule invocation on the winning derivation, in order, named after that rule, and one value leaf per terminal that matched, holding exactly the characters it matched; end-of-input is the dedicated end-of-file node. Nothing tried in an abandoned alternative, an abandoned repetition attempt or a lookahead appears, so the concatenated leaves are the input text.",
 ["programs","inputs"],"every rule set and every text it accepts",
 "Almost all tests assert only is_ok(); no test inspects the tree produced by a parse.",
 [EX,AT,AST],[("node building","parse_rule_name, parse_and, parse_repeat"),("leaf building","atom::ok!")],
 [("nodes","nodes accumulated so far","acc.2 in parse_and/parse_repeat")],["the ast::Node returned by dynparser::parse"])
add("C03","Any Unicode text is parsed by whole characters",
 "Parsing treats text and grammar as sequences of Unicode characters: any-char and classes consume one whole character (ranges are inclusive by code point), literals compare character by character, and acceptance, the tree and every reported offset and excerpt are as if each character had width one. No text, whatever its characters, makes the parser panic or be rejected because of how its characters are encoded.",
 ["inputs","programs"],"every text over all of Unicode, and rule sets with any characters in literals and classes",
 "Every test text and grammar is pure ASCII, where byte offsets and character offsets coincide.",
 [LIB,PM,AT],[("character stepping","Status::get_char"),("end-of-input test","parse_with_debug"),("line excerpt","Error::from_status")],
 [("pos.n","characters consumed","parser::Possition")],["parse result on non-ASCII text"])
add("C04","Error locations are coherent with the text",
 "Every parse error carries a position inside the text (0 to its length in characters) whose row is the number of newlines before it, whose line start is just after the last of them, and whose column counts the characters since the last newline or carriage return. The before-excerpt is exactly the text from that line start to the position and the after-excerpt exactly the text from the position up to the next newline, carriage return or end.",
 ["inputs","programs"],"every rule set and text that produce an error, with any mix of line terminators",
 "Tests check row/col on success for two one-newline inputs and never look at an error's location or excerpts.",
 [PM,AT],[("position update","Status::get_char"),("excerpts","Error::from_status")],
 [("row, col, start_line","line bookkeeping","parser::Possition")],["pos, line_before, line_after of the returned error"])
add("C05","The most relevant failure is the one reported",
 "When all alternatives of a choice fail, the error reported is the one that got furthest into the text, the later one on a tie; a sequence or an unmet repetition reports the failure that stopped it. When main matches only a prefix, the error is the one that ended the last repetition on the winning path, or 'not consumed full input' at the stopping point if none did; a terminal's failure names what was expected and sits just past the first character that did not fit (at the end of text if it ran out).",
 ["programs","inputs"],"every rule set and text whose parse fails without an error(...) or missing-rule failure",
 "No test checks which of several failures is reported, nor its description or position.",
 [EX,AT,LIB],[("deepest error","parse_or deep_err"),("potential error","parse_repeat, Status::set_potential_error"),("leftover","parse_with_debug")],
 [("potential_error","failure that ended the last repetition","parser::Status")],["descr, pos.n, priority of the returned error"])
add("C06","error(...) and missing rules abort the whole parse",
 "Reaching an error(...) expression or a reference to an undefined rule outside any negative lookahead ends the parse at once with a critical error that carries exactly the given message (or names the missing rule) and the place where it was reached: no later alternative, repetition stop or leftover report replaces it. Inside a negative lookahead it only counts as not matching, and one that is never reached has no effect.",
 ["programs","inputs"],"every rule set with error(...) or undefined references anywhere, every text",
 "One doc-test has one error(...) in one choice; positions under repetition, optional, nested choice, recursion and lookahead are not tried.",
 [EX,AT],[("critical priority","ErrPriority::Critical in parse_or/parse_repeat"),("raise","atom::parse_error, parse_rule_name missing rule")],
 [("priority","normal or critical","parser::Error.priority")],["returned error"])
add("C07","Parsing always returns",
 "For every rule set and every text, parsing returns a result in finite time without panicking or aborting, as long as the rule nesting the text demands fits the stack. Repeating without bound something that can match nothing stops at the first attempt that consumes nothing (kept only if needed for the minimum count), and a rule that calls itself again without consuming anything in between is reported as a critical error.",
 ["programs","inputs"],"every rule set, including ones with nullable repetitions, left recursion, undefined rules, empty sequences and choices; every text",
 "Non-termination cannot be observed by a sampled passing test; no test has a nullable repetition or left recursion.",
 [EX,LIB],[("progress check","parse_repeat"),("left recursion check","parse_rule_name")],
 [("active rules","rules entered at the current position","parser::Status")],["the call returns"])
add("C08","Repetition counts respect their bounds",
 "A repetition with minimum m and maximum M (m <= M, M optional) matches as many consecutive occurrences as it can but never more than M, succeeds exactly when at least m were found, and yields the nodes of exactly the counted occurrences in order. In particular a maximum of zero matches nothing, the optional matches at most one, and failing to reach m reports the failure of the attempt that broke it.",
 ["programs","inputs"],"all bounds m <= M or M absent, all repeated expressions, all texts",
 "Tests use five literal bound pairs on a text of identical letters, never at M = 0, never with a bound in the middle of other matches.",
 [EX],[("bounds","parse_repeat big_min_bound/touch_max_bound"),("construction","RepInfo::new, rep!")],
 [("counter","occurrences so far","parse_repeat acc.1")],["parse result and AST"])
add("C09","Debug parsing differs only by the rule path",
 "Parsing with debug gives the same verdict, tree, error position, description, priority and excerpts as parsing without it. Without debug the error's rule path is empty; with debug it lists, outermost first, the rules entered on the path to the failure: those entered by matches that were kept and those still open, and none from alternatives, attempts or lookaheads that were abandoned.",
 ["programs","inputs"],"every rule set and text",
 "parse_debug is never called by any test.",
 [LIB,PM,EX],[("trace flag","Status::init_debug, push_rule"),("entry","parse_rule_name")],
 [("walking_rules","rules entered so far","parser::Status")],["parse vs parse_debug, Error.parsing_rules"])
add("C10","Rule sets evolve as a map: add replaces, merge keeps",
 "After any history of creating, adding and merging, a rule set holds exactly the rules put in it: adding binds the name to the new expression whatever it was before, merging brings in the other set's rules but keeps the receiver's definition where both define a name, and no other rule changes. Parsing depends only on the bindings current at that moment.",
 ["histories"],"every sequence of new/rules!/add/merge operations, with parses in between",
 "Two doc-tests add or merge one fresh name once; no test redefines a name or merges colliding names.",
 [EX,LIB],[("add","SetOfRules::add"),("merge","SetOfRules::merge"),("rules!","rules! macro")],
 [("rules","name -> expression","SetOfRules.0")],["SetOfRules.0, parse results"])
add("C11","Parsing is a pure function of rules and text",
 "The result of a parse depends only on the rule set and the text: it does not depend on earlier or concurrent parses, on the order in which rules were registered, or on unrelated rules being present, and neither the rule set nor the text is changed by it. Repeating a parse, in any interleaving with others and from any thread, gives the identical tree or error.",
 ["histories","schedules"],"every history of parses over shared rule sets, including from several threads",
 "Each test performs isolated single parses; none repeats or interleaves them.",
 [LIB,EX,PM],[("fresh state per parse","Status::init"),("shared immutable rules","&SetOfRules")],
 [("Status","all parse state, created per call","parser::Status")],["results of repeated parse calls"])
add("C12","PEG text denotes the expression its syntax shows",
 "Rules read from PEG text have exactly the expression the text shows: '/' binds weaker than juxtaposition, which binds weaker than the suffixes * + ? and the prefix !, parentheses group, and choices and sequences keep all their members in written order. A one-member choice or sequence is just that member, * + ? mean at least zero, at least one and at most one, '.' is any character, and a bare name refers to that rule.",
 ["programs"],"every grammar text of the documented syntax, any nesting",
 "Tests check that about fifteen grammars parse some texts; the structure built is never inspected.",
 [PEG,RU],[("grammar of grammars","rules::parse_peg"),("consumer","consume_or, consume_and, consume_rep_or_neg, consume_atom_or_par")],
 None,["the SetOfRules returned by rules_from_peg"])
add("C13","PEG literals and classes denote the characters written",
 "A single-quoted literal denotes exactly the characters between the quotes, backslashes included and possibly none; a double-quoted literal denotes its characters after replacing \\n, \\r, \\t, \\\\, \\\" and \\0xHH (the character with that code), other backslashes being ordinary. A class [...] denotes its listed characters followed by its inclusive ranges, and error(...) carries its literal's denotation as message.",
 ["programs","inputs"],"every literal and class that can be written, over all characters",
 "Tests use alphabetic literals, one hex escape and two classes; no test has a backslash in a single-quoted literal, an empty literal or a mix of escapes.",
 [PEG,RU],[("escapes","consume_literal_esc, consume_esc_char, consume_hex_char"),("plain literal","consume_literal_no_esc"),("class","consume_match, consume_mbetween")],
 None,["Atom::Literal / Match / Error in the returned rules"])
add("C14","Layout and comments never change a grammar's meaning",
 "Grammar texts that differ only in layout -- extra spaces, line breaks of any kind (LF, CR LF or CR), line comments, block comments, blank lines where the syntax allows white space -- denote the same rules. Comment contents, even if they look like rules, quotes or brackets, have no effect, and comment markers inside literals are ordinary characters.",
 ["programs"],"every grammar text and every re-layout of it",
 "One doc-test has two comments; no test compares two layouts of the same grammar.",
 [PEG,RU],[("white space rules","_, _1, _eol, comment in rules::parse_peg"),("pruning","rules_from_peg prune")],
 None,["the SetOfRules returned by rules_from_peg"])
add("C15","Malformed grammar text is rejected with a located error",
 "Reading a grammar never panics or hangs, whatever the text (as long as the nesting it demands fits the stack): it returns rules exactly when the text belongs to the documented grammar-for-grammars, and otherwise an error. For text outside it the error is the parser's, at the position and with the description that matching the text against that grammar gives, an unclosed parenthesis being reported as such; text inside it is never refused by a later stage.",
 ["inputs"],"every text, in particular every small corruption of a valid grammar",
 "Seven fixed bad grammars are tested for is_err() only.",
 [PEG,RU],[("meta grammar","rules::parse_peg"),("pipeline","rules_from_peg"),("error stacking","consuming_rule, push_err!")],
 None,["Ok/Err of rules_from_peg and the parser error inside"])
add("C16","Names, duplicates and modules in grammar text",
 "A rule name is the full dotted text as written (optional leading dot, letters, digits, underscores, later quotes) both where it is defined and where it is referenced. The rule set contains exactly the rules written, including those inside modules at any depth, under their written names; a later definition at the same level replaces an earlier one, while a module's definition never replaces one already made by then in the enclosing level.",
 ["programs","histories"],"every sequence of rules and nested modules in a grammar text, with arbitrary name collisions",
 "No test has a module, a dotted name or a duplicate definition.",
 [PEG,RU,EX],[("grammar consumption","consume_grammar, consume_module"),("names","consume_rule_name"),("collisions","SetOfRules::add/merge")],
 [("rules","rules collected so far","rec_consume_rules_or_modules accumulator")],["the SetOfRules returned by rules_from_peg"])
add("C17","Generated Rust code rebuilds the same rules",
 "For every rule set read from PEG text, the Rust code generated from it compiles inside the rules! macro and builds a rule set equal to the original: same names, same expressions, same literals, classes, bounds and messages, whatever characters they contain. Each rule appears exactly once.",
 ["programs"],"every rule set obtainable from PEG text",
 "One doc-test prints generated code; nothing compiles it or compares it with the source rules.",
 [GC,LIB],[("generation","rust_from_rules, expr2code, atom2code, match_rules2code, repeat2code"),("reading back","rules!, and!, or!, rep!, lit!, ematch!, error!, not!, dot!, ref_rule! macros")],
 None,["text of rust_from_rules, compiled"])
add("C18","The grammar for grammars reproduces itself",
 "The program that prints the parser-for-grammars, reading the built-in grammar of grammars with the built-in parser, prints rules equivalent to the built-in ones: installed in their place as documented they read every grammar text the same way (same rules or same error), and print the same rules again.",
 ["programs","inputs"],"every grammar text, through any number of self-generations",
 "The only doc-test runs the printing function without looking at what it prints.",
 [P2,RU,GC,"src/main.rs"],[("self description","text_peg2code"),("printing","print_rules2parse_peg"),("installed rules","rules::parse_peg")],
 None,["stdout of the dynparser binary; rules_from_peg before and after installing it"])
add("C19","Prune removes exactly the named subtrees",
 "Pruning a tree by a list of names removes every rule node below the root whose name is in the list, together with everything under it, and keeps everything else unchanged and in order. The root itself, value leaves and end-of-file nodes are never removed, and the original tree is untouched.",
 ["inputs"],"every tree and every list of names",
 "One doc-test prunes one five-node tree.",
 [AST],[("prune","Node::prune")],None,["result of prune"])
add("C20","Pass-through splices children of unlisted nodes in place",
 "Passing through all but a list of names replaces every rule node below the root whose name is not in the list by its (likewise processed) children, in place and in order; listed nodes, leaves, end-of-file nodes and the root are kept. No leaf is lost, duplicated or reordered.",
 ["inputs"],"every tree and every list of names",
 "One doc-test on one four-node chain.",
 [AST],[("pass through","Node::pass_through_except")],None,["result of pass_through_except"])
add("C21","Compact merges each run of adjacent values",
 "Compacting replaces, at every level, each maximal run of consecutive value leaves by one leaf holding their concatenation and changes nothing else: rule nodes and end-of-file nodes keep their place and separate runs. Values on either side of a rule node or in different rules are never merged.",
 ["inputs"],"every tree",
 "One doc-test with three leaves in one node.",
 [AST],[("compact","Node::compact")],None,["result of compact"])
add("C22","Flatten is the ordered begin/end walk of the tree",
 "Flattening lists, in document order, a begin marker and an end marker with the rule's name around each rule node's content and each value leaf as itself; end-of-file nodes add nothing. Markers are therefore balanced and properly nested, and the tree without its end-of-file nodes can be rebuilt from the list.",
 ["inputs"],"every tree",
 "One doc-test on one six-node tree.",
 [FL],[("flatten","ast::Node::flatten")],None,["result of flatten"])
add("C23","Tree-walking helpers consume exactly one expected node",
 "Each helper over a list of tree nodes succeeds exactly when the first node is of the kind (and value or name) it asks for, and then returns that node's content and precisely the remaining nodes; on any other first node or an empty list it returns an error and consumes nothing. Peeking and name/value accessors consume nothing, the unique-value helper demands exactly one value node, and the emptiness check succeeds exactly on an empty list.",
 ["histories","inputs"],"every node list and every sequence of helper calls on what the previous ones returned",
 "Doc-tests call each helper on one list, almost always on the success side.",
 [AST],[("helpers","get_nodename_and_nodes, get_node_val, get_nodes_unique_val, consume_val, split_first_nodes, consume_this_value, consume_node_get_subnodes_for_rule_name_is, check_empty_nodes, peek_first_node")],
 [("remaining nodes","slice not yet consumed","returned slices")],["results of the helpers"])
add("C24","Flat-walking helpers consume exactly one expected node",
 "Each helper over a flattened list succeeds exactly when the first node is the begin marker, end marker or value it asks for (with the asked name or text), and then returns its content and precisely the remaining nodes; otherwise, and on an empty list, it returns an error and consumes nothing. Peeking and the name and value accessors look at one node without consuming, begin and end markers being the only nodes with a name and values the only ones with a value.",
 ["histories","inputs"],"every flat node list and every sequence of helper calls",
 "Doc-tests call each helper on one list, on the success side.",
 [FL],[("helpers","consume_node_start_rule_name, consume_node_end_rule_name, split_first_nodes, peek_first_node, get_node_val, consume_this_value, get_nodename, consume_val")],
 [("remaining nodes","slice not yet consumed","returned slices")],["results of the helpers"])
add("C25","Rules written with the macros are exactly the rules written",
 "A rule set written with rules!, lit!, error!, dot!, ematch! (from/to pairs or a vector of pairs), and!, or!, not!, rep! and ref_rule! holds exactly the expressions written: the same nesting, members in the same order (also one or none), the same characters, ranges, bounds (no maximum when none is given), names and messages, whether strings are given as literals, owned strings, references or anything displayed as them. Of several rules with one name the last written counts, and no other rule is there.",
 ["programs"],"every program built from the macros, nested in any way, with any arguments",
 "Tests use each macro a handful of times, check only that one text parses, and never look at what is built.",
 [LIB,EX,AT],[("rules!","rules!, SetOfRules::add"),("expressions","lit!, error!, dot!, ematch!, and!, or!, not!, rep!, ref_rule!"),("construction","MatchRules::init, RepInfo::new, MultiExpr::new")],
 None,["the SetOfRules the macros build"])
add("C26","Grammar errors keep and print their whole history",
 "An error of the grammar reader is a chain: whatever error a description is pushed on becomes, unchanged, what lies under that description, and an error of the parser or of the tree helpers made into one keeps all its fields. It prints as all its descriptions, the last pushed first, followed by what was there in the beginning, joined by ' > ': a plain description as itself, an error of the parser as its debug form inside 'Parser(...)', an error on trees as its debug form inside 'AST(...)'.",
 ["histories","inputs"],"every error of any kind and every sequence of descriptions pushed on it, whatever characters they have",
 "No test pushes a description or looks at a printed grammar error.",
 [PEG,AST],[("push","peg::Error::ipush"),("conversion","From<parser::Error>, From<ast::Error>, ast::error"),("print","Display for peg::Error")],
 [("stacked error","what the description is about","peg::Error::Peg.1")],["the peg::Error value and its to_string()"])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
print(len(P))
