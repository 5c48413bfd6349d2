#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))

TPL="core/src/typed/template/mod.rs"; REP="core/src/typed/template/repetition.rs"; TRA="core/src/typed/traits.rs"
TRK="core/src/typed/tracker.rs"; SEQ="core/src/sequence.rs"; CHO="core/src/choice.rs"; POS="core/src/position.rs"
SPA="core/src/span.rs"; FMT="core/src/formatter.rs"; TOK="core/src/token/mod.rs"; UNI="core/src/typed/unicode.rs"
MET="meta/src/parser.rs"; GRA="meta/src/grammar.pest"; GEN="generator/src/typed/generator.rs"
GET="generator/src/typed/getter.rs"; OUT="generator/src/typed/output.rs"; MOD="generator/src/typed/module.rs"; COM="generator/src/common.rs"
ATT="generator/src/typed/attr.rs"

p("C01","A parser recognises exactly the PEG language of its grammar",
  "For every grammar and every input, matching a rule against a prefix of the input succeeds exactly when the grammar's parsing-expression semantics says so and consumes exactly the text those semantics prescribe: ordered choice commits to the first alternative that matches, repetitions are greedy and respect their inclusive lower and upper bounds, predicates consume nothing, literals, ranges and built-ins match exactly their text, and a failed attempt leaves no trace on later matching. Matching terminates without panicking for every grammar without left recursion or unbounded repetition of empty matches.",
  ["programs","inputs"],"every grammar (every composition of every operator) x every input string",
  "Tests run a dozen hand-written grammars on a few inputs each; the claim is about every composition of operators and every input.",
  [TPL,REP,SEQ,CHO,TRA,GEN],
  [("terminal and predicate nodes",TPL),("bounded repetition loop",REP),("sequence/choice macros",SEQ),("optional node","core/src/typed/traits.rs impl TypedNode for Option"),("expression to type translation",GEN+" process_expr")],
  ["try_parse_partial / check_partial of generated rules"])
p("C02","Checking and parsing always agree",
  "For every grammar, input and initial parsing stack, validating an input without building a tree gives the same verdict, the same end position, the same resulting stack and the same error report as parsing it, for whole-input and for prefix matching alike.",
  ["programs","inputs"],"every grammar x every input x every initial stack, on both the check and the parse path",
  "The two paths are written out separately for every node kind and the tests rarely call both on the same input.",
  [TPL,REP,SEQ,CHO,TRA,"core/src/lib.rs"],
  [("two hand-written bodies per node",TPL),("trivia is always matched through the check path",SEQ)],
  ["try_parse vs check, try_parse_partial vs check_partial, *_with with an explicit stack and tracker"])
p("C03","The match stack is a LIFO that backtracking always restores",
  "Push records the text matched by its operand, peek matches the top entry, pop matches and removes it, drop removes it without matching, the match-all forms go from top to bottom, and slices match the selected entries from bottom to top with negative indices counted from the top and fail when a bound lies outside the stack. Whenever an alternative, optional, repetition iteration or predicate is abandoned (and after every predicate, even a successful one) the stack is exactly what it was before that attempt, and after the match the caller's own saved states are still intact.",
  ["programs","inputs","histories"],"every grammar built from stack and backtracking operators x every input x every initial stack content and nesting of saved states",
  "Tests exercise single stack operations; restoration after nested failures is a property of whole operation histories.",
  [TPL,REP,CHO,TRA],
  [("snapshot/restore/clear_snapshot around every backtracking point",CHO),("restore_on_none",TPL),("stack_slice / constrain_idxs",TPL)],
  ["stack passed to try_parse_with_partial / check_with_partial, before and after"],
  [("stack","entries pushed so far plus saved lengths","pest2::Stack")])
p("C04","Whole-input parsing is prefix parsing plus end of input",
  "Parsing a whole input succeeds exactly when prefix parsing of the same input succeeds and stops at the end of the input, and then yields the same tree; when text is left over it fails, and the report names the end of input as expected there unless matching had already got further than that point. Parsing is a pure function: repeating it gives the same result.",
  ["programs","inputs"],"every grammar x every input",
  "Only a few accepted and rejected inputs are sampled.",
  [TRA,TRK],[("try_parse_with / check_with followed by end-of-input",TRA)],["try_parse, try_parse_partial, check, check_partial"])
p("C05","The typed tree mirrors the derivation and its spans are exact",
  "On success the typed tree has exactly the shape of the derivation: each sequence field, chosen alternative, optional and repetition element holds what that sub-expression matched, a repetition holds one element per iteration, matched characters and case-insensitive text are those of the input, and every rule node's span starts and ends exactly where that rule started and stopped. Consequently the spans of rule nodes nest, are ordered, lie on character boundaries, and identify the text that was matched.",
  ["programs","inputs"],"every grammar x every accepted input",
  "Tests look at a few spans and fields of sample trees.",
  [TPL,REP,SEQ,CHO,TRA,GEN],[("rule struct parse macro","core/src/typed/traits.rs full_rule_struct"),("field construction",SEQ),("variant construction",CHO)],["public fields and accessors of the typed nodes"])
p("C06","The pair tree is the non-silent projection of the typed tree",
  "For every accepted input, the pair tree of a rule contains one pair per visible rule node of the derivation, in document order and correctly nested, with that rule's identity and the same start and end offsets as the typed node: silent rules contribute nothing and hide what is inside them, predicates contribute nothing, pushed, optional, repeated and chosen content contributes exactly what was matched, and rules of imported modules appear under the importing grammar's rule names. Converting, listing children and printing a pair tree are consistent with it.",
  ["programs","inputs"],"every grammar with named, silent, generic and imported rules x every accepted input",
  "Tests compare a few printed trees.",
  [TRA,TOK,SEQ,CHO,REP,GEN],[("PairContainer/PairTree impls",TRA),("generated impls per rule",GEN+" create_rule")],["as_pair_tree, for_each_child_pair, vec_children_pairs, for_self_or_for_each_child_pair"])
p("C07","Generated accessors return exactly the referenced sub-nodes",
  "For every rule and every accepted input, the accessor generated for a referenced rule (or generic parameter) returns references to exactly the occurrences of it in that rule's body, in order: the node itself when it is always present, an optional when it lies in an optional or alternative, a vector with one element per iteration when repeated, and a tuple with one component per occurrence when it is mentioned several times. Nothing inside a negative predicate is reachable and nothing else is returned.",
  ["programs","inputs"],"every rule body (all nestings of sequence, choice, optional, repetition, predicate, push, generic call) x every accepted input",
  "A few accessors of sample grammars are called; the shapes come from arbitrary nestings.",
  [GET,GEN],[("GetterByName edges and merging",GET),("getter construction per operator",GEN+" process_expr")],["accessor methods of generated rule structs"])
p("C08","Error reports point at the furthest failure and name the right rules",
  "When parsing fails, the report is located at the furthest position at which a rule that refers to no other rule on that attempt (or the end of input, or a stack access) was tried, with the correct line and column. It lists exactly the rules that failed there as expected and the rules that matched there inside a negative predicate as unexpected, without duplicates, each group attributed to the closest enclosing rule that started at a different position, plus any invalid stack access made there; nothing tried at an earlier position is mentioned.",
  ["programs","inputs"],"every grammar (nested rules, predicates, stack access) x every rejected input, including multi-line and multi-byte inputs",
  "Tests compare four fixed messages.",
  [TRK,TRA,TPL],[("furthest-position bookkeeping",TRK+" prepare/record"),("polarity",TRK+" positive_during/negative_during"),("message rendering",TRK+" collect_to_message")],["Err value of try_parse/check: line_col, location, message; Tracker::finish"],
  [("tracker","furthest position, polarity, attempts by enclosing rule, rule call stack",TRK)])
p("C09","Positions are exact and text primitives never leave a character boundary",
  "A position can be created exactly at the character boundaries of the input; its line number is one more than the number of line feeds before it, its column one more than the number of characters since the last of those, and its line is the text between the surrounding line feeds (including the trailing one). Matching a literal, a case-insensitive literal, a range, any character, a fixed number of characters, a line break, the start or the end succeeds exactly on matching text, advances by exactly the matched bytes, and leaves the position unchanged on failure.",
  ["inputs"],"every string (multi-byte characters, carriage returns, line feeds, empty) x every offset x every literal/range/count",
  "Tests check a handful of strings and offsets.",
  [POS,TPL],[("Position methods",POS),("leaf nodes",TPL)],["Position::new/line_col/line_of/cmp/span and the leaf nodes"])
p("C10","Source snippets show the right lines and mark the right columns",
  "Displaying a position or a span of any input never panics and shows, with correct line numbers, the line containing the position or the lines covered by the span (first, second, second to last and last line, with an ellipsis or the middle line between), with control characters made visible. The markers stand under exactly the marked characters measured in display columns (a caret for a position, one caret per column for a one-line span, a v above the first and a caret below the last character of a multi-line span), and user-supplied formatters are applied to exactly the marked text, the markers and the numbers; when the output or a formatter fails, so does the display.",
  ["inputs"],"every string x every position and span x plain and custom formatters",
  "Thirteen fixed snippets are compared.",
  [FMT,POS,SPA],[("display_span / display_position",FMT)],["Display and display() of Position and Span"])
p("C11","Grammar text is read with the documented structure",
  "Every grammar text is either rejected with an error (never a crash or hang) or read into the unique structure given by the grammar syntax: postfix operators bind tighter than prefix ones, those tighter than sequencing, sequencing tighter than choice, infix operators associate to the right, parentheses group, trivia marks go with the operator they are written on, and comments, white space and layout do not matter. Rule names, arguments, silence, documentation, bounds, slices, paths, imports and the source positions of rules and of their terminals are recorded exactly as written.",
  ["inputs"],"every token string up to a length and every grammar tree up to a size, under every layout",
  "Tests parse a few dozen fixed texts.",
  [MET,GRA],[("pest grammar of grammars",GRA),("Pratt parser and tree construction",MET)],["pest3_meta::parser::parse: rules, names, args, expr, span, docs"])
p("C12","Literals denote exactly the characters written",
  "The text of a string, raw string, case-insensitive string or character range in a grammar denotes exactly the characters written, with every escape sequence replaced by the character it stands for, and malformed or out-of-range escapes, over-long numbers and void or zero repetition bounds are rejected with an error rather than misread or crashing. A parser generated from such a literal matches exactly that text.",
  ["inputs"],"every literal body up to a length over an alphabet of plain, quote, backslash, escape, brace, pound and multi-byte characters; every character code in every escape form",
  "Tests contain a handful of literals.",
  [MET,GRA],[("unescape",MET),("raw string and range reading",MET+" parse_raw_string, parse_char_range")],["ParseExpr values; generated parsers"])
p("C13","Ill-formed grammars are rejected and names resolve to one definition",
  "Generating a parser from a grammar that uses an undefined rule, module or built-in, defines a rule twice, calls a rule with the wrong number of arguments, slices something that cannot be sliced, or uses trivia without defining it (a silent rule with arguments counts where it is expanded), defines trivia or imports under one name twice, or expands a silent rule with arguments without end, fails with an error, while every grammar without such a mistake is accepted, compiles, and connects every reference to the definition it names, wherever definitions are placed.",
  ["programs"],"every small grammar over a set of names with all combinations of definitions, references, argument counts, slices and trivia uses",
  "Tests only contain well-formed grammars plus a few panics.",
  [MOD,GEN,COM],[("module system insertion and resolution",MOD),("trivia requirement",GEN+" collect_used_rule")],["derive entry point: panic (compile error) or generated code"])
p("C14","Trivia is matched exactly where the grammar asks for it",
  "Between the parts of a sequence and between the iterations of a repetition, nothing is skipped for the plain operator, the optional-trivia rule of the module the expression is written in is matched for the tilde operator, and its mandatory-trivia rule (which must match) for the caret operator; never before the first or after the last part or iteration, and never inside anything else. Trivia consumed for an iteration that then fails is given back, and trivia produces neither tree fields nor pairs.",
  ["programs","inputs"],"every combination of trivia operators in sequences and repetitions of every arity x every trivia definition x every input",
  "Tests use one or two trivia definitions on single inputs.",
  [SEQ,REP,GEN,OUT],[("per-field trivia parameter",SEQ),("trivia between iterations",REP+" try_parse_unit/check_unit"),("trivia selection",GEN+" embed_trivia, get_trivia"),("module-level trivia aliases",OUT)],["parse results of generated rules"])
p("C15","Meta-rules and silent meta-rules mean substitution",
  "Calling a rule with arguments matches, and exposes, exactly what its body would with every parameter simultaneously replaced by the corresponding argument expression; a silent rule with arguments is expanded in place in the caller, including repeated parameters, nested calls and arguments that mention names equal to parameters.",
  ["programs","inputs"],"every small set of meta-rules and calls (nested, repeated, shadowing) x every input",
  "Tests use a few meta-rules on a few inputs.",
  [GEN,MOD,MET],[("generic structs",GEN+" create_rule"),("silent inlining",GEN+" inline_silent_rules_with_args"),("substitution",MET+" ParseExpr::replace")],["parse results, pair trees and accessors of callers"])
p("C16","Imported grammars behave as if written in their own file, once",
  "Importing a grammar file makes its rules available under the import's name with the meaning they have in their own file, including its own trivia, its own imports and generic rules, no matter how many times or along how many paths it is imported; each imported file's location is found relative to the importing file; a grammar attribute names a file relative to the crate's root, or else to its src directory, and several sources make one grammar in their order; the derived program depends on every file that was read, so that it is built again when one changes; and rules found through any import path are interchangeable with the original in what they match and report.",
  ["programs","inputs","configurations"],"every small directed acyclic graph of grammar files x aliases x references x inputs",
  "Tests import two fixed directories.",
  [MET,MOD,GEN,COM],[("file resolution and cache",MET+" _parse"),("module system",MOD),("dependency list",COM+" generate_include"),("rule enum conversion",COM+" generate_rule_enum")],["module tree of parse(); generated code; parse results"])
p("C17","Built-in character classes match exactly their characters",
  "Every built-in character rule (any, ASCII classes, new line, and every Unicode property offered) matches a single character exactly when that character belongs to the class, consumes exactly that character and records it, and fails at the end of input; every property name the generator accepts exists and means that property.",
  ["inputs"],"every Unicode scalar value x every built-in class",
  "Tests try a few characters.",
  [UNI,"core/src/lib.rs",TPL,MOD],[("unicode! macro",'core/src/lib.rs'),("class aliases",TPL),("built-in name table",MOD)],["try_parse/check of the class nodes"])
p("C18","Case-insensitive literals fold ASCII only and record the input text",
  "A case-insensitive literal matches exactly the input texts that equal it after folding ASCII letters, of the same byte length, never cutting a character in two, and the node records the text as it stands in the input.",
  ["inputs"],"every literal and every input over an alphabet with upper/lower case, non-letters, ASCII neighbours of letters and multi-byte characters",
  "One or two literals are tested.",
  [POS,TPL],[("match_insensitive",POS),("Insens node",TPL)],["parse and check of insensitive literals"])
p("C19","Wide sequences and choices behave like narrow ones",
  "A sequence or choice of any width, including widths beyond the predefined ones, behaves exactly like the nested binary form: parts are matched left to right, each with the trivia written before it, alternatives are tried in order with the stack restored in between, and each field, variant accessor and tuple position returns the part with that index.",
  ["programs","inputs"],"every width from 2 to beyond 16 x every outcome pattern of the parts (success/failure, with or without stack effects) x every trivia pattern with few deviations",
  "Only a few widths occur in test grammars.",
  [SEQ,CHO,OUT],[("macros instantiated per width",SEQ),("generated wider types",OUT+" Tracker::collect")],["Sequence*/Choice* fields, as_tuple, into_tuple, choice_i accessors"])
p("C20","Parsing that cannot fail agrees with ordinary parsing",
  "For nodes that can never fail (empty, and repetitions without a lower bound) the infallible parsing entry points return the same end position, tree and stack effect as ordinary prefix parsing of the same input.",
  ["programs","inputs"],"every repetition body x bound x trivia x input x initial stack",
  "The infallible entry points are hardly tested and are separate code.",
  [REP,TPL,TRA],[("NeverFailedTypedNode impls",REP)],["parse_with_partial / parse_partial vs try_parse_with_partial"])
p("C21","Derive options and layout change the interface, never the language",
  "Splitting a grammar over several sources, giving it inline or as a file, renaming the rules module, boxing rules only where needed, or omitting pairs or accessors changes only the shape of the generated interface: the same inputs are accepted with the same spans and errors, each option has its documented effect, and generation is deterministic.",
  ["configurations","programs","inputs"],"every combination of derive options x sample of small grammars (including imports and recursion) x every input",
  "One option is tested on one grammar.",
  [ATT,GEN,OUT,COM,MOD,"derive/src/lib.rs"],[("attribute reading",ATT),("boxing decision",GEN+" collect_reachability")],["generated code compiles; parse results"])
p("C22","Spans select exactly their text and lines",
  "A span can be created exactly for ordered character boundaries; its text, ends, sub-spans and merged spans are exact, two spans merge exactly when they overlap or touch, and iterating over its lines yields, in order and once each, exactly the lines of the input that the span covers at least partly. Equality, hashing and ordering of positions and spans are consistent with their offsets in the same input.",
  ["inputs"],"every string x every pair of offsets x every sub-range x every pair of spans",
  "A few spans are tested.",
  [SPA,POS],[("Span methods",SPA),("line iterators",SPA)],["Span::new/get/lines/lines_span/split/merge_spans"])
p("C23","Grammar documentation reaches the generated interface and nothing else",
  "Every documentation line of a grammar file documents the rule enumeration generated for that file, and every documentation line of a rule documents that rule's variant there, with exactly the text written (white space around it aside) and in order, whatever other rules, comments, imports or further sources surround it; a rule without documentation has none. Nothing else of the generated program depends on documentation.",
  ["programs"],"every assignment of documentation texts (empty, quotes, escapes, comment marks, non-ASCII) to files, rules of every kind and trivia, over one or two sources and an imported file",
  "Tests look at single comments only.",
  [COM,MET,GEN],[("doc attributes of the enumeration",COM+" generate_rule_enum"),("reading of doc comments",MET+" parse_grammar_doc, parse_rule_doc"),("joining of sources",MET+" FromIterator for GrammarModule")],["doc attributes in the generated program"])
p("C24","Typed trees are values",
  "A node of a typed tree, of a library combinator or of a generated rule, can be copied, compared, hashed (library nodes) and printed like the value it stands for: a clone is equal to its original and has the same content, span and pairs; two nodes obtained from one input by one expression are equal exactly when they record the same structure, texts and spans; equal nodes have equal hashes, are printed alike and yield equal pairs; and pair trees are equal exactly when their rules, offsets and children are.",
  ["programs","inputs"],"every small expression over every combinator x every pair of nodes it gives anywhere in an input, on several stacks; sequences, choices and repetitions of every width up to 20 that differ in exactly one place",
  "Tests compare a handful of nodes with themselves.",
  [TPL,REP,SEQ,CHO,GEN,"core/src/token/mod.rs"],[("equality, hashing and cloning of repetitions",REP),("derived traits of nodes",TPL),("generated structs",GEN+" rule struct")],["Clone, PartialEq, Eq, Hash and Debug of nodes and pairs"])
p("C25","Errors in a grammar point at the construct at fault",
  "A grammar text that is refused is refused with an error that points at what is wrong: where the text cannot be read on, at the first token that fits nothing (in a literal, at the first character that does not fit); where the syntax is right but a construct means nothing, at exactly that construct: the whole literal whose escape names no character, that one character of a range, the number that is too large, the bounds of a repetition that are void, the path of an import that has arguments, whose file is missing or that leads back to a file still being read. With several faults it is one of them. The line and column are those of the place; an error in an imported file names that file, and the derive reports file, place and line.",
  ["inputs"],"every token string of bounded length that is no grammar, judged by a reference reader; every kind of fault in every nest of two hosts in every kind of rule, pairs of faults, faults in every file of several import graphs",
  "Tests look at a few messages, each with one mistake in a small text.",
  [MET,"meta/src/grammar.pest",GEN],[("checks of literals, numbers and bounds",MET+" parse_string, parse_insensitive_string, parse_char_range, pair_to, parse_bounded_repeat"),("imports",MET+" _parse"),("report of the derive",GEN+" derive_typed_parser")],["location, line_col and path of the error of parser::parse","message of the derive"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: print("written",len(P))
