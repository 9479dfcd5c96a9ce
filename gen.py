#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json for the check modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

PROPS = [
 ("C01", "A rule matches exactly the speech in the language of its expansion",
  "A rule (or a grammar's rules) reports a match for a speech string if and only if "
  "the whole string, word by word, is in the language its expansion denotes: literals "
  "are whole words, sequences are in order, alternatives with zero weight and removed "
  "parts never match, optional, repeated and referenced parts, <NULL> and <VOID> mean "
  "what JSGF says, and any whitespace separates words. A rule never matches speech "
  "outside its language; it matches all speech of its language unless the rule is "
  "ambiguous (documented as unsupported: a part could also continue with a word that "
  "may follow it).",
  ["inputs", "programs"],
  "every expansion tree up to 6 nodes (and worlds of rules that reference each other), "
  "every speech string up to 3-6 words",
  "The tests match some dozen hand-written rules; the claim is about all ways to nest "
  "the 9 expansion types and all speech, where the defects are in combinations "
  "(repeats of nullable parts, literals that are prefixes of words, optional parts at "
  "the end).",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py"],
  [("matcher elements", "jsgf/expansions.py: _make_matcher_element() of every type"),
   ("Rule.matches", "jsgf/rules.py"), ("find_matching_rules", "jsgf/grammars.py")],
  "bounded exhaustive enumeration of trees and speech, executed on the real matcher "
  "against an independent language model"),
 ("C02", "Match data describes how the speech was matched",
  "After a successful match, the current match and the matching slice of every part "
  "of the rule (and a repeat's number of repetitions and its per-repetition matches "
  "and slices) are those of one derivation of the speech by the rule: slices cut the "
  "speech at exactly the words the part matched, current matches are the text of those "
  "words, and parts that were not used have no data. After a failed match nothing has "
  "match data.",
  ["inputs", "programs"],
  "every tree up to the node bound and every speech string up to a length, all parts "
  "of the tree; all derivations are enumerated",
  "Tests check the values of a few parts of a few rules; which part receives which "
  "words depends on backtracking over every combination of nested types.",
  ["jsgf/expansions.py", "jsgf/rules.py"],
  [("parse actions", "jsgf/expansions.py: _parse_action, current_match, "
    "matching_slice"), ("repetition data", "jsgf/expansions.py: Repeat")],
  "bounded exhaustive enumeration; match data compared with the set of all "
  "derivations enumerated by a reference model"),
 ("C03", "The outcome of a match does not depend on what was matched before",
  "Whatever was matched (completely, partially, or not at all, with rules enabled or "
  "disabled, on this rule or on rules that share parts with it) before, matching a "
  "speech string gives the same result, the same match data and the same matched tags "
  "as on newly made rules.",
  ["histories", "programs"],
  "every sequence of matching operations up to a depth on every tree up to the node "
  "bound and on rules that reference each other",
  "Tests run one or two matches in a row on fixed rules; leftovers of a previous "
  "attempt only show for particular sequences of operations.",
  ["jsgf/expansions.py", "jsgf/rules.py"],
  [("reset of match data", "jsgf/expansions.py: reset_for_new_match"),
   ("Rule.matches / find_matching_part", "jsgf/rules.py")],
  "explicit-state exploration of operation sequences on the real code, compared with "
  "fresh objects"),
 ("C04", "Modifications take effect, whatever was matched before",
  "After any sequence of modifications (changing literals, children, weights, tags, "
  "expansions of rules, references, replacing rules in grammars), with or without "
  "matching in between, rules match and compile exactly like rules newly made in the "
  "final form.",
  ["histories", "programs"],
  "every sequence of up to 2 edits (3 for some) at every place of every tree up to the "
  "node bound, with every way of matching before the edits",
  "Matchers are cached in every node; a stale cache only shows if a match preceded a "
  "specific edit at a specific place, and the tests try only a few of those.",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py"],
  [("invalidate_matcher", "jsgf/expansions.py"),
   ("setters of children, text, weights", "jsgf/expansions.py"),
   ("Rule.expansion", "jsgf/rules.py")],
  "explicit-state exploration of edit histories on the real code, compared with "
  "fresh objects and the language model"),
 ("C05", "Tags are reported where they are set and where they matched",
  "A rule's tags are exactly those set on the parts of its expansion and of the rules "
  "it references; its matched tags after a match are, in order of appearance, exactly "
  "the tags of the parts that matched words. has_tag, get_tags_matching and finding "
  "tagged rules of a grammar agree with that.",
  ["inputs", "programs"],
  "every tree up to the node bound with every way of tagging, every speech string",
  "Tests set tags on a few rules; repeated, nested and referenced tagged parts only "
  "fail in combinations.",
  ["jsgf/rules.py", "jsgf/expansions.py", "jsgf/grammars.py"],
  [("tags / matched_tags / get_tags_matching", "jsgf/rules.py"),
   ("find_tagged_rules", "jsgf/grammars.py")],
  "bounded exhaustive enumeration of tagged trees and speech against the derivations "
  "of a reference model"),
 ("C06", "find_matching_part returns the first matching part of the speech",
  "Finding the matching part of speech returns the text, as it is in the speech, of "
  "the first and (for unambiguous rules) longest group of words that is in the rule's "
  "language, or nothing if there is none; inactive rules find nothing. A part always "
  "starts and ends at whole words and the match data describes that part only.",
  ["inputs", "programs"],
  "every tree up to the node bound, every speech string up to a length with foreign "
  "words, case and whitespace forms",
  "Tests use three or four sentences; where a part starts and ends depends on failed "
  "attempts at every earlier word.",
  ["jsgf/rules.py", "jsgf/expansions.py"],
  [("find_matching_part", "jsgf/rules.py")],
  "bounded exhaustive enumeration of trees and speech against the language model"),
 ("C07", "Case sensitivity applies to what it is set on and everything below",
  "Setting case sensitivity on a literal, a rule or a grammar overrides it for that "
  "literal, for every literal of the rule and of the rules it references, or for every "
  "rule in the grammar and every rule that is added to it later. It changes nothing "
  "else, later settings override earlier ones, and the following matches and compiled "
  "texts use it, in any order of settings, additions and matches.",
  ["histories", "configurations"],
  "every sequence of settings and additions up to a depth on grammars with rules that "
  "reference each other",
  "Tests set one flag once; overriding, adding rules afterwards and cached matchers "
  "only show in sequences.",
  ["jsgf/grammars.py", "jsgf/rules.py", "jsgf/expansions.py"],
  [("case_sensitive setters", "jsgf/grammars.py, jsgf/rules.py, jsgf/expansions.py: "
    "Literal")],
  "explicit-state exploration of setting sequences against a flag-per-literal model"),
 ("C08", "Compiled text means the same thing when it is parsed again",
  "Parsing the compiled text of an expansion, a rule or a grammar gives back the same "
  "thing up to redundant grouping: the same structure and language, the same tags on "
  "the same words, the same weights, names, visibility, header values, imports and "
  "order of rules.",
  ["inputs", "programs"],
  "every tree up to the node bound, every way to tag and weight them, all tag texts "
  "and names up to a length over special characters",
  "Tests compile and parse separately on fixed strings; precedence and escaping fail "
  "only for particular nestings and characters.",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py", "jsgf/parser.py"],
  [("compile() of every type", "jsgf/expansions.py"),
   ("parser rules and post-processing", "jsgf/parser.py")],
  "bounded exhaustive enumeration of trees and texts; compiled, parsed and compared in "
  "a normal form"),
 ("C09", "The parser follows the JSGF syntax and precedence",
  "Every rule expansion text is either rejected or parsed into the expansion that "
  "JSGF's documented syntax gives it: unary operators and tags bind tighter than "
  "sequences, sequences tighter than alternatives, weights belong to whole "
  "alternatives, groupings group, and comments between tokens make no difference.",
  ["inputs"],
  "every string of up to 4 (5) of 16 tokens and of up to 6 (7) tokens of smaller "
  "sets, comments at every place",
  "The parser builds the tree in several post-processing passes; tests cover some "
  "dozen strings out of the combinations of operators, weights, tags and groups.",
  ["jsgf/parser.py"],
  [("get_exp_parser and post-processing", "jsgf/parser.py")],
  "bounded exhaustive enumeration of token strings, compared with an independent "
  "recursive-descent parser"),
 ("C10", "Malformed grammars are rejected with the documented errors only",
  "Any text given to the grammar, rule, expansion and file parsers is either parsed or "
  "rejected with the documented parse or grammar errors, and only texts with a header "
  "with a version number, a declaration, imports and rules, in this order, are parsed "
  "as grammars; whether a text is a valid "
  "grammar is always answered with true or false, consistent with whether it parses, "
  "and parsing is deterministic and leaves no trace in later parses.",
  ["inputs", "fault_sequences"],
  "every 1-character edit, truncation, deletion and repetition of sample grammars, "
  "pairs of edits and all short token strings",
  "Tests try a handful of invalid strings; the claim is about every malformed text.",
  ["jsgf/parser.py", "jsgf/errors.py"],
  [("parse_* functions and valid_grammar", "jsgf/parser.py")],
  "exhaustive enumeration of edits (faults) of texts up to a bound, executed on the "
  "real parser"),
 ("C11", "Compiling has the documented result and no side effects",
  "A compiled grammar consists of its header, its imports in order and its active "
  "rules in order (for a root grammar: one public root rule of the visible active "
  "rules, all others private), files get the same text, and the text depends only on "
  "the current state. Compiling, also when it fails with an error at any point, "
  "changes nothing: neither visibility, nor activity, nor rules, nor later "
  "compilations.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of up to 3 (4) changes to rules of several grammars, every way to "
  "compile, and an error at every point at which compiling a rule can fail",
  "Tests compile fixed grammars once; side effects only show in later operations and "
  "after errors in the middle.",
  ["jsgf/grammars.py", "jsgf/rules.py", "jsgf/expansions.py"],
  [("compile / compile_as_root_grammar / compile_to_file", "jsgf/grammars.py")],
  "explicit-state exploration of histories plus fault injection at every compile step "
  "of the real code"),
 ("C12", "Comparisons and hash values are consistent",
  "Expansions, rules and imports are equal exactly if they have the same type, content "
  "and order (alternatives and grammar rules: in any order, with the same weights; "
  "tags don't count), equality is symmetric and the negation of inequality, equal "
  "objects have equal hash values, and comparing with anything else is never an error. "
  "That also holds after modifications.",
  ["inputs", "histories"],
  "all pairs of trees, rules, imports and grammars of a universe; all sequences of up "
  "to 3 (4) edits",
  "Tests compare single pairs; consistency is a claim about all pairs and about "
  "objects that were modified.",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py", "jsgf/references.py"],
  [("__eq__ / __hash__", "jsgf/expansions.py, jsgf/rules.py, jsgf/grammars.py, "
    "jsgf/references.py")],
  "exhaustive enumeration of pairs and edit histories against a canonical-key model"),
 ("C13", "Copies equal what was copied and are independent of it",
  "A copy (copy.copy, copy.deepcopy or the copy method) of an expansion, rule or "
  "grammar has the same structure, text, tags, weights, case sensitivity, names and "
  "language as the original, is not part of the original's tree and has no match data. "
  "After a deep copy, no edit or match of one of the two changes the other; the parts "
  "of a deep copied rule or grammar belong to the copies.",
  ["inputs", "histories"],
  "all copies of all parts of all trees up to a node bound before and after matching, "
  "and every single edit of the copy or the original",
  "Tests copy a few expansions and compare them; aliasing only shows when one of the "
  "two is changed in a particular way afterwards.",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py"],
  [("__copy__ / __deepcopy__ / copy", "jsgf/expansions.py, jsgf/rules.py, "
    "jsgf/references.py")],
  "exhaustive enumeration of trees, ways to copy and edits, compared with the "
  "specification the tree was built from"),
 ("C14", "Pickled objects come back the same",
  "Expansions, rules, imports and grammars survive pickling with every protocol and "
  "from every node of a tree: what is unpickled has the same structure, relations, "
  "tags, weights, case sensitivity, activity and match data as the original, compares "
  "equal, is separate from it and behaves the same under further matching, compiling "
  "and edits, also in another process.",
  ["inputs", "histories", "configurations"],
  "all trees up to a node bound, all nodes, all protocols, histories of matching, and "
  "all single edits afterwards",
  "Tests pickle single objects and compare them with ==, which sees neither match data "
  "nor relations nor stale caches that only matter later.",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py"],
  [("__getstate__ / __setstate__ / __reduce__", "jsgf/expansions.py, jsgf/rules.py")],
  "exhaustive enumeration of trees, nodes, protocols and edits; differential against "
  "the original object"),
 ("C15", "A grammar is an ordered collection of uniquely named rules",
  "Adding, removing, enabling, disabling, renaming and looking up rules and adding and "
  "removing imports acts on grammars and root grammars as on an ordered collection of "
  "uniquely named rules: order, names, visible rules, matching rules and compiled text "
  "are those of the collection after every history. An operation that is refused "
  "(other rule with the same name, unknown rule, rule that is still referenced, wrong "
  "type) raises the documented GrammarError or TypeError and changes nothing.",
  ["histories"],
  "all reachable states of the model up to a depth with every operation in every "
  "state, and every sequence of 3 (4) operations",
  "Tests run single operations on fresh grammars; the claim is about every history.",
  ["jsgf/grammars.py", "jsgf/rules.py"],
  [("add_rule / remove_rule / enable_rule / disable_rule / get_rule", 
    "jsgf/grammars.py"), ("RootGrammar", "jsgf/grammars.py"),
   ("dependent_rules / grammar / enable / disable", "jsgf/rules.py")],
  "explicit-state breadth-first search of a model, every transition replayed on the "
  "real grammar"),
 ("C16", "Exactly the documented names are valid",
  "Rules, grammars, imports and references accept exactly the documented names (one "
  "word of Unicode letters, digits and the documented special characters; dots only "
  "where names may be qualified; wildcards only in imports; NULL and VOID reserved), "
  "both when objects are created and when names are set; anything else raises the "
  "documented error and leaves the old name.",
  ["inputs"],
  "every string up to 2-5 (7) characters over alphabets of all relevant characters",
  "Tests try a few valid and invalid names; the claim is about every string.",
  ["jsgf/references.py", "jsgf/grammars.py", "jsgf/rules.py", "jsgf/expansions.py"],
  [("name grammars", "jsgf/references.py"), ("valid", "jsgf/grammars.py, jsgf/rules.py")],
  "exhaustive enumeration of strings against an independent description of names"),
 ("C17", "References and imports find exactly the rules they name",
  "A name used in a grammar (get_rule or a reference) finds the local rule of that "
  "name, else the only imported public rule with that (optionally qualified) name, else "
  "the public rule of that fully-qualified name; if there is none, or several, a "
  "documented error is raised. Imports and lookups read grammar files by name and "
  "file extension, give the same objects each time, also for cyclic imports, and the "
  "result depends only on the current imports and rules, never on earlier lookups, "
  "failed imports or removed imports.",
  ["histories", "fault_sequences", "configurations"],
  "all sets of up to 2 (3) imports of a world of 7 grammar files, all of 36 names in "
  "2 orders, all histories of 2 (3) changes of imports, missing and malformed files",
  "Tests import a few rules into fresh grammars; stale or colliding entries of the "
  "import environment only show in particular histories.",
  ["jsgf/grammars.py", "jsgf/references.py", "jsgf/expansions.py"],
  [("Import.resolve / resolve_imports / get_rule_from_name", "jsgf/grammars.py"),
   ("NamedRuleRef.referenced_rule", "jsgf/expansions.py")],
  "exhaustive enumeration of import histories and lookups on real files, with faults, "
  "against an independent resolver"),
 ("C18", "Generated strings are exactly those the rule can match",
  "Whatever the random choices are, generate() of a rule without <VOID> returns a string "
  "of the rule's language, with single spaces and with no repetition beyond those chosen; "
  "every string (repeats: of one or more, or zero or more, repetitions) can be generated, "
  "and alternatives are chosen with equal chances or in proportion to their weights, "
  "never with weight zero. Unusable weights raise a GrammarError, disabled rules generate "
  "an empty string, and generating changes nothing.",
  ["inputs", "schedules"],
  "every tree up to a node bound, weights from a small set, and every sequence of values "
  "returned by the random number generator (grid of values with both ends)",
  "Tests fix a few random numbers for a few expansions; a generated string is only wrong "
  "for particular combinations of nested choices and boundary values.",
  ["jsgf/expansions.py", "jsgf/rules.py"],
  [("generate of every type", "jsgf/expansions.py"), ("Rule.generate", "jsgf/rules.py")],
  "stateless exploration of all executions under a controlled random module, with exact "
  "path probabilities"),
 ("C19", "Dictation matches one or more words up to what can come next",
  "A Dictation matches one or more words: it stops before the first word (whole words, "
  "with the literal's case sensitivity) of any literal that can come next, also in a next "
  "repetition and, in joined trees, after references, and it takes only one word if other "
  "dictation can come next. Rules with dictation match only speech of their language and "
  "all such speech whose dictated words the rule doesn't use elsewhere; match data and "
  "tags describe that match, whatever was matched before, also for copied and unpickled "
  "rules, and dictation compiles to <DICTATION>.",
  ["inputs", "histories"],
  "every tree with dictation up to a node bound, all pairs of 15 parts around dictation, "
  "worlds of up to 3 rules joined or not; every speech string up to a length, twice",
  "Tests match a dozen hand-written rules; which words dictation takes depends on every "
  "combination of parts that can follow it.",
  ["jsgf/ext/expansions.py", "jsgf/expansions.py"],
  [("Dictation._make_matcher_element and next literals", "jsgf/ext/expansions.py"),
   ("JointTreeContext", "jsgf/expansions.py")],
  "exhaustive enumeration of trees, speech and match histories on the real code, against "
  "a language model with all derivations"),

("C20", "Expanding and sequencing dictation keeps what the expansion matches",
  "Expanding an expansion with dictation gives distinct expansions without alternatives "
  "or optional parts that have dictation next to others, which together match exactly "
  "what the original matches (apart from matching nothing, and repetitions aren't "
  "mixed), keeping the order, tags and weights of the words. The sequence of an expanded "
  "expansion splits it in order into dictation-free parts and one dictation-only part "
  "for each dictation, and matching the parts one after another matches what the "
  "expansion does. The original and the rules it references aren't changed.",
  ["inputs"],
  "every tree with dictation up to a node bound, weights 0, 1 and 2 on every set, "
  "references to 14 rules and a chain; every speech string up to a length",
  "Tests compare a few hand-written expansions; whether all alternatives and optional "
  "parts are combined depends on how they are nested with dictation.",
  ["jsgf/ext/expansions.py"],
  [("expand_dictation_expansion", "jsgf/ext/expansions.py"),
   ("calculate_expansion_sequence", "jsgf/ext/expansions.py")],
  "exhaustive enumeration of trees; the languages of the results are compared with the "
  "original's on every speech string up to a length"),
("C21", "Sequence rules match their sequence part by part",
  "A SequenceRule matches its sequence one part at a time: a part can be matched once "
  "until set_next, restart_sequence or refuse_matches allow it again, and refusal, "
  "current part, compiled text, entire_match and the parts' matches follow from the "
  "history. After every match the original expansion has the match data of what was "
  "matched so far (or none), and case sensitivity applies to all parts. Copies and "
  "unpickled rules go on independently, and expansions that aren't expanded are refused "
  "with a GrammarError.",
  ["histories", "inputs"],
  "every expanded tree up to a node bound and 21 longer sequences; all operations in all "
  "reached protocol states up to a bound and all histories up to a depth",
  "Tests walk through a few sequences in order; refusal, repetition, restarts and copies "
  "must be right after any history.",
  ["jsgf/ext/rules.py", "jsgf/ext/expansions.py"],
  [("SequenceRule.matches, set_next, restart_sequence, refuse_matches",
    "jsgf/ext/rules.py"),
   ("SequenceRule.graft_sequence_matches", "jsgf/ext/rules.py")],
  "exhaustive exploration of protocol states and histories of real sequence rules "
  "against a reference model"),

("C22", "Dictation grammars keep original rules and generated rules in step",
  "A DictationGrammar holds the rules added to it and, for rules with dictation, one "
  "generated rule per expansion, named after the original; duplicates are ignored, taken "
  "names and unknown or referenced rules refused with a GrammarError without change, and "
  "removing, enabling, disabling and case sensitivity apply to original and generated "
  "rules. Matching advances matching sequence rules if asked to, finds exactly the "
  "visible rules that match, and gives originals the match data of what was matched; "
  "compiled grammars have the name, header, imports and exactly the active rules whose "
  "current part is free of dictation and not refused, or are empty. Resetting starts all "
  "sequences again, and deep copies and unpickled grammars go on independently.",
  ["histories"],
  "all operations in all model states reached up to a depth and number, for 18 sets of "
  "rules and all pairs of 18 rules; copies with an operation before and after",
  "Tests follow a handful of histories; original, generated and moved rules must stay "
  "consistent whatever was added, matched and removed before.",
  ["jsgf/ext/grammars.py", "jsgf/ext/rules.py"],
  [("DictationGrammar.add_rule, remove_rule, rearrange_rules", "jsgf/ext/grammars.py"),
   ("DictationGrammar.find_matching_rules, compile", "jsgf/ext/grammars.py")],
  "explicit-state exploration of histories of a real dictation grammar against a "
  "reference model"),

("C23", "Lists of children behave like lists and parents follow them",
  "After any history of append, insert, extend, +=, pop, remove, clear, item and slice "
  "assignment and setting children, an expansion's children are exactly what a Python "
  "list would hold (text turned into literals), and every child's parent is the "
  "expansion whose list it was last added to, or None once it was removed from it. "
  "Invalid items, indices and values raise the list's error, or a TypeError, and change "
  "nothing; ancestors, leaves, compiled text and matching follow the lists.",
  ["histories"],
  "all operations with all arguments on three lists from 13 states, all pairs of "
  "operations with states merged, with and without cached matchers",
  "Tests use each operation once; moving expansions between lists and operations that "
  "fail half-way need histories of operations.",
  ["jsgf/expansions.py"],
  [("ChildList", "jsgf/expansions.py"), ("Expansion.children, parent",
    "jsgf/expansions.py")],
  "exhaustive exploration of histories of real lists of children against Python lists"),

("C24", "Traversal visits every expansion exactly where it should",
  "map_expansion, flat_map_expansion, filter_expansion, find_expansion, collect_leaves, "
  "leaves, leaves_after and `in` visit the expansions of a tree in pre- or post-order, "
  "once for each place they are in, with the trees of referenced rules unless shallow. "
  "find_expansion stops at the first expansion found; other orders raise ValueError; "
  "traversal changes nothing. Match data saved with save_current_matches is restored by "
  "restore_current_matches whatever was matched in between, also over None unless told "
  "otherwise.",
  ["inputs"],
  "all trees up to 4 nodes with references to 4 rules and a chain of rules, all "
  "functions, orders, and pairs of expansions searched for, from every expansion; match "
  "data of all trees up to 5 nodes, matched with all pairs of speech strings",
  "Tests traverse a few trees without looking at the order of calls.",
  ["jsgf/expansions.py"],
  [("map_expansion, find_expansion, flat_map_expansion, filter_expansion",
    "jsgf/expansions.py"),
   ("save_current_matches, restore_current_matches", "jsgf/expansions.py"),
   ("Expansion.collect_leaves, leaves_after, __contains__", "jsgf/expansions.py")],
  "exhaustive enumeration of trees traversed by the real code against a model order"),

("C25", "Relations between expansions follow the trees, joined or not",
  "For every pair of expansions, is_descendant_of (through references), "
  "mutually_exclusive_of (different alternatives of a set with several, in one tree), "
  "is_optional, is_alternative, repetition_ancestor, root_expansion, leaves_after and "
  "matchable_leaves_after agree with the trees, whatever was asked before and, once "
  "calculations are invalidated as documented, after edits. In a JointTreeContext the "
  "trees of referenced rules belong to the tree of the reference (the last one, if there "
  "are several); afterwards, and after errors, nested or not, parents are as before.",
  ["inputs", "histories"],
  "all pairs of expansions of all trees up to 4 to 5 nodes with references to 4 rules "
  "and chains of rules, alone, joined, nested, after exceptions and unresolved "
  "references, in 2 orders; every edit of every expansion",
  "Tests ask for a few relations of a few trees; answers are stored and depend on the "
  "order of questions and on joined trees.",
  ["jsgf/expansions.py"],
  [("JointTreeContext", "jsgf/expansions.py"),
   ("Expansion.is_descendant_of, mutually_exclusive_of, invalidate_calculations",
    "jsgf/expansions.py"),
   ("Expansion.is_optional, is_alternative, repetition_ancestor, root_expansion, "
    "matchable_leaves_after", "jsgf/expansions.py")],
  "exhaustive enumeration of trees, contexts, edits and questions on the real code "
  "against a model of trees"),

("C26", "Dependencies between rules follow the references in their trees",
  "A rule's dependencies are exactly the rules that it references directly or through "
  "other rules, by object or by name, wherever the references are in its expansion (in "
  "any part of the sequence, for sequence rules); its dependent rules are the rules of "
  "its own grammar, enabled or not, that depend on it, and its reference count is their "
  "number. That holds after every history of edits, additions and removals and for rules "
  "imported from files. A rule is removed from its grammar if and only if no rule depends "
  "on it or dependent rules are to be ignored.",
  ["inputs", "histories"],
  "all graphs over 4 rules with references of both kinds at 6 places in several orders, "
  "in one or two grammars; all sequences of 2 edits of 8 graphs; all orders of removals; "
  "all sequences of 3 parts of sequence rules; all graphs of 5 rules in 3 files",
  "Tests look at one graph of five rules that doesn't change.",
  ["jsgf/rules.py", "jsgf/grammars.py", "jsgf/expansions.py", "jsgf/ext/rules.py"],
  [("Rule.dependencies, dependent_rules, reference_count", "jsgf/rules.py"),
   ("Grammar.remove_rule", "jsgf/grammars.py"),
   ("SequenceRule.dependencies", "jsgf/ext/rules.py")],
  "exhaustive enumeration of reference graphs and edit histories on the real code "
  "against the transitive closure of a model graph"),

("C27", "Attributes hold what they are set to; refused values change nothing",
  "Setting a tag, text, current match, matching slice, parent, list of children, weight, "
  "name, rule expansion or header value gives exactly that attribute the (stripped or "
  "normalised) value and changes nothing else. Values of other types, invalid names, "
  "weights that aren't finite, non-negative numbers of an alternative, and unusable "
  "arguments of constructors are refused with the TypeError, ValueError, IndexError or "
  "GrammarError that fits, and neither attributes nor match data, compiled text or "
  "matching change, also for a setting that is only partly invalid.",
  ["inputs", "histories"],
  "all sequences of up to 2 of 990 settings, constructions and matches (3 for the 100 that "
  "matter to others) on a grammar with expansions of every type",
  "Tests set a few values and mostly only check that errors are raised, not what is left.",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/references.py", "jsgf/grammars.py"],
  [("Expansion setters, AlternativeSet.set_weight, weights", "jsgf/expansions.py"),
   ("Rule.expansion", "jsgf/rules.py"), ("BaseRef.name", "jsgf/references.py")],
  "exhaustive exploration of a transition system: every step of every sequence compared "
  "with a model of the snapshot of all attributes"),

("C28", "Parts of rules and rules can be moved, also between grammars",
  "Parts of expansions moved to other places of the same or another rule, expansions "
  "swapped between rules or wrapped, and rules moved between grammars, removed from them "
  "or replaced by others of the same name belong to where they are afterwards: parents, "
  "rules and grammars are those of the new place, references by name find the rules of "
  "the grammar they are in now (and dependencies follow), and compiling and matching give "
  "what newly made objects of that form do, whatever was matched before.",
  ["inputs", "histories"],
  "all sequences of up to 2 moves (3 thorough) of every part to every list and rule, of "
  "every rule and every reference name in 3 worlds of 2 grammars with common names",
  "Tests don't move parts or rules from one place to another.",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py"],
  [("Expansion.parent, ChildList, NamedRuleRef.referenced_rule", "jsgf/expansions.py"),
   ("Rule.expansion", "jsgf/rules.py"), ("Grammar.add_rule, remove_rule", "jsgf/grammars.py")],
  "exhaustive enumeration of histories of moves on the real code against a model of trees, "
  "rules and grammars, and against newly made objects"),

("C29", "Helpers about dictation, matches and tags agree with the expansions",
  "The predicates dictation_in_expansion, no_dictation_in_expansion and "
  "only_dictation_in_expansion answer for the whole tree and the rules it references, "
  "without changing it. Dictation told to use its current match matches exactly that "
  "text, and anything again afterwards; the regular expression patterns of literals and "
  "dictation match their words with any whitespace between them, and matches_overlap "
  "tells whether two matches of one string share a position. Compiled tags have their "
  "braces and backslashes escaped, and text with them is parsed back to the same tags.",
  ["inputs", "histories"],
  "all trees of up to 5 (6 thorough) expansions with references, every expansion in them; "
  "8 current matches per dictation in all trees of up to 4 expansions with 44 speech "
  "strings; all pairs of 25 matches in 20 strings; all tags of up to 3 (4) characters",
  "Tests use these helpers on one or two expansions each.",
  ["jsgf/expansions.py", "jsgf/ext/expansions.py"],
  [("dictation_in_expansion, only_dictation_in_expansion", "jsgf/ext/expansions.py"),
   ("Dictation.use_current_match", "jsgf/ext/expansions.py"),
   ("matches_overlap, Expansion.compiled_tag, Literal.matching_regex_pattern",
    "jsgf/expansions.py")],
  "exhaustive enumeration of trees, current matches, speech and tags on the real code "
  "against the tree model and matching of the tree with literals instead"),

("C30", "Objects that share nothing don't affect each other",
  "Work on expansions, rules and grammars has the same results whatever is done with other "
  "objects that are not related to them before, in between or, in other threads, at the "
  "same time, even if names and texts are the same: building, parsing (valid or not), "
  "editing, compiling, matching, joining trees, repetitions, dictation, sequence rules, "
  "copying, pickling, imports, weights and case sensitivity. Parsing the same text or "
  "importing the same file twice gives separate objects.",
  ["schedules", "histories"],
  "all pairs of 17 programs (17 areas of the interface), all interleavings of their steps "
  "with up to 3 (5) switches; one preemption before the first call from every place in each "
  "step (thorough: before every line or call, and two threads with two preemptions)",
  "Tests run one after another on one object each.",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py", "jsgf/parser.py",
   "jsgf/ext/rules.py", "jsgf/ext/grammars.py"],
  [("Expansion.matches, JointTreeContext, calculations", "jsgf/expansions.py"),
   ("parse_*_string, parsers", "jsgf/parser.py"),
   ("Grammar.resolve_imports", "jsgf/grammars.py")],
  "stateless exploration of schedules of the real code under a controlled scheduler "
  "(trace functions), with a bound on preemptions, against each program's results alone"),

("C31", "Operations that fail don't affect later ones",
  "After operations that failed (references to missing rules, recursion, unusable weights, "
  "empty literals, missing or invalid files of imports, refused constructions and changes, "
  "errors and interrupts in random numbers or in functions given to map_expansion, "
  "filter_expansion or used within a JointTreeContext), rules and grammars are linked, "
  "match, generate, compile and fail like newly made ones, also after the fault is "
  "repaired or replaced by another one.",
  ["histories", "faults"],
  "all sequences of a fault (12 kinds), 1 (2) operations and a repair, and of two faults "
  "with operations, for 9 trees with references by name and by rule; imports: up to 2 (3) "
  "operations",
  "Tests check that errors are raised, but not that objects work as before afterwards: the "
  "caches and links that are left behind by an error only show in later operations.",
  ["jsgf/expansions.py", "jsgf/rules.py", "jsgf/grammars.py"],
  [("Expansion.matches, JointTreeContext, ChildList", "jsgf/expansions.py"),
   ("Rule.matches, Rule.generate, dependencies", "jsgf/rules.py"),
   ("Grammar.resolve_imports, find_matching_rules, add_rule", "jsgf/grammars.py")],
  "exhaustive exploration of histories with injected faults on the real code, against "
  "newly made objects in the same configuration"),
]


def main():
    props, checks = [], []
    for (pid, title, statement, over, qtext, why, files, mech, technique) in PROPS:
        if not os.path.exists(os.path.join(HERE, "mc", pid.lower() + ".py")):
            continue
        assert len(title) <= 80, title
        props.append({
            "id": pid, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "hook_needed": None},
        })
        checks.append({
            "property": pid,
            "quick_cmd": "./check.sh %s quick" % pid,
            "thorough_cmd": "./check.sh %s thorough" % pid,
            "technique": "explicit-state model checking: " + technique,
            "level": "model_checking",
            "level_note": "Every case within the stated bounds (%s) is run on the real "
            "code and judged by an independent model; nothing is sampled. Trusts the "
            "reference model in mc/, Python and the small-scope hypothesis beyond the "
            "bounds; see DESIGN.md for assumptions." % qtext,
        })
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "mkdir -p evidence replays && /opt/venv/bin/python -c "
                     "'import pyparsing'",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks are needed in /repo: the checks run the real code through "
                 "its public interface. ./check.sh ID [quick|thorough] [--replay FILE]",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
