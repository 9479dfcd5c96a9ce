#!/usr/bin/env python3
"""
Writes DESIGN.md from design_intro.md, gen.py, the evidence of the last runs,
known_findings.json and seeded/.
"""
import glob
import json
import os

import gen

HERE = os.path.dirname(os.path.abspath(__file__))

ORACLES = {
"C01": """The language of a tree is computed by dynamic programming over word positions
(`model.Language.ends`): for a node and a start, the set of ends. Soundness ("matches
nothing outside") is judged for all trees; completeness for trees that are one-unambiguous
by the position automaton of the inlined expansion (`model.unambiguous`), since the
matcher is documented not to support ambiguous rules.""",
"C02": """`model.derivations` enumerates *all* derivations of the speech by the tree; the
data of all parts read from the real objects has to be that of one of them. Slices are
checked by cutting the speech (with irregular whitespace) with them.""",
"C03": """Differential: every sequence of operations (match, partial match, failing match,
find_matching_part, on every rule of a world, enabled and disabled) is run on one set of
rules; the last one is also run on newly made rules and everything observable compared.""",
"C04": """Differential and language: after every sequence of edits (with caches filled
before each of them, or not) rules must compile, match and report tags like rules newly
made from the edited specification; the edit is applied to the specification by the
model.""",
"C05": """The model collects tags of parts and of referenced rules; matched tags are the
tags of the parts that match words in a derivation, in order of appearance. `has_tag`,
`get_tags_matching`, `find_tagged_rules` are compared for all texts.""",
"C06": """The first position from which the language model has a match of at least one
word, and the longest end for unambiguous rules; the text has to be cut out of the speech
as it was given.""",
"C07": """A flag per literal; grammar/rule/literal settings are assignments to all flags
below. Matching with all cases of speech, compiled text and `case_sensitive` values are
compared after each history, and for expansions that were parsed.""",
"C08": """Round trip: specification -> objects -> text -> parser -> objects -> specification,
equal up to redundant grouping (`model.collapse`), with tags, weights, names, headers,
imports and order.""",
"C09": """An independent recursive descent parser of the documented EBNF run on every
string of tokens; where the documentation is silent (unbracketed repeats after words: see
the tests) the behaviour the tests force is part of it.""",
"C10": """Totality, error types, `valid_grammar`/parse consistency, determinism, absence of
side effects on later parses and the outline of everything that is parsed as a grammar (if
it has no comments; as a regular expression written from the documented syntax) are judged, for every single mutation (deletion,
duplication, insertion, swap of tokens and characters) of sample grammars.""",
"C11": """The model writes the text from the state (visibility, activity, header, imports);
errors are injected into the compilation of every rule in turn, after which everything must
be as before.""",
"C12": """Structural equality on specifications (sets of alternatives as multisets with
weights, tags ignored, imports and names included) over all pairs of a universe; hash
values have to be equal for equal objects; mutated objects have to compare like new ones.""",
"C13": """The copy is read back into a specification; identity of all nodes is checked;
every single edit of either is followed by a comparison of the other.""",
"C14": """As for copies, with all protocols, from all nodes, with match data, and in another
process (spawned interpreter reading the pickles).""",
"C15": """A model of an ordered dictionary of rules (with the references between them) and
a list of imports; breadth-first exploration with states merged by model state, plus all
unmerged sequences up to a depth because hidden state of the implementation isn't part of
the model state.""",
"C16": """Names are described independently (character classes of Unicode, lengths,
dots, reserved names) and every string up to a length over an alphabet with a
representative of every relevant class is tried for every kind of name.""",
"C17": """A resolver of JSGF names over a small file system of grammars; scratch
directories only. Histories of adding/removing imports with lookups in between.""",
"C18": """`random` is replaced by a controlled module: a depth-first exploration of *all*
outcomes of every random call (ends of intervals and midpoints between the weights'
boundaries for real numbers), with their probabilities added up, so that chances are
compared exactly. Generated strings are compared with the language model.""",
"C19": """The language model with dictation (one or more words), restricted by "stops
before the first word of any literal that can come next", which is computed on the
specification (`follow` sets through joined trees and repetitions). Dictated words are of
the rule's vocabulary or foreign.""",
"C20": """The language of the original by the model against the union of the languages of
the expansions, which are read back into specifications; sequences against the expansion
they come from. The original must be unchanged.""",
"C21": """A protocol automaton (index, refused or not, per part match) predicts every
observable value; breadth-first over its states, all operations in each, and all
unmerged histories up to a depth.""",
"C22": """A model of originals, generated rules and their sequence states; breadth-first
exploration, with compile, match, reset, add, remove, enable, disable, case sensitivity
and copies in every state.""",
"C23": """Python lists of identities and a parent per expansion; every operation with
every argument, in states reached by every other operation.""",
"C24": """Order of keys (rule, path) computed on the specification; calls of functions are
recorded, so that find_expansion must stop exactly at the first hit.""",
"C25": """All relations are computed from the parent relation of the specification
(including the parents that joining adds) for all pairs; questions are asked in two
orders and repeatedly, since the real code stores answers under the root.""",
"C26": """The oracle is the transitive closure of the reference graph that the rules were built
from, kept through edits, removals and additions; names resolve within one grammar.""",
"C27": """The oracle computes the snapshot of all attributes after a step from the one before it
(frame conditions included). After refused last steps, compiled texts and matches are
compared with a world in which the step wasn't tried.""",
"C28": """The oracle is a model of node numbers, rules and grammars; links are compared with it
and behaviour with objects that are newly made from it (differential).""",
"C29": """Predicates are computed from the tree model. A tree whose dictation uses a current
match has to match like the tree with literals in the place of the dictation; patterns and
spans are compared with splitting strings into words and with intersections of intervals;
tags with their characters escaped one by one.""",
"C30": """Each program's results when it runs alone. The scheduler switches between programs at
steps, or interrupts one at calls or lines of the package (found with trace functions) to run
the other one, in nested calls or real threads that run one at a time.""",
"C31": "The same operation on objects that are newly made in the configuration "
       "that the history ended in and never failed: the outcome (value with match data, "
       "or type of the error) has to be the same.",
"C32": "",
}


def table(rows):
    out = ["| " + " | ".join(rows[0]) + " |", "|" + "---|" * len(rows[0])]
    for r in rows[1:]:
        out.append("| " + " | ".join([str(c).replace("|", "\\|").replace("\n", " ")
                                      for c in r]) + " |")
    return "\n".join(out)


def main():
    with open(os.path.join(HERE, "design_intro.md")) as f:
        out = [f.read().rstrip(), "", "## Properties", ""]
    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = json.load(f)
    try:
        with open(os.path.join(HERE, "seeded_results.json")) as f:
            results = json.load(f)
    except IOError:
        results = {}
    for (pid, title, statement, over, bounds, why, files, mech, technique) in gen.PROPS:
        if not os.path.exists(os.path.join(HERE, "mc", pid.lower() + ".py")):
            continue
        out += ["### %s %s" % (pid, title), "", statement, "",
                "* **Technique:** explicit-state model checking: %s." % technique,
                "* **Oracle:** " + ORACLES.get(pid, "").replace("\n", " "),
                "* **Why tests can't settle it:** " + why,
                "* **Anchors:** " + "; ".join(["%s (%s)" % m for m in mech])]
        path = os.path.join(HERE, "evidence", pid + ".json")
        if os.path.exists(path):
            with open(path) as f:
                ev = json.load(f)
            cov = ev["coverage"]
            out.append("* **Bounds (quick run: %s states, %s transitions):**"
                       % (cov["states"], cov["transitions"]))
            for p in cov.get("parts", []):
                out.append("  * %s: %s (%s cases)" % (p["part"], p["bound"],
                                                      p["cases"]))
            for a in ev.get("assumptions", []):
                out.append("* **Assumption:** " + a)
        else:
            out.append("* **Bounds:** " + bounds)
        out.append("")
    out += ["## Defects found and repaired", "",
            "Found by the checks (or while writing their models) on the original tree; "
            "each is a `fix:` commit in /repo, after which the test suite passes "
            "unedited.", ""]
    rows = [("property", "commit", "what failed")]
    for line in sorted(known["fixed"]):
        _, prop, commit, what = line.split(" ", 3)
        rows.append((prop.split("=")[1], commit, what))
    out += [table(rows), "", "## Planted bugs", "",
            "In /verif/seeded; each compiles, passes the tests and has a demonstration. "
            "The check named is the quick check of the bug's property.", ""]
    rows = [("bug", "property", "what it breaks", "needs", "quick check")]
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        name = os.path.basename(os.path.dirname(d))
        with open(d) as f:
            meta = json.load(f)
        rows.append((name, meta["property"], meta["what_it_breaks"], meta["needs"],
                     results.get(name, "")))
    out += [table(rows), ""]
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


if __name__ == "__main__":
    main()
