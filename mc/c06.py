"""
C06: find_matching_part returns the first part of the speech that matches.
"""
import itertools

from . import c01, c02, model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C06"
MAX_DERIVATIONS = 200
FORMS = [" ".join, lambda ws: "  " + "   ".join(ws) + " ",
         lambda ws: "\t".join(ws) + "\t"]


def judge(res, case):
    world = model.spec(case["world"])
    i = case["i"]
    _, rules = model.build_world(world)
    rule, node = rules[i], world[i][2]
    lang = model.Language(world)
    tree = c02.Tree(world, rules, i)
    letters = case.get("words") or model.words_of(node, world) or ["a"]
    msgs = []
    res.states += 1
    classes = {}
    for words in model.speeches(letters, case["len"], max_foreign=case["foreign"]):
        start = None
        for k in range(len(words)):
            ends = [e for e in lang.ends(node, words, k) if e > k]
            if ends:
                start, end = k, max(ends)
                break
        for form in FORMS if case.get("forms") else FORMS[:1]:
            speech = form(words)
            res.transitions += 1
            got = rule.find_matching_part(speech)
            what = "%s: find_matching_part(%r) returned %r" % (
                model.show_world(world), speech, got)
            if got is None:
                bad = c02.no_data(tree)
                if bad:
                    msgs.append(what + ": " + bad)
                res.outcome("none")
            elif got not in speech or got != got.strip():
                msgs.append(what + ", which is not a part of the speech")
                continue
            if start is None:
                if got is not None:
                    msgs.append(what + " but no part matches")
                continue
            follow = words[end:end + 1]
            if follow not in classes:
                classes[follow] = model.unambiguous(node, world, follow)
            if classes[follow]:
                want = " ".join(words[start:end])
                if got is None or " ".join(got.split()) != want:
                    msgs.append(what + " rather than %r" % want)
                    continue
                res.outcome("found")
                res.traces += 1
            elif got is None:
                res.outcome("ambiguous, none")
                continue
            else:
                res.outcome("ambiguous, found")
            # The part has to match and the data has to be that of the part.
            n = len(got.split())
            stripped = speech.lstrip()
            ok, bad = False, "not in the language"
            for k in range(len(words) - n + 1):
                if " ".join(words[k:k + n]) != " ".join(got.split()) or not \
                        lang.ends(node, words, k) & {k + n}:
                    continue
                count = 0
                for d in itertools.islice(
                        lang.derivations(node, words, k, k + n), MAX_DERIVATIONS):
                    count += 1
                    bad = c02.compare(tree, d, words, stripped, strict=False)
                    if bad is None:
                        ok = True
                        break
                ok = ok or count == MAX_DERIVATIONS
                if ok:
                    break
            if not ok:
                msgs.append(what + ": " + bad)
    # Disabled rules match nothing.
    rule.disable()
    if words and rule.find_matching_part(letters[0]) is not None:
        msgs.append("%s: part found although the rule is disabled"
                    % model.show_world(world))
    return msgs


def tree_cases(ctx):
    for t in model.Trees().up_to(ctx.pick(5, 6)):
        yield c01.one(t, len=4 if model.size(t) < 5 else 3, foreign=1)


def three_cases(ctx):
    three = model.Trees(leaves=(L("a"), L("b"), L("c")))
    for t in three.up_to(ctx.pick(5, 6)):
        if len(model.words_of(t)) == 3:
            yield c01.one(t, len=ctx.pick(4, 5), foreign=1)


def form_cases(ctx):
    for t in model.Trees(leaves=(L("a"), L("b"))).up_to(4):
        yield c01.one(t, len=3, foreign=1, forms=True)
    for t in (L("a b"), S(L("a b"), O(L("c d"))), R(L("a b")), LC("A b"),
              A(L("a"), L("a b"), L("a b c")), S(L("a"), K(L("b c"))),
              R(A(LC("A"), LC("a"))), S(L("A"), LC("B")), L("ab"), S(L("a"), L("ab"))):
        yield c01.one(t, len=ctx.pick(3, 4), foreign=1, forms=True,
                      words=["a", "b", "c", "A", "ab", "B"])


def reference_cases(ctx):
    for w in c01.reference_worlds(ctx):
        yield {"world": w, "i": 0, "len": 3, "foreign": 1}


SPACES = [
    ("trees", tree_cases, "all trees up to the node bound; all speech with up to one "
     "foreign word"),
    ("trees over 3 literals", three_cases, "all trees with 3 distinct literals"),
    ("forms", form_cases, "letter case, words in words and whitespace"),
    ("references", reference_cases, "all 2-rule worlds and 3-rule chains"),
]
PARTS = dict([(s[0], judge) for s in SPACES])


def run(ctx):
    for name, cases, bound in SPACES:
        ctx.explore(name, cases(ctx), judge, bound)
    ctx.assumptions = [
        "which part is found is only claimed if the rule is unambiguous before the "
        "word that follows the longest match; otherwise any matching part is "
        "accepted",
    ]
