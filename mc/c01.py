"""
C01: a rule accepts exactly the speech in its language.

Every expansion tree up to a size is built out of the real classes and every speech
string up to a length is matched against it; the verdicts are compared with the
language of the tree, which is calculated by the reference model.
"""
import itertools

from . import model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C01"


def judge(res, case):
    """case: world, i (rule to match), len, foreign; optional words, forms."""
    world = model.spec(case["world"])
    i = case["i"]
    grammar, rules = model.build_world(world, grammar=case.get("grammar", True))
    rule = rules[i]
    node = world[i][2]
    lang = model.Language(world)
    exact = model.unambiguous(node, world)
    letters = case.get("words") or model.words_of(node, world) or ["a"]
    forms = FORMS if case.get("forms") else FORMS[:1]
    msgs = []
    if case.get("large"):
        speeches = model.large_speech(node)
    else:
        speeches = list(model.speeches(letters, case["len"],
                                       max_foreign=case["foreign"]))
    for words in speeches:
        member = lang.accepts(node, words)
        for form in forms:
            speech = form(words)
            got = rule.matches(speech)
            res.transitions += 1
            if got is not True and got is not False:
                msgs.append("matches(%r) returned %r" % (speech, got))
            elif got and not member:
                msgs.append("%s matched %r, which is not in its language"
                            % (model.show_world(world), speech))
            elif member and not got and exact:
                msgs.append("%s didn't match %r, which is in its language"
                            % (model.show_world(world), speech))
            if words and got != rule.was_matched:
                msgs.append("%s: was_matched is %r after matches(%r) returned %r" % (
                    model.show_world(world), rule.was_matched, speech, got))
        res.outcome("%s/%s/%s" % ("class" if exact else "other",
                                  "member" if member else "foreign",
                                  "match" if got else "no match"))
    # Only visible rules are found by grammars.
    if grammar is not None and case.get("find", True):
        for words in speeches[:20] if case.get("large") else \
                model.speeches(letters, min(case["len"], 2), max_foreign=0):
            speech = " ".join(words)
            found = grammar.find_matching_rules(speech)
            want = [r for r in rules if r.visible and r.matches(speech)]
            if len(found) != len(want) or any(
                    [x is not y for x, y in zip(found, want)]):
                msgs.append("%s: find_matching_rules(%r) returned %s, rules that "
                            "match are %s" % (
                                model.show_world(world), speech,
                                [r.name for r in found], [r.name for r in want]))
    res.states += 1
    res.traces += 1
    return msgs


# Equivalent forms of the same speech: word case and the whitespace between words.
FORMS = [
    lambda ws: " ".join(ws),
    lambda ws: "  " + "   ".join(ws) + " ",
    lambda ws: "\t" + "\t ".join(ws) + "\t",
    lambda ws: "\n".join(ws) + "\n",
]


def one(node, **kw):
    case = {"world": (("r", True, node),), "i": 0, "find": False}
    case.update(kw)
    return case


def tree_cases(ctx):
    two = model.Trees(leaves=(L("a"), L("b"), N, V))
    deep = ctx.pick(5, 6)
    for t in two.up_to(deep):
        n = model.size(t)
        yield one(t, len=4 if n <= 5 else 3, foreign=1, grammar=n <= 3)


def three_cases(ctx):
    three = model.Trees(leaves=(L("a"), L("b"), L("c")),
                        max_arity=ctx.pick(3, 4))
    for t in three.up_to(ctx.pick(6, 7)):
        if len(model.words_of(t)) == 3:
            yield one(t, len=3 if ctx.quick else 4, foreign=0, grammar=False)


def long_cases(ctx):
    # Longer speech for repeats.
    trees = model.Trees(leaves=(L("a"), L("b")))
    for t in trees.up_to(4):
        if any([x[0] in "RK" for _, x in model.walk(t)]):
            yield one(t, len=ctx.pick(6, 8), foreign=0, grammar=False)


def single_cases(ctx):
    # Groupings and sequences/sets with only one child.
    trees = model.Trees(leaves=(L("a"), L("b"), N), unary=("O", "R", "K", "G"),
                        nary=("S", "A", "G"), min_arity=1, max_arity=2)
    for t in trees.up_to(ctx.pick(4, 5)):
        yield one(t, len=3, foreign=1, grammar=False)


def weight_cases(ctx):
    parts = [L("a"), L("b"), S(L("a"), L("b")), O(L("a")), R(L("b")), N, V]
    ws = [0, 1, 2.5]
    contexts = [lambda t: t, lambda t: S(t, L("c")), lambda t: S(L("c"), O(t)),
                lambda t: R(t), lambda t: A(t, L("c")), lambda t: K(S(t, L("c")))]
    for n in (1, 2) if ctx.quick else (1, 2, 3):
        for kids in itertools.product(parts, repeat=n):
            if len(set(kids)) != len(kids):
                continue    # equal alternatives share a weight
            for w in itertools.product(ws, repeat=n):
                for c in contexts:
                    yield one(c(A(*kids, weights=w)), len=3, foreign=0,
                              grammar=False, words=["a", "b", "c"])


def reference_worlds(ctx):
    """Worlds of up to three rules that reference each other."""
    bodies = [t for t in model.Trees(leaves=(L("a"), L("b"))).up_to(
        ctx.pick(3, 4), symmetry=False) if t[0] not in ("S",) or True]
    bodies = [b for b in bodies if "a" in model.words_of(b)]
    mains = []
    for ref in (F(1), Q(1)):
        for t in model.Trees(leaves=(ref, L("a"), L("b"))).up_to(
                3, symmetry=False):
            if any([x == ref for _, x in model.walk(t)]):
                mains.append(t)
    for m in mains:
        for b in bodies:
            yield (("m", True, m), ("x", False, b))
    # Chains of references.
    links = [lambda r: r, lambda r: O(r), lambda r: R(r), lambda r: S(L("b"), r),
             lambda r: A(r, L("c")), lambda r: S(r, O(r)), lambda r: K(r)]
    tails = [L("a"), O(L("a")), S(L("a"), L("b")), A(L("a"), L("b")), R(L("a")),
             K(L("a")), N, V]
    for l1, l2 in itertools.product(links, repeat=2):
        for t in tails:
            for kind in (F, Q):
                yield (("m", True, l1(kind(1))), ("x", True, l2(kind(2))),
                       ("y", False, t))


def reference_cases(ctx):
    for w in reference_worlds(ctx):
        yield {"world": w, "i": 0, "len": 3, "foreign": ctx.pick(0, 1)}


WORDS = ["a", "ab", "a-b", "a's", u"\u00e9", "b", "A", u"\u00c9", "a1", "_", "-"]


def literal_cases(ctx):
    """Literals of several words and words that are parts of others."""
    texts = ["a", "ab", "a b", "a-b", "a's", u"\u00e9", "A b", "a1", "_", "a  b",
             "-", "a b a"]
    contexts = [
        lambda x, y: x, lambda x, y: S(x, y), lambda x, y: A(x, y),
        lambda x, y: S(O(x), y), lambda x, y: R(A(x, y)), lambda x, y: S(x, K(y)),
    ]
    for x, y in itertools.product(texts, repeat=2):
        for n, c in enumerate(contexts):
            if n == 0 and x != y:
                continue
            for make in (L, LC):
                yield one(c(make(x), make(y)), len=ctx.pick(2, 3), foreign=0,
                          grammar=False, words=sorted(set(
                              x.split() + y.split() + ["a", "b", "ab", "A", u"\u00c9",
                                                       "a-b"])))


def form_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b")))
    for t in trees.up_to(ctx.pick(3, 4)):
        yield one(t, len=3, foreign=1, grammar=False, forms=True)
    for t in (L("a b"), S(L("a b"), O(L("c d"))), R(L("a b")),
              A(L("a"), L("a b"), L("a b c")), S(L("a"), K(L("b c")))):
        yield one(t, len=4, foreign=0, grammar=False, forms=True)


def wide_cases(ctx):
    """Wide sets and sequences of small parts."""
    parts = [L("a"), L("b"), L("c"), O(L("a")), O(L("b")), R(L("a")), K(L("b")),
             S(L("a"), L("b")), A(L("a"), L("c"))]
    for n in (3,) if ctx.quick else (3, 4):
        for kids in itertools.product(parts, repeat=n):
            for make in (S, A):
                yield one(make(*kids), len=4 if n == 3 else 3, foreign=0,
                          grammar=False, words=["a", "b", "c"])


def large_cases(ctx):
    for t in itertools.chain(model.wide_trees(), model.deep_trees()):
        yield one(t, large=True, len=0, foreign=0)


def sensitive_cases(ctx):
    """Literals that only differ by their case and case sensitivity."""
    leaves = (L("a"), LC("a"), LC("A"), L("A"))
    for t in model.Trees(leaves=leaves).up_to(ctx.pick(4, 5), symmetry=False):
        for grammar in (False, True) if model.size(t) < 4 else (False,):
            yield one(t, len=3, foreign=0, grammar=grammar, words=["a", "A"])
    for kids in itertools.product(leaves, repeat=3):
        for t in (A(*kids), S(O(A(*kids)), L("b")), R(A(*kids)),
                  A(S(kids[0], L("b")), S(kids[1], kids[2])),
                  A(*kids, weights=(1, 0, 2)) if len(set(kids)) == 3 and not
                  {L("a"), L("A")} <= set(kids) else N):
            yield one(t, len=3, foreign=0, grammar=False, words=["a", "A", "b"])


SPACES = [
    ("large trees", large_cases, "trees with up to %d children and of depth up to %d, "
     "with all strings near their language" % (model.WIDE[-1], model.DEEP[-1])),
    ("trees", tree_cases, "all trees up to the node bound over 2 literals, NULL and "
     "VOID; all speech up to 4 words"),
    ("trees over 3 literals", three_cases, "all trees with 3 distinct literals; all "
     "speech up to 3 words"),
    ("long speech", long_cases, "all trees with repeats up to 4 nodes; long speech"),
    ("single children", single_cases, "all trees with groupings and single-child "
     "sets"),
    ("weights", weight_cases, "all weights in {0, 1, 2.5} of sets in 6 contexts"),
    ("references", reference_cases, "all 2-rule worlds up to the node bound and "
     "3-rule chains"),
    ("literals", literal_cases, "all pairs of 12 literal texts in 6 contexts"),
    ("forms of speech", form_cases, "5 whitespace forms of all speech"),
    ("case sensitivity", sensitive_cases, "all trees up to 4 (5) nodes of literals that "
     "differ by case and case sensitivity"),
    ("wide", wide_cases, "all 3-part sequences and sets of 9 parts"),
]
PARTS = dict([(name, judge) for name, _, _ in SPACES])


def run(ctx):
    for name, cases, bound in SPACES:
        ctx.explore(name, cases(ctx), judge, bound)
    ctx.assumptions = [
        "completeness is only claimed for unambiguous rules (no part of the rule can "
        "be continued by a word that may follow it); soundness for all rules",
        "small scope: tree size, speech length and vocabulary as listed per part",
    ]
