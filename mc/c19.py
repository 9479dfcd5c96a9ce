"""
C19: dictation matches one or more words, up to what can come next.

Every tree with dictation up to a size is built from the real classes and every speech
string up to a length is matched, in joined trees and not, on new and used rules.
"""
import copy
import itertools
import pickle

from . import c02, c05, model
from .model import A, D, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C19"
MAX_DERIVATIONS = 300
OTHER = ["x", "y"]      # words that aren't used by rules


def has_dictation(n, world=()):
    return any([x[0] == "D" or (x[0] in "FQ" and has_dictation(world[x[1]][2], world))
                for _, x in model.walk(n)])


def repeated_words(n):
    """Dictation of other words, as a repeat."""
    if n[0] == "D":
        return R(L("x"), n[3])
    return (n[0], n[1], tuple([repeated_words(k) for k in n[2]]), n[3])


def first(n):
    """(paths of the dictation, whether it can be empty) of what can come first."""
    kind, _, kids, _ = n
    if kind == "D":
        return {()}, False
    if kind in ("L", "LC", "V"):
        return set(), False
    if kind in ("S", "G"):
        out = set()
        for i, k in enumerate(kids):
            f, empty = first(k)
            out |= {(i,) + p for p in f}
            if not empty:
                return out, False
        return out, True
    if kind in "AORK":
        out, any_empty = set(), kind in "OK"
        for i, k in enumerate(kids):
            f, empty = first(k)
            out |= {(i,) + p for p in f}
            any_empty = any_empty or empty
        return out, any_empty
    return set(), True


def followed_by_dictation(n, path):
    """Whether other dictation can come directly after the dictation at a path."""
    for i in reversed(range(len(path))):
        up = model.node_at(n, path[:i])
        if up[0] in ("S", "G"):
            for k in up[2][path[i] + 1:]:
                f, empty = first(k)
                if f:
                    return True
                if not empty:
                    return False
        elif up[0] in "RK":
            if {(0,) + p for p in first(up[2][0])[0]} - {path[i:]}:
                return True
    return False


def competes(n, world):
    """
    Whether there is a place where dictation can start and also a word that isn't one
    of the words that dictation stops at.
    """
    positions = []      # (kind, word)
    follow = {}

    def rec(x):
        """(first, last, empty) positions."""
        kind, arg, kids, _ = x
        if kind in ("L", "LC", "D"):
            ps = []
            for w in ([None] if kind == "D" else arg.split()):
                positions.append((kind, w))
                follow[len(positions) - 1] = set()
                ps.append(len(positions) - 1)
            for a, b in zip(ps, ps[1:]):
                follow[a].add(b)
            return {ps[0]}, {ps[-1]}, False
        if kind == "V":
            return set(), set(), False
        if kind == "N":
            return set(), set(), True
        if kind in ("S", "G"):
            f, l, e = set(), set(), True
            for k in kids:
                f2, l2, e2 = rec(k)
                for p in l:
                    follow[p] |= f2
                f |= f2 if e else set()
                l = (l | l2) if e2 else l2
                e = e and e2
            return f, l, e
        parts = [rec(k) for k in kids]
        f = set().union(*[x[0] for x in parts])
        l = set().union(*[x[1] for x in parts])
        e = any([x[2] for x in parts]) or kind in ("O", "K")
        if kind in ("R", "K"):
            for p in l:
                follow[p] |= f
        return f, l, e

    start = rec(model.inline(n, world))[0]
    for together in [start] + list(follow.values()):
        words = set([positions[p][1].lower() for p in together
                     if positions[p][0] != "D"])
        for p in together:
            if positions[p][0] == "D" and words - set(
                    [positions[q][1].lower() for q in follow[p]
                     if positions[q][0] != "D"]):
                return True
    return False


def judge(res, case):
    """case: world, len, words, history, joined."""
    import jsgf
    world = model.spec(case["world"])
    node = world[0][2]
    msgs = []
    what = model.show_world(world)
    lang = model.Language(world)
    grammar, rules = model.build_world(world)
    rule = rules[0]
    tree = c02.Tree(world, rules, 0)
    plain = tuple([(n, v, repeated_words(e)) for n, v, e in world])
    lang2 = model.Language(plain)
    joined = case.get("joined")
    refs = len(world) > 1
    exact = model.unambiguous(plain[0][2], plain) and (joined or not refs or
                                                       case.get("exact")) \
        and not competes(node, world)
    sites = c05.tag_sites(world, 0)
    words_used = case.get("words") or sorted(model.words_of(node, world)) + OTHER[:1]
    literals = [(x[0], v) for w in world for _, x in model.walk(w[2])
                if x[0] in ("L", "LC") for v in x[1].split()]

    def used(w):
        return any([v == w or (kind == "L" and v.lower() == w.lower())
                    for kind, v in literals])
    single = {} if refs else dict([
        (p, followed_by_dictation(node, p)) for p, x in model.walk(node)
        if x[0] == "D"])
    if case.get("speech"):
        speeches = [tuple(w) for w in case["speech"]]
    else:
        speeches = [w for n in range(case["len"] + 1)
                    for w in itertools.product(words_used, repeat=n)]
    results = {}
    res.states += 1

    def match(words):
        speech = " ".join(words)
        if joined:
            with jsgf.JointTreeContext(rule.expansion):
                got = rule.matches(speech)
        else:
            got = rule.matches(speech)
        return got, [(e.current_match, e.matching_slice)
                     for _, (n, e, s) in sorted(tree.nodes.items(), key=str)], \
            rule.matched_tags

    if joined == "after":
        # Matchers were made before.
        for r in rules:
            for s in ("", "a", "x", "a x b", "x b"):
                r.matches(s)
    for words in speeches:
        speech = " ".join(words)
        results[words] = match(words)
        got = results[words][0]
        res.transitions += 1
        if got and not lang.accepts(node, words):
            msgs.append("%s matched %r" % (what, speech))
        if not got:
            conv = tuple([w if used(w) else "x" for w in words])
            if exact and lang2.accepts(plain[0][2], conv):
                msgs.append("%s didn't match %r" % (what, speech))
            bad = c02.no_data(tree) if words else None
            if bad:
                msgs.append("%s after failing to match %r: %s" % (what, speech, bad))
            res.outcome("no match")
            continue
        if not words:
            continue
        tags = results[words][2]
        for k, d in enumerate(itertools.islice(
                lang.derivations(node, words, 0, len(words)), MAX_DERIVATIONS)):
            bad = c02.compare(tree, d, words, speech, joined=bool(joined))
            if bad is None:
                if c05.matched(sites, d)[0] != tags and not tree.shared:
                    bad = "matched tags are %s" % tags
                else:
                    break
        else:
            if k + 1 < MAX_DERIVATIONS:
                msgs.append("%s after matching %r: no derivation has this data, e.g. "
                            "%s" % (what, speech, bad))
        res.traces += 1
        for p, only in single.items():
            m = tree.nodes[p][1].current_match
            if only and m and len(m.split()) > 1:
                msgs.append("%s: %r is matched by the dictation at %s" % (what, m, p))
        res.outcome("match" if exact else "ambiguous match")
        if len(msgs) > 3:
            return msgs
    # The same in the opposite order and with new, copied and unpickled rules.
    for words in reversed(speeches):
        if match(words) != results[words]:
            msgs.append("%s: matching %r again has another result" % (what, words))
    if case.get("copies"):
        makers = [lambda: copy.deepcopy(rule),
                  lambda: pickle.loads(pickle.dumps(rule, 2)),
                  lambda: pickle.loads(pickle.dumps(rule, pickle.HIGHEST_PROTOCOL)),
                  lambda: jsgf.Rule("r", True, rule.expansion.copy())]
        for i, make in enumerate(makers):
            other = make()
            for words in speeches:
                speech = " ".join(words)
                got = (other.matches(speech), [
                    (x.current_match, x.matching_slice)
                    for x in model.walk_real(other.expansion)], other.matched_tags)
                want = (rule.matches(speech), [
                    (x.current_match, x.matching_slice)
                    for x in model.walk_real(rule.expansion)], rule.matched_tags)
                res.transitions += 1
                if got != want:
                    msgs.append("%s: copy %d: %r has the result %s instead of %s" % (
                        what, i, speech, got, want))
                    break
    # Parts of speech.
    if not refs and case.get("parts"):
        for words in speeches:
            # No rule uses "#".
            got = rule.find_matching_part("# %s #" % " ".join(words))
            subs = [words[i:j] for i in range(len(words))
                    for j in range(i + 1, len(words) + 1)]
            members = [w for w in subs if lang.accepts(node, w)]
            if got is None and exact and words and results[words][0]:
                msgs.append("%s: no part of '# %s #'" % (what, " ".join(words)))
            if got is not None and tuple(got.split()) not in members:
                msgs.append("%s: %r is a matching part" % (what, got))
    return msgs


EXTRA = ["it's", "x-y", u"\u00e9t\u00e9", "7", "x,", "ok!", "_", "a1", "ab", "ba", "ax",
         "xa", "a-b", "a's", "what?", "3.5", "x;y", "A_"]


def one(node, **kw):
    case = {"world": (("r", True, node),), "len": 4}
    case.update(kw)
    return case


def tree_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b"), D()))
    for t in trees.up_to(ctx.pick(5, 6)):
        if has_dictation(t):
            n = model.size(t)
            yield one(c05.tag_all(t, "t"), len=4 if n < 6 else 3, parts=n < 5,
                      copies=n < 5)


def alternative_cases(ctx):
    """Dictation before and after parts with several ways to start."""
    parts = [L("a"), L("b"), A(L("a"), L("b")), O(L("a")), K(L("b")), R(A(L("a"), L("b"))),
             S(O(L("a")), L("b")), A(S(L("a"), L("b")), L("b")), A(O(L("a")), L("b")),
             S(L("a"), D()), A(L("a"), N), D(), A(D(), L("a")), O(D()), R(D())]
    shapes = [lambda p, q: S(D(), p, q), lambda p, q: S(p, D(), q),
              lambda p, q: R(S(p, D(), q)), lambda p, q: S(R(S(p, D())), q),
              lambda p, q: A(S(p, D()), S(q, D())), lambda p, q: R(A(S(p, D()), q)),
              lambda p, q: S(K(S(D(), p)), q), lambda p, q: S(O(S(p, D())), q),
              lambda p, q: S(S(L("c"), D()), A(p, q))]
    for p, q in itertools.product(parts, repeat=2):
        for s in shapes:
            yield one(s(p, q), len=ctx.pick(3, 4))


def word_cases(ctx):
    """Words that contain or are parts of the words that come next."""
    texts = ["a", "ab", "a b", "a-b", "a's", u"\u00e9t\u00e9", "7"]
    shapes = [lambda x: S(D(), x), lambda x: S(x, D()), lambda x: S(D(), O(x)),
              lambda x: R(S(x, D())), lambda x: S(D(), A(x, L("q"))),
              lambda x: S(D(), x, D()), lambda x: D()]
    for text in texts:
        for make in (L, LC):
            for i, s in enumerate(shapes):
                words = text.split() + ["x"] + \
                    [w for w in EXTRA if w not in text.split()]
                for k in range(0, len(words) - 2, 3):
                    yield one(s(make(text)), len=ctx.pick(3, 4),
                              words=list(dict.fromkeys(
                                  text.split() + words[2 + k:5 + k] + ["x"])))


def character_cases(ctx):
    """Dictated words of all characters that words can have."""
    chars = u"a'-.,!?:;_7\u00e9"
    texts = [t for n in range(1, ctx.pick(3, 4)) for t in itertools.product(chars,
                                                                           repeat=n)]
    for t in texts:
        w = "".join(t)
        for shape in (D(), S(D(), L("b")), S(L("b"), D()), R(S(L("b"), D()))):
            yield one(shape, words=[w, "b"] + (["x"] if len(t) < 3 else []), len=3)


def large_cases(ctx):
    """Long sequences, sets and deep trees with dictation."""
    letters = "abcdefghijklmn"
    for n in (4, 6, 9, 12):
        kids = [L(c) for c in letters[:n]]
        for pick in itertools.chain(range(n), [None]):
            mixed = [D() if pick is None and i % 2 or i == pick else k
                     for i, k in enumerate(kids)]
            words = [x[1] or "x" for x in mixed]
            speech = [words, words + ["y"], words[1:], words[:-1], ["y"] + words]
            for i, w in enumerate(words):
                speech.append(words[:i] + words[i + 1:])
                speech.append(words[:i + 1] + ["y"] + words[i + 1:])
                speech.append(words[:i + 1] + words[i:])
            yield one(S(*mixed), speech=speech)
            yield one(G(*mixed), speech=speech + [words + words])
            yield one(R(S(*mixed)), speech=speech + [words + words])
            yield one(A(*[S(k, L("z")) for k in mixed]),
                      speech=[[w, "z"] for w in words] + [["y", "x", "z"], ["z"]])
            if pick is not None:
                yield one(S(L("q"), A(*mixed)),
                          speech=[["q", w] for w in words] + [["q", "x", "y"], ["q"]])
                yield one(S(D(), A(*mixed[:pick] + mixed[pick + 1:])),
                          speech=[["x", w] for w in words] +
                          [["x", "y", w] for w in words] + [["x"]])
            opt = [O(k) for k in kids]
            yield one(S(D(), *opt), speech=[["x"], ["x", "y"]] + [
                ["x", "y"][:i] + [a.lower()] + b for i in (1, 2) for a in letters[:n]
                for b in ([], ["x"], [letters[n - 1]])])
    for depth in (4, 7, 10):
        for u in ("O", "R", "K", "G", "S", "A"):
            for v in ("O", "R", "G", "S"):
                n = D()
                for i in range(depth):
                    n = ((u, v)[i % 2], None, (n,), "")
                for t in (n, S(n, L("a")), S(L("a"), n)):
                    yield one(t, len=3)


def case_cases(ctx):
    for text, other in (("and", "AND"), ("And", "and"), (u"\u00e9", u"\u00c9")):
        for make in (L, LC):
            x = make(text)
            for t in (S(D(), x), S(D(), O(x)), R(S(x, D())), S(x, D()), S(D(), x, D()),
                      S(O(D()), x), S(D(), A(L("b"), x))):
                yield one(t, len=4, words=[text, other, "x"])


def reference_cases(ctx):
    mains = [lambda r: r, lambda r: S(r, L("b")), lambda r: S(L("b"), r),
             lambda r: S(r, O(L("b"))), lambda r: R(S(L("b"), r)),
             lambda r: R(S(r, L("b"))), lambda r: A(r, L("b")), lambda r: S(D(), r),
             lambda r: S(r, A(L("b"), L("c"))), lambda r: S(r, D()),
             lambda r: O(S(r, L("b"))), lambda r: S(O(r), L("b"))]
    bodies = [L("a"), D(), S(L("a"), D()), S(D(), L("a")), O(D()), A(L("a"), D()),
              R(S(L("a"), D())), S(L("a"), O(D())), R(L("a")), O(L("a")),
              S(O(L("a")), L("b")), A(L("a"), L("b")), N]
    for m, b in itertools.product(mains, bodies):
        for kind in (F, Q):
            for link in (False, True):
                world = [("m", True, m(kind(1))), ("x", False, b)]
                if link:
                    world[1] = ("x", False, S(kind(2)))
                    world.append(("y", False, b))
                if not has_dictation(world[0][2], world):
                    continue
                # Without joined trees, dictation in referenced rules takes any word.
                safe = not has_dictation(b) or not m(L("z"))[2]
                for joined in ("", "before", "after"):
                    if ctx.quick and link and joined == "before":
                        continue
                    yield {"world": tuple(world), "len": ctx.pick(3, 4),
                           "joined": joined,
                           "exact": safe}


def judge_compile(res, case):
    """Compiling and comparing."""
    import jsgf
    node = model.spec(case["node"])
    msgs = []
    res.states += 1
    e = model.build(node)
    r = jsgf.Rule("r", True, e)
    marked = model.build(literal(node))
    want = marked.compile().replace("dictationword", "<DICTATION>")
    for text, w in ((e.compile(), want), (r.compile(), "public <r> = %s;" % want),
                    (e.compile(ignore_tags=True), marked.compile(
                        ignore_tags=True).replace("dictationword", "<DICTATION>"))):
        res.transitions += 1
        if text != w:
            msgs.append("%s compiled to %r instead of %r" % (model.show(node), text, w))
    if not (e == model.build(node)) or not (e == e.copy()) or \
            hash(e) != hash(model.build(node)) or hash(e) != hash(e.copy()):
        msgs.append("%s doesn't equal another or a copy" % model.show(node))
    # References to rules of the grammar called DICTATION can't be mistaken for it.
    for path, x in model.walk(node):
        if x[0] == "D":
            for y in (L("a"), L(""), N, L("x")):
                if y[1] == "":
                    continue
                other = model.build(model.replace_at(node, path, y))
                if e == other or other == e or not e != other:
                    msgs.append("%s equals %s" % (model.show(node), other))
    res.outcome(node[0])
    return msgs


def literal(n):
    if n[0] == "D":
        return L("dictationword", n[3])
    return (n[0], n[1], tuple([literal(k) for k in n[2]]), n[3])


def compile_cases(ctx):
    trees = model.Trees(leaves=(L("a"), D("t"), D()))
    for t in trees.up_to(ctx.pick(4, 5)):
        if has_dictation(t):
            yield {"node": t}
            yield {"node": c05.tag_all(t, "t")}


SPACES = [
    ("trees", judge, tree_cases, "all trees with dictation up to the node bound, all "
     "speech, twice; copies and parts of speech"),
    ("next words", judge, alternative_cases, "dictation between all pairs of 15 parts "
     "in 9 shapes"),
    ("words", judge, word_cases, "7 literals and words that contain them or are parts "
     "of them, in 7 shapes"),
    ("characters", judge, character_cases, "dictated words of up to 2 (3) of 12 "
     "characters"),
    ("large trees", judge, large_cases, "sequences and sets of up to 12 parts with "
     "dictation at each place, dictation in up to 10 other expansions"),
    ("case", judge, case_cases, "words that differ by case"),
    ("references", judge, reference_cases, "worlds of up to 3 rules, joined and not"),
    ("compiling", judge_compile, compile_cases, "all trees up to the node bound"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "rules have to match if dictation only has to match words that the rule doesn't "
        "use, and the rule is unambiguous if dictation is a repeat of such words",
        "the words after references are only looked at in joined trees",
    ]
