"""
C18: generated strings are exactly those that the rule accepts.

The random module is replaced by a controlled one and every sequence of random choices
(within bounds) is explored on the real code. Probabilities of the executions are added
up, so that the chances of alternatives are known exactly.
"""
import itertools
import random
from fractions import Fraction

from . import c13, model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C18"
LIMIT = 60          # controlled choices per execution
MAX_RUNS = 6000
BELOW_ONE = 1 - 2.0 ** -53


class Choices(object):
    """One execution: a prefix of choices is replayed, the first one is used after."""

    def __init__(self, prefix, grid):
        self.prefix = prefix
        self.grid = grid        # [(value of random(), probability)]
        self.taken = []
        self.sizes = []
        self.p = Fraction(1)

    def index(self, n):
        i = len(self.taken)
        if i >= LIMIT:
            return i % n
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(k)
        self.sizes.append(n)
        return k

    def choose(self, options):
        """Choose one of several (value, probability)."""
        v, p = options[self.index(len(options))]
        self.p *= p
        return v


ACTIVE = []
ORIGINAL = {}


def uniform_options(values):
    values = list(values)
    return [(v, Fraction(1, len(values))) for v in values]


class Controlled(object):
    """Replacements of the functions of the random module."""

    @staticmethod
    def random(c):
        return c.choose(c.grid)

    @staticmethod
    def choice(c, seq):
        if not len(seq):
            raise IndexError("Cannot choose from an empty sequence")
        return seq[c.choose(uniform_options(range(len(seq))))]

    @staticmethod
    def randrange(c, *args):
        return c.choose(uniform_options(range(*args)))

    @staticmethod
    def randint(c, a, b):
        return c.choose(uniform_options(range(a, b + 1)))

    @staticmethod
    def uniform(c, a, b):
        return a + (b - a) * c.choose(c.grid)

    @staticmethod
    def getrandbits(c, k):
        return c.choose(uniform_options(range(1 << k))) if k < 8 else \
            int(c.choose(c.grid) * (1 << k))

    @staticmethod
    def choices(c, population, weights=None, cum_weights=None, k=1):
        n = len(population)
        if cum_weights is not None:
            weights = [b - a for a, b in zip([0] + list(cum_weights), cum_weights)]
        if weights is None:
            weights = [1] * n
        total = Fraction(sum(map(Fraction, weights)))
        options = [(x, Fraction(w) / total) for x, w in zip(population, weights)
                   if w > 0]
        return [c.choose(options) for _ in range(k)]

    @staticmethod
    def sample(c, population, k):
        return list(c.choose(uniform_options(itertools.permutations(population, k))))

    @staticmethod
    def shuffle(c, x):
        x[:] = list(c.choose(uniform_options(itertools.permutations(x))))


def install():
    """Has to be called before jsgf is imported."""
    for name in [n for n in vars(Controlled) if not n.startswith("_")]:
        ORIGINAL[name] = getattr(random, name)

        def f(*args, **kw):
            name = kw.pop("_verif_name")
            if ACTIVE:
                return getattr(Controlled, name)(ACTIVE[-1], *args, **kw)
            return ORIGINAL[name](*args, **kw)

        def bind(f=f, name=name):
            return lambda *args, **kw: f(*args, _verif_name=name, **kw)
        setattr(random, name, bind())

    class Random(random.Random):
        pass
    for name in ORIGINAL:
        setattr(Random, name, staticmethod(getattr(random, name)))
    random.Random = Random
    random.SystemRandom = Random


def explore(f, grid):
    """All executions of f: (result, probability)."""
    prefix = []
    runs = 0
    while prefix is not None:
        c = Choices(prefix, grid)
        ACTIVE.append(c)
        try:
            result = f()
        finally:
            ACTIVE.pop()
        yield result, c.p
        runs += 1
        if runs > 20 * MAX_RUNS:
            raise RuntimeError("too many executions")
        taken = list(c.taken)
        sizes = list(c.sizes)
        while taken and taken[-1] + 1 == sizes[len(taken) - 1]:
            taken.pop()
        if taken:
            taken[-1] += 1
            prefix = taken
        else:
            prefix = None


def points(n):
    """The middles of n intervals, and the ends of [0, 1), which never happen."""
    return [((2 * i + 1) / (2.0 * n), Fraction(1, n)) for i in range(n)] + \
        [(0.0, Fraction(0)), (BELOW_ONE, Fraction(0))]


GRIDS = [
    [(x, Fraction(0)) for x in (0.0, 0.07, 0.2, 0.3, 0.45, 0.6, 0.75, 0.9, BELOW_ONE)],
    [(x, Fraction(0)) for x in (0.0, 0.2, 0.3, 0.6, 0.9, BELOW_ONE)],
    [(x, Fraction(0)) for x in (0.2, 0.3, 0.9)],
    [(x, Fraction(0)) for x in (0.26, 0.9)],
]
COUNTS = {0: [1, 4, 3, 2, 2, 1, 1, 1, 1], 1: [1, 3, 2, 1, 1, 1], 2: [3, 2, 1],
          3: [2, 1]}


def estimate(n, world, grid):
    """The number of executions with a grid."""
    kind, arg, kids, _ = n
    if kind in "SG" and kids:
        out = 1
        for k in kids:
            out *= estimate(k, world, grid)
        return out
    if kind == "A":
        if arg is not None:
            return len(GRIDS[grid]) * max([estimate(k, world, grid) for k in kids])
        return sum([estimate(k, world, grid) for k in kids])
    if kind == "O":
        return 2 * estimate(kids[0], world, grid)
    if kind in "RK":
        x = estimate(kids[0], world, grid)
        return sum([x ** c for c in COUNTS[grid]])
    if kind in "FQ":
        return estimate(world[arg][2], world, grid)
    return 1


def products(a, b):
    return frozenset([x + y for x in a for y in b])


def producible(n, world, repeats):
    """What can be generated with up to a number of repetitions."""
    kind, arg, kids, _ = n
    if kind in ("L", "LC"):
        return frozenset([tuple(arg.split())])
    if kind in ("S", "G"):
        out = frozenset([()])
        for k in kids:
            out = products(out, producible(k, world, repeats))
        return out
    if kind == "A":
        return frozenset().union(*[producible(k, world, repeats)
                                   for _, k in model.live_kids(n)])
    if kind == "O":
        return producible(kids[0], world, repeats) | {()}
    if kind in ("R", "K"):
        x = producible(kids[0], world, repeats)
        out, cur = (frozenset([()]) if kind == "K" else frozenset()), frozenset([()])
        for _ in range(repeats - (1 if kind == "K" else 0)):
            cur = products(cur, x)
            out |= cur
        return out
    if kind in "FQ":
        return producible(world[arg][2], world, repeats)
    return frozenset([()])


def chances(n, world):
    """The documented probability of every string."""
    kind, arg, kids, _ = n
    if kind in ("L", "LC"):
        return {tuple(arg.split()): Fraction(1)}
    if kind in ("S", "G"):
        out = {(): Fraction(1)}
        for k in kids:
            new = {}
            for (x, p), (y, q) in itertools.product(out.items(),
                                                    chances(k, world).items()):
                new[x + y] = new.get(x + y, 0) + p * q
            out = new
        return out
    if kind == "A":
        ws = [Fraction(w) for w in arg] if arg is not None else [Fraction(1)] * len(kids)
        out = {}
        for w, k in zip(ws, kids):
            for x, p in chances(k, world).items():
                if w:
                    out[x] = out.get(x, 0) + p * w / sum(ws)
        return out
    if kind in "FQ":
        return chances(world[arg][2], world)
    return {(): Fraction(1)}


def state(rules):
    return [(r.name, r.visible, r.active, r.compile(), r.was_matched, r.matched_tags,
             model.read(r.expansion, c13.to_index), c13.data(r.expansion))
            for r in rules]


def judge(res, case):
    world = model.spec(case["world"])
    node = world[0][2]
    msgs = []
    what = model.show_world(world)
    grammar, rules = model.build_world(world)
    rule = rules[0]
    lang = model.Language(world)
    exact = model.unambiguous(node, world)
    res.states += 1
    for speech in case.get("speech", ["a b", "b"]):
        if rule.matches(speech):
            break
    before = state(rules)
    if case.get("n"):
        grid, repeats = points(case["n"]), None
    else:
        for i, grid in enumerate(GRIDS):
            if estimate(node, world, i) <= case.get("max", MAX_RUNS):
                break
        else:
            res.outcome("too many executions")
            return []
        repeats = max(COUNTS[i])
    got = {}
    for method in (rule.generate, rule.expansion.generate):
        seen = {}
        for text, p in explore(method, grid):
            res.transitions += 1
            if text not in seen:
                words = tuple(text.split())
                if text != " ".join(words):
                    msgs.append("%s: generated %r with extra whitespace" % (what, text))
                if not lang.accepts(node, words):
                    msgs.append("%s: generated %r" % (what, text))
            seen[text] = seen.get(text, 0) + p
            if len(msgs) > 3:
                return msgs
        res.traces += len(seen)
        if got and set(seen) != set(got):
            msgs.append("%s: the rule and the expansion generate other strings: "
                        "%s, %s" % (what, sorted(seen), sorted(got)))
        got = seen
    if case.get("n"):
        want = dict([(" ".join(x), p) for x, p in chances(node, world).items()])
        if got != want:
            msgs.append("%s: chances are %s instead of %s" % (
                what, sorted(got.items()), sorted(want.items())))
    else:
        want = set([" ".join(x) for x in producible(node, world, repeats)])
        # The grids don't hit every alternative of larger weighted sets.
        fine = not [1 for _, x in model.walk(node) if x[1] and x[0] == "A" and
                    len(x[2]) > 3]
        if set(got) - want or (fine and want - set(got)):
            msgs.append("%s: generated %s but not %s" % (
                what, sorted(set(got) - want)[:4], sorted(want - set(got))[:4]))
    res.outcome("%2d strings" % min(len(got), 20))
    if state(rules) != before:
        msgs.append("%s: generating changed it: %s instead of %s" % (
            what, state(rules), before))
    for text in sorted(got)[:case.get("rematch", 12)]:
        if exact and not rule.matches(text):
            msgs.append("%s: doesn't match the generated string %r" % (what, text))
    # Disabled rules generate nothing.
    rule.disable()
    for text, _ in itertools.islice(explore(rule.generate, grid), 3):
        if text != "":
            msgs.append("%s: generated %r but it is disabled" % (what, text))
    return msgs


def one(node, **kw):
    case = {"world": (("r", True, node),)}
    case.update(kw)
    return case


def tree_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b"), N))
    for t in trees.up_to(ctx.pick(5, 6)):
        yield one(t, max=ctx.pick(400, 4000), rematch=4)
    for t in model.Trees(leaves=(L("a b"), LC("C")), unary=("O", "R", "K", "G"),
                         nary=("S", "A", "G"), min_arity=1).up_to(
                             ctx.pick(4, 5), symmetry=False):
        yield one(t, max=1000, rematch=4)


TEXTS = ["x-ray", "it's", "a.b", "don't-stop", "a1", "42", "A", "Ab cD", "\u00e9t\u00e9",
         "a_b", "a/b", "a&b", "@", "a,b", "a:b", "a!", "?", "-", "'", "x--y", "%s", "a\u2019b",
         "the end", "stra\u00dfe", "\u0416", "\u4f60\u597d", "1.5", "e-mail x-ray"]


def text_cases(ctx):
    for text in TEXTS:
        for t in model.Trees(leaves=(L(text.lower()), LC(text))).up_to(ctx.pick(2, 3),
                                                                  symmetry=False):
            yield one(t, speech=[text], max=1000, rematch=4)
        yield one(S(L(text.lower()), O(L("b"))), speech=[text], max=1000)
        yield one(A(L("b"), LC(text), weights=(1, 2)), speech=[text], max=1000)


def name_leaves(t):
    """Use a different literal for each leaf."""
    names = iter("abcdefghijklmn")

    def rec(n):
        if n[0] == "L":
            return L(next(names))
        return (n[0], n[1], tuple([rec(k) for k in n[2]]), n[3])
    return rec(t)


def lcm(*xs):
    out = 1
    for x in xs:
        a, b = out, int(x)
        while b:
            a, b = b, a % b
        out = out * int(x) // a
    return out


def chance_cases(ctx):
    """The chances of alternatives: all weights, sets in sets and sequences."""
    weights = [0, 1, 2, 3, 0.5]
    for n in ctx.pick((1, 2, 3), (1, 2, 3, 4)):
        for ws in itertools.product(weights, repeat=n):
            if not sum(ws):
                continue
            t = A(*[L(x) for x in "abcd"[:n]], weights=ws)
            yield one(t, n=lcm(2 * sum(ws), n, ctx.pick(25, 125)))
    # Chances that aren't whole numbers of some small fraction.
    for ws in [(1, 1, 198), (1, 999), (998, 1, 1), (1, 2, 4), (1, 1, 1), (1, 1, 1, 4),
               (1, 1, 9), (1.5, 1, 0.5), (0.25, 100, 3)]:
        for order in sorted(set(itertools.permutations(ws))):
            total = lcm(*[x.denominator for x in map(Fraction, order)]) * \
                sum(map(Fraction, order))
            yield one(A(*[L(x) for x in "abcd"[:len(order)]], weights=order),
                      n=lcm(total) * -(-ctx.pick(2000, 30000) // int(total)))
    for n in range(1, ctx.pick(9, 20)):
        yield one(A(*[L("w%d" % i) for i in range(n)]), n=2 * n)
        for pick in range(n):
            ws = [3 if i == pick else (0 if i % 3 == 2 else 1) for i in range(n)]
            yield one(A(*[L("w%d" % i) for i in range(n)], weights=ws), n=sum(ws))
    trees = model.Trees(leaves=(L("a"),), unary=("G",), nary=("S", "A"), max_arity=3)
    some = [(1, 2, 1), (2, 0, 1), (1, 1, 4)]
    for t in trees.up_to(ctx.pick(6, 7)):
        t = name_leaves(t)
        sets = [p for p, x in model.walk(t) if x[0] == "A"]
        if not sets:
            continue
        for mask in range(1 << len(sets)):
            for ws in some if mask else some[:1]:
                u, sizes = t, [2]
                for i, p in enumerate(sets):
                    x = model.node_at(u, p)
                    sizes.append(len(x[2]))
                    if mask & (1 << i):
                        w = ws[:len(x[2])]
                        sizes.append(sum(w))
                        u = model.replace_at(u, p, (x[0], tuple(w), x[2], x[3]))
                if lcm(*sizes) ** len(sets) < 3000:
                    yield one(u, n=lcm(*sizes))


def weighted_cases(ctx):
    contexts = [lambda t: t, lambda t: S(L("c"), t), lambda t: O(t), lambda t: R(t),
                lambda t: K(S(t, L("c"))), lambda t: A(t, L("c"), weights=(1, 0)),
                lambda t: A(L("c"), t, weights=(0.25, 1))]
    kids = [L("a"), S(L("a"), L("b")), O(L("b")), R(L("a")), A(L("a"), L("b"))]
    for ks in itertools.product(kids, repeat=2):
        if ks[0] == ks[1]:
            continue
        for ws in itertools.product((0, 1, 2.5), repeat=2):
            if sum(ws):
                for c in contexts:
                    yield one(c(A(*ks, weights=ws)), max=ctx.pick(500, 4000), rematch=4)


def reference_cases(ctx):
    mains = [lambda r: r, lambda r: S(r, r), lambda r: S(L("c"), O(r)),
             lambda r: R(r), lambda r: A(r, L("c")), lambda r: K(S(r, L("c"))),
             lambda r: A(S(r, L("c")), r, weights=(1, 2))]
    bodies = list(model.Trees(leaves=(L("a"), L("b"))).up_to(ctx.pick(3, 4)))
    bodies += [A(L("a"), L("b"), weights=w) for w in ((1, 2), (0, 1), (3, 0))]
    for m, b in itertools.product(mains, bodies):
        for kind in (F, Q):
            for link in (None, F, Q):
                world = [("m", True, m(kind(1))), ("x", False, b)]
                if link:
                    world[1] = ("x", False, S(link(2), O(link(2))))
                    world.append(("y", True, b))
                yield {"world": tuple(world), "max": ctx.pick(300, 3000), "rematch": 3}


def large_cases(ctx):
    for t in itertools.chain(model.wide_trees(), model.deep_trees()):
        if not any([x[0] == "V" for _, x in model.walk(t)]):
            yield one(t, max=ctx.pick(600, 6000), rematch=4)


def judge_errors(res, case):
    """Weights that don't allow anything, or not for all alternatives."""
    import jsgf
    kids = [model.build(model.spec(k)) for k in case["kids"]]
    a = jsgf.AlternativeSet(*kids)
    for i, w in enumerate(case["weights"]):
        if w is not None:
            a.set_weight(i, w)
    e = {"alone": lambda x: x, "sequence": lambda x: jsgf.Sequence("c", x),
         "repeat": jsgf.Repeat, "star": lambda x: jsgf.Sequence(jsgf.KleeneStar(x)),
         "optional": jsgf.OptionalGrouping}[case["context"]](a)
    r = jsgf.Rule("r", True, e)
    msgs = []
    res.states += 1

    def f():
        try:
            return r.generate()
        except jsgf.GrammarError:
            return "error"
    for text, _ in explore(f, GRIDS[1]):
        res.transitions += 1
        if case["context"] == "star" and text == "":
            continue
        if text != "error":
            msgs.append("%s: generated %r" % (r, text))
            break
    res.outcome(text)
    return msgs


def error_cases(ctx):
    for kids in itertools.permutations([L("a"), L("b"), O(L("a"))], 2):
        for weights in ((0, 0), (None, 1), (1, None), (0, None)):
            for context in ("alone", "sequence", "repeat", "star", "optional"):
                yield {"kids": kids, "weights": weights, "context": context}


SPACES = [
    ("texts", judge, text_cases, "literals with all kinds of characters in small trees"),
    ("trees", judge, tree_cases, "all trees up to the node bound, all random choices"),
    ("chances", judge, chance_cases, "all weights in {0, 0.5, 1, 2, 3} of up to 3 (4) "
     "alternatives, sets and sequences of sets; exact probabilities"),
    ("weights", judge, weighted_cases, "weighted sets in 7 contexts"),
    ("references", judge, reference_cases, "worlds of up to 3 rules"),
    ("large trees", judge, large_cases, "trees with up to %d children and of depth up "
     "to %d" % (model.WIDE[-1], model.DEEP[-1])),
    ("errors", judge_errors, error_cases, "weights that are 0 or missing"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "rules with <VOID> or references to disabled rules are not judged",
        "random() is explored on a grid of values that includes 0 and the largest "
        "number below 1; repeats are explored up to 2-4 repetitions",
        "randomness comes from Python's random module",
    ]
