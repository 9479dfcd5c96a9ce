"""
C25: relations between expansions follow the trees, joined or not.

Every pair of expansions of every world is asked for every relation, in several orders
(earlier answers are stored), in and out of joint tree contexts and before and after
edits, and compared with a model that works on specifications only.
"""
import itertools

from . import model
from .c24 import CHAIN, kids_of, node, objects, traverse
from .model import A, F, G, K, L, N, O, Q, R, S

PROP = "C25"

PAIR = ("is_descendant_of", "mutually_exclusive_of")
SINGLE = ("root_expansion", "is_optional", "is_alternative", "repetition_ancestor",
          "parent", "leaves_after", "matchable_leaves_after")


class Relations(object):
    """The relations of expansions. joined: list of roots of joined trees, in order."""

    def __init__(self, world, joined=()):
        self.world = world
        self.parents = {}
        self._deep = {}
        for i, w in enumerate(world):
            for path, n in model.walk(w[2]):
                if path:
                    self.parents[(i, tuple(path))] = (i, tuple(path[:-1]))
        for r in joined:
            for k in traverse(world, (r, ()), 1, False):
                n = node(world, k)
                if n[0] in "FQ":
                    self.parents[(n[1], ())] = k

    def ancestors(self, k):
        while k in self.parents:
            k = self.parents[k]
            yield k

    def deep(self, k):
        if k not in self._deep:
            self._deep[k] = traverse(self.world, k, 0, False)
        return self._deep[k]

    def parent(self, k):
        return self.parents.get(k)

    def root_expansion(self, k):
        return ([k] + list(self.ancestors(k)))[-1]

    def kinds(self, k):
        return [node(self.world, k)[0]] + [node(self.world, x)[0]
                                           for x in self.ancestors(k)]

    def is_optional(self, k):
        return "O" in self.kinds(k) or "K" in self.kinds(k)

    def many(self, k):
        n = node(self.world, k)
        return n[0] == "A" and len(n[2]) > 1

    def is_alternative(self, k):
        return node(self.world, k)[0] == "A" or any(map(self.many, self.ancestors(k)))

    def repetition_ancestor(self, k):
        for x in self.ancestors(k):
            if node(self.world, x)[0] in "RK":
                return x

    def is_descendant_of(self, a, b):
        return a != b and a in self.deep(b)

    def mutually_exclusive_of(self, a, b):
        root = self.root_expansion(a)
        if root != self.root_expansion(b):
            return False
        for x in self.deep(root):
            if self.many(x):
                found = []
                for k in (a, b):
                    found.append([c for c in kids_of(self.world, x, True)
                                  if k in self.deep(c)][:1])
                if found[0] and found[1] and found[0] != found[1]:
                    return True
        return False

    def leaves_after(self, k):
        leaves = [x for x in self.deep(self.root_expansion(k))
                  if not node(self.world, x)[2]]
        if k not in leaves:
            return []
        return [x for x in leaves[leaves.index(k) + 1:] if x != k]

    def matchable_leaves_after(self, k):
        return [x for x in self.leaves_after(k) if not self.mutually_exclusive_of(k, x)]


def compare(res, world, keys, reals, joined, reverse=False, when=""):
    """Compare all relations of all expansions."""
    rel = Relations(world, joined)
    msgs = []

    def key(x):
        return None if x is None else keys.get(id(x), repr(x))

    order = sorted(reals)
    pairs = list(itertools.product(order, repeat=2))
    if reverse:
        order.reverse()
        pairs.reverse()

    def singles():
        for name in SINGLE:
            for k in order:
                x = getattr(reals[k], name)
                if name.startswith("is_"):
                    got = bool(x)
                elif "leaves" in name:
                    got = [key(y) for y in x]
                else:
                    got = key(x)
                want = getattr(rel, name)(k)
                res.transitions += 1
                if got != want:
                    msgs.append("%s: %s of %s is %s instead of %s"
                                % (when, name, k, got, want))

    if not reverse:
        singles()
    for name in PAIR if reverse else PAIR[::-1]:
        for a, b in pairs:
            got = bool(getattr(reals[a], name)(reals[b]))
            want = getattr(rel, name)(a, b)
            res.transitions += 1
            if got != want:
                msgs.append("%s: %s %s %s is %s" % (when, a, name, b, got))
    if reverse:
        singles()
    return msgs


class Stop(Exception):
    pass


def judge(res, case):
    import jsgf
    world = model.spec(case["world"])
    g, rules = model.build_world(world)
    keys, reals = objects(world, rules)
    main = len(world) - 1
    root = rules[main].expansion
    msgs = []

    def ask(joined, reverse, when):
        msgs.extend(compare(res, world, keys, reals, joined, reverse, when))

    mode = case["mode"]
    if mode == 0:
        ask((), False, "at first")
        with jsgf.JointTreeContext(root):
            ask((main,), False, "joined")
        ask((), True, "after")
    elif mode == 1:
        # The same context object again, and trees of referenced rules joined first.
        context = jsgf.JointTreeContext(root)
        with context:
            ask((main,), True, "joined")
        ask((), False, "after")
        with context:
            ask((main,), False, "joined again")
        for i in range(main - 1, -1, -1):
            inner = jsgf.JointTreeContext(rules[i].expansion)
            with inner:
                ask((i,), False, "%d joined" % i)
                with context:
                    ask((i, main), True, "%d and all joined" % i)
                ask((i,), True, "%d joined after" % i)
            with context:
                with inner:
                    ask((main, i), False, "all and %d joined" % i)
                    with context:
                        ask((main, i, main), False, "all, %d and all joined" % i)
                ask((main,), True, "all joined after")
        ask((), True, "after all")
    else:
        try:
            with jsgf.JointTreeContext(root):
                raise Stop()
        except Stop:
            pass
        ask((), False, "after an exception")
    res.states += 1
    res.traces += 1
    res.outcome("%d expansions" % len(reals))
    return msgs[:5]


def judge_unresolved(res, case):
    """Joining trees with references to missing rules raises errors and joins nothing."""
    import jsgf
    world = model.spec(case["world"])
    g, rules = model.build_world(world)
    keys, reals = objects(world, rules)
    main = len(world) - 1
    bad = [k for k, x in reals.items() if isinstance(x, jsgf.NamedRuleRef) and
           tuple(k) == tuple(model.spec(case["ref"]))]
    msgs = []
    x = reals[bad[0]]
    name, x.name = x.name, "missing"
    context = jsgf.JointTreeContext(rules[main].expansion)
    try:
        with context:
            msgs.append("no error")
    except jsgf.GrammarError:
        pass
    x.name = name
    msgs.extend(compare(res, world, keys, reals, (), False, "after the error"))
    with context:
        msgs.extend(compare(res, world, keys, reals, (main,), False, "joined"))
    msgs.extend(compare(res, world, keys, reals, (), True, "after"))
    res.states += 1
    res.traces += 1
    res.outcome("unresolved")
    return msgs[:5]


EDITS = ("append", "remove", "replace", "wrap", "swap")


def edits(world):
    """All edits of all expansions with children: (kind, rule, path, index)."""
    for i, w in enumerate(world):
        for path, n in model.walk(w[2]):
            if n[0] in "SGA":
                yield "append", i, path, 0
                for j in range(len(n[2])):
                    if len(n[2]) > 1:
                        yield "remove", i, path, j
                    if j:
                        yield "swap", i, path, j
            for j in range(len(n[2])):
                yield "replace", i, path, j
                yield "wrap", i, path, j


def apply_edit(world, rules, edit):
    """Edit the real expansion; returns the new world."""
    import jsgf
    kind, i, path, j = edit
    n = model.node_at(world[i][2], path)
    e = model.real_at(rules[i].expansion, path)
    kids = list(n[2])
    if kind == "append":
        kids.append(L("x"))
        e.children.append(jsgf.Literal("x"))
    elif kind == "remove":
        del kids[j]
        e.children.pop(j)
    elif kind == "replace":
        kids[j] = A(L("x"), O(L("y")))
        e.children[j] = jsgf.AlternativeSet(
            jsgf.Literal("x"), jsgf.OptionalGrouping(jsgf.Literal("y")))
    elif kind == "wrap":
        kids[j] = A(K(kids[j]), L("x"))
        child = e.children[j]
        e.children[j] = jsgf.AlternativeSet(jsgf.KleeneStar(child), jsgf.Literal("x"))
    else:
        kids[0], kids[j] = kids[j], kids[0]
        children = list(e.children)
        children[0], children[j] = children[j], children[0]
        e.children = children
    w = world[i]
    new = (n[0], n[1], tuple(kids), n[3])
    world = list(world)
    world[i] = (w[0], w[1], model.replace_at(w[2], path, new))
    return tuple(world)


def judge_edited(res, case):
    """Relations follow edits after calculations are invalidated as documented."""
    import jsgf
    world = model.spec(case["world"])
    old = world
    main = len(world) - 1
    msgs = []
    for edit in edits(world):
        world = old
        g, rules = model.build_world(world)
        root = rules[main].expansion
        keys, reals = objects(world, rules)
        joint = case["joint"]
        if joint:
            with jsgf.JointTreeContext(root):
                msgs.extend(compare(res, world, keys, reals, (main,), False, "before"))
        msgs.extend(compare(res, world, keys, reals, (), False, "before"))
        world = apply_edit(world, rules, edit)
        for r in rules:
            jsgf.map_expansion(r.expansion, jsgf.Expansion.invalidate_calculations)
        if joint:
            with jsgf.JointTreeContext(root):
                jsgf.map_expansion(root, jsgf.Expansion.invalidate_calculations)
        keys, reals = objects(world, rules)
        msgs.extend(compare(res, world, keys, reals, (), True, "after %s" % (edit,)))
        with jsgf.JointTreeContext(root):
            msgs.extend(compare(res, world, keys, reals, (main,), True,
                                "joined after %s" % (edit,)))
        res.traces += 1
        if msgs:
            break
    res.states += 1
    res.outcome("edited")
    return msgs[:5]


REFS = [L("a"), A(L("c"), L("d")), S(A(L("c")), O(L("d"))), K(A(L("c"), R(L("d"))))]


def worlds(size, leaves, refs, unary=("O", "R", "K"), min_arity=1):
    trees = model.Trees(leaves=leaves, unary=unary, nary=("S", "A"),
                        min_arity=min_arity, max_arity=3)
    for n in trees.up_to(size):
        if any([x[0] in "FQ" for _, x in model.walk(n)]):
            for r in refs:
                yield (("r", False, r), ("m", True, n))
        else:
            yield (("m", True, n),)


def chains(size):
    """Rules that refer to rules that refer to rules, several times."""
    trees = model.Trees(leaves=(L("a"), F(2), Q(1), F(0)), unary=("O",),
                        nary=("S", "A"), min_arity=1, max_arity=2)
    for n in trees.up_to(size):
        if any([x[0] in "FQ" for _, x in model.walk(n)]):
            yield tuple(CHAIN) + (("m", True, n),)


def all_worlds(ctx):
    for w in worlds(ctx.pick(4, 5), (L("a"), L("b"), F(0)), REFS):
        yield w
    for w in worlds(ctx.pick(5, 6), (L("a"), Q(0)), REFS[1:3], ("K",), 2):
        yield w
    for w in chains(ctx.pick(4, 5)):
        yield w


def cases(ctx):
    for w in all_worlds(ctx):
        for mode in (0, 1, 2) if len(w) > 1 else (0,):
            yield {"world": w, "mode": mode}


def unresolved_cases(ctx):
    for ws in (worlds(ctx.pick(4, 5), (L("a"), Q(0), F(0)), REFS[1:2], ("O",)),
               chains(ctx.pick(3, 4))):
        for w in ws:
            for i, r in enumerate(w):
                for path, n in model.walk(r[2]):
                    if n[0] == "Q" and i in used(w):
                        yield {"world": w, "ref": (i, path)}


def used(w):
    return set([k[0] for k in traverse(w, (len(w) - 1, ()), 0, False)])


def edited_cases(ctx):
    for joint in (True, False):
        for w in worlds(ctx.pick(4 if joint else 3, 5), (L("a"), Q(0)),
                        REFS[1:ctx.pick(2, 3)], ("O",)):
            yield {"world": w, "joint": joint}
    for w in chains(ctx.pick(3, 4)):
        yield {"world": w, "joint": True}


SPACES = [
    ("relations", judge, cases, "all pairs of expansions of all trees up to the node "
     "bound with references to 4 rules and a chain of rules, alone, joined, joined in "
     "nested contexts and after exceptions; 2 orders of queries"),
    ("unresolved references", judge_unresolved, unresolved_cases,
     "every reference of every tree to a missing rule"),
    ("edits", judge_edited, edited_cases, "every edit of every expansion of all trees "
     "up to the node bound after asking for all relations, with calculations "
     "invalidated"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = ["calculations are invalidated after edits, as documented",
                       "the tree of a rule that is referenced several times is joined "
                       "to the last reference in post-order"]
