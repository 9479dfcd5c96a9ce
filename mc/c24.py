"""
C24: traversal visits every expansion once, in order, through references if asked to.

Every tree up to a size (with references to other rules) is traversed by the real
functions, with all orders and predicates, and compared with the order of the model.
"""
import itertools

from . import model
from .model import A, D, F, G, K, L, N, O, Q, R, S

PROP = "C24"
PRE, POST = 0, 1

REFS = [L("a"), S(L("c"), L("d")), A(L("c"), O(L("d"))), R(G(L("c")))]
CHAIN = [("r", False, A(L("c"), L("d"))), ("s", True, S(F(0), O(L("e")))),
         ("t", False, S(Q(1), Q(0)))]


def kids_of(world, key, shallow):
    rule, path = key
    n = model.node_at(world[rule][2], path)
    if n[0] in "FQ":
        return [] if shallow else [(n[1], ())]
    return [(rule, path + (i,)) for i in range(len(n[2]))]


def traverse(world, key, order, shallow):
    kids = [k for c in kids_of(world, key, shallow)
            for k in traverse(world, c, order, shallow)]
    return [key] + kids if order == PRE else kids + [key]


def structure(world, key, order, shallow):
    n = model.node_at(world[key[0]][2], key[1])
    below = [structure(world, c, order, shallow)
             for c in kids_of(world, key, shallow)]
    if n[0] in "FQ" and not shallow:
        below = below[0]
    else:
        below = tuple(below)
    return (key, below) if order == PRE else (below, key)


def node(world, key):
    return model.node_at(world[key[0]][2], key[1])


def objects(world, rules):
    """Keys of real expansions by ID, and the other way around."""
    keys, reals = {}, {}
    for i, (w, r) in enumerate(zip(world, rules)):
        for (path, n), x in zip(model.walk(w[2]), model.walk_real(r.expansion)):
            keys[id(x)] = (i, tuple(path))
            reals[(i, tuple(path))] = x
    return keys, reals


def roots(world, keys):
    """Unjoined trees: the root of a key is the root of its rule."""
    return dict([(k, (k[0], ())) for k in keys])


def judge(res, case):
    import jsgf
    world = model.spec(case["world"])
    world = [(w[0], w[1], w[2]) for w in world]
    _, rules = model.build_world(world)
    keys, reals = objects(world, rules)
    main = len(world) - 1
    msgs = []

    def check(what, got, want):
        if got != want:
            msgs.append("%s gives %s instead of %s" % (what, got, want))

    def names(xs):
        return [keys.get(id(x), repr(x)) for x in xs]

    starts = [(main, tuple(p)) for p, _ in model.walk(world[main][2])]
    for key in starts:
        e = reals[key]
        for order, shallow in itertools.product((PRE, POST), (False, True)):
            want = traverse(world, key, order, shallow)
            args = (order, shallow)
            res.transitions += 1
            check("flat_map_expansion%s of %s" % (args, key),
                  names(jsgf.flat_map_expansion(e, order=order, shallow=shallow)), want)
            check("flat_map_expansion%s with a function" % (args,),
                  jsgf.flat_map_expansion(e, lambda x: keys[id(x)], order, shallow),
                  want)
            check("map_expansion%s of %s" % (args, key),
                  jsgf.map_expansion(e, lambda x: keys[id(x)], order, shallow),
                  structure(world, key, order, shallow))
            check("filter_expansion%s of everything" % (args,),
                  names(jsgf.filter_expansion(e, order=order, shallow=shallow)), want)
            check("filter_expansion%s of nothing" % (args,),
                  jsgf.filter_expansion(e, lambda x: None, order, shallow), [])
            for kind in set([node(world, k)[0] for k in want]):
                check("filter_expansion%s of %s in %s" % (args, kind, key),
                      names(jsgf.filter_expansion(
                          e, lambda x: node(world, keys[id(x)])[0] == kind and "y",
                          order, shallow)),
                      [k for k in want if node(world, k)[0] == kind])
            leaves = [k for k in want if not node(world, k)[2]]
            check("collect_leaves%s of %s" % (args, key),
                  names(e.collect_leaves(order, shallow)), leaves)
            # Search for every two expansions.
            for a, b in itertools.product(want, repeat=2):
                calls = []

                def func(x):
                    calls.append(keys[id(x)])
                    return calls[-1] in (a, b) and [1]
                found = jsgf.find_expansion(e, func, order, shallow)
                i = min(want.index(a), want.index(b))
                check("find_expansion%s of %s and %s in %s" % (args, a, b, key),
                      keys.get(id(found)), want[i])
                check("calls of find_expansion%s" % (args,), calls, want[:i + 1])
            calls = []

            def nothing(x):
                calls.append(keys[id(x)])
            check("find_expansion of nothing",
                  jsgf.find_expansion(e, nothing, order, shallow), None)
            check("calls of find_expansion%s of nothing" % (args,), calls, want)
        check("default arguments of %s" % (key,),
              [names(jsgf.flat_map_expansion(e)), names(jsgf.filter_expansion(e)),
               names([jsgf.find_expansion(e)]), names(e.leaves),
               names(e.collect_leaves())],
              [traverse(world, key, PRE, False)] * 2 + [[key]] +
              [[k for k in traverse(world, key, PRE, False)
                if not node(world, k)[2]]] * 2)
        for order in (2, -1, None, "pre"):
            for f in (jsgf.map_expansion, jsgf.flat_map_expansion,
                      jsgf.filter_expansion, jsgf.find_expansion):
                try:
                    f(e, lambda x: None, order)
                    msgs.append("%s accepts order %r" % (f.__name__, order))
                except ValueError:
                    pass
        # Contained literals.
        deep = [node(world, k) for k in traverse(world, key, PRE, False)]
        for text in "abcdez":
            check("%r in %s" % (text, key), jsgf.Literal(text) in e,
                  model.L(text) in deep)
        for k in traverse(world, key, PRE, False):
            check("%s in %s" % (k, key), reals[k] in e, True)
        check("Dictation in %s" % (key,), jsgf.VoidRef() in e, False)
        if msgs:
            break

    # Leaves after every leaf of every tree.
    for key, x in reals.items():
        if not node(world, key)[2]:
            root = (key[0], ())
            leaves = [k for k in traverse(world, root, PRE, False)
                      if not node(world, k)[2]]
            after = [k for k in leaves[leaves.index(key) + 1:] if k != key]
            check("leaves after %s" % (key,), names(x.leaves_after), after)
    # Traversal doesn't change anything.
    for i, (w, r) in enumerate(zip(world, rules)):
        if model.read(r.expansion, lambda n: [y[0] for y in world].index(n)) != w[2]:
            msgs.append("rule %d changed to %s" % (i, r))
    res.states += 1
    res.traces += 1
    res.outcome("%d expansions" % len(reals))
    return msgs[:5]


def judge_saved(res, case):
    """Match data is restored as it was saved."""
    import jsgf
    world = model.spec(case["world"])
    main = len(world) - 1
    msgs = []

    def data(xs):
        return [(x.current_match, x.matching_slice) for x in xs]

    def norm(xs, values):
        # Setting the current match of optional expansions to None makes it "".
        return [("" if m is None and x.is_optional else m, s)
                for x, (m, s) in zip(xs, values)]
    words = sorted(model.words_of(world[main][2], world))
    speech = [" ".join(t) for i in range(1, 4)
              for t in itertools.product(words, repeat=i)]
    lang = model.Language(world)
    matching = [s for s in speech if lang.accepts(world[main][2], tuple(s.split()))]
    for first, second in itertools.product(matching[:3] + [None],
                                           matching[:4] + ["zz", None]):
        _, rules = model.build_world(world)
        rule = rules[main]
        e = rule.expansion
        xs = jsgf.flat_map_expansion(e)
        if first is not None:
            rule.matches(first)
        saved = jsgf.save_current_matches(e)
        old = data(xs)
        if second is not None:
            rule.matches(second)
        else:
            e.reset_for_new_match()
        new = data(xs)
        res.transitions += 1
        for override in (True, False, None):
            jsgf.flat_map_expansion(e, lambda x: x.reset_match_data())
            if second is not None:
                rule.matches(second)
            if override is None:
                jsgf.restore_current_matches(e, saved)
            else:
                jsgf.restore_current_matches(e, saved, override)
            want = [tuple([c if override is False and b is None else b
                           for b, c in zip(o, n)]) for o, n in zip(old, new)]
            if norm(xs, data(xs)) != norm(xs, want):
                msgs.append("matched %r, saved, matched %r, restored (%s): %s instead "
                            "of %s" % (first, second, override, data(xs), want))
        jsgf.restore_current_matches(e, {})
    res.states += 1
    res.traces += 1
    res.outcome("saved")
    return msgs[:5]


def worlds(size, leaves=(L("a"), L("b"), F(0), N), refs=REFS, unary=("O", "R", "G")):
    trees = model.Trees(leaves=leaves, unary=unary, nary=("S", "A"), min_arity=1,
                        max_arity=3)
    for n in trees.up_to(size):
        if any([x[0] in "FQ" for _, x in model.walk(n)]):
            for r in refs:
                yield (("r", False, r), ("m", True, n))
        else:
            yield (("m", True, n),)


def cases(ctx):
    size = ctx.pick(4, 5)
    for w in worlds(size):
        yield {"world": w}
    for w in worlds(size - 1, leaves=(L("a"), Q(0)), refs=REFS):
        yield {"world": w}
    # Expansions without children are leaves.
    for w in worlds(size - 1, leaves=(L("a"), S(), A(), G(), F(0)),
                    refs=[S(), S(A(), L("b"))], unary=("O",)):
        yield {"world": w}
    for w in worlds(ctx.pick(4, 6), leaves=(L("a"), F(2), Q(1), F(0)), refs=[None],
                    unary=("O", "K")):
        n = w[-1][2]
        if any([x[0] in "FQ" for _, x in model.walk(n)]):
            yield {"world": tuple(CHAIN) + (("m", True, n),)}


def distinct(world):
    """Whether no two expansions are equal (they are used as keys)."""
    for i, w in enumerate(world):
        for j, v in enumerate(world):
            for p, x in model.walk(w[2]):
                for q, y in model.walk(v[2]):
                    if (i, p) != (j, q) and x == y:
                        return False
    return True


def saved_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b"), L("c"), F(0)), unary=("O", "R", "G"),
                        nary=("S", "A"), max_arity=3)
    for n in trees.up_to(ctx.pick(5, 6)):
        refs = [x for _, x in model.walk(n) if x[0] == "F"]
        w = (("r", False, S(L("d"), O(L("e")))), ("m", True, n)) if refs else (
            ("m", True, n),)
        if len(refs) < 2 and distinct(w) and \
                model.unambiguous(n, w):
            yield {"world": w}


SPACES = [
    ("traversal", judge, cases, "all trees up to the node bound with references to 4 "
     "rules and a chain of rules; all functions, orders and pairs of expansions "
     "searched for, from every expansion"),
    ("saved matches", judge_saved, saved_cases, "all trees of distinct expansions up to "
     "the node bound, matched before and after"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = ["saved match data is judged for trees without equal expansions "
                       "because expansions are the keys"]
