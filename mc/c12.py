"""
C12: comparisons and hash values are consistent.

All pairs of objects of a universe are compared with what the model says; every short
history of modifications has to end in the same comparisons as making the result anew.
"""
import itertools

from . import model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V, with_tag

PROP = "C12"

RULES = [("x", True, L("a")), ("x", False, L("a")), ("x", True, L("b")),
         ("y", True, L("a")), ("x", True, A(L("a"), L("b"))),
         ("x", True, A(L("b"), L("a")))]


def key(n, rules=RULES):
    """Equal for trees that should be equal."""
    kind, arg, kids, _ = n
    if kind in ("L", "LC"):
        return (kind, arg if kind == "LC" else arg.lower())
    if kind == "F":
        return ("F", rule_key(rules[arg]))
    if kind == "Q":
        return ("Q", rules[arg][0])
    ks = tuple([key(k, rules) for k in kids])
    if kind == "A":
        return ("A", len(ks), frozenset(ks), None if arg is None else
                frozenset(zip(ks, [float(w) for w in arg])))
    return (kind, ks)


def rule_key(rule):
    return (rule[0], rule[1], key(rule[2]))


def make_all(nodes, via=None):
    import jsgf
    rules = [jsgf.Rule(n, v, model.build(e)) for n, v, e in RULES]
    names = [r[0] for r in RULES]
    out = []
    for n in nodes:
        e = model.build(n, rules, names)
        out.append((key(n), e, model.show(n)))
    return out


def universe(small):
    trees = model.Trees(leaves=(L("a"), L("b"), LC("a"), F(0), Q(0)),
                        nary=("S", "A", "G"), min_arity=1, max_arity=2)
    out = list(trees.up_to(3 if small else 4, symmetry=False))
    if not small:
        out = [n for n in out if model.size(n) < 4 or n[0] in "AG"]
    out += [F(i) for i in range(1, len(RULES))] + [Q(3), N, V, LC("A"), L("A")]
    out += [with_tag(L("a"), "t"), S(L("a", "t"), L("b")), S(L("a"), L("b"), tag="t"),
            A(L("a"), L("b"), tag="t"), A(L("a", "t"), L("b", "u"))]
    ab = [L("a"), L("b")]
    for w in itertools.product((0, 1, 2.5), repeat=2):
        for kids in (ab, ab[::-1]):
            out.append(A(*kids, weights=w))
            out.append(S(A(*kids, weights=w), L("c")))
    for kids in itertools.product((L("a"), L("b"), S(L("a"), L("b")),
                                   S(L("b"), L("a"))), repeat=3):
        out.append(A(*kids))
    for inner in (A(*ab), A(*ab[::-1]), A(*ab, weights=(1, 2)),
                  A(*ab[::-1], weights=(2, 1)), A(*ab[::-1], weights=(1, 2))):
        for outer in (lambda t: A(t, L("c")), lambda t: A(L("c"), t),
                      lambda t: A(L("c"), t, weights=(1, 2)),
                      lambda t: A(t, L("c"), weights=(2, 1)), lambda t: R(t),
                      lambda t: A(S(t, L("d")), O(t))):
            out.append(outer(inner))
    return list(dict.fromkeys(out))


def compare(x, y, want, what, msgs):
    got = [x == y, y == x, not (x != y), not (y != x)]
    if got != [want] * 4:
        msgs.append("%s: ==, ==, not !=, not != are %s; expected %s" % (
            what, got, want))
    elif want and hash(x) != hash(y):
        msgs.append("%s: equal with different hash values" % what)


OTHERS = [None, 0, "a", [], (), object()]


def judge(res, case):
    """Compare one tree with all trees."""
    nodes = [model.spec(n) for n in case["nodes"]]
    objs = make_all(nodes)
    me = make_all([model.spec(case["node"])])[0]
    msgs = []
    for k, e, what in objs:
        compare(me[1], e, k == me[0], "%s and %s" % (me[2], what), msgs)
        res.transitions += 1
    for o in OTHERS:
        if me[1] == o or not me[1] != o:
            msgs.append("%s is equal to %r" % (me[2], o))
    h = hash(me[1])
    if hash(me[1]) != h or me[1] != me[1] or not me[1] == me[1]:
        msgs.append("%s is not equal to itself" % me[2])
    if me[1] not in set([me[1]]) or {me[1]: 1}.get(make_all(
            [model.spec(case["node"])])[0][1]) != 1:
        msgs.append("%s is not found in a set or dictionary" % me[2])
    res.states += 1
    res.outcome("equal to %d" % sum([k == me[0] for k, _, _ in objs]))
    return msgs


def cases(ctx):
    u = universe(ctx.quick)
    for n in u:
        yield {"node": n, "nodes": u}


# Objects from the parser and copies are the same kind of objects.

def judge_same(res, case):
    import copy
    import pickle

    import jsgf
    node = model.spec(case["node"])
    k, e, what = make_all([node])[0]
    msgs = []
    compare(e, copy.deepcopy(e), True, what + " and its deep copy", msgs)
    others = [pickle.loads(pickle.dumps(e)), copy.copy(e)]
    for o in others:
        if e != o or hash(o) != hash(e):
            msgs.append("%s is not equal to its copy" % what)
    p1 = jsgf.parse_expansion_string(e.compile())
    p2 = jsgf.parse_expansion_string(e.compile())
    compare(p1, p2, True, what + " parsed twice", msgs)
    q = model.build(read_names(p1), [], RefNames())
    compare(p1, q, True, what + " parsed and made from classes", msgs)
    res.states += 1
    res.transitions += 5
    res.outcome(k[0])
    return msgs


class RefNames(object):
    def __getitem__(self, name):
        return name


def read_names(e):
    return model.read(e)


def same_cases(ctx):
    for n in universe(ctx.quick):
        if not any([x[0] == "LC" for _, x in model.walk(n)]):
            w = [x for _, x in model.walk(n) if x[0] == "A" and x[1]]
            if not any([len(x[2]) < 2 for x in w]):
                yield {"node": n}


# Histories.

def judge_history(res, case):
    """Modify an object and compare the result with a new object."""
    import jsgf
    node = model.spec(case["node"])
    msgs = []
    for seq in itertools.product(edits(node), repeat=case["depth"]):
        n = node
        rules = [jsgf.Rule(x, v, model.build(e)) for x, v, e in RULES]
        e = model.build(n, rules, [r[0] for r in RULES])
        hash(e), e == e, {e: 1}
        for op in seq:
            n2 = edit(n, op)
            if n2 is None:
                continue
            n = n2
            apply(e, op, rules)
            hash(e), e == e
            res.transitions += 1
        fresh = model.build(n, rules, [r[0] for r in RULES])
        what = "%s after %s" % (model.show(node), seq)
        compare(e, fresh, True, what, msgs)
        old = model.build(node, rules, [r[0] for r in RULES])
        compare(e, old, key(n) == key(node), what + " and before", msgs)
        if len(msgs) > 3:
            break
    res.states += 1
    res.traces += 1
    res.outcome(len(list(edits(node))))
    return msgs


def edits(node):
    out = []
    for p, n in model.walk(node):
        if n[0] == "L":
            out += [("text", p, "b"), ("text", p, "q")]
        out.append(("tag", p, "t"))
        if n[0] == "A":
            out.append(("weights", p, 3))
            out.append(("one weight", p, 0))
        if n[0] in "SAG":
            out += [("append", p), ("remove", p), ("reverse", p)]
    return out


def edit(n, op):
    p = op[1]
    try:
        x = model.node_at(n, p)
    except IndexError:
        return None
    if op[0] == "text":
        if x[0] != "L":
            return None
        y = ("L", op[2], (), x[3])
    elif op[0] == "tag":
        y = with_tag(x, op[2])
    elif op[0] == "weights":
        if x[0] != "A" or not distinct(x):
            return None
        y = ("A", tuple([op[2] + i for i in range(len(x[2]))]), x[2], x[3])
    elif op[0] == "one weight":
        if x[0] != "A" or not x[1] or not x[2] or not distinct(x):
            return None
        y = ("A", (op[2],) + x[1][1:], x[2], x[3])
    elif x[0] not in "SAG":
        return None
    elif op[0] == "append":
        if x[1] is not None:
            return None
        y = (x[0], x[1], x[2] + (L("n"),), x[3])
    elif op[0] == "remove":
        if len(x[2]) < 2:
            return None
        y = (x[0], x[1] and x[1][:-1], x[2][:-1], x[3])
    else:
        y = (x[0], x[1] and x[1][::-1], x[2][::-1], x[3])
    n = model.replace_at(n, p, y)
    for _, z in model.walk(n):
        if z[0] == "A" and z[1] and not distinct(z):
            return None         # equal alternatives share a weight
    return n


def distinct(x):
    return len(set([key(k) for k in x[2]])) == len(x[2])


def apply(e, op, rules):
    x = model.real_at(e, op[1])
    if op[0] == "text":
        x.text = op[2]
    elif op[0] == "tag":
        x.tag = op[2]
    elif op[0] == "weights":
        for i in range(len(x.children)):
            x.set_weight(i, op[2] + i)
    elif op[0] == "one weight":
        x.set_weight(0, op[2])
    elif op[0] == "append":
        x.children.append("n")
    elif op[0] == "remove":
        x.children.pop()
    else:
        x.children = list(x.children)[::-1]


def history_cases(ctx):
    a, b, c = L("a"), L("b"), L("c")
    for n in (a, S(a, b), A(a, b), A(a, b, weights=(1, 2)), S(A(a, b), c),
              A(A(a, b), c), A(S(a, b), c, weights=(1, 2)), R(A(a, b)),
              A(A(a, b, weights=(1, 2)), c, weights=(3, 4)), O(S(a, b)),
              S(F(0), A(a, F(1)))):
        for depth in range(1, ctx.pick(4, 5) if model.size(n) < 5 else ctx.pick(3, 4)):
            yield {"node": n, "depth": depth}


# Rules, grammars and imports.

def judge_rules(res, case):
    import jsgf
    msgs = []

    def rules():
        out = []
        for name in ("r", "s"):
            for v in (True, False):
                for cs in (True, False):
                    for t in (L("a"), L("b"), A(L("a"), L("b")), A(L("b"), L("a")),
                              A(L("a"), L("b"), weights=(1, 2)),
                              S(L("a"), L("b")), R(L("a", "t")), R(L("a", "u"))):
                        k = (name, v, cs, key(t))
                        out.append((k, jsgf.Rule(name, v, model.build(t), cs)))
                        cls = jsgf.PublicRule if v else jsgf.HiddenRule
                        out.append((k, cls(name, model.build(t), cs)))
        return out

    def imports():
        return [(n, jsgf.Import(n)) for n in ("p.q", "p.*", "p.q.r", "P.q")]

    def grammars():
        out = []
        bodies = [[], [("r", "a")], [("s", "a")], [("r", "b")],
                  [("r", "a"), ("s", "b")], [("s", "b"), ("r", "a")]]
        for cls in (jsgf.Grammar,):
            for name in ("g", "p.g"):
                for cs in (True, False):
                    for header in (("1.0", "", ""), ("1.0", "UTF-8", "en")):
                        for im in ([], ["p.q"], ["p.*", "p.q"]):
                            for body in bodies:
                                g = cls(name, cs)
                                (g.jsgf_version, g.charset_name,
                                 g.language_name) = header
                                g.add_imports(*[jsgf.Import(i) for i in im])
                                g.add_rules(*[jsgf.PublicRule(*r) for r in body])
                                out.append(((name, cs, header, tuple(im),
                                             tuple(body)), g))
        return out

    make = {"rules": rules, "imports": imports, "grammars": grammars}[case["what"]]
    xs, ys = make(), make()
    i = case["i"]
    k1, x = xs[i]
    for k2, y in ys:
        res.transitions += 1
        what = "%s and %s" % (x, y)
        if case["what"] == "grammars":
            got = [x == y, y == x, not x != y, not y != x]
            if got != [k1 == k2] * 4:
                msgs.append("%s: %s" % (what, got))
        else:
            compare(x, y, k1 == k2, what, msgs)
    for o in OTHERS + [jsgf.Literal("a"), "r", "g"] + same_names(x.name):
        if type(o) in KINDS[case["what"]]:
            continue
        if x == o or o == x or not x != o or not o != x:
            msgs.append("%s is equal to %r" % (x, o))
    res.states += 1
    res.outcome(case["what"])
    return msgs


KINDS = {"rules": (), "imports": (), "grammars": ()}


def same_names(name):
    """Other objects with or about the same name."""
    import jsgf
    from jsgf.ext import Dictation, DictationGrammar
    KINDS.update(rules=(jsgf.Rule, jsgf.PublicRule), imports=(jsgf.Import,),
                 grammars=(jsgf.Grammar, jsgf.RootGrammar, DictationGrammar))
    out = [name, jsgf.Literal(name), jsgf.Sequence(name), Dictation()]
    for cls in (jsgf.Import, jsgf.Grammar, jsgf.NamedRuleRef, jsgf.RootGrammar):
        if cls.valid(name):
            out.append(cls(name=name))
    if jsgf.Rule.valid(name) and "." not in name:
        r = jsgf.PublicRule(name, "a")
        out += [r, jsgf.RuleRef(r)]
    return out


def rule_cases(ctx):
    for what, n in (("rules", 128), ("imports", 4), ("grammars", 144)):
        for i in range(n):
            yield {"what": what, "i": i}


def judge_large(res, case):
    """A large tree, the same one and ones with a single difference."""
    node = model.spec(case["node"])
    msgs = []
    nodes = [node, with_tag(node, "t")]
    for path, n in model.walk(node):
        if n[0] == "L":
            nodes += [model.replace_at(node, path, x)
                      for x in (L("zz"), LC(n[1]), O(n), S(n))]
        kids = n[2]
        if len(kids) > 1 and not n[1]:
            nodes.append(model.replace_at(node, path, n[:2] + (kids[:-1],) + n[3:]))
            nodes.append(model.replace_at(node, path, n[:2] + (kids[::-1],) + n[3:]))
            nodes.append(model.replace_at(node, path,
                                          n[:2] + (kids + kids[:1],) + n[3:]))
        if n[0] == "A" and n[1] is not None:
            w = n[1][:-1] + (n[1][-1] + 0.5,)
            nodes.append(model.replace_at(node, path, (n[0], w) + n[2:]))
            nodes.append(model.replace_at(node, path, (
                n[0], n[1][::-1], kids[::-1]) + n[3:]))
    objs = make_all(nodes)
    me = make_all([node])[0]
    for k, e, what in objs:
        compare(me[1], e, k == me[0], "%s and %s" % (me[2], what), msgs)
        res.transitions += 1
        res.outcome(str(k == me[0]))
    res.states += 1
    return msgs


def large_cases(ctx):
    for t in itertools.chain(model.wide_trees(), model.deep_trees()):
        yield {"node": t}


SPACES = [
    ("large trees", judge_large, large_cases, "trees with up to %d children and of "
     "depth up to %d and all single differences" % (model.WIDE[-1], model.DEEP[-1])),
    ("pairs", judge, cases, "all pairs of trees of a universe"),
    ("copies and parsed", judge_same, same_cases, "all trees of the universe"),
    ("histories", judge_history, history_cases, "all sequences of up to 3 (4) edits"),
    ("rules, grammars, imports", judge_rules, rule_cases, "all pairs"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "tags are not part of comparisons and the order of alternatives doesn't matter",
        "hash values of dictation expansions depend on their ancestors and grammars "
        "are not hashable",
    ]
