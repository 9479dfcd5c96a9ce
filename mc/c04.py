"""
C04: modifications of rules and grammars take effect.

Every sequence of edits up to a depth is applied to real rules, with and without
matching (and therefore caching) before each of them. The rules have to match and
compile exactly like rules newly made from the edited specification.
"""
import itertools

from . import model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C04"
SPEECH = [" ".join(w) for n in (1, 2, 3) for w in
          itertools.product("ab", repeat=n)] + ["c", "a c", "c b", "c c", "A", "b c"]
SHORT = ["a", "b", "a a", "a b", "b a", "a a b", "c", "a c", "c b", "c c"]
NEW = [L("c"), O(L("a")), S(L("a"), L("c")), R(L("b"))]


def set_kids(n, kids, weights=None):
    return (n[0], n[1] if weights is None else tuple(weights), tuple(kids), n[3])


def edits_of(world, new, which=None):
    """Every edit of the rules of a world: (operation, edited world) pairs."""
    for i, (name, visible, root) in enumerate(world):
        if which is not None and i not in which:
            continue

        def put(path, n):
            w = list(world)
            w[i] = (name, visible, model.replace_at(root, path, n))
            return tuple(w)

        for path, n in model.walk(root):
            kind, arg, kids, tag = n
            weighted = kind == "A" and arg is not None
            if kind == "L":
                for text in ("b", "c a"):
                    if text != arg:
                        yield ("text", i, path, text), put(path, L(text, tag))
                if arg.lower() == arg:
                    yield ("case", i, path, True), put(path, LC(arg, tag))
            elif kind == "LC":
                yield ("case", i, path, False), put(path, L(arg, tag))
            elif kind == "Q":
                for k in range(len(world)):
                    if k != arg and k > i:
                        yield ("rename", i, path, k), put(path, Q(k, tag))
            for x in range(len(kids)):
                for e in new:
                    if e in kids:
                        continue
                    # A weight has to be set for new alternatives.
                    ks = list(kids)
                    ks[x] = e
                    yield ("set", i, path, x, e), put(path, set_kids(n, ks))
            if kids and kind in "SAG":
                for x in (0, len(kids)):
                    e = new[0]
                    if e in kids:
                        continue
                    ks = list(kids)
                    ks.insert(x, e)
                    ws = None
                    if weighted:
                        ws = list(arg)
                        ws.insert(x, 1.0)
                    yield ("insert", i, path, x, e), put(path, set_kids(n, ks, ws))
                for x in range(len(kids)):
                    if len(kids) > 1:
                        ks = list(kids)
                        del ks[x]
                        ws = None
                        if weighted:
                            ws = list(arg)
                            del ws[x]
                        yield ("pop", i, path, x), put(path, set_kids(n, ks, ws))
                        yield ("remove", i, path, x), put(path, set_kids(n, ks, ws))
                if not weighted:
                    ks = (new[0], new[-1])
                    yield ("children", i, path, ks), put(path, set_kids(n, ks))
                    if len(kids) >= 2:
                        ks = kids[:1] + (new[0],)
                        yield ("slice", i, path, new[0]), put(path, set_kids(n, ks))
                    ks = kids + (new[0],)
                    yield ("iadd", i, path, new[0]), put(path, set_kids(n, ks))
            if weighted:
                for x in range(len(kids)):
                    for w in (0.0, 3.0):
                        ws = list(arg)
                        ws[x] = w
                        yield ("weight", i, path, x, w), put(path, set_kids(
                            n, kids, ws))
        for e in new:
            yield ("expansion", i, e), put((), e)
        yield ("wrap", i), put((), S(root, L("c")))
        yield ("unwrap", i), put((), root[2][0]) if root[2] else put((), root)
        if len(world) > 1:
            refs = [n[0] for r in world for _, n in model.walk(r[2])
                    if n[0] in "FQ" and n[1] == i]
            if refs and "F" not in refs:
                # References by name find the new rule.
                yield ("newrule", i, new[0]), put((), new[0])


def apply(op, grammar, rules, names):
    kind, i = op[:2]
    rule = rules[i]

    def make(n):
        return model.build(model.spec(n), rules, names)
    if kind == "expansion":
        rule.expansion = make(op[2])
        return
    if kind == "wrap":
        rule.expansion = model.build(S(L("c")))
        # The parts are used in a new tree.
        old = op_state["old"]
        rule.expansion.children.insert(0, old)
        return
    e = model.real_at(rule.expansion, op[2]) if kind not in (
        "unwrap", "newrule") else None
    if kind == "text":
        e.text = op[3]
    elif kind == "case":
        e.case_sensitive = op[3]
    elif kind == "rename":
        e.name = names[op[3]]
    elif kind == "set":
        old = e.children[op[3]]
        new = make(op[4])
        weights = getattr(e, "weights", None)
        w = [v for k, v in weights.items() if k is old or k == old] if weights \
            else []
        e.children[op[3]] = new
        if weights:
            e.set_weight(op[3], w[0])
    elif kind == "insert":
        new = make(op[4])
        if op[3] == len(e.children):
            e.children.append(new)
        else:
            e.children.insert(op[3], new)
        if getattr(e, "weights", None):
            e.set_weight(op[3], 1.0)
    elif kind == "pop":
        e.children.pop(op[3])
    elif kind == "remove":
        e.children.remove(e.children[op[3]])
    elif kind == "children":
        e.children = [make(x) for x in op[3]]
    elif kind == "slice":
        e.children[1:] = [make(op[3])]
    elif kind == "iadd":
        e.children += [make(op[3])]
    elif kind == "weight":
        e.set_weight(op[3], op[4])
    elif kind == "unwrap":
        if rule.expansion.children:
            rule.expansion = rule.expansion.children.pop(0)
    elif kind == "newrule":
        import jsgf
        grammar.remove_rule(rule, ignore_dependent=True)
        rules[i] = jsgf.Rule(rule.name, rule.visible, make(op[2]))
        grammar.add_rule(rules[i])
    else:
        raise ValueError(kind)


op_state = {}


def observe(rules, speech):
    return [tuple([r.matches(s) for s in speech]) for r in rules]


def equal_alternatives(world):
    """Weights of equal alternatives are shared, so those sets are not used."""
    for r in world:
        for _, n in model.walk(r[2]):
            if n[0] == "A" and n[1] is not None and len(set(n[2])) != len(n[2]):
                return True
    return False


def has_equal_kids(world):
    return any([len(set(n[2])) != len(n[2]) for r in world
                for _, n in model.walk(r[2])])


def judge(res, case):
    world = model.spec(case["world"])
    new = model.spec(case.get("new", NEW[:case["new_count"]]))
    which = case.get("which")
    names = [w[0] for w in world]
    speech = case.get("speech") or SPEECH
    msgs = []
    fresh = {}

    def expected(w):
        if w not in fresh:
            g, rules = model.build_world(w)
            fresh[w] = (observe(rules, speech), [r.compile() for r in rules])
            res.states += 1
            res.outcome(fresh[w][0][0].count(True))
        return fresh[w]

    def paths(w, depth):
        if depth == 0:
            yield ()
            return
        for op, w2 in edits_of(w, new, which):
            if equal_alternatives(w2) or (op[0] == "remove" and has_equal_kids(w)):
                continue
            for rest in paths(w2, depth - 1):
                yield ((op, w2),) + rest

    sequences = [[(model.spec(op), model.spec(w)) for op, w in case["sequence"]]] \
        if "sequence" in case else paths(world, case["depth"])
    masks = [case["mask"]] if "mask" in case else \
        list(itertools.product((True, False), repeat=case["depth"]))
    for seq in sequences:
        final, compiled = expected(seq[-1][1])
        for mask in masks:
            g, rules = model.build_world(world)
            for m, (op, w) in zip(mask, seq):
                if m:
                    observe(rules, speech[-1:])
                if op[0] == "wrap":
                    op_state["old"] = rules[op[1]].expansion
                apply(op, g, rules, names)
                res.transitions += 1
            got = observe(rules, speech)
            res.traces += 1
            what = None
            if got != final:
                k = [x != y for x, y in zip(got, final)].index(True)
                j = [x != y for x, y in zip(got[k], final[k])].index(True)
                what = "rule %s %s %r" % (
                    names[k], "matches" if got[k][j] else "doesn't match", speech[j])
            elif [r.compile() for r in rules] != compiled:
                what = "compiled to %s" % [r.compile() for r in rules]
            if what:
                msgs.append("%s: after %s%s it's %s, but %s" % (
                    model.show_world(world),
                    ["%s%s" % ("match, " if m else "", s[0])
                     for m, s in zip(mask, seq)], "", model.show_world(seq[-1][1]),
                    what))
                if len(msgs) > 3:
                    return msgs
    return msgs


def tree_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b")))
    for t in trees.up_to(ctx.pick(4, 5)):
        n = model.size(t)
        depth = ctx.pick(2 if n <= 3 else 1, 3 if n <= 2 else 2 if n <= 4 else 1)
        yield {"world": (("r", True, t),), "depth": depth,
               "new_count": 2 if depth > 1 else 4}


def weight_cases(ctx):
    a, b, c = L("a"), L("b"), O(L("a"))
    for kids in ((a, b), (a, S(a, b)), (b, c), (a, b, R(a))):
        for ws in itertools.product((0.0, 1.0, 2.5), repeat=len(kids)):
            for wrap in (lambda x: x, lambda x: S(x, b), lambda x: R(x)):
                yield {"world": (("r", True, wrap(A(*kids, weights=ws))),),
                       "depth": 1 if ctx.quick else 2, "new_count": 1}


def reference_cases(ctx):
    bodies = [t for t in model.Trees(leaves=(L("a"),)).up_to(ctx.pick(2, 3))]
    for kind in (F, Q):
        x = kind(1)
        for m in (x, S(x, L("b")), O(x), R(x), A(x, L("b")), S(R(x), O(x))):
            for b in bodies:
                w = (("m", True, m), ("x", False, b), ("y", False, L("b")))
                yield {"world": w, "depth": ctx.pick(1, 2), "new_count": 4,
                       "speech": SHORT}
                yield {"world": w, "depth": 2, "new_count": 1, "which": (1,),
                       "speech": SHORT}
        for b in bodies[:3]:
            # Chains of references.
            yield {"world": (("m", True, S(kind(1), L("b"))), ("x", True, O(kind(2))),
                             ("y", False, b)), "depth": ctx.pick(1, 2),
                   "new_count": 2, "speech": SHORT}
            yield {"world": (("m", True, S(kind(1), L("b"))), ("x", True, O(kind(2))),
                             ("y", False, b)), "depth": 2, "new_count": 1,
                   "which": (2,), "speech": SHORT}


EMPTY_WAYS = ("clear", "pop", "remove", "children", "slice")


def empty(e, how):
    if how == "clear":
        e.children.clear()
    elif how == "pop":
        while e.children:
            e.children.pop()
    elif how == "remove":
        while e.children:
            e.children.remove(e.children[0])
    elif how == "children":
        e.children = []
    elif how == "slice":
        e.children[:] = []


def judge_emptied(res, case):
    """Expansions without children are compiled and matched as <NULL>."""
    tree = model.spec(case["tree"])
    empties = [tuple(x) for x in case["empties"]]
    # <NULL> is in each place.
    want = tree
    for p in empties:
        n = model.node_at(want, p)
        want = model.replace_at(want, p, ("A" if n[0] == "A" else n[0],
                                          None if n[0] == "A" else n[1], (N,), n[3]))
    _, fresh = model.build_world((("r", True, want),))
    compiled = fresh[0].compile()
    matches = observe(fresh, SHORT + [""])
    res.states += 1
    res.outcome(compiled[:20])
    msgs = []
    for how in case["how"]:
        for before in ((), ("match",), ("compile",), ("match", "compile")):
            for order in (("compile", "match"), ("match", "compile")):
                _, rules = model.build_world((("r", True, tree),))
                if "match" in before:
                    observe(rules, SHORT[:1])
                if "compile" in before:
                    rules[0].compile()
                for p in empties:
                    empty(model.real_at(rules[0].expansion, p), how)
                res.traces += 1
                for x in order:
                    res.transitions += 1
                    if x == "compile":
                        got, exp = rules[0].compile(), compiled
                    else:
                        got, exp = observe(rules, SHORT + [""]), matches
                    if got != exp:
                        msgs.append("%s: %s on %s (%s before): %s gave %r, not %r" % (
                            model.show(tree), how, empties, before, x, got, exp))
                if [len(model.real_at(rules[0].expansion, p).children)
                        for p in empties] != [0] * len(empties):
                    msgs.append("%s: %s on %s: %s added children" % (
                        model.show(tree), how, empties, order))
                if len(msgs) > 3:
                    return msgs
    return msgs


def emptied_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b")))
    a, b = L("a"), L("b")
    all_trees = list(trees.up_to(ctx.pick(4, 5)))
    all_trees += [A(a, b, weights=(1.0, 2.0)), S(A(a, S(a, b), weights=(2.0, 0.0)), b),
                  O(A(a, b, weights=(1.0, 2.0)), tag="t"), S(O(a, tag="t"), R(b, tag="u")),
                  S(S(a), tag="t"), S(S(a, b), tag="t"), G(a, b, tag="t"),
                  A(S(a, b, tag="t"), K(a, tag="u"), tag="v")]
    for t in all_trees:
        inner = [p for p, n in model.walk(t) if n[2]]
        for p in inner:
            yield {"tree": t, "empties": [p], "how": EMPTY_WAYS}
        for p, q in itertools.combinations(inner, 2):
            if p != q[:len(p)] and q != p[:len(q)]:
                yield {"tree": t, "empties": [p, q], "how": EMPTY_WAYS[:3]}


def judge_assembled(res, case):
    """Parts that were matched on their own are used in larger trees."""
    import jsgf
    tree = model.spec(case["tree"])
    paths = [p for p, _ in model.walk(tree)]
    # How dictation matches depends on the tree, so parts with dictation would have to
    # be invalidated manually (documented).
    own = [p for p in paths if p and (model.node_at(tree, p)[0] == "D" or not [
        1 for _, n in model.walk(model.node_at(tree, p)) if n[0] == "D"])]
    speech = case["speech"]

    def observed(e):
        r = e.rule or jsgf.Rule("r", True, e)
        model.restore_case(tree, e)
        out = []
        for s in speech:
            m = r.matches(s)
            out.append((s, m, [x.current_match for x in model.walk_real(e)] if m else 0,
                        r.matched_tags if m else 0))
        return out
    want = observed(model.build(tree))
    res.states += 1
    res.outcome(len([w for w in want if w[1]]))
    msgs = []

    def assemble(path, matched):
        kind, arg, kids, tag = model.node_at(tree, path)
        if kids:
            cls = {"S": jsgf.Sequence, "G": jsgf.RequiredGrouping, "R": jsgf.Repeat,
                   "A": jsgf.AlternativeSet, "O": jsgf.OptionalGrouping,
                   "K": jsgf.KleeneStar}[kind]
            parts = [assemble(path + (i,), matched) for i in range(len(kids))]
            if case["how"] != "init" and kind in "SAG":
                e = cls()
                if case["how"] == "rule" and not path:
                    jsgf.Rule("r", True, e)
                for x in parts:
                    e.children.append(x)
            else:
                e = cls(*parts)
            for i, w in enumerate(arg or ()):
                e.set_weight(i, w)
        else:
            e = model.build((kind, arg, (), ""))
        e.tag = tag
        if path in matched:
            for s in speech[:3]:
                e.matches(s)
        return e

    for n in range(1, len(own) + 1):
        if n > 2 and n < len(own):
            continue
        for matched in itertools.combinations(own, n):
            res.transitions += len(matched) + len(speech)
            res.traces += 1
            got = observed(assemble((), matched))
            if got != want:
                k = [x != y for x, y in zip(got, want)].index(True)
                msgs.append("%s: after matching %s on their own: %s instead of %s" % (
                    model.show(tree), matched, got[k], want[k]))
                if len(msgs) > 3:
                    return msgs
    return msgs


def assembled_cases(ctx):
    speech = ["a", "b", "a b", "x a", "x b", "a x", "x a b", "b a", "a a b", "x x a b",
              "a x b", "b"]
    d = model.D()
    for t in model.Trees(leaves=(L("a"), L("b"))).up_to(ctx.pick(4, 5)):
        for how in ("init", "append", "rule"):
            yield {"tree": t, "how": how, "speech": speech}
    for t in model.Trees(leaves=(L("a"), d)).up_to(ctx.pick(4, 5), symmetry=False):
        if [1 for _, n in model.walk(t) if n[0] == "D"]:
            for how in ("init", "append", "rule"):
                yield {"tree": t, "how": how, "speech": speech}
    for t in (S(d, A(L("a"), L("b"))), S(d, O(L("a")), L("b")), A(S(L("a"), d), L("b")),
              S(d, A(S(L("a"), L("b")), L("b"))), S(L("a"), d, L("b")),
              S(L("a", "t"), O(d), G(L("b", "u"))),
              A(L("a"), S(L("a"), L("b")), weights=(1, 2))):
        for how in ("init", "append", "rule"):
            yield {"tree": t, "how": how, "speech": speech}


SPACES = [
    ("trees", tree_cases, "all sequences of 2 edits of trees up to 3 nodes and all "
     "edits of trees up to 5 nodes, with all ways of matching in between"),
    ("weights", weight_cases, "edits of weighted sets"),
    ("references", reference_cases, "edits of rules that are referenced"),
]
PARTS = dict([(s[0], judge) for s in SPACES])
PARTS["emptied"] = judge_emptied
PARTS["assembled"] = judge_assembled


def run(ctx):
    for name, cases, bound in SPACES:
        ctx.explore(name, cases(ctx), judge, bound)
    ctx.explore("emptied", emptied_cases(ctx), judge_emptied,
                "all ways of removing all children of 1 or 2 expansions of trees up to 4 "
                "(5) nodes, also after matching and compiling")
    ctx.explore("assembled", assembled_cases(ctx), judge_assembled,
                "trees up to 4 (5) nodes, also with dictation, that are made of parts "
                "which were matched on their own before")
    ctx.assumptions = [
        "parts with dictation that are moved after they were matched aren't judged "
        "(unless it's the dictation itself): they have to be invalidated manually",
        "weighted sets with equal alternatives are excluded: their weights are shared",
        "an expansion is used in one place of one tree only",
    ]
