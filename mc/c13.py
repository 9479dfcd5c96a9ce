"""
C13: copies are the same as what was copied and independent of it.

Every tree is copied in every way, before and after matching; deep copies are edited in
every single way (and so are the originals), after which the other one must not have
changed. Deep copies of rules and grammars have to work with each other only.
"""
import copy
import itertools

from . import c04, model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V, with_tag

PROP = "C13"
SPEECH = [" ".join(w) for n in (0, 1, 2, 3) for w in itertools.product("ab", repeat=n)]
SPEECH += ["c", "a c", "c a", "A", "a B", "x y"]

SHORT = ["a", "b", "a b", "b b", "A", "c", "a b b"]

DEEP = [("copy.deepcopy", copy.deepcopy), ("copy()", lambda e: e.copy()),
        ("copy(shallow=False)", lambda e: e.copy(shallow=False))]
SHALLOW = [("copy.copy", copy.copy), ("copy(shallow=True)",
                                      lambda e: e.copy(shallow=True))]
RULE = ("x", False, S(L("a"), O(L("b"))))


def data(e):
    """All match data of a tree."""
    return [(x.current_match, x.matching_slice) for x in model.walk_real(e)]


def structure_errors(e, parent=None):
    out = []
    if e.parent is not parent:
        out.append("%s has the parent %s instead of %s" % (e, e.parent, parent))
    for c in e.children:
        out += structure_errors(c, e)
    return out


def make_rule(node, name="r", referenced=None):
    import jsgf
    e = model.build(node, [referenced], ["x"])
    r = jsgf.Rule(name, True, e)
    model.restore_case(node, e)
    return r


def world_of(node):
    """A grammar with a rule r made of a node and the rule x it may reference."""
    import jsgf
    x = jsgf.Rule(RULE[0], RULE[1], model.build(RULE[2]))
    r = make_rule(node, "r", x)
    g = jsgf.Grammar("g")
    g.add_rules(x, r)
    model.restore_case(node, r.expansion)
    return g, r, x


def to_index(name):
    return 0


def judge_copies(res, case):
    node = model.spec(case["node"])
    msgs = []
    what = model.show(node)
    for matched in (None, "a", "a b", "x"):
        for deep, ways in ((True, DEEP), (False, SHALLOW)):
            for wname, way in ways:
                for path, n in model.walk(node):
                    if not deep and path:
                        continue
                    g, r, x = world_of(node)
                    if matched is not None:
                        r.matches(matched)
                    before = data(r.expansion)
                    e = model.real_at(r.expansion, path)
                    old = list(model.walk_real(e))
                    kids = list(e.children)
                    c = way(e)
                    res.transitions += 1
                    w = "%s of %s in %s (matched %r)" % (wname, model.show(n), what,
                                                         matched)
                    if c is e or type(c) is not type(e):
                        msgs.append("%s: is a %s" % (w, type(c).__name__))
                        continue
                    if model.read(c, to_index) != n:
                        msgs.append("%s is %s" % (w, model.show(
                            model.read(c, to_index))))
                    if model.read(r.expansion, to_index) != node:
                        msgs.append("%s changed the original to %s" % (
                            w, model.show(model.read(r.expansion, to_index))))
                    if not (c == e) or c != e or c.compile() != e.compile():
                        msgs.append("%s: not equal" % w)
                    if c.parent is not None or c.rule is not None:
                        msgs.append("%s: parent %s, rule %s" % (w, c.parent, c.rule))
                    refs = [(o, k) for o, k in zip(old, model.walk_real(c))
                            if type(o).__name__ == "RuleRef"]
                    if [1 for o, k in refs if k.referenced_rule is not
                            o.referenced_rule]:
                        msgs.append("%s: references another rule" % w)
                    if not deep:
                        if [k is o for k, o in zip(c.children, kids)] != \
                                [True] * len(kids):
                            msgs.append("%s: has other children" % w)
                        continue
                    new = list(model.walk_real(c))
                    if set(map(id, old)) & set(map(id, new)):
                        msgs.append("%s: shares parts with the original" % w)
                    errors = structure_errors(c) + structure_errors(r.expansion)
                    if errors:
                        msgs.append("%s: %s" % (w, errors[0]))
                    if [d for d in data(c) if d != (None, None)]:
                        msgs.append("%s: has match data %s" % (w, data(c)))
                    if data(r.expansion) != before:
                        msgs.append("%s: changed match data of the original" % w)
                    if [k.rule for k in old if k.rule is not r]:
                        msgs.append("%s: unlinked the original from its rule" % w)
                if len(msgs) > 5:
                    return msgs
    res.states += 1
    res.traces += 1
    res.outcome(node[0])
    return msgs


def judge_language(res, case):
    """Copies match the same speech with the same data, without the other noticing."""
    import jsgf
    node = model.spec(case["node"])
    msgs = []
    what = model.show(node)
    fresh = []
    _, r0, _ = world_of(node)
    for s in SPEECH:
        fresh.append((r0.matches(s), data(r0.expansion), sorted(r0.matched_tags)))
    for first in (None, "a", "a b"):
        g, r, x = world_of(node)
        if first:
            r.matches(first)
        c = copy.deepcopy(r.expansion)
        cr = jsgf.Rule("copied", True, c)
        model.restore_case(node, c)
        cr.grammar = g
        for i, s in enumerate(SPEECH):
            before = data(r.expansion), r.was_matched
            got = (cr.matches(s), data(c), sorted(cr.matched_tags))
            res.transitions += 1
            if got != fresh[i]:
                msgs.append("copy of %s: %r is %s instead of %s" % (
                    what, s, got, fresh[i]))
            if (data(r.expansion), r.was_matched) != before:
                msgs.append("matching %r with the copy of %s changed the original" % (
                    s, what))
            after = data(c)
            r.matches(SPEECH[(i * 5 + 1) % len(SPEECH)])
            if data(c) != after and not has_refs(node):
                msgs.append("matching with %s changed the copy" % what)
        if len(msgs) > 3:
            break
    res.states += 1
    res.traces += 1
    res.outcome(sum([f[0] for f in fresh]))
    return msgs


def has_refs(node):
    return any([n[0] in "FQ" for _, n in model.walk(node)])


def extra_edits(node):
    for path, n in model.walk(node):
        yield ("tag", 0, path, "new")


def judge_independent(res, case):
    """Edit the copy or the original in every way; the other one stays the same."""
    import jsgf
    node = model.spec(case["node"])
    msgs = []
    what = model.show(node)
    world = (("r", True, node),)
    ops = [(op, w[0][2]) for op, w in c04.edits_of(world, c04.NEW[:2])
           if op[0] not in ("wrap", "unwrap", "expansion")]
    ops += [(op, None) for op in extra_edits(node)]
    want = None
    for op, _ in ops:
        for edit_copy in (True, False):
            for first in (False, True):
                r = make_rule(node)
                if first:
                    r.matches("a b")
                c = copy.deepcopy(r.expansion)
                cr = jsgf.Rule("copied", True, c)
                model.restore_case(node, c)
                if first:
                    cr.matches("a")
                edited, other = (cr, r) if edit_copy else (r, cr)
                if op[0] == "tag":
                    model.real_at(edited.expansion, op[2]).tag = op[3]
                else:
                    c04.apply(op, None, [edited], ["r"])
                res.transitions += 1
                got = model.read(other.expansion)
                w = "%s: %s of the %s" % (what, op, "copy" if edit_copy else
                                          "original")
                if got != node:
                    msgs.append("%s changed the other one to %s" % (
                        w, model.show(got)))
                if structure_errors(other.expansion):
                    msgs.append("%s: %s" % (w, structure_errors(other.expansion)[0]))
                if want is None:
                    want = [make_rule(node).matches(s) for s in SPEECH]
                if [other.matches(s) for s in SPEECH] != want:
                    msgs.append("%s changed what the other one matches" % w)
                if len(msgs) > 3:
                    return msgs
    res.states += 1
    res.traces += 1
    res.outcome(len(ops))
    return msgs


# Rules and grammars.

WORLDS = [
    (("r", True, S(L("a"), Q(1))), ("x", False, O(L("b")))),
    (("r", True, A(Q(1), L("b"))), ("x", True, LC("A"))),
    (("r", True, S(Q(1), Q(2))), ("x", False, S(L("a"), Q(2))), ("y", True, K(L("b")))),
    (("r", True, A(L("a", "t"), L("b"), weights=(0, 2))),
     ("x", False, R(L("a", "u"), "v"))),
    (("r", True, R(Q(1))), ("x", False, A(L("a"), L("b"), tag="t"))),
    (("r", False, L("a")),),
]


def grammar_edits(world):
    for i in range(len(world)):
        yield ("disable", i)
        yield ("remove", i)
        yield ("case", i)
        yield ("visible", i)
        yield ("expansion", i)
        yield ("child", i)
        yield ("name", i)
    yield ("add",)
    yield ("import",)
    yield ("gcase",)
    yield ("gname",)
    yield ("header",)


def edit_grammar(op, g, names):
    import jsgf
    if op[0] == "add":
        g.add_rule(jsgf.PublicRule("new", "a"))
    elif op[0] == "import":
        g.add_import(jsgf.Import("p.q"))
    elif op[0] == "gcase":
        g.case_sensitive = True
    elif op[0] == "gname":
        g.name = "other"
    elif op[0] == "header":
        g.language_name = "fr"
    else:
        r = g.get_rule_from_name(names[op[1]])
        if op[0] == "disable":
            g.disable_rule(r)
        elif op[0] == "remove":
            g.remove_rule(r, ignore_dependent=True)
        elif op[0] == "case":
            r.case_sensitive = True
        elif op[0] == "visible":
            r.visible = not r.visible
        elif op[0] == "expansion":
            r.expansion = jsgf.Literal("c")
        elif op[0] == "name":
            r.name = "renamed"
        elif op[0] == "child":
            e = r.expansion
            if e.children:
                e.children[0] = jsgf.Literal("c")
                if getattr(e, "weights", None):
                    e.set_weight(0, 1)
            else:
                e.text = "c"


def describe(g):
    rules = []
    for r in g.rules:
        rules.append((type(r).__name__, r.name, r.visible, r.active, r.case_sensitive,
                      model.read(r.expansion)))
    return (type(g).__name__, g.name, g.case_sensitive, g.jsgf_version, g.charset_name,
            g.language_name, [str(i) for i in g.imports], rules)


def observe(g):
    out = [g.compile()]
    try:
        out.append(g.compile_as_root_grammar())
    except Exception as e:
        out.append(type(e).__name__)
    for s in SHORT:
        try:
            out.append(sorted([r.name for r in g.find_matching_rules(s)]))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def make_grammar(world, active):
    g, rules = model.build_world(world)
    g.jsgf_version, g.charset_name, g.language_name = "1.0", "UTF-8", "en"
    for r, a in zip(rules, active):
        if not a:
            r.disable()
    return g, rules


def judge_grammar(res, case):
    import jsgf
    world = model.spec(case["world"])
    active = case["active"]
    names = [w[0] for w in world]
    msgs = []
    ref, _ = make_grammar(world, active)
    want, seen = describe(ref), observe(ref)
    what = model.show_world(world)

    def check(g, w):
        if describe(g) != want:
            msgs.append("%s is %s instead of %s" % (w, describe(g), want))
        elif observe(g) != seen:
            msgs.append("%s behaves like %s instead of %s" % (w, observe(g), seen))

    for matched in (False, True):
        g, rules = make_grammar(world, active)
        if matched:
            observe(g)
        c = copy.deepcopy(g)
        res.transitions += 1
        w = "deep copy of %s" % what
        check(c, w)
        if not (c == g) or c != g:
            msgs.append("%s: not equal" % w)
        if set(map(id, c.rules)) & set(map(id, g.rules)):
            msgs.append("%s: shares rules" % w)
        for r in c.rules:
            if r.grammar is not c:
                msgs.append("%s: rule %s is linked to another grammar" % (w, r.name))
            for e in model.walk_real(r.expansion):
                if e.rule is not r:
                    msgs.append("%s: %s is linked to another rule" % (w, e))
            for d in r.dependencies:
                if d not in c.rules or not [1 for y in c.rules if y is d]:
                    msgs.append("%s: depends on a rule of the original" % w)
        for op in grammar_edits(world):
            for edit_copy in (True, False):
                g, rules = make_grammar(world, active)
                if matched:
                    observe(g)
                c = copy.deepcopy(g)
                if matched:
                    observe(c)
                edited, other = (c, g) if edit_copy else (g, c)
                edit_grammar(op, edited, names)
                res.transitions += 1
                w = "%s: after %s of the %s, the other one" % (
                    what, op, "copy" if edit_copy else "original")
                check(other, w)
                ref2, _ = make_grammar(world, active)
                edit_grammar(op, ref2, names)
                if describe(ref2) != describe(edited) or \
                        observe(ref2) != observe(edited):
                    msgs.append("%s: %s of the %s: %s instead of %s" % (
                        what, op, "copy" if edit_copy else "original",
                        observe(edited), observe(ref2)))
                if len(msgs) > 3:
                    return msgs
    # A single rule of the grammar.
    for i, name in enumerate(names):
        g, rules = make_grammar(world, active)
        c = copy.deepcopy(rules[i])
        res.transitions += 1
        if c is rules[i] or not c == rules[i] or type(c) is not type(rules[i]) or \
                model.read(c.expansion) != model.read(rules[i].expansion) or \
                c.active != rules[i].active:
            msgs.append("deep copy of rule %s of %s: %s" % (name, what, c))
        if [c.matches(s) for s in SPEECH] != [rules[i].matches(s) for s in SPEECH]:
            msgs.append("deep copy of rule %s of %s matches something else" % (
                name, what))
        c.expansion = jsgf.Literal("c")
        c.disable()
        check(g, "%s after changing the copy of %s" % (what, name))
    res.states += 1
    res.traces += 1
    res.outcome(len(world))
    return msgs


# Spaces.

def copy_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b"), LC("a"), N, V, F(0), Q(0)),
                        nary=("S", "A", "G"), min_arity=1, max_arity=2)
    for t in trees.up_to(ctx.pick(3, 4), symmetry=False):
        yield {"node": t}
        if t[2] or t[0] in "FQN":
            yield {"node": with_tag(t, "t1")}
        if model.size(t) > 1:
            kid = with_tag(t[2][0], "t2")
            yield {"node": (t[0], t[1], (kid,) + t[2][1:], "t1")}
    for t in weighted():
        yield {"node": t}
    for t in (model.D(), model.D("t"), S(L("a"), model.D("t"), tag="u"),
              O(model.D(), "t"), R(S(model.D("t"), L("a"))), A(model.D(), L("b"))):
        yield {"node": t}


def weighted():
    a, b, c = L("a", "t"), L("b"), S(L("a"), LC("b"))
    for kids in ((a, b), (b, c), (a, b, c), (A(a, b, weights=(1, 2)), c)):
        for w in itertools.product((0, 1, 2.5), repeat=len(kids)):
            t = A(*kids, weights=w)
            for n in (t, S(t, L("c")), O(t), R(t), A(t, L("d"), weights=(3, 4))):
                yield n


def language_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b"), LC("a"), F(0), Q(0)),
                        nary=("S", "A"), min_arity=2, max_arity=2)
    for t in trees.up_to(ctx.pick(3, 4)):
        yield {"node": t}
    trees = model.Trees(leaves=(L("a", "t"), L("b", "u")))
    for t in trees.up_to(ctx.pick(4, 5)):
        yield {"node": t}
    for t in weighted():
        yield {"node": t}


def independent_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b"), LC("a")), nary=("S", "A", "G"))
    for t in trees.up_to(ctx.pick(3, 4)):
        yield {"node": t}
    for i, t in enumerate(weighted()):
        if not ctx.quick or i % 3 == 0:
            yield {"node": t}


def grammar_cases(ctx):
    for w in WORLDS:
        for active in itertools.product((True, False), repeat=len(w)):
            yield {"world": w, "active": active}


def judge_rule_copies(res, case):
    """Deep copies of a rule, its expansion and of the expansion in a sequence."""
    import jsgf
    node = model.spec(case["node"])
    msgs = []
    what = model.show(node)
    speech = [" ".join(w) for w in model.large_speech(node)][:case["speech"]]
    for matched in (False, True):
        r = make_rule(node)
        if matched:
            for s in speech:
                if r.matches(s) and s:
                    break
        before = data(r.expansion)
        old = set(map(id, model.walk_real(r.expansion)))
        outer = S(L("x"), node)
        for wname, c, want in (
                ("deepcopy of the rule", copy.deepcopy(r).expansion, node),
                ("deepcopy", copy.deepcopy(r.expansion), node),
                ("copy()", r.expansion.copy(), node),
                ("deepcopy in a list", copy.deepcopy([r.expansion])[0], node),
                ("deepcopy in a sequence", None, outer)):
            original = r.expansion
            if c is None:
                original = model.build(outer)
                model.restore_case(outer, original)
                old = set(map(id, model.walk_real(original)))
                c = copy.deepcopy(original)
            res.transitions += 1
            w = "%s of %s" % (wname, what)
            if model.read(c) != want or model.read(original) != want:
                msgs.append("%s is %s" % (w, model.show(model.read(c))))
            if old & set(map(id, model.walk_real(c))):
                msgs.append("%s shares parts with the original" % w)
            if structure_errors(c) or structure_errors(original):
                msgs.append("%s: %s" % (w, (structure_errors(c) +
                                            structure_errors(original))[0]))
            if [d for d in data(c) if d[1] is not None or d[0]] and \
                    wname != "deepcopy of the rule":
                msgs.append("%s has match data %s" % (w, data(c)))
            if wname.startswith("deepcopy of"):
                if [1 for x in model.walk_real(c) if x.rule is not c.rule or
                        x.rule is r]:
                    msgs.append("%s: is not linked to the copied rule" % w)
            elif want is node:
                c = jsgf.Rule("copied", True, c).expansion
            if want is node:
                model.restore_case(node, c)
                got = [c.rule.matches(s) for s in speech]
                if data(r.expansion) != before:
                    msgs.append("%s: matching changed the original" % w)
                fresh = make_rule(node)
                if got != [fresh.matches(s) for s in speech]:
                    msgs.append("%s matches something else" % w)
        if len(msgs) > 3:
            break
    res.states += 1
    res.traces += 1
    res.outcome(node[0])
    return msgs


def rule_copy_cases(ctx):
    from .c05 import tag_all
    for t in model.Trees(leaves=(L("a"), L("b"), LC("b")), max_arity=2).up_to(
            ctx.pick(5, 6), symmetry=False):
        yield {"node": t, "speech": 4}
    for t in itertools.chain(model.wide_trees(), model.deep_trees()):
        yield {"node": tag_all(t, "t"), "speech": 12}


def judge_emptied(res, case):
    """Expansions whose children were removed are copied as they are."""
    import jsgf
    msgs = []
    tree = model.spec(case["tree"])
    paths = [tuple(p) for p in case["paths"]]

    def shape(e):
        return (type(e).__name__, e.tag, getattr(e, "text", None),
                tuple([shape(c) for c in e.children]))

    for wname, way in DEEP + SHALLOW:
        r = jsgf.Rule("r", True, model.build(tree))
        for p in paths:
            model.real_at(r.expansion, p).children.clear()
        before = shape(r.expansion)
        for e in list(model.walk_real(r.expansion)):
            c = way(e)
            res.transitions += 1
            if shape(c) != shape(e) or c != e or c.compile() != e.compile():
                msgs.append("%s of %s is %s (tags %r and %r)" % (
                    wname, e, c, e.tag, c.tag))
            if c.parent is not None or (wname, way) in DEEP and structure_errors(c):
                msgs.append("%s of %s: wrong parents" % (wname, e))
            if (wname, way) in SHALLOW:
                break       # the children belong to the copy now
            if shape(r.expansion) != before:
                msgs.append("%s of %s changed the original" % (wname, e))
    res.states += 1
    res.outcome(tree[0])
    return msgs


def emptied_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b", "u")))
    for t in trees.up_to(ctx.pick(4, 5)):
        ps = [p for p, n in model.walk(t) if n[0] in "SAG"]
        for p in ps:
            yield {"tree": t, "paths": [p]}
            n = model.node_at(t, p)
            yield {"tree": model.replace_at(t, p, with_tag(n, "t")), "paths": [p]}
        for p, q in itertools.combinations(ps, 2):
            if q[:len(p)] != p:
                yield {"tree": t, "paths": [q, p]}


SPACES = [
    ("emptied", judge_emptied, emptied_cases, "all sequences, groupings and sets of "
     "trees up to 4 (5) nodes without their children"),
    ("rules and large trees", judge_rule_copies, rule_copy_cases, "all trees up to a "
     "larger node bound, with up to %d children and of depth up to %d" % (
         model.WIDE[-1], model.DEEP[-1])),
    ("copies", judge_copies, copy_cases, "all copies of all parts of all trees up to "
     "the node bound, with tags, weights and case, after 4 histories"),
    ("language", judge_language, language_cases, "matches of copies and originals in "
     "turn"),
    ("independence", judge_independent, independent_cases, "all single edits of the "
     "copy or the original, with and without matching"),
    ("grammars", judge_grammar, grammar_cases, "all single edits of deep copied "
     "grammars or their originals"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "references by rule object in copies keep referencing the same rule, also in "
        "copied grammars",
        "match data is not copied",
        "shallow copies have the children of the original",
    ]
