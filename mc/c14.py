"""
C14: pickled objects come back the same.

Every tree is pickled from every one of its nodes with every protocol, before and after
matching; grammars, rules and imports likewise. What is unpickled has to be the same,
separate from the original and behave the same under further operations.
"""
import base64
import copy
import itertools
import json
import os
import pickle
import subprocess
import sys

from . import c13, core, model
from .c13 import SHORT, SPEECH, data, structure_errors
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V, with_tag

PROP = "C14"
PROTOCOLS = range(pickle.HIGHEST_PROTOCOL + 1)


def repetitions(e):
    """All data of repetitions of a tree."""
    import jsgf
    out = []
    for x in model.walk_real(e):
        if isinstance(x, jsgf.Repeat):
            out.append((x.repetitions_matched,
                        [(x.get_expansion_matches(y), x.get_expansion_slices(y))
                         for c in x.children for y in model.walk_real(c)]))
    return out


def relations(e):
    xs = list(model.walk_real(e))
    return [(x.mutually_exclusive_of(y), x.is_descendant_of(y), x.is_optional)
            for x in xs for y in xs]


def state_of(e):
    return (model.read(e, c13.to_index), data(e), repetitions(e),
            [x.had_match for x in model.walk_real(e)])


def judge_trees(res, case):
    node = model.spec(case["node"])
    msgs = []
    what = model.show(node)
    linked = case["linked"]
    _, r0, _ = c13.world_of(node)
    fresh = [(r0.matches(s), state_of(r0.expansion)) for s in SHORT]
    rel = relations(r0.expansion)
    for matched in (None, "a", "a b", "b b"):
        for path, n in model.walk(node):
            for protocol in PROTOCOLS:
                g, r, x = c13.world_of(node)
                e = r.expansion
                if not linked:
                    e = copy.deepcopy(e)
                    r = None
                if matched and r is not None:
                    r.matches(matched)
                relations(e)
                before = state_of(e)
                text = pickle.dumps(model.real_at(e, path), protocol)
                p = pickle.loads(text)
                res.transitions += 1
                w = "%s in %s unpickled (protocol %d, matched %r)" % (
                    model.show(n), what, protocol, matched)
                root = p.root_expansion
                if model.real_at(root, path) is not p:
                    msgs.append("%s is somewhere else" % w)
                if state_of(root) != before:
                    msgs.append("%s is %s instead of %s" % (
                        w, state_of(root), before))
                if state_of(e) != before:
                    msgs.append("%s: the original is %s instead of %s" % (
                        w, state_of(e), before))
                if not (root == e) or root != e or hash(root) != hash(e) or \
                        root.compile() != e.compile():
                    msgs.append("%s: not equal" % w)
                if structure_errors(root):
                    msgs.append("%s: %s" % (w, structure_errors(root)[0]))
                if set(map(id, model.walk_real(root))) & \
                        set(map(id, model.walk_real(e))):
                    msgs.append("%s: shared parts" % w)
                # Nothing else is alive now, so IDs can be used again.
                del e, g, r, x, root, p
                p = pickle.loads(text)
                root = p.root_expansion
                if relations(root) != rel:
                    msgs.append("%s: relations are %s instead of %s" % (
                        w, relations(root), rel))
                if linked:
                    rule = root.rule
                    if [1 for y in model.walk_real(root) if y.rule is not rule] or \
                            rule.expansion is not root or rule not in \
                            rule.grammar.rules or len(rule.grammar.rules) != 2:
                        msgs.append("%s: linked to rule %s" % (w, rule))
                        continue
                    for y in model.walk_real(root):
                        if type(y).__name__ == "RuleRef" and not [
                                1 for z in rule.grammar.rules
                                if z is y.referenced_rule]:
                            msgs.append("%s: references another rule" % w)
                    for s, f in zip(SHORT, fresh):
                        got = (rule.matches(s), state_of(root))
                        if got != f:
                            msgs.append("%s: %r is %s instead of %s" % (w, s, got, f))
                            break
                if len(msgs) > 3:
                    return msgs
    res.states += 1
    res.traces += 1
    res.outcome(node[0])
    return msgs


def untagged(n):
    return (n[0], n[1], tuple([untagged(k) for k in n[2]]), "")


def judge_edits(res, case):
    """Edit what was unpickled or the original; the other one stays the same."""
    import jsgf
    from . import c04
    node = model.spec(case["node"])
    msgs = []
    what = model.show(node)
    world = (("r", True, node),)
    ops = [(op, w) for op, w in c04.edits_of(world, c04.NEW[:2])
           if op[0] not in ("wrap", "unwrap") and
           not c04.equal_alternatives([(0, 0, untagged(w[0][2]))])]
    want = None
    for op, w2 in ops:
        final = c13.make_rule(w2[0][2])
        final = [final.matches(s) for s in SPEECH]
        for edit_copy in (True, False):
            r = c13.make_rule(node)
            r.matches("a b")
            cr = pickle.loads(pickle.dumps(r, 2))
            if edit_copy:
                cr.matches("a")
            edited, other = (cr, r) if edit_copy else (r, cr)
            c04.apply(op, None, [edited], ["r"])
            res.transitions += 1
            w = "%s: %s of the %s" % (what, op, "copy" if edit_copy else "original")
            if model.read(other.expansion) != node:
                msgs.append("%s changed the other one to %s" % (
                    w, model.show(model.read(other.expansion))))
            if want is None:
                want = [c13.make_rule(node).matches(s) for s in SPEECH]
            if [other.matches(s) for s in SPEECH] != want:
                msgs.append("%s changed what the other one matches" % w)
            if [edited.matches(s) for s in SPEECH] != final:
                msgs.append("%s has no effect" % w)
            if len(msgs) > 3:
                return msgs
    res.states += 1
    res.traces += 1
    res.outcome(len(ops))
    return msgs


def judge_grammar(res, case):
    world = model.spec(case["world"])
    active = case["active"]
    names = [w[0] for w in world]
    msgs = []
    ref, _ = c13.make_grammar(world, active)
    want, seen = c13.describe(ref), c13.observe(ref)
    what = model.show_world(world)
    for protocol in PROTOCOLS:
        for matched in (False, True):
            for start in [None] + list(range(len(names))):
                g, rules = c13.make_grammar(world, active)
                if matched:
                    c13.observe(g)
                if start is None:
                    p = pickle.loads(pickle.dumps(g, protocol))
                else:
                    # From one of the rules.
                    p = pickle.loads(pickle.dumps(rules[start], protocol))
                    if p.name != names[start]:
                        msgs.append("%s: wrong rule" % what)
                    if not [1 for r in p.grammar.rules if r is p]:
                        msgs.append("%s: the grammar has another rule" % what)
                    p = p.grammar
                res.transitions += 1
                w = "%s unpickled (protocol %d)" % (what, protocol)
                if c13.describe(p) != want:
                    msgs.append("%s is %s instead of %s" % (w, c13.describe(p), want))
                elif c13.observe(p) != seen:
                    msgs.append("%s behaves differently" % w)
                elif not (p == g) or p != g:
                    msgs.append("%s isn't equal" % w)
                for r in p.rules:
                    if r.grammar is not p or [
                            1 for e in model.walk_real(r.expansion)
                            if e.rule is not r]:
                        msgs.append("%s: rule %s is linked to something else" % (
                            w, r.name))
                    for d in r.dependencies:
                        if not [1 for y in p.rules if y is d]:
                            msgs.append("%s: depends on a rule of the original" % w)
        if len(msgs) > 3:
            return msgs
    for op in c13.grammar_edits(world):
        for edit_copy in (True, False):
            g, rules = c13.make_grammar(world, active)
            c13.observe(g)
            p = pickle.loads(pickle.dumps(g))
            edited, other = (p, g) if edit_copy else (g, p)
            c13.edit_grammar(op, edited, names)
            res.transitions += 1
            w = "%s: %s of the %s" % (what, op, "copy" if edit_copy else "original")
            if c13.describe(other) != want or c13.observe(other) != seen:
                msgs.append("%s changed the other one" % w)
            ref, _ = c13.make_grammar(world, active)
            c13.edit_grammar(op, ref, names)
            if c13.describe(ref) != c13.describe(edited) or \
                    c13.observe(ref) != c13.observe(edited):
                msgs.append("%s has another result: %s instead of %s" % (
                    w, c13.observe(edited), c13.observe(ref)))
            if len(msgs) > 3:
                return msgs
    res.states += 1
    res.traces += 1
    res.outcome(len(world))
    return msgs


# Other processes.

def observe_tree(e):
    """What another process has to see the same way."""
    import jsgf
    root = e.root_expansion
    out = [model.show(model.read(root)), repr(data(root)), repr(repetitions(root)),
           root.compile(), repr(relations(root)), root == e.root_expansion.copy(),
           hash(root) == hash(root.copy())]
    for x in model.walk_real(root):
        if isinstance(x, jsgf.AlternativeSet):
            out.append([repr(x.weights.get(c)) for c in x.children])
    if root.rule is not None:
        for s in SHORT:
            out.append([root.rule.matches(s), repr(data(root)),
                        sorted(root.rule.matched_tags)])
    return json.loads(json.dumps(out))


def observe_file(path):
    with open(path) as f:
        texts = json.load(f)
    return [observe_tree(pickle.loads(base64.b64decode(t))) for t in texts]


def judge_process(res, case):
    import tempfile
    msgs = []
    texts, wants, shown = [], [], []
    for n in case["nodes"]:
        node = model.spec(n)
        for path, _ in model.walk(node):
            r = c13.make_rule(node)
            r.matches("a b")
            r.expansion.is_descendant_of(r.expansion)
            text = pickle.dumps(model.real_at(r.expansion, path), 2)
            texts.append(base64.b64encode(text).decode())
            shown.append(model.show(node))
            wants.append(observe_tree(model.real_at(r.expansion, path)))
            res.transitions += 1
    d = tempfile.mkdtemp()
    try:
        path = os.path.join(d, "pickles")
        with open(path, "w") as f:
            json.dump(texts, f)
        env = dict(os.environ, PYTHONHASHSEED=str(case["seed"]))
        code = ("import sys, json; sys.path.insert(0, %r); from mc import c14; "
                "print(json.dumps(c14.observe_file(%r)))" % (core.VERIF, path))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env,
                           capture_output=True, text=True, timeout=300)
        if p.returncode != 0:
            msgs.append("unpickling in another process failed: %s" % p.stderr[-300:])
        else:
            got = json.loads(p.stdout)
            for s, g, w in zip(shown, got, wants):
                if g != w:
                    msgs.append("%s in another process: %s instead of %s" % (s, g, w))
    finally:
        import shutil
        shutil.rmtree(d)
    res.states += len(case["nodes"])
    res.traces += len(case["nodes"])
    res.outcome("processes")
    return msgs[:4]


def judge_imports(res, case):
    import jsgf
    msgs = []
    for protocol in PROTOCOLS:
        i = jsgf.Import(case["name"])
        p = pickle.loads(pickle.dumps(i, protocol))
        res.transitions += 1
        if (p.name, p.compile(), p.grammar_name, p.rule_name, p.wildcard_import) != \
                (i.name, i.compile(), i.grammar_name, i.rule_name, i.wildcard_import) \
                or p != i or hash(p) != hash(i):
            msgs.append("%s unpickled is %s" % (i, p))
        for make in (lambda: jsgf.RootGrammar([jsgf.PublicRule("r", "a"),
                                               jsgf.HiddenRule("h", "b")]),
                     lambda: jsgf.Grammar("p.g")):
            g = make()
            g.add_import(i)
            g.charset_name = "UTF-8"
            q = pickle.loads(pickle.dumps(g, protocol))
            if c13.describe(q) != c13.describe(g) or c13.observe(q) != c13.observe(g):
                msgs.append("%s unpickled is %s" % (g, q))
    res.states += 1
    res.outcome("imports")
    return msgs


# Spaces.

def tree_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b"), LC("a"), N, F(0), Q(0)),
                        nary=("S", "A"), min_arity=2, max_arity=2)
    for t in trees.up_to(3):
        yield {"node": t, "linked": True}
    trees = model.Trees(leaves=(L("a"), L("b")), nary=("S", "A"))
    for t in trees.up_to(ctx.pick(4, 5)):
        if model.size(t) > 3:
            yield {"node": t, "linked": True}
    small = model.Trees(leaves=(L("a"), L("b", "t"), V))
    for t in small.up_to(3):
        yield {"node": t, "linked": False}
    for i, t in enumerate(c13.weighted()):
        if ctx.quick and i % 6 and model.size(t) > 3:
            continue
        yield {"node": t, "linked": True}
        yield {"node": t, "linked": False}
    for t in (R(S(L("a"), O(L("b")))), R(A(R(L("a")), L("b"))),
              S(R(F(0)), L("b")), K(S(Q(0), O(L("b")))), A(F(0), Q(0), weights=(1, 2)),
              A(S(F(0), L("b")), S(L("b"), Q(0)), weights=(1, 2))):
        yield {"node": t, "linked": True}


def edit_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b")), nary=("S", "A"))
    for t in trees.up_to(ctx.pick(3, 4)):
        yield {"node": t}
    for i, t in enumerate(c13.weighted()):
        if not ctx.quick or i % 5 == 0:
            yield {"node": t}


def process_cases(ctx):
    trees = model.Trees(leaves=(L("a", "t"), L("b"), LC("a"), N), nary=("S", "A"),
                        min_arity=2, max_arity=2)
    nodes = list(trees.up_to(ctx.pick(3, 4))) + list(c13.weighted())
    nodes.append(R(S(L("a", "t"), O(L("b", "u")))))
    for seed in (1, 2):
        for i in range(4):
            yield {"nodes": nodes[i::4], "seed": seed}


def import_cases(ctx):
    for n in ("p.q", "p.*", "p.q.r"):
        yield {"name": n}


def judge_large(res, case):
    """Pickle a rule from the rule and from some of its nodes, after matching."""
    import jsgf
    node = model.spec(case["node"])
    msgs = []
    what = model.show(node)
    speech = [" ".join(w) for w in model.large_speech(node)][:12]
    r = c13.make_rule(node)
    for s in speech:
        if r.matches(s) and s:
            break
    before = state_of(r.expansion)
    nodes = list(model.walk_real(r.expansion))
    fresh = c13.make_rule(node)
    want = [(fresh.matches(s), state_of(fresh.expansion)) for s in speech[:5]]
    for protocol in (0, PROTOCOLS[-1]):
        for x in (r, nodes[0], nodes[len(nodes) // 2], nodes[-1]):
            p = pickle.loads(pickle.dumps(x, protocol))
            rule = p if x is r else p.rule
            root = rule.expansion
            res.transitions += 1
            w = "%s of %s unpickled (protocol %d)" % (
                "rule" if x is r else nodes.index(x), what, protocol)
            if state_of(root) != before or not rule == r or hash(rule) != hash(r):
                msgs.append("%s is %s" % (w, state_of(root)))
            if structure_errors(root):
                msgs.append("%s: %s" % (w, structure_errors(root)[0]))
            if set(map(id, model.walk_real(root))) & set(map(id, nodes)):
                msgs.append("%s: shared parts" % w)
            if want != [(rule.matches(s), state_of(root)) for s in speech[:5]]:
                msgs.append("%s matches something else" % w)
            if state_of(r.expansion) != before:
                msgs.append("%s: the original changed" % w)
    res.states += 1
    res.traces += 1
    res.outcome(node[0])
    return msgs


def judge_rules(res, case):
    """All attributes of rules that may not be in a grammar."""
    import jsgf
    cls, v, active, cs, where = case["rule"]
    msgs = []

    def make():
        node = model.spec(case["node"])
        e = model.build(node)
        r = jsgf.Rule("r", v, e) if cls == "Rule" else getattr(jsgf, cls)("r", e)
        g = None
        if where != "alone":
            g = getattr(jsgf, where)(name="p.g", case_sensitive=cs)
            g.add_rule(r)
        r.case_sensitive = cs
        if not active:
            r.disable()
        return r

    def describe(r):
        return (r.name, type(r).__name__, r.visible, r.active, r.case_sensitive,
                r.compile(), r.was_matched, r.matched_tags, r.tags,
                r.fully_qualified_name, r.reference_count,
                r.grammar and (r.grammar.name, r.grammar.case_sensitive,
                               [x is r for x in r.grammar.rules],
                               type(r.grammar).__name__, r.grammar.compile()),
                state_of(r.expansion))

    for protocol in PROTOCOLS:
        for speech in (None, "a", "A", "b"):
            r = make()
            if speech:
                r.matches(speech)
            p = pickle.loads(pickle.dumps(r, protocol))
            res.transitions += 1
            res.outcome("%s %s" % (r.was_matched, active))
            w = "%r of %s (protocol %d, matched %s)" % (
                case["rule"], case["node"], protocol, speech)
            if describe(p) != describe(r):
                msgs.append("%s: %s instead of %s" % (w, describe(p), describe(r)))
            for how in (lambda x: x.enable(), lambda x: x.disable(),
                        lambda x: setattr(x, "case_sensitive", not cs),
                        lambda x: setattr(x, "name", "s"),
                        lambda x: setattr(x, "visible", not v)):
                a, b = make(), pickle.loads(pickle.dumps(make(), protocol))
                how(a)
                how(b)
                got = [[x.matches(s) for s in ("a", "A", "b", "")] + [describe(x)]
                       for x in (a, b)]
                if got[0] != got[1]:
                    msgs.append("%s: changed, it is %s instead of %s" % (
                        w, got[1], got[0]))
    res.states += 1
    res.traces += 1
    return msgs


def rule_cases(ctx):
    for node in (L("a", "t"), S(L("a"), O(L("b")))):
        for cls in ("Rule", "PublicRule", "PrivateRule"):
            for v in (True, False) if cls == "Rule" else (cls == "PublicRule",):
                for active in (True, False):
                    for cs in (True, False):
                        for where in ("alone", "Grammar", "RootGrammar"):
                            yield {"node": node, "rule": [cls, v, active, cs, where]}


def large_cases(ctx):
    from .c05 import tag_all
    for t in model.Trees(leaves=(L("a"), L("b")), max_arity=2).up_to(ctx.pick(5, 6)):
        yield {"node": t}
    for t in itertools.chain(model.wide_trees(), model.deep_trees()):
        yield {"node": tag_all(t, "t")}


SPACES = [
    ("rules and large trees", judge_large, large_cases, "all trees up to a larger node "
     "bound, with up to %d children and of depth up to %d" % (
         model.WIDE[-1], model.DEEP[-1])),
    ("trees", judge_trees, tree_cases, "all trees up to the node bound, from every "
     "node, all protocols, 4 histories"),
    ("edits", judge_edits, edit_cases, "all single edits of what was unpickled or of "
     "the original"),
    ("grammars", judge_grammar, c13.grammar_cases, "grammars from the grammar and from "
     "every rule, all protocols, all single edits"),
    ("attributes", judge_rules, rule_cases, "all types, attributes and places of rules"),
    ("processes", judge_process, process_cases, "unpickling in other processes with "
     "other hash values"),
    ("imports", judge_imports, import_cases, "imports and grammars with them"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = ["pickles are read with the same version of the code"]
