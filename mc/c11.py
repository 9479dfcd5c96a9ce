"""
C11: compiling grammars has the documented result and no side effects.

Every sequence of changes to the visibility and state of rules is applied to real
grammars and to a model; all ways to compile are compared with the model, also with
an error at every point at which compiling a rule can fail.
"""
import itertools
import os
import shutil
import tempfile

from . import model
from .c08 import norm
from .model import A, F, G, K, L, N, O, Q, R, S, V

PROP = "C11"


class Injected(Exception):
    pass


def snapshot(g, rules):
    out = [g.name, g.jsgf_header, g.import_names, [id(r) for r in g.rules]]
    for r in rules:
        out.append((r.name, r.visible, r.active, r.case_sensitive,
                    r.grammar is g, model.read(r.expansion),
                    [(id(x), id(x.children), x.parent and id(x.parent), x.rule is r)
                     for x in model.walk_real(r.expansion)]))
    return out


def expected(m, root):
    """[header, grammar, imports, [(name, visible, norm)]] that should be compiled."""
    names = [w[0] for w in m["world"]]
    rules = []
    for i, (name, _, e) in enumerate(m["world"]):
        if m["active"][i]:
            rules.append((name, m["visible"][i] and not root, norm(e, names)))
    if root:
        # Only rules that are in the output are referenced.
        refs = [("REF", names[i]) for i in range(len(names))
                if m["active"][i] and m["visible"][i]]
        if not refs:
            rules = []
        else:
            e = refs[0] if len(refs) == 1 else ("A", None, tuple(refs))
            rules = [("root", True, e)] + rules
    return [m["header"], m["name"], list(m["imports"]), rules]


def parsed(text):
    """Read a compiled grammar line by line."""
    import jsgf
    lines = text.split("\n")
    assert lines[-1] == "", text
    lines.pop()
    header, name = lines[0], lines[1]
    imports, rules = [], []
    for line in lines[2:]:
        if line.startswith("import "):
            if rules:
                raise ValueError("import after a rule in %r" % text)
            imports.append(line)
        else:
            r = jsgf.parse_rule_string(line)
            rules.append((r.name, r.visible, norm(model.read(r.expansion))))
    return [header, name, imports, rules]


def check_compile(m, g, rules, folder, msgs, what):
    path = os.path.join(folder, "g.jsgf")

    def to_file(*args, **kw):
        with open(path, "w") as f:
            f.write("old contents")
        g.compile_to_file(path, *args, **kw)
        with open(path) as f:
            return f.read()

    is_root = m["class"] == "RootGrammar"
    ways = [
        ("compile", is_root, g.compile),
        ("compile_as_root_grammar", True, g.compile_as_root_grammar),
        ("compile_to_file", is_root, to_file),
        ("compile_to_file", is_root, lambda: to_file(compile_as_root_grammar=is_root)),
        ("compile_to_file root", True,
         lambda: to_file(compile_as_root_grammar=True)),
        ("compile again", is_root, g.compile),
    ]
    before = snapshot(g, rules)
    texts = {}
    for name, root, f in ways:
        text = f()
        if texts.setdefault(root, text) != text:
            msgs.append("%s: %s: %r, not %r" % (what, name, text, texts[root]))
        if snapshot(g, rules) != before:
            msgs.append("%s: %s changed the grammar" % (what, name))
            return
    for root, text in texts.items():
        want = expected(m, root)
        got = parsed(text)
        want = [want[0], "grammar %s;" % want[1],
                ["import <%s>;" % i for i in want[2]], want[3]]
        if got != want:
            msgs.append("%s: compiled %r instead of %r" % (what, got, want))
    # Rules on their own.
    for i, r in enumerate(rules):
        for ignore in (False, True):
            text = r.compile(ignore_tags=ignore)
            if not m["active"][i]:
                if text != "":
                    msgs.append("%s: disabled %s compiled to %r" % (
                        what, r.name, text))
                continue
            if ignore and "{" in text:
                msgs.append("%s: tags in %r" % (what, text))
            start = "%s<%s> = " % ("public " if m["visible"][i] else "", r.name)
            if not text.startswith(start) or not text.endswith(";"):
                msgs.append("%s: %s compiled to %r" % (what, r.name, text))
        if snapshot(g, rules) != before:
            msgs.append("%s: compiling %s changed it" % (what, r.name))


def make(case):
    import jsgf
    world = model.spec(case["world"])
    cls = getattr(jsgf, case["class"])
    g, rules = model.build_world(world, grammar_name=case["name"], grammar_cls=cls)
    m = {"world": world, "name": case["name"], "class": case["class"],
         "imports": [], "header": "#JSGF V1.0;",
         "visible": [w[1] for w in world], "active": [True] * len(world)}
    return m, g, rules


def apply(op, m, g, rules):
    import jsgf
    if op[0] == "visible":
        rules[op[1]].visible = m["visible"][op[1]] = not m["visible"][op[1]]
    elif op[0] == "active":
        i = op[1]
        m["active"][i] = not m["active"][i]
        if op[2] == 0:
            (rules[i].enable if m["active"][i] else rules[i].disable)()
        else:
            x = rules[i] if op[2] == 1 else rules[i].name
            (g.enable_rule if m["active"][i] else g.disable_rule)(x)
    elif op[0] == "import":
        if op[1] in m["imports"]:
            m["imports"].remove(op[1])
            g.remove_import(jsgf.Import(op[1]))
        else:
            m["imports"].append(op[1])
            g.add_import(jsgf.Import(op[1]))
    elif op[0] == "header":
        g.jsgf_version = "1.0"
        g.charset_name, g.language_name = "UTF-8", "en"
        m["header"] = "#JSGF V1.0 UTF-8 en;"
    elif op[0] == "compile_grammar":
        # The deprecated method compiles with the given header values.
        names = ("charset_name", "language_name", "jsgf_version")
        values = dict(zip(names, ("UTF-8", "en", "1.0")))
        given = dict(zip(names[:len(op[1])], op[1]))
        values.update(given)
        got = g.compile_grammar(**given)
        for k, v in values.items():
            setattr(g, k, v)
        m["header"] = "#JSGF V%s%s%s;" % (
            values["jsgf_version"], *[" " + values[k] if values[k] else ""
                                      for k in names[:2]])
        want = g.compile()
        if got != want:
            return ["compile_grammar(%s) is %r instead of %r" % (given, got, want)]
    elif op[0] == "expansion":
        i = op[1]
        rules[i].expansion = model.build(op[2])
        w = list(m["world"])
        w[i] = (w[i][0], w[i][1], op[2])
        m["world"] = tuple(w)
    return []


def ops_of(world):
    ops = []
    for i in range(len(world)):
        ops.append(("visible", i))
        ops.append(("active", i, i % 3))
    ops += [("import", "p.q"), ("import", "p.*"), ("header",),
            ("compile_grammar", ()), ("compile_grammar", ("x-1", "de", "2.0")),
            ("expansion", 0, A(L("x"), O(L("y"), "t"), weights=(1, 2)))]
    return ops


def judge(res, case):
    msgs = []
    world = model.spec(case["world"])
    ops = ops_of(world)
    folder = tempfile.mkdtemp(prefix="verif-c11-")
    try:
        for seq in itertools.product(ops, repeat=case["depth"]):
            m, g, rules = make(case)
            for k, op in enumerate(seq):
                msgs.extend(apply(op, m, g, rules))
                res.transitions += 1
            check_compile(m, g, rules, folder, msgs, "%s after %s" % (
                model.show_world(world), seq))
            res.states += 1
            res.outcome("%d active, %d visible" % (sum(m["active"]),
                                                   sum(m["visible"])))
            if len(msgs) > 3:
                break
        res.traces += 1
    finally:
        shutil.rmtree(folder)
    return msgs


WORLDS = [
    (("r", True, S(L("a", "t"), O(L("b")))),),
    (("r", True, L("a")), ("s", False, A(L("b"), L("c"), weights=(1, 0)))),
    (("r", True, G(Q(1), tag="t")), ("s", True, R(L("b", "t2")))),
    (("s", False, K(F(1))), ("r", True, L("b")), ("x", True, N)),
    (("a", True, L("a")), ("b", True, L("a")), ("c", True, L("c"))),
]


def many(n):
    """A world of many rules, some of which are private or reference others."""
    out = []
    for i in range(n):
        e = L(chr(ord("a") + i), "t%d" % i)
        if i % 4 == 3:
            e = S(e, Q(i - 1), O(F(i - 2)))
        out.append(("r%d" % i, i % 5 != 1, e))
    # References by rule need rules that exist already.
    return tuple(out)


def cases(ctx):
    for n in (6, 9, 12, 17):
        for cls in ("Grammar", "RootGrammar"):
            for depth in range(ctx.pick(2, 3)):
                yield {"world": many(n), "class": cls, "name": "g", "depth": depth}
    for w in WORLDS:
        for cls in ("Grammar", "RootGrammar"):
            for name in ("g", "p.g"):
                for depth in range(ctx.pick(4, 5)):
                    if name == "p.g" and depth > 1:
                        continue
                    yield {"world": w, "class": cls, "name": name, "depth": depth}


# Errors while compiling.

def judge_fault(res, case):
    """The k-th expansion that is compiled fails: nothing must have changed."""
    import jsgf
    msgs = []
    folder = tempfile.mkdtemp(prefix="verif-c11-")
    path = os.path.join(folder, "g.jsgf")
    with open(path, "w") as f:
        f.write("old contents")
    count = [0, None]

    class Faulty(jsgf.Literal):
        def compile(self, ignore_tags=False):
            count[0] += 1
            if count[0] - 1 == count[1]:
                raise case_error()
            return super(Faulty, self).compile(ignore_tags)

    errors = {"GrammarError": jsgf.GrammarError, "Injected": Injected,
              "KeyboardInterrupt": KeyboardInterrupt}
    case_error = errors[case["error"]]

    def build(n, names):
        e = model.build(n, [], names)

        def replace(x):
            for i, c in enumerate(list(x.children)):
                if type(c) is jsgf.Literal:
                    f = Faulty(c.text)
                    f.tag = c.tag
                    x.children[i] = f
                else:
                    replace(c)
        if type(e) is jsgf.Literal:
            f = Faulty(e.text)
            f.tag = e.tag
            return f
        replace(e)
        return e

    world = model.spec(case["world"])
    names = [w[0] for w in world]

    def fresh():
        g = getattr(jsgf, case["class"])(name="g")
        rules = [jsgf.Rule(n, v, build(e, names)) for n, v, e in world]
        g.add_rules(*rules)
        for i in case["disabled"]:
            rules[i].disable()
        return g, rules

    try:
        for way in ("compile", "compile_as_root_grammar", "file", "root file"):
            k = 0
            while True:
                g, rules = fresh()
                before = snapshot(g, rules)
                count[:] = [0, None]
                want = g.compile(), g.compile_as_root_grammar()
                count[:] = [0, k]
                failed = False
                try:
                    if way.endswith("file"):
                        g.compile_to_file(path,
                                          compile_as_root_grammar=way != "file")
                    else:
                        getattr(g, way)()
                except case_error:
                    failed = True
                res.transitions += 1
                count[1] = None
                what = "%s: %s failing at %d" % (model.show_world(world), way, k)
                if snapshot(g, rules) != before:
                    msgs.append("%s: the grammar was changed" % what)
                elif (g.compile(), g.compile_as_root_grammar()) != want:
                    msgs.append("%s: compiled differently afterwards" % what)
                with open(path) as f:
                    contents = f.read()
                if failed and contents != "old contents":
                    msgs.append("%s: the file was changed to %r" % (what, contents))
                if not failed:
                    break
                k += 1
            res.outcome("%s: %d faults" % (way, k))
            with open(path, "w") as f:
                f.write("old contents")
        res.states += 1
    finally:
        shutil.rmtree(folder)
    return msgs


def fault_cases(ctx):
    worlds = [
        (("r", True, S(L("a"), L("b"))),),
        (("r", True, L("a")), ("s", False, A(L("b"), L("c")))),
        (("r", True, G(L("c"), Q(1))), ("s", True, R(L("b")))),
        (("s", False, K(Q(1))), ("r", True, L("b")), ("x", True, L("c"))),
        (("x", True, L("a")), ("y", True, O(L("b"))), ("z", True, L("c"))),
        (("x", True, L("a")), ("y", False, O(L("b"))), ("z", True, L("c")),
         ("w", True, S(L("a"), L("b"), L("c")))),
    ]
    for w in worlds:
        for cls in ("Grammar", "RootGrammar"):
            for error in ("GrammarError", "Injected", "KeyboardInterrupt"):
                for n in range(len(w)):
                    for disabled in itertools.combinations(range(len(w)), n):
                        yield {"world": w, "class": cls, "error": error,
                               "disabled": disabled}


def judge_tags(res, case):
    """Compiling without tags is compiling the tree without its tags."""
    node = model.spec(case["node"])

    def strip(n):
        return (n[0], n[1], tuple([strip(k) for k in n[2]]), "")
    e, bare = model.build(node, [], ["x"]), model.build(strip(node), [], ["x"])
    res.states += 1
    res.transitions += 2
    res.outcome(model.size(node))
    msgs = []
    got, want = e.compile(ignore_tags=True), bare.compile()
    if norm_text(got) != norm_text(want) or "{" in got:
        msgs.append("%s compiled to %r without tags, not %r" % (
            model.show(node), got, want))
    tags = [x[3] for _, x in model.walk(node) if x[3]]
    text = e.compile()
    if text.count("{") != len(tags):
        msgs.append("%s with %d tags compiled to %r" % (
            model.show(node), len(tags), text))
    if model.read(e, lambda name: 0) != node:
        msgs.append("%s was changed by compile" % model.show(node))
    return msgs


def norm_text(text):
    import jsgf
    return norm(model.read(jsgf.parse_expansion_string(text)))


def tag_cases(ctx):
    trees = model.Trees(leaves=(L("a"), Q(0), N), unary=("O", "R", "K", "G"),
                        nary=("S", "A", "G"), min_arity=1, max_arity=3)
    for t in trees.up_to(ctx.pick(4, 5), symmetry=False):
        paths = [p for p, _ in model.walk(t)]
        for k in range(1, len(paths) + 1):
            for ps in itertools.combinations(paths, k):
                x = t
                for p, tag in zip(ps, ("t", "u v", "w", "x")):
                    x = model.replace_at(x, p, model.with_tag(
                        model.node_at(x, p), tag))
                yield {"node": x}


def judge_emptied(res, case):
    """Expansions without children are compiled as <NULL>, and stay as they are."""
    msgs = []
    tree = model.spec(case["tree"])
    path = tuple(case["path"])
    n = model.node_at(tree, path)
    want = model.replace_at(tree, path, (n[0], None, (N,), n[3]))
    folder = tempfile.mkdtemp(prefix="verif-c11-")
    try:
        for cls in ("Grammar", "RootGrammar"):
            m, g, rules = make({"world": (("r", True, tree), ("s", False, L("c"))),
                                "name": "g", "class": cls})
            model.real_at(rules[0].expansion, path).children.clear()
            m["world"] = (("r", True, want), m["world"][1])
            check_compile(m, g, rules, folder, msgs, "%s without children at %s" % (
                model.show(tree), path))
            res.states += 1
            res.transitions += 6
        res.outcome(n[0])
    finally:
        shutil.rmtree(folder)
    return msgs


def emptied_cases(ctx):
    trees = model.Trees(leaves=(L("a"), Q(1)))
    for t in trees.up_to(ctx.pick(4, 5)):
        for p, n in model.walk(t):
            if n[2]:
                yield {"tree": t, "path": p}
                yield {"tree": model.replace_at(t, p, model.with_tag(n, "t")),
                       "path": p}
    for t in (A(L("a"), L("b"), weights=(1, 2)),
              O(A(L("a"), L("b"), weights=(0.5, 2), tag="t"))):
        for p, n in model.walk(t):
            if n[2]:
                yield {"tree": t, "path": p}


SPACES = [
    ("emptied", judge_emptied, emptied_cases, "all expansions of trees up to 4 (5) "
     "nodes without their children"),
    ("histories", judge, cases, "all sequences of up to 3 (4) changes of 5 grammars"),
    ("faults", judge_fault, fault_cases, "an error at every point of compiling 6 "
     "grammars with any of the rules disabled"),
    ("tags", judge_tags, tag_cases, "all ways to tag trees up to the node bound"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "no rule that is compiled as part of a root grammar is called 'root'",
    ]
