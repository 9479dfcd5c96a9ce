"""
C08: compiled text means the same thing when it is parsed again.

Expansion trees, rules and grammars are enumerated, compiled and parsed. What comes
back has to be the same up to redundant grouping: the same language, tags, weights,
names, visibility, header and imports.
"""
import itertools
import os
import shutil
import tempfile

from . import model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C08"


# Normal form of trees: sequences are flattened, adjacent words are joined (JSGF has no
# way to tell "a b" from "a" followed by "b"), and grouping without tags is dropped.

def norm_tag(tag):
    return " ".join(tag.split())


def norm(n, names=None):
    kind, arg, kids, tag = n
    tag = norm_tag(tag)
    if kind in ("L", "LC"):
        core = ("L", " ".join(arg.split()))
    elif kind in ("S", "G"):
        items = []
        for k in kids:
            k = norm(k, names)
            items.extend(k[1] if k[0] == "S" else [k])
        items = join(items)
        core = items[0] if len(items) == 1 else ("S", tuple(items))
    elif kind == "A":
        alts = []
        if arg is None:
            for k in kids:
                k = norm(k, names)
                alts.extend(k[2] if k[0] == "A" and k[1] is None else [k])
            core = alts[0] if len(alts) == 1 else ("A", None, tuple(alts))
        else:
            core = ("A", tuple([None if w is None else round(float(w), 4)
                                for w in arg]),
                    tuple([norm(k, names) for k in kids]))
    elif kind in ("F", "Q"):
        core = ("REF", names[arg] if names is not None and isinstance(arg, int)
                else arg)
    elif kind in ("N", "V"):
        core = (kind,)
    else:
        core = (kind, norm(kids[0], names))
    return ("T", tag, core) if tag else core


def join(items):
    """Join adjacent words. Tags of words apply to all the words before them."""
    out = []
    for i in items:
        x = i
        tags = []
        while x[0] == "T":
            tags.append(x[1])
            x = x[2]
        if x[0] == "L" and out and out[-1][0] == "L":
            x = ("L", out.pop()[1] + " " + x[1])
            for t in reversed(tags):
                x = ("T", t, x)
            out.append(x)
        else:
            out.append(i)
    return out


def check_text(text, node, names, msgs, what):
    import jsgf
    parsed = jsgf.parse_expansion_string(text)
    want, got = norm(node, names), norm(model.read(parsed))
    if want != got:
        msgs.append("%s compiled to %r, which was parsed as %s (%r)" % (
            what, text, parsed, got))
    return parsed


def judge(res, case):
    import jsgf
    node = model.spec(case["node"])
    names = ["x", "y"]
    rules = [jsgf.Rule("x", False, "xx"), jsgf.Rule("y", True, "yy")]
    e = model.build(node, rules, names)
    text = e.compile()
    msgs = []
    what = model.show(node)
    p = check_text(text, node, names, msgs, what)
    check_text(p.compile(), node, names, msgs, what + " (second time)")
    bare = strip(node)
    check_text(e.compile(ignore_tags=True), bare, names, msgs, what + " without tags")
    # In a rule.
    for visible in (True, False) if model.size(node) < 4 else (True,):
        r = jsgf.Rule("r", visible, model.build(node, rules, names))
        p = jsgf.parse_rule_string(r.compile())
        if p.name != "r" or p.visible is not visible or \
                norm(model.read(p.expansion)) != norm(node, names):
            msgs.append("rule %r was parsed as %s" % (r.compile(), p))
        res.transitions += 1
    res.states += 1
    res.traces += 1
    res.transitions += 3
    res.outcome(len(text.split()))
    return msgs


def strip(n):
    return (n[0], n[1], tuple([strip(k) for k in n[2]]), "")


def tree_cases(ctx):
    trees = model.Trees(leaves=(L("a"), L("b"), Q(0), N, V))
    for t in trees.up_to(ctx.pick(4, 6)):
        yield {"node": t}
    trees = model.Trees(leaves=(L("a"), Q(0)))
    for t in trees.up_to(ctx.pick(5, 6)):
        if model.size(t) >= ctx.pick(5, 9):
            yield {"node": t}
    trees = model.Trees(leaves=(L("a"), L("a b"), F(1)), unary=("O", "R", "K", "G"),
                        nary=("S", "A", "G"), min_arity=1, max_arity=3)
    for t in trees.up_to(ctx.pick(4, 5), symmetry=False):
        yield {"node": t}


def tag_cases(ctx):
    trees = model.Trees(leaves=(L("a"), Q(0)), unary=("O", "R", "K"),
                        nary=("S", "A", "G"), min_arity=1, max_arity=3)
    for t in trees.up_to(ctx.pick(4, 5), symmetry=False):
        paths = [p for p, _ in model.walk(t)]
        for k in (1, 2) if ctx.quick else (1, 2, 3):
            for ps in itertools.combinations(paths, k):
                x = t
                for p, tag in zip(ps, ("t", "u v", "w")):
                    x = model.replace_at(x, p, model.with_tag(
                        model.node_at(x, p), tag))
                yield {"node": x}


def large_cases(ctx):
    from .c05 import tag_all
    for t in itertools.chain(model.wide_trees(), model.deep_trees()):
        # Parsing takes exponential time for deep trees.
        if model.size(t) <= ctx.pick(8, 10) or max(
                [len(p) for p, _ in model.walk(t)]) < 3:
            yield {"node": t}
            yield {"node": tag_all(t, "t")}


def weight_cases(ctx):
    ws = [0, 0.0001, 0.5, 1, 2, 10, 98765.4321]
    a, b, c = L("a"), L("b"), L("c")
    parts = [a, S(a, R(b)), O(b), G(a, b), R(c), A(b, c), L("a b", "t"), Q(0), N]
    contexts = [lambda t: t, lambda t: S(t, c), lambda t: S(c, t), lambda t: O(t),
                lambda t: R(t), lambda t: A(t, c), lambda t: A(c, t),
                lambda t: A(c, t, weights=(1, 3)), lambda t: A(t, c, weights=(5, 0)),
                lambda t: S(c, t, Q(0)), lambda t: model.with_tag(t, "u"),
                lambda t: G(t, tag="u"), lambda t: A(S(c, t), O(t))]
    for w in itertools.product(ws, repeat=2):
        for p in (parts[:2], parts[5:7]):
            yield {"node": A(*p, weights=w)}
    for w in itertools.product((0, 2.5) if ctx.quick else ws, repeat=2):
        for p in (itertools.combinations if ctx.quick else
                  itertools.permutations)(parts, 2):
            for x in contexts:
                yield {"node": x(A(*p, weights=w))}
    for w in itertools.product((0, 2.5) if ctx.quick else (0, 1, 2.5), repeat=3):
        for p in itertools.permutations(parts[:6], 3):
            yield {"node": A(*p, weights=w)}


def judge_tag(res, case):
    import jsgf
    msgs = []
    res.states += 1
    for tail in itertools.product(case["alphabet"], repeat=case["len"]):
        tag = case["head"] + "".join(tail)
        for e in (jsgf.Literal("a"), jsgf.RequiredGrouping("a", "b")):
            e.tag = tag
            if e.tag != tag.strip():
                msgs.append("tag %r is %r" % (tag, e.tag))
            for x in (e, jsgf.AlternativeSet(jsgf.Sequence(e, "c"), "d")):
                text = x.compile()
                p = jsgf.parse_expansion_string(text)
                tags = [y.tag for y in model.walk_real(p) if y.tag]
                want = [norm_tag(tag)] if tag.strip() else []
                if tags != want:
                    msgs.append("tag %r compiled to %r was parsed as %r" % (
                        tag, text, tags))
                res.transitions += 1
    res.outcome(len(msgs))
    return msgs


def tag_text_cases(ctx):
    alphabet = ["a", " ", "{", "}", "\\", "'", "-", u"\u00e9", "1"]
    n = ctx.pick(3, 4)
    yield {"alphabet": alphabet, "head": "", "len": 0}
    for head in alphabet:
        for k in range(n + 1):
            yield {"alphabet": alphabet, "head": head, "len": k}


NAME_CHARS = u"aB1_+-:;,=|/\\()[]@#%!^&~$\u00e9"


def judge_name(res, case):
    """Rules, references and grammars with unusual names."""
    import jsgf
    msgs = []
    res.states += 1
    for tail in itertools.product(NAME_CHARS, repeat=case["len"]):
        name = case["head"] + "".join(tail)
        if "//" in name or "/*" in name:
            continue    # starts a comment
        rule = jsgf.PublicRule(name, jsgf.Sequence("a", jsgf.NamedRuleRef(name)))
        p = jsgf.parse_rule_string(rule.compile())
        if p.name != name or norm(model.read(p.expansion)) != (
                "S", (("L", "a"), ("REF", name))):
            msgs.append("rule %r was parsed as %s" % (rule.compile(), p))
        g = jsgf.Grammar("g")
        g.add_rule(rule)
        g.add_rule(jsgf.HiddenRule("o", "b"))
        if ";" not in name:
            g.name = name
        for i in ("%s.%s" % (name, name), "p.%s.*" % name):
            g.add_import(jsgf.Import(i))
        text = g.compile()
        p = jsgf.parse_grammar_string(text)
        if p.name != g.name or p.rule_names != [name, "o"] or \
                p.import_names != g.import_names:
            msgs.append("grammar %r was parsed as %r with %r, %r" % (
                text, p.name, p.rule_names, p.import_names))
        res.transitions += 2
    res.outcome(len(msgs))
    return msgs


def name_cases(ctx):
    for head in NAME_CHARS:
        for k in range(ctx.pick(1, 2) + 1):
            yield {"head": head, "len": k}


def judge_grammar(res, case):
    import jsgf
    world = model.spec(case["world"])
    names = [w[0] for w in world]
    g, rules = model.build_world(world, grammar_name=case["name"])
    g.jsgf_version, g.charset_name, g.language_name = case["header"]
    for i in case["imports"]:
        g.add_import(jsgf.Import(i))
    for i in case["disabled"]:
        rules[i].disable()
    text = g.compile()
    msgs = []
    folder = tempfile.mkdtemp(prefix="verif-c08-")
    try:
        path = os.path.join(folder, "g.jsgf")
        g.compile_to_file(path)
        with open(path) as f:
            if f.read() != text:
                msgs.append("compile_to_file wrote something else than %r" % text)
        parsed = [jsgf.parse_grammar_string(text), jsgf.parse_grammar_file(path)]
    finally:
        shutil.rmtree(folder)
    parsed.append(jsgf.parse_grammar_string(parsed[0].compile()))
    # Line ends are interchangeable.
    parsed.append(jsgf.parse_grammar_string(text.replace(";\n", "; ")))
    parsed.append(jsgf.parse_grammar_string(text.replace(";\n", ";\n\n")))
    if not jsgf.valid_grammar(text):
        msgs.append("%r is not a valid grammar" % text)
    active = [i for i in range(len(world)) if i not in case["disabled"]]
    for p in parsed:
        res.transitions += 1
        got = [p.name, p.jsgf_version, p.charset_name, p.language_name,
               p.import_names, p.rule_names, [r.visible for r in p.rules]]
        want = [case["name"]] + list(case["header"]) + [
            list(case["imports"]), [names[i] for i in active],
            [world[i][1] for i in active]]
        if got != want:
            msgs.append("%r was parsed as %r" % (text, got))
            break
        for i, r in zip(active, p.rules):
            if r.grammar is not p:
                msgs.append("%r: %s is not in the grammar" % (text, r))
            if norm(model.read(r.expansion)) != norm(world[i][2], names):
                msgs.append("%r: %s was parsed as %s" % (text, names[i], r))
    # The grammars find the same rules.
    if not case["disabled"] and not msgs:
        letters = sorted(set(sum([model.words_of(w[2], world) for w in world], [])))
        for words in model.speeches(letters or ["a"], case["len"]):
            s = " ".join(words)
            found = [[r.name for r in x.find_matching_rules(s)]
                     for x in [g] + parsed[:2]]
            res.transitions += 1
            if found[0] != found[1] or found[0] != found[2]:
                msgs.append("%r: parsed grammars find %r for %r, not %r" % (
                    text, found[1], s, found[0]))
                break
    res.states += 1
    res.traces += 1
    res.outcome("%d rules" % len(active))
    return msgs


HEADERS = [("1.0", "", ""), ("1.0", "UTF-8", "en"), ("2.5", "utf8", ""),
           ("1.0", "", "en"), ("1.0", "ISO8859-1", "en-us")]


def grammar_cases(ctx):
    a, b = L("a"), L("b")
    bodies = [a, S(a, O(b)), A(a, b), A(a, S(b, a), weights=(1, 2.5)),
              R(G(a, b, tag="t")), L("a b", "u"), K(a), N]
    for name in ("g", "com.example.g", "a-b_c", "public", "grammar", "import", "1"):
        for header in HEADERS:
            for imports in ([], ["p.q"], ["p.*"], ["x.y.z", "p.q.*", "p.q"]):
                yield {"world": (("r", True, a),), "name": name, "header": header,
                       "imports": imports, "disabled": [], "len": 1}
    for e in bodies:
        for v in (True, False):
            yield {"world": (("r", v, e),), "name": "g", "header": HEADERS[0],
                   "imports": [], "disabled": [], "len": 3}
    for e1, e2 in itertools.product(bodies, repeat=2):
        for v1, v2 in itertools.product((True, False), repeat=2):
            for disabled in ([], [0], [1]):
                yield {"world": (("r", v1, e1), ("import", v2, e2)), "name": "g",
                       "header": HEADERS[0], "imports": ["p.q"],
                       "disabled": disabled, "len": 2}
    for kind in (F, Q):
        for m in (kind(1), S(kind(1), b), A(a, kind(1, "r")), O(kind(1)), R(kind(1))):
            for e in bodies:
                for v in (True, False):
                    yield {"world": (("m", True, m), ("public", v, e)), "name": "g",
                           "header": HEADERS[1], "imports": [], "disabled": [],
                           "len": ctx.pick(2, 3)}
                    for e2 in bodies if not ctx.quick else bodies[:3]:
                        yield {"world": (("z", True, m), ("y", v, S(e, O(kind(2)))),
                                         ("x", v, e2)), "name": "g",
                               "header": HEADERS[1], "imports": [], "disabled": [],
                               "len": 2}


SPACES = [
    ("trees", judge, tree_cases, "all trees up to the node bound"),
    ("large trees", judge, large_cases, "trees with up to %d children and of depth up to "
     "%d" % (model.WIDE[-1], model.DEEP[-1])),
    ("tags", judge, tag_cases, "all ways to set 1 or 2 tags in all trees up to the "
     "node bound"),
    ("weights", judge, weight_cases, "all weights of 2 or 3 alternatives in 13 "
     "contexts"),
    ("tag text", judge_tag, tag_text_cases, "all tag texts up to 4 (5) characters"),
    ("names", judge_name, name_cases, "all names up to 2 (3) characters"),
    ("grammars", judge_grammar, grammar_cases, "headers, names, imports, rule sets"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cases, bound in SPACES:
        ctx.explore(name, cases(ctx), j, bound)
    ctx.assumptions = [
        "tags are words of letters, digits, -, ', braces and backslashes",
        "weights have up to 4 decimal places",
        "adjacent words are one literal in text, so that a tag of a word applies to "
        "the words in front of it",
        "weights are used for sets of at least two alternatives",
        "a language without a character set has two letters",
        "names don't start comments",
    ]
