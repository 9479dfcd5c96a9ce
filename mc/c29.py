"""
C29: the helpers of expansions: predicates about dictation, dictation that uses its current
match, regular expressions and spans, tags and conversions.
"""
import itertools
import re

from . import model
from .model import A, D, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C29"


def has(n, world):
    """Whether there is dictation in a tree or in the trees it references."""
    for _, x in model.walk(n):
        if x[0] == "D" or x[0] in "FQ" and has(world[x[1]][2], world):
            return True
    return False


def judge_predicates(res, case):
    from jsgf import ext
    world = model.spec(case["world"])
    _, rules = model.build_world(world)
    msgs = []
    for i, w in enumerate(world):
        for path, n in model.walk(w[2]):
            e = model.real_at(rules[i].expansion, path)
            res.transitions += 1
            want = has(n, world)
            leaves = [x for _, x in model.walk(n) if not x[2]]
            checks = [("dictation_in_expansion", want),
                      ("no_dictation_in_expansion", not want)]
            if not [x for x in leaves if x[0] in "FQ"]:
                only = all([x[0] == "D" for x in leaves])
                checks.append(("only_dictation_in_expansion", only))
                if not only and [x for x in leaves if x[0] in ("L", "LC")]:
                    checks.append(("dictation_and_literals_in_expansion", want))
            for name, x in checks:
                got = getattr(ext, name)(e)
                if bool(got) != x:
                    msgs.append("%s(%s) is %r" % (name, e, got))
            if bool(ext.dictation_in_expansion(e, True)) != bool(
                    ext.only_dictation_in_expansion(e)):
                msgs.append("dictation_in_expansion(%s, True)" % e)
    # The tree is as before.
    for i, (w, r) in enumerate(zip(world, rules)):
        if model.read(r.expansion, lambda n: [y[0] for y in world].index(n)) != w[2]:
            msgs.append("rule %d changed to %s" % (i, r))
    res.states += 1
    res.traces += 1
    res.outcome("dictation" if has(world[-1][2], world) else "none")
    return msgs[:5]


def predicate_cases(ctx):
    trees = model.Trees(leaves=(L("a"), D(), N, F(0)), unary=("O", "R", "G"),
                        nary=("S", "A"), max_arity=3)
    for n in trees.up_to(ctx.pick(5, 6)):
        if [1 for _, x in model.walk(n) if x[0] == "F"]:
            for r in (D(), L("b"), S(L("b"), O(D()))):
                yield {"world": (("r", False, r), ("m", True, n))}
        else:
            yield {"world": (("m", True, n),)}


# Dictation that uses its current match.

VALUES = ("a", "b", "c", "a b", "c c", "A", None, "")
SPEECH = [" ".join(w) for n in (0, 1, 2, 3)
          for w in itertools.product("abc", repeat=n)] + ["A", "A b", "a A", "ab", "cc"]


def judge_current(res, case):
    tree, values = model.spec(case["tree"]), case["values"]
    paths = [p for p, n in model.walk(tree) if n[0] == "D"]
    replaced = tree
    for p, v in zip(paths, values):
        n = LC(v) if v and v != v.lower() else V if v is None else L(v) if v else N
        # The current match is used as it is.
        if v:
            n = LC(v)
        replaced = model.replace_at(replaced, p, n)
    msgs = []
    for speech in SPEECH:
        res.transitions += 1
        # Two ways to do it, with and without a match before.
        for order, before in ((0, False), (1, True)):
            e, want = model.build(tree), model.build(replaced)
            if before:
                e.matches("a b c")
                e.reset_for_new_match()
            ds = [model.real_at(e, p) for p in paths]
            for d, v in zip(ds, values):
                if order == 0:
                    d.use_current_match = True
                    d.current_match = v
                else:
                    d.current_match = v
                    d.use_current_match = True
                if d.use_current_match is not True:
                    msgs.append("use_current_match was not set")
            if [v for d, v in zip(ds, values) if (d.current_match or "") != (v or "")]:
                msgs.append("current matches were not set")
            # Optional parts cannot have None as their current match.
            if [1 for d, v in zip(ds, values) if d.current_match != v]:
                continue
            got = e.matches(speech), e.current_match
            exp = want.matches(speech), want.current_match
            # Expansions that don't match keep what was set.
            if got[0] != exp[0] or exp[1] and got[1] != exp[1]:
                msgs.append("%s with %s: %r is matched as %r instead of %r" % (
                    model.show(tree), values, speech, got, exp))
            # And back to normal.
            for d in ds:
                d.use_current_match = False
            e.reset_for_new_match()
            other = model.build(tree)
            got = e.matches(speech), e.current_match
            exp = other.matches(speech), other.current_match
            if got != exp:
                msgs.append("%s with %s, afterwards: %r is matched as %r instead of %r" % (
                    model.show(tree), values, speech, got, exp))
    res.states += 1
    res.traces += 1
    res.outcome("%d current matches" % len(values))
    return msgs[:5]


def current_cases(ctx):
    trees = model.Trees(leaves=(L("a"), D()), unary=("O", "G", "R"), nary=("S", "A"),
                        max_arity=3)
    for n in trees.up_to(4):
        count = len([1 for _, x in model.walk(n) if x[0] == "D"])
        if 1 <= count <= 2:
            for values in itertools.product(VALUES[:ctx.pick(8, 8)] if count == 1
                                            else VALUES[1:ctx.pick(5, 8)],
                                            repeat=count):
                yield {"tree": n, "values": values}


# Regular expressions and spans.

def judge_regex(res, case):
    import jsgf
    from jsgf.expansions import matches_overlap
    from jsgf.ext import Dictation
    text, cs = case["text"], case["cs"]
    msgs = []
    p = jsgf.Literal(text, case_sensitive=cs).matching_regex_pattern
    words = text.split() if cs else text.lower().split()
    d = Dictation().matching_regex_pattern
    for speech in case["speech"]:
        res.transitions += 1
        m = p.fullmatch(speech)
        # Any whitespace between the words.
        want = bool(words) and speech.split() == words and speech == speech.strip()
        if bool(m) != want:
            msgs.append("the pattern of %r %s %r" % (
                text, "matches" if m else "doesn't match", speech))
        m = d.fullmatch(speech)
        want = bool(speech.split()) and speech == speech.strip()
        if bool(m) != want:
            msgs.append("the pattern of dictation %s %r" % (
                "matches" if m else "doesn't match", speech))
    # Spans.
    for speech in case["speech"]:
        found = [re.compile(x).search(speech, i) for x in ("a", "a b", "b", "b c?", ".*",
                                                           "c", "")
                 for i in (0, 1, 2)]
        found += [p.search(speech), d.search(speech), None, re.search("a", speech + " ")]
        for m1, m2 in itertools.product(found, repeat=2):
            res.transitions += 1
            want = bool(m1 and m2 and m1.string == m2.string and
                        max(m1.start(), m2.start()) <= min(m1.end(), m2.end()))
            if bool(matches_overlap(m1, m2)) != want:
                msgs.append("matches_overlap(%s, %s) is not %s" % (m1, m2, want))
    res.states += 1
    res.traces += 1
    res.outcome("regex")
    return msgs[:5]


def regex_cases(ctx):
    gaps = (" ", "  ", "\t")
    for text in ("a", "b", "a b", "a  b", "a.b", "A b", "b a c", u"ü a", "don't"):
        for cs in (False, True):
            words = text.split() if cs else text.lower().split()
            speech = ["", "a", "b", "a b", "ab", "a b c", "A b", "a.b", "axb", "a b ",
                      " a", "b a c", u"ü a", "don't", "b ac"]
            speech += [g.join(words) for g in gaps] + [" ".join(words[:-1]),
                                                       " ".join(words + ["c"])]
            yield {"text": text, "cs": cs, "speech": sorted(set(speech))}


# Tags and conversions.

def judge_tags(res, case):
    import jsgf
    msgs = []
    for tag in case["tags"]:
        for make in (lambda: jsgf.Literal("a"), lambda: jsgf.Sequence("a", "b"),
                     lambda: jsgf.NamedRuleRef("a"), lambda: jsgf.OptionalGrouping("a")):
            e = make()
            e.tag = tag
            res.transitions += 1
            t = tag.strip()
            escaped = "".join(["\\" + c if c in "{}\\" else c for c in t])
            want = " { %s }" % escaped if t else ""
            if e.tag != t:
                msgs.append("the tag %r is %r" % (tag, e.tag))
            if e.compiled_tag != want:
                msgs.append("the compiled tag of %r is %r instead of %r" % (
                    tag, e.compiled_tag, want))
            if not e.compile().endswith(want) or \
                    e.compile(ignore_tags=True) != make().compile():
                msgs.append("compiled with the tag %r: %r" % (tag, e.compile()))
            e.tag = ""
            if e.tag != "" or e.compiled_tag != "" or e.compile() != make().compile():
                msgs.append("the tag %r is left" % tag)
        # Text that is documented as parsable.
        if t and not [c for c in t if c not in "{}\\ aZ"]:
            e = jsgf.parse_expansion_string("a" + want)
            if e.tag != " ".join(t.split()):
                msgs.append("the tag %r is parsed as %r" % (t, e.tag))
    # Conversions.
    for e in (jsgf.Literal("a"), jsgf.Sequence(), jsgf.NullRef()):
        if jsgf.Expansion.make_expansion(e) is not e:
            msgs.append("make_expansion made something else of %s" % e)
    x = jsgf.Expansion.make_expansion("A b")
    if type(x) is not jsgf.Literal or x.text != "a b" or x.parent is not None:
        msgs.append("make_expansion('A b') is %s" % x)
    res.states += 1
    res.traces += 1
    res.outcome("tags")
    return msgs[:5]


def tag_cases(ctx):
    chars = "{}\\ aZ;|\"<"
    tags = ["".join(t) for n in range(1, ctx.pick(4, 5))
            for t in itertools.product(chars, repeat=n)]
    for i in range(0, len(tags), 200):
        yield {"tags": tags[i:i + 200]}


SPACES = [
    ("predicates", judge_predicates, predicate_cases, "all trees up to the node bound, "
     "with references to 3 rules; every expansion of them"),
    ("current matches", judge_current, current_cases, "all trees of up to 4 expansions "
     "with dictation and all current matches of 8; 44 speech strings, in 2 orders"),
    ("regular expressions", judge_regex, regex_cases, "9 texts, 20 speech strings, all "
     "pairs of 25 matches in each of them"),
    ("tags", judge_tags, tag_cases, "all tags of up to 3 (4) of 10 characters"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = ["patterns are judged for texts without characters other than '.' "
                       "that are special in regular expressions"]
