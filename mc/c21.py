"""
C21: sequence rules match one part of the sequence after the other.

A reference model of the protocol (index, refusal, what each part matched) predicts every
observable value after every history of operations on real sequence rules.
"""
import copy
import itertools
import pickle

from . import c02, c20, model
from .model import A, D, F, G, K, L, LC, N, O, R, S

PROP = "C21"


def fill(world, texts):
    """The world with each dictation replaced by the text it matched (None: none)."""
    texts = iter(texts)
    out = {}

    def rec(n):
        if n[0] == "D":
            t = next(texts, None)
            return ("V", None, (), n[3]) if t is None else ("LC", t, (), n[3])
        if n[0] == "F" and n[1] not in out:
            out[n[1]] = rec(world[n[1]][2])
        return (n[0], n[1], tuple([rec(k) for k in n[2]]), n[3])
    last = len(world) - 1
    out[last] = rec(world[last][2])
    return tuple([(w[0], w[1], out.get(i, w[2])) for i, w in enumerate(world)])


def without_root_repeat(n):
    """(Whether everything can be repeated, the tree without that repeat)."""
    if n[0] == "R":
        return True, n[2][0]
    if len(n[2]) == 1 and n[0] not in "OK":
        found, kid = without_root_repeat(n[2][0])
        return found, (n[0], n[1], (kid,), n[3])
    return False, n


def speeches_of(part, world, longer=False):
    """Two members (if there are two) and two others."""
    lang = model.Language(world)
    members, others = [], []
    words = sorted(model.words_of(part, world))[:3] + ["x", "y"]
    for i in range(1, 4):
        for t in itertools.product(words, repeat=i):
            (members if lang.accepts(part, t) else others).append(" ".join(t))
    if lang.accepts(part, ()):
        members.append("")
    else:
        others.append("")
    if c20.dictations(part, world):
        # Dictation has its own words, so that the original rule isn't ambiguous.
        members = ["x", "x y"]
    # An almost correct one.
    near = [o for o in others if members and o.startswith(members[0] + " ")] or others
    return members[:2] + near[:1] + [o for o in others if o == ""]


class Model(object):
    """The protocol."""

    def __init__(self, world, parts):
        self.world = world
        self.parts = parts
        self.lang = model.Language(world)
        self.index = 0
        self.refuse = False
        self.matched = [None] * len(parts)
        self.grafted = None     # speech of the parts matched so far, at the last match

    def op(self, op):
        kind, arg = op
        if kind == "match":
            if self.refuse:
                return False
            part = self.parts[self.index]
            ok = self.lang.accepts(part, tuple(arg.split()))
            self.matched[self.index] = arg if ok else None
            self.refuse = True
            prefix = []
            for m in self.matched:
                if m is None:
                    break
                prefix.append(m)
            self.grafted = list(prefix), list(self.matched)
            return ok
        if kind == "next" and self.index + 1 < len(self.parts):
            self.index += 1
            self.refuse = False
        elif kind == "restart":
            self.index = 0
            self.refuse = False
            self.matched = [None] * len(self.parts)
        elif kind == "refuse":
            self.refuse = arg
        elif kind == "copy":
            # Copies have no match data.
            self.matched = [None] * len(self.parts)
            self.grafted = None
        return None

    def key(self):
        return (self.index, self.refuse, tuple(self.matched), repr(self.grafted))


class Real(object):
    def __init__(self, world):
        import jsgf.ext
        self.world = world
        names = [w[0] for w in world]
        self.rules = [None] * len(world)
        for i in model.ref_order(world):
            name, visible, node = world[i]
            e = model.build(node, self.rules, names)
            if i == len(world) - 1:
                self.original = e
                self.rules[i] = jsgf.ext.SequenceRule(name, visible, e)
            else:
                self.rules[i] = jsgf.Rule(name, visible, e)
        self.rule = self.rules[-1]

    def op(self, op):
        kind, arg = op
        r = self.rule
        if kind == "match":
            return r.matches(arg)
        if kind == "next":
            return r.set_next()
        if kind == "restart":
            return r.restart_sequence()
        if kind == "refuse":
            r.refuse_matches = arg
        elif kind == "copy":
            self.rule = copy.deepcopy(r)
        elif kind == "pickle":
            self.rule = pickle.loads(pickle.dumps(r, arg))
        if self.rule is not r:
            self.rules = self.rules[:-1] + [self.rule]
            self.original = self.rule.original_expansion
        return None


class Original(object):
    """A rule that only has the original expansion."""

    def __init__(self, expansion):
        self.expansion = expansion


def observe(real, m, index):
    """Differences between a real rule and the model."""
    r = real.rule
    part = m.parts[m.index]
    dictation = c20.dictations(part, m.world) > 0
    want = {
        "refuse_matches": m.refuse,
        "has_next_expansion": m.index + 1 < len(m.parts),
        "current_is_dictation_only": dictation,
        "entire_match": " ".join(m.matched) if None not in m.matched else None,
    }
    for k, v in want.items():
        got = getattr(r, k)
        if got != v or (v is None) != (got is None):
            return "%s is %r instead of %r" % (k, got, v)
    if len(r.expansion_sequence) != len(m.parts):
        return "%d parts" % len(r.expansion_sequence)
    for e, s, t in zip(r.expansion_sequence, m.parts, m.matched):
        if model.read(e, index) != s:
            return "part is %s instead of %s" % (e, model.show(s))
        if e.current_match != t:
            return "part %s has the current match %r instead of %r" % (
                model.show(s), e.current_match, t)
    if r.expansion is not r.expansion_sequence[m.index]:
        return "the expansion isn't the current part"
    if r.original_expansion is not real.original:
        return "the original expansion is another one"
    text = "" if m.refuse or dictation else "%s<%s> = %s;" % (
        "public " if r.visible else "", r.name, r.expansion.compile())
    if r.compile() != text:
        return "compiled to %r instead of %r" % (r.compile(), text)
    return None


def observe_original(real, m):
    """Differences of the original expansion's match data right after a match."""
    if m.grafted is None:
        return None
    prefix, matched = m.grafted
    speech = " ".join(prefix)
    words = tuple(speech.split())
    texts = [t for t, p in zip(matched, m.parts) if c20.dictations(p, m.world)]
    filled = fill(m.world, texts)
    node = filled[-1][2]
    lang = model.Language(filled)
    rules = real.rules[:-1] + [Original(real.original)]
    tree = c02.Tree(filled, rules, len(filled) - 1)
    e = real.original
    if not lang.accepts(node, words):
        bad = c02.no_data(tree)
        return bad and "original after %r: %s" % (speech, bad)
    if not words:
        return None
    if not model.unambiguous(node, filled):
        return None
    if e.current_match is None or e.current_match.split() != list(words):
        return "original has the current match %r instead of %r" % (
            e.current_match, speech)
    bad = None
    for d in itertools.islice(lang.derivations(node, words, 0, len(words)), 100):
        bad = c02.compare(tree, d, words, speech, strict=False)
        if bad is None:
            return None
    return "original after %r: %s" % (speech, bad)


def parts_of(world):
    """The parts of the sequence, by cutting the tree at its dictation."""
    node = world[-1][2]
    return cut(without_root_repeat(node)[1], world)


def cut(n, world):
    if not c20.dictations(n, world) or n[0] == "D":
        return [n]
    if n[0] == "F":
        return cut(world[n[1]][2], world)
    out, group = [], []

    def flush():
        if group:
            out.append((n[0], None, tuple(group), ""))
            del group[:]
    for k in n[2]:
        for p in cut(k, world):
            if c20.dictations(p, world):
                flush()
                # References are replaced by what they refer to.
                out.append(p if in_reference(k, world) else (n[0], None, (p,), ""))
            else:
                group.append(p)
    flush()
    return out


def in_reference(k, world):
    """Whether the dictation of a part comes from a reference."""
    return any([x[0] == "F" and c20.dictations(x, world) for _, x in model.walk(k)])


def ops_of(m):
    out = [("match", s) for s in speeches_of(m.parts[m.index], m.world)]
    out += [("next", None), ("restart", None), ("refuse", not m.refuse)]
    return out


def run_path(world, parts, path):
    real, m = Real(world), Model(world, parts)
    return real, m, [(real.op(op), m.op(op)) for op in path]


def judge(res, case):
    world = model.spec(case["world"])
    index = {w[0]: i for i, w in enumerate(world)}.get
    parts = parts_of(world)
    msgs = []
    what = model.show_world(world)

    def check(path, deep=True):
        real, m, results = run_path(world, parts, path)
        res.transitions += 1
        got, want = results[-1] if results else (None, None)
        bad = None
        if got != want:
            bad = "returned %r instead of %r" % (got, want)
        bad = bad or observe(real, m, index) or \
            (path and path[-1][0] == "match" and observe_original(real, m))
        if bad:
            msgs.append("%s after %s: %s" % (what, path, bad))
        res.outcome("%s%s" % (path[-1][0] if path else "new",
                              "" if want is None else " %s" % want))
        return real, m

    real = Real(world)
    if real.rule.can_repeat != without_root_repeat(world[-1][2])[0]:
        return ["%s: can_repeat is %r" % (what, real.rule.can_repeat)]
    if [model.read(e, index) for e in real.rule.expansion_sequence] != parts:
        return ["%s: the sequence is %s instead of %s" % (
            what, real.rule.expansion_sequence, [model.show(p) for p in parts])]
    if real.rule.original_expansion is not real.original or \
            model.show(model.read(real.original, index)) != \
            model.show(c20.norm(world[-1][2])):
        return ["%s: the original expansion was changed" % what]
    tags = {x[3] for _, x in model.walk(world[-1][2]) if x[3]}
    if set(real.rule.tags) != tags:
        return ["%s: tags are %s" % (what, real.rule.tags)]

    # Every state of the protocol with every operation.
    seen = {Model(world, parts).key(): ()}
    todo = [()]
    res.states += 1
    while todo and not msgs and len(seen) < case["states"]:
        path = todo.pop(0)
        _, m, _ = run_path(world, parts, path)
        for op in ops_of(m) + [("copy", None), ("pickle", 2)]:
            _, m2 = check(path + (op,))
            k = m2.key()
            if op[0] not in ("copy", "pickle") and k not in seen:
                seen[k] = path + (op,)
                todo.append(path + (op,))
                res.states += 1
        res.traces += 1
    # Every history up to a length.
    def rec(path):
        real, m = check(path)
        if msgs or len(path) == case["depth"]:
            return
        for op in ops_of(m) + ([("copy", None)] if case.get("copies") else []):
            rec(path + (op,))
    rec(())
    return msgs[:5]


def judge_copy(res, case):
    """Copies and originals don't change each other."""
    world = model.spec(case["world"])
    index = {w[0]: i for i, w in enumerate(world)}.get
    parts = parts_of(world)
    msgs = []
    _, m0, _ = run_path(world, parts, ())
    res.states += 1
    for how in (("copy", None), ("pickle", 2), ("pickle", pickle.HIGHEST_PROTOCOL)):
        for first in ops_of(m0):
            for second in ops_of(m0):
                for mine in (True, False):
                    real, m, _ = run_path(world, parts, (first,))
                    rule = real.rule
                    other, m2, _ = run_path(world, parts, (first,))
                    other.rule, other.original = rule, real.original
                    other.rules = real.rules
                    real.op(how)
                    m.op(how)
                    a, b = (real, other) if mine else (other, real)
                    ma = m if mine else m2
                    mb = m2 if mine else m
                    a.op(second)
                    ma.op(second)
                    res.transitions += 1
                    bad = observe(a, ma, index) or observe(b, mb, index)
                    if bad:
                        msgs.append("%s, %s after %s, %s %s: %s" % (
                            model.show_world(world), how, first, second,
                            "of the copy" if mine else "of the original", bad))
                        return msgs
    return msgs


def judge_refused(res, case):
    """Rules that aren't expanded are refused, expanded ones are not."""
    import jsgf
    import jsgf.ext
    from jsgf.ext.expansions import expand_dictation_expansion
    node = model.spec(case["node"])
    res.states += 1
    msgs = []
    for cls, args in ((jsgf.ext.SequenceRule, ("m", True)),
                      (jsgf.ext.PublicSequenceRule, ("m",)),
                      (jsgf.ext.PrivateSequenceRule, ("m",))):
        res.transitions += 1
        try:
            r = cls(*(args + (model.build(node),)))
            ok = True
        except jsgf.GrammarError:
            ok = False
        found, inner = without_root_repeat(node)
        if ok and c20.unprocessed(inner):
            msgs.append("%s isn't refused" % model.show(node))
        if not ok and not c20.unprocessed(inner) and not any(
                [x[0] in "OK" for _, x in model.walk(node)]):
            msgs.append("%s is refused" % model.show(node))
        res.outcome("accepted" if ok else "refused")
        if ok and cls is not jsgf.ext.SequenceRule and \
                r.visible != (cls is jsgf.ext.PublicSequenceRule):
            msgs.append("%s has visible=%r" % (cls, r.visible))
    for x in expand_dictation_expansion(model.build(node)):
        s = model.read(x)
        try:
            jsgf.ext.SequenceRule("m", True, x)
        except jsgf.GrammarError:
            # A repeat of everything is removed first, and what can be left out of
            # a repetition could now be left out of the sequence.
            msgs.append("expanded %s of %s is refused" % (
                model.show(s), model.show(node)))
    return msgs[:5]


def judge_case(res, case):
    """Case sensitivity applies to the whole sequence and the original expansion."""
    import jsgf.ext
    res.states += 1
    msgs = []
    node, moves, at = model.spec(case["node"]), case["moves"], case["at"]
    e = model.build(node)
    rule = jsgf.ext.SequenceRule("m", True, e, case_sensitive=case["init"])
    value = case["init"]
    parts = parts_of((("m", True, node),))
    for i in range(moves + 1):
        if i == at:
            rule.case_sensitive = value = case["value"]
        if i < moves:
            rule.set_next()
    rule.restart_sequence()
    texts = []
    for p in parts:
        words = " ".join(model.words_of(p)) or "x"
        upper = "X" if words == "x" else words.upper()
        for speech in (upper, words):
            rule.refuse_matches = False
            got = rule.matches(speech)
            res.transitions += 1
            want = words == "x" or speech == words or not value
            if got != want:
                msgs.append("%s, case_sensitive=%r set at part %d: matches(%r) is %r" % (
                    model.show(node), value, at, speech, got))
        texts.append(words)
        res.outcome(str(want))
        rule.set_next()
    if rule.case_sensitive != value:
        msgs.append("case_sensitive is %r" % rule.case_sensitive)
    for x in model.walk_real(rule.original_expansion):
        if type(x).__name__ == "Literal" and x.case_sensitive != value:
            msgs.append("literal of the original has case_sensitive=%r instead of %r"
                        % (x.case_sensitive, value))
    for y in rule.expansion_sequence:
        for x in model.walk_real(y):
            if type(x).__name__ == "Literal" and x.case_sensitive != value:
                msgs.append("literal has case_sensitive=%r instead of %r"
                            % (x.case_sensitive, value))
    if rule.original_expansion.current_match != " ".join(texts):
        msgs.append("original matched %r instead of %r" % (
            rule.original_expansion.current_match, " ".join(texts)))
    return msgs[:5]


def usable(n, world=()):
    """Trees whose parts and original are unambiguous."""
    inlined = model.inline(n, world)
    if c20.unprocessed(without_root_repeat(inlined)[1]) or c20.unprocessed(inlined):
        return False
    if inlined[0] in "OK" or (len(inlined[2]) == 1 and nullable_root(inlined)):
        return False
    if any([x[0] in "OK" for _, x in model.walk(inlined)]) and \
            c20.dictations(inlined, ()) and not grouped(inlined):
        return False
    w = world or ()
    lang = model.Language(w)
    return all([model.unambiguous(c19_repeated(p), w) and not lang.nullable(p)
                for p in cut(without_root_repeat(n)[1], w)])


def c19_repeated(n):
    from .c19 import repeated_words
    return repeated_words(n)


def nullable_root(n):
    while len(n[2]) == 1:
        n = n[2][0]
        if n[0] in "OK":
            return True
    return False


def grouped(n):
    """Whether optional parts are in groupings without dictation."""
    for path, x in model.walk(n):
        if x[0] in "OK":
            for i in reversed(range(len(path))):
                up = model.node_at(n, path[:i])
                if up[0] in ("S", "G"):
                    if c20.dictations(up, ()):
                        return False
                    break
            else:
                return False
    return True


def cases_trees(ctx):
    size = ctx.pick(5, 6)
    trees = model.Trees(leaves=(L("a"), L("b"), D()), unary=("O", "R", "G"),
                        nary=("S", "A"), max_arity=3)
    for n in trees.up_to(size):
        if usable(n) and (c20.dictations(n, ()) or model.size(n) < 4):
            big = model.size(n) > 4
            yield {"world": [["m", True, c20.label(n)]], "states": ctx.pick(25, 60),
                   "depth": ctx.pick(2 if big else 3, 3 if big else 4),
                   "copies": not big}


SHAPES = [
    S(L("a"), D(), L("b"), D()), S(D(), L("a"), D(), L("b")),
    R(S(L("a"), D(), L("b"))), S(R(S(D(), L("a")))), S(R(D()), L("a")),
    S(L("a"), R(D()), L("b")), S(A(L("a"), L("b")), D(), A(L("c"), L("d"))),
    S(L("a b"), D(), L("c d")), S(G(L("a"), D()), G(L("b"), D())),
    S(R(L("a")), D(), L("b")), S(L("a"), S(L("b"), D()), L("c")),
    S(D(), D(), D()), S(L("a"), D(), D(), L("b")), A(S(L("a"), D())),
    S(G(O(L("a")), L("b")), D()), S(D(), G(R(A(L("a"), L("b"))))),
    R(R(S(L("a"), D()))), R(S(R(L("a")), D())),
    S(A(L("a"), L("b"), weights=(0, 1)), D()), S(S(S(L("a"), D()), L("b")), D()),
]


def cases_shapes(ctx):
    for n in SHAPES:
        if usable(n):
            yield {"world": [["m", True, n]], "states": ctx.pick(60, 400),
                   "depth": ctx.pick(3, 5)}
    refs = [D(), S(L("a"), D()), S(D(), L("a")), L("a"), A(L("a"), L("c"))]
    mains = [S(L("b"), F(0)), S(F(0), L("b")), S(D(), F(0)), R(S(L("b"), F(0))),
             S(F(0), D(), L("b"))]
    for r, n in itertools.product(refs, mains):
        w = (("r", False, r), ("m", True, n))
        if usable(n, w) and c20.dictations(n, w):
            yield {"world": w, "states": ctx.pick(40, 200), "depth": ctx.pick(2, 4)}


def cases_copy(ctx):
    for n in SHAPES[:ctx.pick(12, len(SHAPES))]:
        if usable(n):
            yield {"world": [["m", True, n]]}


def cases_refused(ctx):
    size = ctx.pick(5, 6)
    for n in c20.trees(size, kinds=("O", "R", "K", "G")).up_to(size):
        yield {"node": n}


def cases_case(ctx):
    for n in SHAPES:
        if any([x[0] in "AOLC" and x[0] != "L" for _, x in model.walk(n)]) or \
                n[0] == "R" and n[2][0][0] == "R":
            continue
        count = len(parts_of((("m", True, n),)))
        for init, value in itertools.product((False, True), repeat=2):
            for moves in range(count):
                for at in range(moves + 1):
                    yield {"node": n, "init": init, "value": value, "moves": moves,
                           "at": at}


SPACES = [
    ("trees", judge, cases_trees, "all expanded trees up to the node bound; all "
     "protocol states up to a bound with all operations, all histories up to a depth"),
    ("shapes", judge, cases_shapes, "21 longer sequences and references to rules"),
    ("copies", judge_copy, cases_copy, "copies and unpickled rules, one operation "
     "before and after"),
    ("refused", judge_refused, cases_refused, "all trees up to the node bound"),
    ("case", judge_case, cases_case, "case sensitivity set at each part"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, list(cs(ctx)), j, bound)
    ctx.assumptions = [
        "parts and original expansions are unambiguous (see C01), dictation is "
        "matched with its own words",
        "parts that can match nothing aren't covered",
        "a rule with dictation is referenced once (its match data is shared)",
    ]
