"""
C07: case sensitivity applies to what it is set on and to everything below.

Every sequence of settings (on grammars, rules and literals, with rules being added)
is applied to real grammars and compared with a model that has a flag per literal.
"""
import itertools

from . import core, model
from .model import A, F, G, K, L, LC, N, O, Q, R, S, V

PROP = "C07"


class Model(object):
    def __init__(self, world, added, gcs, rcs):
        self.world = world
        self.added = []
        self.gcs = gcs
        self.rule = {}
        self.lit = {}
        for i in range(len(world)):
            for p, n in model.walk(world[i][2]):
                if n[0] == "L":
                    self.lit[(i, p)] = False
        for i in model.ref_order(world):
            self.set_rule(i, rcs[i])
        for i in added:
            self.add(i)

    def set_rule(self, i, v):
        self.rule[i] = v
        for p, n in model.walk(self.world[i][2]):
            if n[0] == "L":
                self.lit[(i, p)] = v
            elif n[0] == "F":
                self.set_rule(n[1], v)
            elif n[0] == "Q" and i in self.added and n[1] in self.added:
                self.set_rule(n[1], v)

    def add(self, i):
        if i in self.added:
            return
        # References by name can only be found once the rule is in the grammar.
        self.set_rule(i, self.gcs)
        self.added.append(i)

    def do(self, op):
        if op[0] == "g":
            self.gcs = op[1]
            for i in self.added:
                self.set_rule(i, op[1])
        elif op[0] == "r":
            self.set_rule(op[1], op[2])
        elif op[0] == "l":
            self.lit[(op[1], op[2])] = op[3]
        elif op[0] == "a":
            self.add(op[1])

    def accepts(self, i, speech):
        """Match with the exact case of case-sensitive literals."""
        def conv(j, n, path):
            if n[0] == "L":
                return ("LC", n[1], (), "") if self.lit[(j, path)] else n
            return (n[0], n[1], tuple([conv(j, k, path + (x,))
                                       for x, k in enumerate(n[2])]), n[3])
        world = tuple([(name, v, conv(j, e, ()))
                       for j, (name, v, e) in enumerate(self.world)])
        return model.Language(world).accepts(world[i][2], tuple(speech.split()))


class Real(object):
    def __init__(self, world, added, gcs, rcs):
        import jsgf
        self.world = world
        names = [w[0] for w in world]
        self.rules = [None] * len(world)
        for i in model.ref_order(world):
            name, visible, node = world[i]
            self.rules[i] = jsgf.Rule(name, visible,
                                      model.build(node, self.rules, names), rcs[i])
        self.grammar = jsgf.Grammar("g", case_sensitive=gcs)
        for i in added:
            self.grammar.add_rule(self.rules[i])

    def do(self, op):
        if op[0] == "g":
            self.grammar.case_sensitive = op[1]
        elif op[0] == "r":
            self.rules[op[1]].case_sensitive = op[2]
        elif op[0] == "l":
            model.real_at(self.rules[op[1]].expansion, op[2]).case_sensitive = op[3]
        elif op[0] == "a":
            self.grammar.add_rule(self.rules[op[1]])


def usable(world, i, added):
    """Whether every reference by name in a rule can be found."""
    for _, n in model.walk(world[i][2]):
        if n[0] == "Q" and (i not in added or n[1] not in added):
            return False
        if n[0] in "FQ" and not usable(world, n[1], added):
            return False
    return True


def compare(m, r, speeches, msgs, what):
    if r.grammar.case_sensitive != m.gcs:
        msgs.append("%s: grammar.case_sensitive is %r" % (
            what, r.grammar.case_sensitive))
    for i, rule in enumerate(r.rules):
        if rule.case_sensitive is not m.rule[i]:
            msgs.append("%s: case_sensitive of %s is %r" % (what, rule.name,
                                                            rule.case_sensitive))
        for p, n in model.walk(m.world[i][2]):
            if n[0] != "L":
                continue
            e = model.real_at(rule.expansion, p)
            flag = m.lit[(i, p)]
            text = n[1] if flag else n[1].lower()
            if e.case_sensitive is not flag or e.text != text or \
                    e.compile() != text:
                msgs.append("%s: literal %r in %s is %r, case sensitive: %r" % (
                    what, n[1], rule.name, e.text, e.case_sensitive))
        if usable(m.world, i, m.added):
            for s in speeches:
                if rule.matches(s) != m.accepts(i, s):
                    msgs.append("%s: %s %s %r" % (
                        what, rule.name, "doesn't match" if m.accepts(i, s)
                        else "matches", s))


def judge(res, case):
    world = model.spec(case["world"])
    added = case["added"]
    ops = [("g", True), ("g", False)]
    for i in range(len(world)):
        ops += [("r", i, True), ("r", i, False)]
        lits = [p for p, n in model.walk(world[i][2]) if n[0] == "L"]
        for p in lits[:1]:
            ops += [("l", i, p, True), ("l", i, p, False)]
        if i not in added:
            ops.append(("a", i))
    texts = []
    for name, v, e in world:
        for _, n in model.walk(e):
            if n[0] == "L":
                texts.append(n[1])
    forms = sorted(set([f for t in texts for f in (t, t.lower())]))
    speeches = forms if len(texts) == 1 else \
        forms + [" ".join(x) for x in itertools.product(forms, repeat=2)
                 if x[0].lower() != x[1].lower()]
    msgs = []
    res.states += 1
    sequences = [case["sequence"]] if "sequence" in case else itertools.product(
        ops, repeat=case["depth"])
    for seq in sequences:
        seq = [model.spec(op) for op in seq]
        for early in (True, False):
            m = Model(world, added, case["gcs"], case["rcs"])
            r = Real(world, added, case["gcs"], case["rcs"])
            for k, op in enumerate(seq):
                if early:
                    # Have parser elements made for the current settings.
                    for i in range(len(world)):
                        if usable(world, i, m.added):
                            r.rules[i].matches(speeches[0])
                m.do(op)
                r.do(op)
                res.transitions += 1
            compare(m, r, speeches, msgs, "%s after %s" % (
                model.show_world(world), seq))
            res.traces += 1
        res.outcome("".join([str(int(x)) for _, x in sorted(m.lit.items())]))
        if len(msgs) > 3:
            break
    return msgs


def cases(ctx):
    a, b = L("Ab"), L("cD")
    one = [a, S(a, O(b)), A(a, b), R(A(a, S(b, a))), K(A(a, b))]
    depth = ctx.pick(2, 3)
    for e in one:
        for gcs, rcs in itertools.product((False, True), repeat=2):
            for added in ([], [0]):
                yield {"world": (("m", True, e),), "added": added, "gcs": gcs,
                       "rcs": [rcs], "depth": ctx.pick(3 if added else 2, 4)}
    for kind in (F, Q):
        for m in (kind(1), S(kind(1), O(a)), A(a, kind(1)), R(kind(1))):
            xs = (b, A(b, S(b, b)), R(b))
            if ctx.quick:
                xs = xs[:1] if m[0] != kind(1)[0] else xs[:2]
            for x in xs:
                for added in ([0, 1], [1, 0], [1], []):
                    if kind == F and added == []:
                        continue
                    for gcs, r1, r2 in itertools.product((False, True), repeat=3):
                        if ctx.quick and gcs and (r1 or r2):
                            continue
                        yield {"world": (("m", True, m), ("x", False, x)),
                               "added": added, "gcs": gcs, "rcs": [r1, r2],
                               "depth": depth}
        # Chains of references.
        for k2 in (F, Q):
            for gcs in (False, True):
                yield {"world": (("m", True, S(O(a), kind(1))),
                                 ("x", True, O(k2(2))), ("y", False, b)),
                       "added": [0, 1, 2], "gcs": gcs, "rcs": [not gcs] * 3,
                       "depth": depth}


def parse_cases(ctx):
    for t in (L("Ab"), S(L("Ab"), O(L("cD"))), A(L("Ab"), L("cD")),
              R(G(L("Ab cD")))):
        yield {"node": t}


def judge_parse(res, case):
    """Text keeps its case when parsed, so that sensitivity can be set afterwards."""
    import jsgf
    n = model.spec(case["node"])
    text = "#JSGF V1.0;\ngrammar g;\npublic <r> = %s;\n" % model.build(
        read_sensitive(n)).compile()
    msgs = []
    for flags in itertools.product((True, False), repeat=3):
        g = jsgf.parse_grammar_string(text)
        r = g.get_rule("r")
        res.transitions += 1
        value = False
        for target, f in zip((g, r, g), flags):
            target.case_sensitive = f
            value = f
            w = sum([[x for x in t.split()] for t in ("Ab", "cD")], [])
            lang = model.Language(())
            want = read_sensitive(n) if value else n
            for k in (1, 2, 3):
                for ws in itertools.product(("Ab", "ab", "cD", "CD"), repeat=k):
                    if r.matches(" ".join(ws)) != lang.accepts(want, ws):
                        msgs.append("%s with case_sensitive %r: wrong for %r" % (
                            text, flags, ws))
    res.states += 1
    res.outcome(len(flags))
    return msgs


def read_sensitive(n):
    if n[0] == "L":
        return ("LC", n[1], (), n[3])
    return (n[0], n[1], tuple([read_sensitive(k) for k in n[2]]), n[3])


SPACES = [("settings", judge, cases, "all sequences of settings"),
          ("parsed", judge_parse, parse_cases, "settings of parsed grammars")]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "expansions set or added after the setting keep their own case sensitivity",
        "rules don't reference themselves",
    ]
