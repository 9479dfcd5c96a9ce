"""
C28: parts of rules and rules can be moved, also between grammars.

Every sequence of moves up to a depth is made with real objects (with and without
matching in between) and with a model of trees, rules and grammars. Afterwards the
objects have to be linked like the model, and behave like a world that is newly made
from it.
"""
import itertools

PROP = "C28"

# Nodes are kept by number: [kind, argument, list of kids]. Rules: [name, root, grammar].


class World(object):
    """The model."""

    def __init__(self, rules):
        self.nodes = []
        self.rules = [[name, self.add(tree), g] for name, tree, g in rules]
        self.order = {}
        for g in (0, 1):
            self.order[g] = [i for i, r in enumerate(self.rules) if r[2] == g]

    def add(self, tree):
        i = len(self.nodes)
        self.nodes.append([tree[0], tree[1], []])
        self.nodes[i][2] = [self.add(k) for k in tree[2]]
        return i

    def parent(self, n):
        for i, x in enumerate(self.nodes):
            if n in x[2]:
                return i

    def within(self, n):
        yield n
        for k in self.nodes[n][2]:
            for x in self.within(k):
                yield x

    def root(self, n):
        while self.parent(n) is not None:
            n = self.parent(n)
        return n

    def rule_of(self, n):
        """The rule that an expansion is in."""
        r = [i for i, x in enumerate(self.rules) if x[1] == self.root(n)]
        return r[0] if r else None

    def target(self, n):
        """The rule a reference refers to (None: it cannot be found)."""
        kind, arg, _ = self.nodes[n]
        if kind == "F":
            return arg
        r = self.rule_of(n)
        if r is None or self.rules[r][2] is None:
            return None
        for i in self.order[self.rules[r][2]]:
            if self.rules[i][0] == arg:
                return i

    def direct(self, r):
        return [self.target(n) for n in self.within(self.rules[r][1])
                if self.nodes[n][0] in "FQ"]

    def deps(self, r):
        """Dependencies of a rule, or None if a reference cannot be found."""
        seen, todo = set(), [r]
        while todo:
            for t in self.direct(todo.pop()):
                if t is None:
                    return None
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
        return seen

    def cyclic(self):
        for i in range(len(self.rules)):
            seen, todo = set(), [i]
            while todo:
                for t in self.direct(todo.pop()):
                    if t == i:
                        return True
                    if t is not None and t not in seen:
                        seen.add(t)
                        todo.append(t)
        return False

    def sentences(self, n, depth=0):
        kind, arg, kids = self.nodes[n]
        if kind == "L":
            return {(arg,)}
        if kind in "FQ":
            t = self.target(n)
            if t is None or depth > 4:
                return {("zz",)}
            return self.sentences(self.rules[t][1], depth + 1)
        sets = [self.sentences(k, depth) for k in kids]
        if kind == "A":
            return set().union(*sets)
        if kind == "R":
            return set(itertools.islice(sorted(
                [a + b for a in sets[0] for b in [()] + sorted(sets[0])]), 12))
        result = {()}
        for s in sets:
            result = set(itertools.islice(sorted([a + b for a in result for b in s]), 20))
        if kind == "O":
            result.add(())
        return result


# Moves.

VARIABLE = "SAG"
HOW = ("pop", "slice", "children")


def moves(w, hows, places, limit=None):
    for n in range(len(w.nodes)):
        p = w.parent(n)
        inside = set(w.within(n))
        loose = p is None and w.rule_of(n) is None
        if loose or p is not None and w.nodes[p][0] in VARIABLE and \
                len(w.nodes[p][2]) > 1:
            for how in hows if not loose else hows[:1]:
                for y in range(len(w.nodes)):
                    if y in inside or w.nodes[y][0] not in VARIABLE:
                        continue
                    for at in places:
                        yield ("move", how, n, y, at)
                for r in range(len(w.rules)):
                    if w.rules[r][1] not in w.within(n):
                        yield ("root", how, n, r)
        if p is not None and w.nodes[p][0] in "OR" or p is None and not loose:
            continue
    for r in range(len(w.rules)):
        for kind in "SO":
            yield ("wrap", kind, r)
        for s in range(len(w.rules)):
            if s != r:
                yield ("steal", r, s)
                if r < s:
                    yield ("swap", r, s)
    for r in range(len(w.rules)):
        name, _, g = w.rules[r]
        for h in (0, 1):
            names = [w.rules[i][0] for i in w.order[h]]
            if h != g and name not in names:
                for how in (("in out", "out in") if g is not None else ("in",)):
                    yield ("transfer", how, r, h)
        if g is not None:
            yield ("remove", r)
            yield ("replace", r)
    for n, x in enumerate(w.nodes):
        if x[0] == "Q":
            for name in ("q", "r", "n"):
                if name != x[1]:
                    yield ("rename", n, name)


def detach(w, n):
    p = w.parent(n)
    if p is not None:
        w.nodes[p][2].remove(n)


def model_step(w, op):
    kind = op[0]
    if kind == "move":
        detach(w, op[2])
        kids = w.nodes[op[3]][2]
        kids.insert(0 if op[4] == 0 else len(kids), op[2])
    elif kind == "root":
        detach(w, op[2])
        w.rules[op[3]][1] = op[2]
    elif kind == "wrap":
        w.nodes.append([op[1], None, [w.rules[op[2]][1]]])
        w.rules[op[2]][1] = len(w.nodes) - 1
    elif kind == "swap":
        a, b = w.rules[op[1]], w.rules[op[2]]
        a[1], b[1] = b[1], a[1]
    elif kind == "steal":
        # The expansion of a rule is used by another one and it gets a new one.
        a, b = w.rules[op[1]], w.rules[op[2]]
        a[1] = b[1]
        w.nodes.append(["L", "new%d" % len(w.nodes), []])
        b[1] = len(w.nodes) - 1
    elif kind == "transfer":
        g = w.rules[op[2]][2]
        if g is not None:
            w.order[g].remove(op[2])
        w.order[op[3]].append(op[2])
        w.rules[op[2]][2] = op[3]
    elif kind == "remove":
        w.order[w.rules[op[1]][2]].remove(op[1])
        w.rules[op[1]][2] = None
    elif kind == "replace":
        # A new rule with the same name takes the place of the rule.
        name, _, g = w.rules[op[1]]
        w.order[g].remove(op[1])
        w.rules[op[1]][2] = None
        w.nodes.append(["L", "new%d" % len(w.nodes), []])
        w.rules.append([name, len(w.nodes) - 1, g])
        w.order[g].append(len(w.rules) - 1)
    elif kind == "rename":
        w.nodes[op[1]][1] = op[2]
    else:
        raise ValueError(op)


class Real(object):
    """Real objects for a model."""

    def __init__(self, w):
        import jsgf
        self.e = {}
        self.rules = [None] * len(w.rules)
        self.g = [jsgf.Grammar("one"), jsgf.Grammar("two")]
        self.build_rules(w)
        for h in (0, 1):
            for i in w.order[h]:
                self.g[h].add_rule(self.rules[i])

    def build_rules(self, w):
        import jsgf
        # References by object need their rules to exist first.
        done = {}

        def rule(i):
            if i not in done:
                done[i] = jsgf.Rule(w.rules[i][0], True, node(w.rules[i][1]))
            return done[i]

        def node(n):
            kind, arg, kids = w.nodes[n]
            if kind == "L":
                x = jsgf.Literal(arg)
            elif kind == "F":
                x = jsgf.RuleRef(rule(arg))
            elif kind == "Q":
                x = jsgf.NamedRuleRef(arg)
            else:
                x = {"S": jsgf.Sequence, "A": jsgf.AlternativeSet,
                     "G": jsgf.RequiredGrouping, "O": jsgf.OptionalGrouping,
                     "R": jsgf.Repeat}[kind](*[node(k) for k in kids])
            self.e[n] = x
            return x
        for i in range(len(w.rules)):
            self.rules[i] = rule(i)

    def detach(self, w, n, how):
        p = w.parent(n)
        if p is None:
            return
        kids = self.e[p].children
        i = w.nodes[p][2].index(n)
        if how == "pop":
            kids.pop(i)
        elif how == "slice":
            kids[i:i + 1] = []
        else:
            self.e[p].children = list(kids)[:i] + list(kids)[i + 1:]

    def step(self, w, op):
        """w: the model before the step."""
        import jsgf
        kind = op[0]
        if kind == "move":
            x = self.e[op[2]]
            self.detach(w, op[2], op[1])
            y = self.e[op[3]]
            if op[1] == "pop":
                if op[4] == 0:
                    y.children.insert(0, x)
                else:
                    y.children.append(x)
            elif op[1] == "slice":
                at = 0 if op[4] == 0 else len(y.children)
                y.children[at:at] = [x]
            else:
                kids = list(y.children)
                y.children = [x] + kids if op[4] == 0 else kids + [x]
        elif kind == "root":
            self.detach(w, op[2], op[1])
            self.rules[op[3]].expansion = self.e[op[2]]
        elif kind == "wrap":
            r = self.rules[op[2]]
            x = {"S": jsgf.Sequence, "O": jsgf.OptionalGrouping}[op[1]](r.expansion)
            r.expansion = x
            self.e[len(w.nodes)] = x
        elif kind == "swap":
            a, b = self.rules[op[1]], self.rules[op[2]]
            a.expansion, b.expansion = b.expansion, a.expansion
        elif kind == "steal":
            a, b = self.rules[op[1]], self.rules[op[2]]
            a.expansion = b.expansion
            b.expansion = "new%d" % len(w.nodes)
            self.e[len(w.nodes)] = b.expansion
        elif kind == "transfer":
            r, g = self.rules[op[2]], w.rules[op[2]][2]
            if op[1] == "out in":
                self.g[g].remove_rule(r, ignore_dependent=True)
            self.g[op[3]].add_rule(r)
            if op[1] == "in out":
                self.g[g].remove_rule(r, ignore_dependent=True)
        elif kind == "remove":
            self.g[w.rules[op[1]][2]].remove_rule(self.rules[op[1]],
                                                  ignore_dependent=True)
        elif kind == "replace":
            name, _, g = w.rules[op[1]]
            self.g[g].remove_rule(name, ignore_dependent=True)
            r = jsgf.Rule(name, True, "new%d" % len(w.nodes))
            self.e[len(w.nodes)] = r.expansion
            self.rules.append(r)
            self.g[g].add_rule(r)
        elif kind == "rename":
            self.e[op[1]].name = op[2]

    def links(self, w):
        """How the objects are linked."""
        import jsgf
        out = []
        rules = dict([(id(r), i) for i, r in enumerate(self.rules)])
        names = dict([(id(x), n) for n, x in self.e.items()])

        def rule(r):
            return None if r is None else rules.get(id(r), repr(r))

        def tries(f):
            try:
                return f()
            except jsgf.GrammarError:
                return "error"
        for n in sorted(self.e):
            x = self.e[n]
            out.append(("parent of", n, names.get(id(x.parent), x.parent)))
            out.append(("children of", n, [names.get(id(c), c) for c in x.children]))
            if x.parent is None and not w.nodes[n][0] in "FQ":
                out.append(("rule of root", n, rule(x.rule)))
            if w.nodes[n][0] in "FQ":
                out.append(("rule referenced by", n, tries(
                    lambda: rule(x.referenced_rule))))
        for i, r in enumerate(self.rules):
            g = [h for h in (0, 1) if r.grammar is self.g[h]]
            out.append(("grammar of", i, g[0] if g else r.grammar))
            out.append(("dependencies of", i, tries(
                lambda: sorted([rule(d) for d in r.dependencies], key=str))))
            out.append(("dependent rules of", i, tries(
                lambda: sorted([rule(d) for d in r.dependent_rules], key=str))
                if r.grammar is not None else []))
        return out

    def match(self, speeches):
        """Match so that things are cached."""
        for i, r in enumerate(self.rules):
            try:
                r.matches(speeches[i][-1])
            except Exception:
                pass

    def behaviour(self, speeches):
        out = []

        def tries(what, f):
            try:
                x = f()
            except Exception as e:
                x = type(e).__name__
            out.append((what, x))
        for h in (0, 1):
            tries(("compiled grammar", h), self.g[h].compile)
        for i, r in enumerate(self.rules):
            tries(("compiled rule", i), r.compile)
        for i, r in enumerate(self.rules):
            for s in sorted(set(speeches[i])):
                tries(("rule matches", i, s), lambda: r.matches(s))
        for h in (0, 1):
            for s in speeches[h * 2][:2]:
                tries(("rules matching", h, s), lambda: [
                    x.fully_qualified_name for x in self.g[h].find_matching_rules(s)])
        return out


def expected_links(w):
    out = []
    for n, x in enumerate(w.nodes):
        out.append(("parent of", n, w.parent(n)))
        out.append(("children of", n, x[2]))
        if w.parent(n) is None and x[0] not in "FQ" and w.rule_of(n) is not None:
            out.append(("rule of root", n, w.rule_of(n)))
        if x[0] in "FQ" and w.rule_of(n) is not None:
            t = w.target(n)
            out.append(("rule referenced by", n, "error" if t is None else t))
    known = all([w.deps(i) is not None for i in range(len(w.rules))])
    for i, r in enumerate(w.rules):
        out.append(("grammar of", i, r[2]))
        d = w.deps(i)
        if d is not None:
            out.append(("dependencies of", i, sorted(d)))
        if known:
            out.append(("dependent rules of", i, [] if r[2] is None else sorted(
                [j for j in w.order[r[2]] if i in w.deps(j)])))
    return out


WORLDS = [
    # Names that are in both grammars, also a rule that isn't in one.
    [("r", ("S", None, [("L", "a", []), ("Q", "q", []), ("O", None, [("L", "b", [])])]), 0),
     ("q", ("A", None, [("L", "c", []), ("L", "d", [])]), 0),
     ("r", ("A", None, [("S", None, [("L", "e", []), ("Q", "q", [])]), ("L", "f", [])]), 1),
     ("q", ("L", "g", []), 1)],
    # References by object and by name, in groupings.
    [("r", ("A", None, [("G", None, [("Q", "q", []), ("L", "a", [])]), ("F", 3, [])]), 0),
     ("q", ("L", "b", []), 0),
     ("q", ("S", None, [("L", "c", []), ("O", None, [("L", "d", [])])]), 1),
     ("n", ("S", None, [("L", "e", []), ("L", "f", [])]), 1),
     ("m", ("G", None, [("L", "h", []), ("Q", "n", [])]), None)],
    # Chains of references.
    [("r", ("S", None, [("R", None, [("Q", "n", [])]), ("L", "a", [])]), 0),
     ("n", ("A", None, [("Q", "q", []), ("L", "b", [])]), 0),
     ("q", ("L", "c", []), 0),
     ("r", ("S", None, [("Q", "q", []), ("L", "d", [])]), 1),
     ("q", ("A", None, [("L", "e", []), ("L", "f", [])]), 1)],
]


def sentences(w):
    """The shortest and the longest sentence of every rule."""
    out = []
    for name, root, g in w.rules:
        xs = sorted([x for x in w.sentences(root) if x], key=lambda x: (len(x), x))
        out.append([" ".join(x) for x in xs[:1] + xs[-1:]] or ["zz"])
    return out


def judge(res, case):
    first = [tup(o) for o in case["first"]]
    probe = World(WORLDS[case["world"]])
    for op in first:
        model_step(probe, op)
    if case["depth"]:
        ops = [first + [op] for op in moves(probe, HOW[:1], (1,))
               if op[0] not in case.get("without", ())]
    else:
        ops = [first]
    for seq in ops:
        for matching in (False, True) if case.get("both") else (True,):
            msgs = judge_sequence(res, case["world"], seq, matching)
            if msgs:
                return ["%s%s: %s" % (seq, " with matching" if matching else "", m)
                        for m in msgs]
    return []


def judge_sequence(res, world, seq, matching):
    w = World(WORLDS[world])
    real = Real(w)
    for op in seq:
        before = sentences(w)
        if matching:
            real.match(before)
        real.step(w, op)
        model_step(w, op)
        if w.cyclic():
            return []
        res.transitions += 1
    # Every rule is asked for sentences of it and one that was one before.
    speeches = sentences(w)
    for xs, old in zip(speeches, before):
        xs.append(old[-1])
    res.states += 1
    res.traces += 1
    res.outcome(seq[-1][0])
    got = dict([(x[:2], x[2]) for x in real.links(w)])
    msgs = ["%s %s is %r instead of %r" % (x[0], x[1], got.get(x[:2]), x[2])
            for x in expected_links(w) if got.get(x[:2]) != x[2]]
    if msgs:
        return msgs[:3]
    return ["%s: %r instead of %r" % (k, a, b) for (k, a), (_, b) in
            zip(real.behaviour(speeches), fresh(w, speeches)) if a != b][:3]


_FRESH = {}


def fresh(w, speeches):
    """What newly made objects do."""
    key = repr((w.nodes, w.rules, w.order, speeches))
    if key not in _FRESH:
        if len(_FRESH) > 2000:
            _FRESH.clear()
        _FRESH[key] = Real(w).behaviour(speeches)
    return _FRESH[key]


def tup(op):
    return tuple(op)


def cases(ctx):
    for i in range(len(WORLDS)):
        for op in moves(World(WORLDS[i]), HOW, (0, 1)):
            yield {"world": i, "first": [op], "depth": 0, "both": True}
        for op in moves(World(WORLDS[i]), HOW[:1], (1,)):
            yield {"world": i, "first": [op], "depth": 1, "both": not ctx.quick,
                   "without": ((), ("move", "root"), ("move", "root", "steal", "wrap"))[
                       i if ctx.quick else 0]}


def long_cases(ctx):
    for i in range(len(WORLDS)):
        for op in moves(World(WORLDS[i]), HOW[:1], (1,)):
            w = World(WORLDS[i])
            model_step(w, op)
            for op2 in moves(w, HOW[1:2], (0,)):
                yield {"world": i, "first": [op, op2], "depth": 1}


SPACES = [
    ("moves", judge, cases, "all sequences of up to 2 moves in 3 worlds, the first one in "
     "3 ways and to 2 places; with and (quick: up to 1 move) without matching before each; "
     "quick: fewer kinds of second moves in two worlds"),
]
LONG = ("longer histories", judge, long_cases, "all sequences of 3 moves in 3 worlds")
PARTS = dict([(s[0], s[1]) for s in SPACES + [LONG]])


def run(ctx):
    for name, j, cs, bound in SPACES + ([] if ctx.quick else [LONG]):
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = ["an expansion is in one place of one rule at a time",
                       "histories end where rules become recursive"]
