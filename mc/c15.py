"""
C15: a grammar is an ordered collection of uniquely named rules and imports.

All reachable states of a model of a grammar are explored breadth first; every operation
is applied to a real grammar in every state (and along every short sequence without
merging of states) and the result, the errors and everything that can be observed of the
grammar and of all rules are compared with the model.
"""
import itertools

from . import model
from .model import A, F, K, L, LC, O, Q, R, S, with_tag

PROP = "C15"
NAMES = ["x", "y", "z", "w", "v"]

# (name, visible, node); F(0) references the object with index 0, Q(i) refers to
# NAMES[i].
OBJECTS = [
    ("x", True, L("a")),
    ("x", True, L("a")),                    # equal to the first one
    ("x", False, L("b")),                   # same name
    ("y", True, S(Q(0), L("c"))),
    ("z", False, O(F(0))),
    ("w", True, A(Q(1), L("d", "t"))),
    ("root", True, L("b")),
    ("x", False, L("b")),                   # equal to the third one
]
SPEECH = ["a", "b", "a c", "b c", "d", "", "A", "D"]


class Model(object):
    def __init__(self, kind, gcs):
        self.kind = kind
        self.gcs = gcs
        self.members = []
        self.names = [o[0] for o in OBJECTS]
        self.visible = [o[1] for o in OBJECTS]
        self.active = [True] * len(OBJECTS)
        self.cs = [False] * len(OBJECTS)
        self.imports = []

    def key(self):
        return (tuple(self.members), tuple(self.names), tuple(self.visible),
                tuple(self.active), tuple(self.cs), self.gcs, tuple(self.imports))

    def same(self, i):
        node = OBJECTS[i][2]
        return (self.names[i], self.visible[i], node, self.cs[i])

    def find(self, name):
        for m in self.members:
            if self.names[m] == name:
                return m
        return None

    def refs(self, i):
        """Objects referenced directly; None for names that are not found."""
        out = []
        for _, n in model.walk(OBJECTS[i][2]):
            if n[0] == "F":
                out.append(n[1])
            elif n[0] == "Q":
                out.append(self.find(NAMES[n[1]]) if i in self.members else None)
        return out

    def deps(self, i, seen=()):
        """All objects referenced or None."""
        out = set()
        for r in self.refs(i):
            if r is None or r in seen:
                return None
            d = self.deps(r, seen + (i,))
            if d is None:
                return None
            out |= {r} | d
        return out

    def dangling(self):
        return any([self.deps(m) is None for m in self.members])

    def dependents(self, i):
        if i not in self.members:
            return set()
        return {m for m in self.members
                if self.same(i) in [self.same(d) for d in self.deps(m)]}

    def set_case(self, i, v):
        self.cs[i] = v
        for r in self.refs(i):
            if r is not None:
                self.set_case(r, v)

    def do(self, op):
        """Returns the kind of result: 'ok', 'error' or 'either' (dangling)."""
        k = op[0]
        if k == "add":
            for i in op[1]:
                if self.kind == "root" and self.names[i] == "root":
                    return "error"
                j = self.find(self.names[i])
                if j is not None:
                    if self.same(i) in [self.same(m) for m in self.members]:
                        continue
                    return "error"
                self.set_case(i, self.gcs)
                self.members.append(i)
            return "ok"
        if k in ("remove name", "remove object"):
            if k == "remove name":
                j = self.find(op[1])
            else:
                js = [m for m in self.members if self.same(m) == self.same(op[1])]
                j = js[0] if js else None
            if j is None:
                return "error"
            if not op[2]:
                if self.dangling():
                    return "either"
                if self.dependents(j):
                    return "error"
            self.members.remove(j)
            return "ok"
        if k in ("enable", "disable"):
            j = self.find(op[1])
            if j is None:
                return "error"
            self.active[j] = k == "enable"
            return "ok"
        if k in ("enable object", "disable object"):
            # The object itself changes, as well as the rule with its name.
            self.active[op[1]] = k == "enable object"
            j = self.find(self.names[op[1]])
            if j is None:
                return "error"
            self.active[j] = k == "enable object"
            return "ok"
        if k == "case":
            self.gcs = op[1]
            for m in self.members:
                self.set_case(m, op[1])
            return "ok"
        if k == "visible":
            self.visible[op[1]] = op[2]
            return "ok"
        if k == "rename":
            self.names[op[1]] = op[2]
            return "ok"
        if k == "import":
            for n in op[1]:
                if n not in self.imports:
                    self.imports.append(n)
            return "ok"
        if k == "remove import":
            for n in op[1]:
                if n not in self.imports:
                    return "error"
                self.imports.remove(n)
            return "ok"
        raise ValueError(op)

    def enabled(self, op):
        if op[0] == "rename":
            # Renaming doesn't check names.
            return self.names[op[1]] != op[2] and self.find(op[2]) is None
        if op[0] == "visible":
            return self.visible[op[1]] != op[2]
        if op[0] in ("enable object", "disable object"):
            return True
        return True

    def accepts(self, i, words):
        def conv(j):
            def rec(n):
                if n[0] in "FQ":
                    r = n[1] if n[0] == "F" else self.find(NAMES[n[1]])
                    return conv(r)
                if n[0] == "L" and self.cs[j]:
                    return ("LC", n[1], (), "")
                return (n[0], n[1], tuple([rec(k) for k in n[2]]), "")
            return rec(OBJECTS[j][2])
        return model.Language(()).accepts(conv(i), words)

    def tagged(self, i):
        return any([n[3] for j in {i} | self.deps(i)
                    for _, n in model.walk(OBJECTS[j][2])])


class Real(object):
    def __init__(self, kind, gcs):
        import jsgf
        self.grammar = {"plain": jsgf.Grammar, "root": jsgf.RootGrammar}[kind](
            name="p.g", case_sensitive=gcs)
        self.objects = []
        for name, visible, node in OBJECTS:
            self.objects.append(jsgf.Rule(name, visible, model.build(
                node, self.objects, NAMES)))
        self.bodies = [o.expansion.compile() for o in self.objects]

    def do(self, op):
        import jsgf
        g, os = self.grammar, self.objects
        k = op[0]
        try:
            if k == "add":
                if len(op[1]) == 1:
                    g.add_rule(os[op[1][0]])
                else:
                    g.add_rules(*[os[i] for i in op[1]])
            elif k == "remove name":
                g.remove_rule(op[1], op[2])
            elif k == "remove object":
                g.remove_rule(os[op[1]], ignore_dependent=op[2])
            elif k == "enable":
                g.enable_rule(op[1])
            elif k == "disable":
                g.disable_rule(op[1])
            elif k == "enable object":
                g.enable_rule(os[op[1]])
            elif k == "disable object":
                g.disable_rule(os[op[1]])
            elif k == "case":
                g.case_sensitive = op[1]
            elif k == "visible":
                os[op[1]].visible = op[2]
            elif k == "rename":
                os[op[1]].name = op[2]
            elif k == "import":
                if len(op[1]) == 1:
                    g.add_import(jsgf.Import(op[1][0]))
                else:
                    g.add_imports(*[jsgf.Import(n) for n in op[1]])
            elif k == "remove import":
                if len(op[1]) == 1:
                    g.remove_import(jsgf.Import(op[1][0]))
                else:
                    g.remove_imports(*[jsgf.Import(n) for n in op[1]])
        except (jsgf.GrammarError, jsgf.errors.JSGFImportError):
            # The second one if there are imports: their files don't exist.
            return "error"
        return "ok"


def compare(m, r):
    """What differs between the model and the real grammar."""
    import jsgf
    g, os = r.grammar, r.objects
    out = []

    def check(what, got, want):
        if got != want:
            out.append("%s is %s instead of %s" % (what, got, want))

    def ids(rules):
        return [[i for i, o in enumerate(os) if o is x][0] for x in rules]

    visible = [i for i in m.members if m.visible[i]]
    check("rules", ids(g.rules), m.members)
    check("rule_names", g.rule_names, [m.names[i] for i in m.members])
    check("visible_rules", ids(g.visible_rules), visible)
    check("match_rules", ids(g.match_rules), visible)
    check("imports", [i.name for i in g.imports], m.imports)
    check("import_names", g.import_names, m.imports)
    check("case_sensitive", g.case_sensitive, m.gcs)
    # The lists are copies.
    g.rules.append(None), g.imports.append(None)
    check("rules", len(g.rules), len(m.members))
    check("imports", len(g.imports), len(m.imports))
    dangling = m.dangling()
    for i, o in enumerate(os):
        what = "%s%d." % (m.names[i], i)
        check(what + "grammar", o.grammar is g, i in m.members)
        check(what + "active", o.active, m.active[i])
        check(what + "visible", o.visible, m.visible[i])
        check(what + "case_sensitive", o.case_sensitive, m.cs[i])
        full = ("g." + m.names[i], "p.g." + m.names[i]) if i in m.members else \
            (m.names[i],) * 2
        check(what + "names", (o.qualified_name, o.fully_qualified_name), full)
        if m.deps(i) is not None:
            d = list(o.dependencies)
            check(what + "dependencies", {m.same(j) for j in ids(d)},
                  {m.same(j) for j in m.deps(i)})
        else:
            try:
                o.dependencies
                out.append("%sdependencies raised no error" % what)
            except jsgf.GrammarError:
                pass
        if not dangling:
            check(what + "dependent_rules", set(ids(o.dependent_rules)),
                  m.dependents(i))
            check(what + "reference_count", o.reference_count, len(m.dependents(i)))
    for n in NAMES + ["root"]:
        if m.imports:
            break               # there are no files to import
        want = m.find(n)
        try:
            got = ids([g.get_rule(n)])[0]
            check("get_rule_from_name(%s)" % n, ids([g.get_rule_from_name(n)])[0], got)
            check("get_rules(%s)" % n, ids(g.get_rules(n, n)), [got, got])
        except jsgf.GrammarError:
            got = None
        check("get_rule(%s)" % n, got, want)
    lines = ["import <%s>;" % n for n in m.imports]
    if m.kind == "plain":
        for i in m.members:
            if m.active[i]:
                lines.append("%s<%s> = %s;" % ("public " if m.visible[i] else "",
                                               m.names[i], r.bodies[i]))
        head = ["#JSGF V1.0;", "grammar p.g;"]
        check("compile()", g.compile().split("\n"), head + lines + [""])
    if not dangling:
        for s in SPEECH:
            want = [i for i in visible if m.active[i] and
                    m.accepts(i, tuple(s.split()))]
            check("find_matching_rules(%r)" % s, ids(g.find_matching_rules(s)), want)
        check("find_tagged_rules", ids(g.find_tagged_rules("t")),
              [i for i in visible if m.tagged(i)])
        check("find_tagged_rules with hidden rules", ids(g.find_tagged_rules(
            "t", include_hidden=True)), [i for i in m.members if m.tagged(i)])
        check("find_tagged_rules(other)", g.find_tagged_rules("u", True), [])
    return out


def rule_ops():
    ops = [("add", (i,)) for i in range(len(OBJECTS))]
    ops += [("add", (3, 0)), ("add", (0, 2, 5))]
    for ignore in (False, True):
        for n in ("x", "y", "missing"):
            ops.append(("remove name", n, ignore))
        for i in (0, 1, 4):
            ops.append(("remove object", i, ignore))
    ops += [("enable", "x"), ("disable", "x"), ("disable", "missing"),
            ("enable object", 3), ("disable object", 3), ("disable object", 1),
            ("case", True), ("case", False), ("visible", 0, False),
            ("visible", 0, True), ("visible", 4, True), ("rename", 3, "v"),
            ("rename", 0, "v"), ("rename", 0, "x")]
    return ops


def import_ops():
    ops = [("import", (n,)) for n in ("p.q", "p.*", "q.r.s")]
    ops += [("remove import", (n,)) for n in ("p.q", "p.*", "q.r.s")]
    ops += [("import", ("p.*", "p.q", "p.*")), ("remove import", ("p.q", "q.r.s")),
            ("add", (0,)), ("remove name", "x", True), ("disable", "x")]
    return ops


def replay(kind, gcs, seq):
    m, r = Model(kind, gcs), Real(kind, gcs)
    for op in seq:
        m.do(op)
        r.do(op)
    return m, r


def step(m, r, op):
    """Apply an operation to both; messages if the results differ."""
    before = m.key()
    want = m.do(op)
    got = r.do(op)
    if want == "either":
        if got == "ok":
            # As if there were no dependent rules.
            m.do(op[:2] + (True,))
        return []
    if got != want:
        return ["%s: %s instead of %s" % (op, got, want)]
    return []


def judge_states(res, case):
    """Breadth first over the states of the model; all operations in each of them."""
    kind, gcs = case["kind"], case["gcs"]
    ops = [model.spec(o) for o in case["ops"]]
    msgs = []
    first = [model.spec(o) for o in case["first"]]
    m, _ = replay(kind, gcs, first)
    seen = {m.key()}
    todo = [first]
    while todo:
        seq = todo.pop(0)
        for op in ops:
            m, r = replay(kind, gcs, seq)
            if not m.enabled(op):
                continue
            errors = step(m, r, op) or compare(m, r)
            res.transitions += 1
            if errors:
                msgs.append("%s: %s" % (seq + [op], errors[0]))
                if len(msgs) > 3:
                    return msgs
                continue
            if m.key() not in seen and len(seq) < case["depth"]:
                seen.add(m.key())
                todo.append(seq + [op])
    res.states += len(seen)
    res.traces += len(seen)
    res.outcome("states %d" % len(seen))
    return msgs


def judge_types(res, case):
    """Arguments of other types are refused."""
    import jsgf
    msgs = []
    for kind in ("plain", "root"):
        for others in ([], [("add", (0, 3)), ("import", ("p.q",))]):
            for name in ("add_rule", "add_rules", "add_import", "add_imports",
                         "remove_import", "remove_imports", "get_rule", "get_rules",
                         "get_rule_from_name", "remove_rule", "enable_rule",
                         "disable_rule"):
                for value in (None, 1, object(), [], jsgf.Literal("a"), "x",
                              jsgf.Rule("q", True, "a"), jsgf.Import("q.r")):
                    rule = isinstance(value, jsgf.Rule)
                    imp = isinstance(value, jsgf.Import)
                    if rule and "rule" in name and "add" in name or \
                            imp and "import" in name or \
                            value == "x" and name.startswith("get") or \
                            (rule or value == "x") and name in (
                                "remove_rule", "enable_rule", "disable_rule"):
                        continue
                    m, r = replay(kind, False, others)
                    res.transitions += 1
                    try:
                        getattr(r.grammar, name)(value)
                        msgs.append("%s(%r) raised no error" % (name, value))
                    except TypeError:
                        pass
                    except Exception as e:
                        msgs.append("%s(%r) of a %s grammar raised %s" % (
                            name, value, kind, type(e).__name__))
                    msgs += ["%s(%r): %s" % (name, value, d) for d in compare(m, r)]
    res.states += 1
    res.outcome("types")
    return msgs


def judge_sequences(res, case):
    """All sequences of operations, compared at the end."""
    kind, gcs = case["kind"], case["gcs"]
    ops = [model.spec(o) for o in case["ops"]]
    first = [model.spec(o) for o in case["first"]]
    msgs = []
    for rest in itertools.product(ops, repeat=case["depth"]):
        m, r = Model(kind, gcs), Real(kind, gcs)
        for op in first + list(rest):
            if not m.enabled(op):
                break
            errors = step(m, r, op)
            res.transitions += 1
            if errors:
                break
        else:
            errors = compare(m, r)
            res.traces += 1
        if errors:
            msgs.append("%s: %s" % (first + list(rest), errors[0]))
            if len(msgs) > 3:
                return msgs
    res.states += 1
    res.outcome(kind)
    return msgs


def state_cases(ctx):
    ops = rule_ops()
    for kind in ("plain", "root"):
        for gcs in (False, True):
            for op in ops:
                if op[0] != "add" and (gcs or kind == "root"):
                    continue
                if Model(kind, gcs).enabled(op):
                    yield {"kind": kind, "gcs": gcs, "ops": ops, "first": [op],
                           "depth": ctx.pick(2, 3)}
    yield {"kind": "plain", "gcs": False, "ops": import_ops(), "first": [],
           "depth": ctx.pick(5, 8)}


def sequence_cases(ctx):
    ops = rule_ops()
    for a, b in itertools.product(ops, repeat=2):
        if a[0] == "add":
            yield {"kind": "plain", "gcs": False, "ops": ops, "first": [a, b],
                   "depth": ctx.pick(1, 2)}


def judge_many(res, case):
    """Grammars of many rules and imports: one operation on each of them."""
    import jsgf
    n = case["n"]
    msgs = []

    def make():
        g = jsgf.RootGrammar() if case["kind"] == "root" else jsgf.Grammar()
        rules = [jsgf.Rule("r%d" % i, i % 3 != 1, "w%d" % (i // 2)) for i in range(n)]
        if case["together"]:
            g.add_rules(*rules)
        else:
            for r in rules:
                g.add_rule(r)
        imports = [jsgf.Import("p%d.r" % i) for i in range(n)]
        g.add_imports(*imports)
        return g, rules, imports

    def check(g, rules, imports, what):
        res.transitions += 1
        got = (g.rules, g.rule_names, g.visible_rules, g.imports, g.import_names)
        visible = [r for r in rules if r.visible]
        want = (rules, [r.name for r in rules], visible, imports,
                [i.name for i in imports])
        if [list(map(id, x)) if not x or not isinstance(x[0], str) else x
                for x in got] != [list(map(id, x)) if not x or
                                  not isinstance(x[0], str) else x for x in want]:
            msgs.append("%s: rules and imports are %s" % (what, got))
        for i in range(n // 2 + 1):
            found = g.find_matching_rules("w%d" % i)
            expected = [r for r in visible if r.active and
                        r.expansion.text == "w%d" % i]
            if list(map(id, found)) != list(map(id, expected)):
                msgs.append("%s: w%d matches %s" % (what, i, found))
        text = g.compile().splitlines()
        lines = text[2:]
        want = ["import <%s>;" % i.name for i in imports]
        active = [r for r in rules if r.active]
        if case["kind"] == "root":
            names = ["<%s>" % r.name for r in active if r.visible]
            if names:
                want.append("public <root> = (%s);" % "|".join(names))
                want += ["<%s> = %s;" % (r.name, r.expansion.text) for r in active]
        else:
            want += ["%s<%s> = %s;" % ("public " if r.visible else "", r.name,
                                       r.expansion.text) for r in active]
        if lines != want:
            msgs.append("%s: compiled to %s" % (what, lines))
        for r in rules:
            if g.get_rule_from_name(r.name) is not r or r.grammar is not g:
                msgs.append("%s: %s is another rule" % (what, r.name))

    g, rules, imports = make()
    check(g, rules, imports, "%d rules" % n)
    for i in range(n):
        for by_name in (False, True):
            g, rules, imports = make()
            x = rules[i].name if by_name else rules[i]
            g.disable_rule(x)
            check(g, rules, imports, "%d rules, %d disabled" % (n, i))
            g.enable_rule(x)
            check(g, rules, imports, "%d rules, %d enabled again" % (n, i))
            g.remove_rule(x)
            rest = rules[:i] + rules[i + 1:]
            check(g, rest, imports, "%d rules, %d removed" % (n, i))
            g.add_rule(rules[i])
            check(g, rest + [rules[i]], imports, "%d rules, %d added again" % (n, i))
            g.remove_import(jsgf.Import(imports[i].name))
            check(g, rest + [rules[i]], imports[:i] + imports[i + 1:],
                  "%d rules, import %d removed" % (n, i))
            try:
                g.add_rule(jsgf.PublicRule(rules[i].name, "other"))
                msgs.append("%d rules: rule %d added twice" % (n, i))
            except jsgf.GrammarError:
                pass
        if len(msgs) > 3:
            break
    res.states += 1
    res.traces += 1
    res.outcome("%d rules" % n)
    return msgs


def many_cases(ctx):
    for n in range(1, ctx.pick(13, 25)):
        for kind in ("plain", "root"):
            for together in (False, True):
                yield {"n": n, "kind": kind, "together": together}


SPACES = [
    ("many rules", judge_many, many_cases, "1 to 12 (24) rules and imports, an "
     "operation on each of them"),
    ("states", judge_states, state_cases, "all operations in all states of the model "
     "up to a depth, for plain and root grammars, case-sensitive and not"),
    ("sequences", judge_sequences, sequence_cases, "all sequences of 3 (4) operations "
     "without merging of states"),
]
SPACES.append(("types", judge_types, lambda ctx: [{}], "arguments of other types"))
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "rules are not renamed to names that are in use and are only in one grammar",
        "removing rules while references can't be resolved may be refused",
    ]
