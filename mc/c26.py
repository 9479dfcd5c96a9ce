"""
C26: dependencies, dependent rules and reference counts follow the references.

Every reference graph over four rules is built from real rules, with references of both
kinds at various places, and compared with the transitive closure of the graph: alone,
in grammars, after every sequence of edits and removals, for sequence rules and between
grammar files that import each other.
"""
import itertools
import os
import shutil
import tempfile

import jsgf
import jsgf.ext

PROP = "C26"
N = 4
PAIRS = [(i, j) for i in range(N) for j in range(i + 1, N)]
KINDS = "-RN"


def embed(ref, shape):
    """An expansion with a reference (a function that makes it) in some place."""
    L = jsgf.Literal
    if shape == 0:
        return ref()
    if shape == 1:
        return jsgf.OptionalGrouping(ref())
    if shape == 2:
        return jsgf.AlternativeSet(L("m"), jsgf.Sequence(L("n"), ref()))
    if shape == 3:
        return jsgf.Repeat(jsgf.RequiredGrouping(ref()))
    if shape == 4:
        return jsgf.Sequence(ref(), jsgf.KleeneStar(ref()))
    e = jsgf.AlternativeSet(L("m"), ref())
    e.set_weight(0, 1)
    e.set_weight(1, 0)
    return e


class World(object):
    """Rules r0.. with references and the model of them."""

    def __init__(self, kinds, order, outside=(), cls=jsgf.Grammar, private=(2,)):
        self.edges = {p: k for p, k in zip(PAIRS, kinds)}
        self.grammar = cls(name="g")
        self.other = jsgf.Grammar("other")
        self.rules = [None] * N
        for i in reversed(range(N)):
            self.rules[i] = jsgf.Rule("r%d" % i, i not in private, self.expansion(i))
        self.members = []
        for i in order:
            if i in outside:
                self.other.add_rule(self.rules[i])
            else:
                self.grammar.add_rule(self.rules[i])
                self.members.append(i)
        self.outside = list(outside)

    def reference(self, j, kind):
        if kind == "R":
            return jsgf.RuleRef(self.rules[j])
        return jsgf.NamedRuleRef("r%d" % j)

    def part(self, i, j):
        kind = self.edges[i, j]
        return embed(lambda: self.reference(j, kind), (i + 2 * j + (kind == "N")) % 6)

    def expansion(self, i):
        parts = [jsgf.Literal("w%d" % i)]
        for j in range(i + 1, N):
            if self.edges[i, j] != "-":
                parts.append(self.part(i, j))
        return jsgf.Sequence(*parts) if i % 2 else jsgf.Sequence(*reversed(parts))

    # Model.

    def group(self, i):
        if i in self.members:
            return self.members
        if i in self.outside:
            return self.outside
        return []

    def deps(self, i):
        """Indices of all rules referenced or None if a name isn't found."""
        out = set()
        for j in range(i + 1, N):
            k = self.edges[i, j]
            if k == "-":
                continue
            # Names only find rules in the same grammar.
            if k == "N" and j not in self.group(i):
                return None
            d = self.deps(j)
            if d is None:
                return None
            out |= {j} | d
        return out

    def dependents(self, i):
        out = set()
        for m in self.group(i):
            d = self.deps(m)
            if d is None:
                return None
            if i in d:
                out.add(m)
        return out

    # Judging.

    def judge(self, when):
        out = []
        for i, r in enumerate(self.rules):
            for what, f, want in (
                    ("dependencies", lambda: r.dependencies, self.deps(i)),
                    ("dependent_rules", lambda: r.dependent_rules, self.dependents(i)),
                    ("reference_count", lambda: r.reference_count,
                     self.dependents(i))):
                try:
                    got = f()
                except jsgf.GrammarError:
                    if want is not None:
                        out.append("%s: %s of r%d raised GrammarError" % (when, what, i))
                    continue
                if want is None:
                    # Which unknown names are noticed isn't documented.
                    continue
                if what == "reference_count":
                    if got != len(want):
                        out.append("%s: r%d has the reference count %r, not %d"
                                   % (when, i, got, len(want)))
                    continue
                if not isinstance(got, set):
                    out.append("%s: %s of r%d is no set" % (when, what, i))
                names = sorted([self.index(x) for x in got])
                if names != sorted(want):
                    out.append("%s: %s of r%d are %s, not %s"
                               % (when, what, i, names, sorted(want)))
        return out

    def index(self, rule):
        for i, r in enumerate(self.rules):
            if r is rule:
                return i
        return -1

    # Operations.

    def apply(self, op):
        """Apply an operation to the rules and the model; return messages."""
        name, args = op[0], op[1:]
        if name == "edge":
            i, j, kind = args
            self.edges[i, j] = kind
            self.rules[i].expansion = self.expansion(i)
        elif name == "append":
            i, j, kind = args
            if self.edges[i, j] != "-":
                return []
            self.edges[i, j] = kind
            self.rules[i].expansion.children.append(self.part(i, j))
        elif name == "drop":
            # Remove the parts that reference r<j> from the children.
            i, j = args
            if self.edges[i, j] == "-":
                return []
            self.edges[i, j] = "-"
            e = self.rules[i].expansion
            for c in list(e.children):
                refs = jsgf.filter_expansion(
                    c, lambda x: isinstance(x, jsgf.NamedRuleRef), shallow=True)
                if refs and refs[0].name == "r%d" % j:
                    e.children.remove(c)
        elif name == "retarget":
            # Let references by name refer to another rule.
            i, j, k = args
            if self.edges[i, j] != "N" or self.edges[i, k] != "-":
                return []
            self.edges[i, j] = "-"
            self.edges[i, k] = "N"
            for x in jsgf.filter_expansion(
                    self.rules[i].expansion,
                    lambda x: isinstance(x, jsgf.NamedRuleRef), shallow=True):
                if x.name == "r%d" % j and not isinstance(x, jsgf.RuleRef):
                    x.name = "r%d" % k
        elif name == "disable":
            if args[0] in self.members:
                self.grammar.disable_rule("r%d" % args[0])
        elif name == "match":
            for r in self.rules:
                try:
                    r.matches("w3 w2 m")
                except jsgf.GrammarError:
                    pass
        elif name in ("remove", "force"):
            i, how = args
            if i not in self.members:
                return []
            want = self.dependents(i)
            if want is None:
                return []
            rule = self.rules[i] if how == "object" else "r%d" % i
            try:
                self.grammar.remove_rule(rule, ignore_dependent=name == "force")
                done = True
            except jsgf.GrammarError:
                done = False
            if done != (name == "force" or not want):
                return ["r%d with the dependent rules %s was%s removed (%s)"
                        % (i, sorted(want), "" if done else "n't", name)]
            if done:
                self.members.remove(i)
        elif name == "add":
            i = args[0]
            if i not in self.members and i not in self.outside:
                self.grammar.add_rule(self.rules[i])
                self.members.append(i)
        else:
            raise AssertionError(op)
        return []


OPS = (
    [("edge", i, j, k) for i, j in ((0, 1), (1, 3), (2, 3)) for k in KINDS] +
    [("append", i, j, k) for i, j in ((0, 3), (1, 2)) for k in "RN"] +
    [("drop", i, j) for i, j in PAIRS] +
    [("retarget", 0, 1, 2), ("retarget", 0, 2, 3), ("retarget", 1, 3, 2)] +
    [("disable", 1), ("match",), ("remove", 1, "object"), ("remove", 3, "name"),
     ("remove", 2, "name"), ("force", 2, "object"), ("force", 3, "name"), ("add", 2),
     ("add", 3)])


def judge_graph(r, case):
    kinds, order, outside, cls = case
    w = World(kinds, order, outside, getattr(jsgf, cls))
    r.states += 1
    r.transitions += 3 * N
    r.traces += 1
    r.outcome("edges %d" % len([k for k in kinds if k != "-"]))
    return w.judge("new") + w.judge("again")


def judge_edits(r, case):
    kinds, first, depth = case
    out = []
    for ops in itertools.product(OPS, repeat=depth - 1):
        ops = (first,) + ops
        w = World(kinds, range(N))
        r.states += 1
        r.traces += 1
        for op in ops:
            r.transitions += 1
            m = w.apply(op) or w.judge("after %s" % (ops,))
            if m:
                out.extend(m)
                break
            r.outcome("%s dependents %s" % (op[0], [
                "?" if w.dependents(i) is None else len(w.dependents(i))
                for i in range(N)]))
        if len(out) > 3:
            break
    return out


def judge_removals(r, case):
    """Try to remove the rules in an order, twice."""
    kinds, order, disabled, private = case
    w = World(kinds, range(N), private=private)
    for i in disabled:
        w.rules[i].disable()
    for how in ("object", "name"):
        for i in order:
            r.states += 1
            r.transitions += 1
            m = w.apply(("remove", i, how)) or w.judge("after removing r%d" % i)
            if m:
                return m
            rules = [x.name for x in w.grammar.rules]
            if rules != ["r%d" % x for x in w.members]:
                return ["the rules are %s" % rules]
    r.traces += 1
    r.outcome("left %d" % len(w.members))
    return []


def judge_sequence(r, case):
    """References in the parts of sequence rules."""
    kinds, layout, grammar = case
    rules = []
    for i in reversed(range(3)):
        parts = [jsgf.Literal("w%d" % i)]
        for j in range(i + 1, 3):
            if kinds[i + j - 1]:
                parts.append(jsgf.RuleRef(rules[2 - j]))
        rules.append(jsgf.PrivateRule("r%d" % i, jsgf.Sequence(*parts)))
    rules.reverse()
    edges = {(i, j) for i in range(3) for j in range(i + 1, 3) if kinds[i + j - 1]}

    def closure(i):
        out = {i}
        for a, b in sorted(edges):
            if a in out:
                out.add(b)
        return out

    parts, want = [], set()
    for x in layout:
        if x == "D":
            parts.append(jsgf.ext.Dictation())
        elif x == "w":
            parts.append(jsgf.Literal("w"))
        else:
            parts.append(jsgf.RuleRef(rules[int(x)]))
            want |= closure(int(x))
    s = jsgf.ext.PublicSequenceRule("s", jsgf.Sequence(*parts))
    if grammar:
        g = jsgf.ext.DictationGrammar(name="g")
        g.add_rules(*rules)
        g.add_rule(s)
    out = []
    n = 0
    while True:
        r.states += 1
        r.transitions += 1
        got = sorted([x.name for x in s.dependencies])
        if got != ["r%d" % i for i in sorted(want)]:
            out.append("dependencies at part %d are %s, not %s" % (n, got, sorted(want)))
        if not s.has_next_expansion or out:
            break
        s.set_next()
        n += 1
    if grammar:
        for i in range(3):
            # Rules may not be removed as long as they are referenced.
            refused = bool([1 for a, b in edges if b == i]) or i in want
            try:
                g.remove_rule(rules[i])
                done = True
            except jsgf.GrammarError:
                done = False
            if done == refused:
                out.append("r%d was%s removed" % (i, "" if done else "n't"))
            if done:
                edges = {e for e in edges if e[0] != i}
    r.traces += 1
    r.outcome("dependencies %d parts %d" % (len(want), n))
    return out


# Edges between rules of three grammars: (rule, rule) with names a: main, c, d: p, e: q.
FILE_EDGES = [("a", "b"), ("a", "c"), ("b", "c"), ("c", "d"), ("c", "e"), ("d", "e")]
HOMES = {"a": "main", "b": "main", "c": "lib.p", "d": "lib.p", "e": "lib.q"}


def judge_files(r, case):
    bits, form = case
    edges = [e for e, b in zip(FILE_EDGES, bits) if b]

    def text(grammar, imports):
        lines = ["#JSGF V1.0;", "grammar %s;" % grammar] + \
            ["import <%s>;" % i for i in imports]
        for n in sorted(HOMES):
            if HOMES[n] != grammar:
                continue
            refs = []
            for a, b in edges:
                if a == n:
                    full = HOMES[b] + "." + b
                    refs.append("[<%s>]" % [b, full, full.split(".", 1)[-1]][
                        0 if HOMES[b] == grammar else form % 3])
            lines.append("%s<%s> = word %s %s;" % (
                "" if n == "d" else "public ", n, n, " ".join(refs)))
        return "\n".join(lines)

    def closure(n):
        out = set()
        for x, y in edges:
            if x == n:
                out |= {y} | closure(y)
        return out

    star = form // 3
    d = tempfile.mkdtemp(prefix="c26.")
    old = os.getcwd()
    try:
        os.chdir(d)
        os.mkdir("lib")
        for name, imports in (("lib.p", ["lib.q.*" if star else "lib.q.e"]),
                              ("lib.q", [])):
            with open(name.replace(".", "/") + ".jsgf", "w") as f:
                f.write(text(name, imports))
        g = jsgf.parse_grammar_string(text("main", ["lib.p.*" if star else "lib.p.c"]))
        a, b = g.get_rules("a", "b")
        rules = {"a": a, "b": b}
        found = True
        while found:
            found = False
            for n in sorted(rules):
                for x in rules[n].dependencies:
                    if x.name not in rules:
                        rules[x.name] = x
                        found = True
        out = []
        r.states += 1
        r.traces += 1
        for n in sorted(rules):
            r.transitions += 1
            got = sorted([x.name for x in rules[n].dependencies])
            if got != sorted(closure(n)):
                out.append("dependencies of %s are %s, not %s"
                           % (n, got, sorted(closure(n))))
            if rules[n].grammar is None or rules[n].grammar.name != HOMES[n]:
                out.append("%s isn't in its grammar" % n)
            # Only rules of the same grammar count as dependent rules.
            same = [m for m in HOMES if HOMES[m] == HOMES[n] and n in closure(m)]
            got = sorted([x.name for x in rules[n].dependent_rules])
            if got != sorted(same) or rules[n].reference_count != len(same):
                out.append("dependent rules of %s are %s, not %s" % (n, got, sorted(same)))
        if set(rules) != {"a", "b"} | closure("a") | closure("b"):
            out.append("found the rules %s" % sorted(rules))
        r.outcome("rules %d" % len(rules))
    finally:
        os.chdir(old)
        shutil.rmtree(d)
    return out


PARTS = {"graphs": judge_graph, "edits": judge_edits, "removals": judge_removals,
         "sequence rules": judge_sequence, "files": judge_files}


def run(ctx):
    graphs = ["".join(k) for k in itertools.product(KINDS, repeat=len(PAIRS))]
    orders = [list(o) for o in itertools.permutations(range(N))]
    some = ctx.pick([orders[0], orders[-1], orders[7]], orders)
    cases = [(k, o, (), cls) for k in graphs for o in some
             for cls in ("Grammar", "RootGrammar")]
    cases += [(k, orders[0], out, "Grammar") for k in graphs
              for out in ((3,), (2, 3), (1,), (0,), (0, 1))]
    ctx.explore("graphs", cases, judge_graph,
                "all graphs over 4 rules with references by object or name at 6 places, "
                "in %d orders, alone and in two grammars" % len(some))
    start = ctx.pick(["------", "RRRRRR", "NNNNNN", "R--R-R", "N--N-N", "RN-NR-",
                      "-RN--R", "NNR--N"], graphs[::9])
    ctx.explore("edits", [(k, o, d) for k in start for o in OPS for d in (1, 2)] +
                ctx.pick([], [(k, o, 3) for k in start[::8] for o in OPS]), judge_edits,
                "all sequences of up to %s of %d edits, removals and additions of %d "
                "graphs" % (ctx.pick(2, 3), len(OPS), len(start)))
    some = [k for k in graphs if k.count("N") <= ctx.pick(1, 6)]
    removals = [(k, o, (), (2,)) for k in some for o in orders]
    subsets = [s for n in range(N + 1) for s in itertools.combinations(range(N), n)]
    removals += [(k, o, d, p) for k in graphs if "N" not in k
                 for o in ctx.pick([orders[9]], orders[::5]) for d in subsets
                 for p in ((), (2,), (0, 1), (0, 1, 2, 3))]
    ctx.explore("removals", removals, judge_removals,
                "all orders of removing the rules of all graphs with up to %d references "
                "by name; all sets of disabled rules of all graphs without them"
                % ctx.pick(1, 6))
    layouts = ["".join(x) for n in (2, 3, 4) for x in
               itertools.product("Dw012", repeat=n)]
    layouts = [x for x in layouts if "D" in x and "DD" not in x]
    if ctx.quick:
        layouts = [x for x in layouts if len(x) < 4]
    ctx.explore("sequence rules",
                [(list(k), x, g) for k in itertools.product((0, 1), repeat=3)
                 for x in layouts for g in (False, True)], judge_sequence,
                "all graphs over 3 rules referenced by all sequences of up to %d parts"
                % ctx.pick(3, 4))
    ctx.explore("files", [(list(b), f) for b in itertools.product((0, 1), repeat=6)
                          for f in range(6)], judge_files,
                "all graphs of 6 edges over 5 rules of 3 grammars, 3 forms of names, 2 "
                "forms of imports")
    ctx.assumptions.append(
        "Where a name isn't found any more, only that nothing else is raised than "
        "GrammarError is checked.")
