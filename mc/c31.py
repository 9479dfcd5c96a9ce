"""
C31: operations that fail have no effect on later ones.

Every sequence of operations up to a depth is run on real rules and grammars: some of
them fail (references that cannot be found, unusable weights, empty literals, missing
files, recursion, refused changes, errors raised by functions of the user), and faults
are made and repaired in between. All outcomes afterwards have to be those of objects
that are newly made in that form and never failed.
"""
import itertools
import os
import random
import shutil
import tempfile

from . import c13, model
from .core import Hang
from .model import A, F, G, K, L, N, O, Q, R, S

PROP = "C31"


class Injected(Exception):
    pass


def outcome(f):
    """The result of a call, or the type of the exception."""
    try:
        return ("ok", f())
    except Hang:
        raise
    except (KeyboardInterrupt, Exception) as e:
        return ("error", type(e).__name__)


def pinned(f):
    """Generate with fixed random numbers."""
    saved = random.getstate()
    random.seed(11)
    try:
        return f()
    finally:
        random.setstate(saved)


def expect_error(f):
    try:
        f()
    except Exception:
        return
    raise AssertionError("did not fail")


class Failing(object):
    """random functions that fail at the k-th call."""

    def __init__(self, k):
        self.k = k

    def __enter__(self):
        self.saved = random.random, random.choice
        count = [0]

        def wrap(f):
            def g(*args):
                count[0] += 1
                if count[0] > self.k:
                    raise Injected()
                return f(*args)
            return g
        random.random, random.choice = [wrap(f) for f in self.saved]

    def __exit__(self, *args):
        random.random, random.choice = self.saved


# Worlds: objects, faults that can be made and repaired, and operations.

class World(object):
    """Rules m (the one that is used) and others, in a grammar."""
    faults = ()

    def __init__(self, case):
        self.case = case
        self.config = ()

    def close(self):
        pass

    def works(self, config):
        """Whether operations have lasting effects in this configuration."""
        return False

    def set(self, i, value):
        getattr(self, "fault_" + self.faults[i][0])(value)


def links(rule):
    out = []
    for e in model.walk_real(rule.expansion):
        out.append((type(e).__name__, e.tag, e.rule is rule,
                    e.parent is None or e in list(e.parent.children)))
    return out


def match_obs(rule, speech):
    def f():
        if not rule.matches(speech):
            return False
        return (True, rule.was_matched, rule.matched_tags, c13.data(rule.expansion))
    return f


def view(g, rules):
    """Everything that isn't supposed to change in operations that fail."""
    return ([r.name for r in g.rules], [str(i) for i in g.imports],
            [(r.name, r.visible, r.active, r.grammar is g, model.read(r.expansion),
              links(r)) for r in rules])


class ReferenceWorld(World):
    """A rule m with references to a rule x by name, directly or by another rule."""
    faults = (("x", ("present", "absent", "disabled", "recursive", "dangling")),
              ("weights", (1, 0, "missing")), ("text", ("b", "")))

    def __init__(self, case):
        import jsgf
        super(ReferenceWorld, self).__init__(case)
        tree = model.spec(case["tree"])
        self.g = jsgf.Grammar("g")
        self.lit = jsgf.Literal("b")
        self.set_ = jsgf.AlternativeSet("c", "d")
        for i in (0, 1):
            self.set_.set_weight(i, 1)
        self.x = self.new_x()
        self.y = jsgf.Rule("y", False, jsgf.Sequence(
            jsgf.NamedRuleRef("x"), self.lit, jsgf.OptionalGrouping(self.set_)))
        self.m = jsgf.Rule("m", True, model.build(tree, [None, self.y], ["x", "y"]))
        self.g.add_rules(self.m, self.y, jsgf.Rule(
            "w", True, jsgf.Sequence("c", jsgf.RuleRef(self.y))), self.x)

    def new_x(self):
        import jsgf
        e = jsgf.Sequence("a")
        e.tag = "t"
        return jsgf.Rule("x", False, e)

    def fault_x(self, value):
        import jsgf
        present = self.x in self.g.rules
        if value == "absent":
            if present:
                self.g.remove_rule(self.x, ignore_dependent=True)
            return
        if not present:
            self.x = self.new_x()
            self.g.add_rule(self.x)
        if value == "disabled":
            self.x.disable()
        else:
            self.x.enable()
        if value == "recursive":
            self.x.expansion = jsgf.Sequence("a", jsgf.OptionalGrouping(
                jsgf.NamedRuleRef("x")))
        elif value == "dangling":
            self.x.expansion = jsgf.Sequence("a", jsgf.NamedRuleRef("none"))
        else:
            self.x.expansion = self.new_x().expansion

    def fault_weights(self, value):
        while len(self.set_.children) > 2:
            self.set_.children.pop()
        for i in (0, 1):
            self.set_.set_weight(i, 1 if value == "missing" else value)
        if value == "missing":
            self.set_.children.append("e")

    def fault_text(self, value):
        self.lit.text = value

    def observations(self):
        import jsgf
        m, y, g = self.m, self.y, self.g
        out = [("match %r" % s, match_obs(m, s))
               for s in ("a b", "a b c", "a", "z", "a a b d")]
        out += [
            ("match y", match_obs(y, "a b c")),
            ("generate", lambda: pinned(m.generate)),
            ("compile rule", m.compile),
            ("compile y", y.compile),
            ("compile", g.compile),
            ("compile root", g.compile_as_root_grammar),
            ("find", lambda: [r.name for r in g.find_matching_rules("a b")]),
            ("dependencies", lambda: sorted([r.name for r in m.dependencies])),
            ("joint", self.joint),
            ("remove y", self.refused(lambda: g.remove_rule(y))),
            ("add again", self.refused(lambda: g.add_rule(jsgf.Rule("m", True, "q")))),
            ("view", lambda: view(g, [m, y])),
        ]
        return out

    def joint(self):
        import jsgf
        with jsgf.expansions.JointTreeContext(self.m.expansion):
            return [str(x) for x in jsgf.flat_map_expansion(
                self.m.expansion, shallow=True)] if hasattr(
                    jsgf, "flat_map_expansion") else len(
                        list(model.walk_real(self.m.expansion)))

    def refused(self, f):
        def g():
            try:
                f()
            except Exception:
                return "refused"
            raise AssertionError("was not refused")
        return g

    def failing(self):
        """Operations that fail in functions of the user."""
        import jsgf
        m = self.m
        ops = []
        for k in (0, 1, 2):
            def generate(k=k):
                with Failing(k):
                    pinned(m.generate)
            ops.append(("failing generate %d" % k, generate))

            def visit(k=k):
                count = [0]

                def f(e):
                    count[0] += 1
                    if count[0] > k:
                        raise Injected()
                jsgf.map_expansion(m.expansion, f)
            ops.append(("failing map %d" % k, visit))

        def joint():
            with jsgf.expansions.JointTreeContext(m.expansion):
                raise Injected()
        ops.append(("failing joint", joint))

        def leaves():
            count = [0]

            def f(e):
                count[0] += 1
                if count[0] > 1:
                    raise KeyboardInterrupt()
                return True
            with jsgf.expansions.JointTreeContext(m.expansion):
                jsgf.filter_expansion(m.expansion, f)
        ops.append(("failing filter", leaves))

        def bad_set():
            m.expansion = 5
        ops.append(("bad expansion", bad_set))

        def construct():
            kids = list(m.expansion.children)
            for cls in (jsgf.Sequence, jsgf.AlternativeSet, jsgf.RequiredGrouping):
                expect_error(lambda: cls(*(kids + [5])))
            expect_error(lambda: jsgf.Rule("bad name;", True, m.expansion))
            expect_error(lambda: jsgf.Rule("NULL", True, m.expansion))
            expect_error(lambda: jsgf.RootGrammar([m], name="bad name"))
            raise Injected()
        ops.append(("bad constructions", construct))

        def change():
            kids = m.expansion.children
            new = jsgf.Literal("z")

            def put(at, x):
                kids[at] = x
            for f in (lambda: kids.extend([new, 5]), lambda: kids.insert(0, 5),
                      lambda: put(slice(0, 1), [new, 5]), lambda: put(0, 5),
                      lambda: kids.pop(7), lambda: kids.remove(new),
                      lambda: setattr(m.expansion, "children", [new, 5]),
                      lambda: setattr(m.expansion, "tag", 5),
                      lambda: setattr(self.lit, "text", 5),
                      lambda: self.set_.set_weight(0, -1),
                      lambda: self.set_.set_weight(9, 1)):
                expect_error(f)
            raise Injected()
        ops.append(("bad changes", change))

        def grammar():
            g = self.g
            for f in (lambda: g.add_rule(5), lambda: g.add_import(5),
                      lambda: g.remove_rule("nope"), lambda: g.enable_rule("nope"),
                      lambda: g.disable_rule("nope"),
                      lambda: g.remove_import(jsgf.Import("no.no")),
                      lambda: g.get_rule("nope"), lambda: g.get_rule("x.y"),
                      lambda: g.compile_to_file("/nonexistent/file"),
                      lambda: g.resolve_imports({}, ["/nonexistent"]
                                                ) if g.imports else g.get_rule("no")):
                expect_error(f)
            raise Injected()
        ops.append(("bad changes of the grammar", grammar))
        ops.append(("bad speech", lambda: m.matches(None)))
        return ops


class ImportWorld(World):
    """
    A rule with a reference to an imported rule. The file of its grammar is missing or
    wrong, or that of a grammar which is imported by it.
    """
    faults = (("file", ("missing", "syntax", "private", "other", "good")),
              ("import", ("there", "not there", "twice")))
    HEADER = "#JSGF V1.0;\ngrammar %s;\n"

    def __init__(self, case):
        import jsgf
        super(ImportWorld, self).__init__(case)
        self.folder = tempfile.mkdtemp(prefix="verif-c31-")
        self.cwd = os.getcwd()
        os.chdir(self.folder)
        self.import_name, self.file = case["import"], "f"
        if case["nested"]:
            with open("f.jsgf", "w") as f:
                f.write(self.HEADER % "f" + "import <h.p>;\npublic <p> = a <h.p>;\n")
            self.file = "h"
        self.g = jsgf.Grammar("g")
        self.m = jsgf.Rule("m", True, jsgf.Sequence(
            jsgf.NamedRuleRef(case["name"]), jsgf.OptionalGrouping("b")))
        self.g.add_rule(self.m)
        self.value = "missing"
        self.fault_import("there")

    def close(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.folder)

    def works(self, config):
        # Imports of grammars without such a rule work with wildcards.
        return "good" in config or self.file == "f" and "*" in self.import_name and \
            config[0] in ("private", "other")

    def fault_file(self, value):
        self.value = value
        path = self.file + ".jsgf"
        if value == "missing":
            if os.path.exists(path):
                os.remove(path)
            return
        good = self.HEADER % self.file + "public <p> = c;\n"
        with open(path, "w") as f:
            f.write({"good": good, "syntax": good + "public <q> = ((b;\n",
                     "private": good.replace("public ", ""),
                     "other": good.replace("<p>", "<q>")}[value])

    def fault_import(self, value):
        import jsgf
        for i in list(self.g.imports):
            self.g.remove_import(i)
        if value != "not there":
            self.g.add_import(jsgf.Import(self.import_name))
        if value == "twice":
            self.g.add_import(jsgf.Import("nothere.*"))

    def observations(self):
        g, m = self.g, self.m
        return [
            ("match 'c b'", match_obs(m, "c b")),
            ("match 'a c b'", match_obs(m, "a c b")),
            ("match 'b'", match_obs(m, "b")),
            ("compile", g.compile),
            ("generate", lambda: pinned(m.generate)),
            ("find", lambda: [r.name for r in g.find_matching_rules("c")]),
            ("dependencies", lambda: sorted([r.name for r in m.dependencies])),
            ("resolve", lambda: len(g.resolve_imports()) > 0),
            ("view", lambda: view(g, [m])),
        ]

    def failing(self):
        return [("lookup", lambda: self.m.expansion.children[0].referenced_rule),
                ("get", lambda: self.g.get_rule("f.p")),
                ("get p", lambda: self.g.get_rule("p")),
                ("import", lambda: self.g.imports[0].resolve())]


WORLDS = {"references": ReferenceWorld, "imports": ImportWorld}


def judge(res, case):
    cls = WORLDS[case["kind"]]
    msgs = []
    fresh = {}

    def make(config):
        w = cls(case)
        for i, v in enumerate(config):
            if v != cls.faults[i][1][0]:
                w.set(i, v)
        return w

    def expected(config):
        if config not in fresh:
            out = []
            w = make(config)
            names = [n for n, _ in w.observations()]
            w.close()
            for i in range(len(names)):
                w = make(config)
                out.append(outcome(w.observations()[i][1]))
                w.close()
            fresh[config] = out
            res.states += 1
            for x in out:
                res.outcome(x[0] if x[0] == "ok" else x[1])
        return fresh[config]

    start = tuple([f[1][0] for f in cls.faults])
    w = cls(case)
    observations = [n for n, _ in w.observations()]
    failing = [n for n, _ in w.failing()]
    w.close()
    ops = [("obs", i) for i in range(len(observations))] + \
        [("fail", i) for i in range(len(failing))]
    faults = [("fault", i, v) for i, f in enumerate(cls.faults) for v in f[1]]

    part, parts = case.get("part", (0, 1))

    def sequences():
        return itertools.islice(all_sequences(), part, None, parts)

    def all_sequences():
        if "sequence" in case:
            yield model.spec(case["sequence"])
            return
        # A fault, operations, and its repair (or another fault).
        for fault in faults[case["fault"]:case["fault"] + 1]:
            for n in range(1, case["ops"] + 1):
                for x in itertools.product(ops, repeat=n):
                    yield (fault,) + x
                    if n < case["ops"] or case["deep"]:
                        for repair in faults:
                            if repair[1] == fault[1] and repair != fault:
                                yield (fault,) + x + (repair,)
        if case["deep"]:
            for a in faults[case["fault"]:case["fault"] + 1]:
                for x in ops:
                    for b in faults:
                        if "recursive" in (a[2], b[2]):
                            continue
                        if a[1] != b[1]:
                            yield (a, x, b)
                            if case["ops"] > 1:
                                for y in ops:
                                    yield (a, x, b, y)

    for seq in sequences():
        w = cls(case)
        config = start
        try:
            for op in seq:
                if op[0] != "fault" and w.works(config):
                    # Files aren't read again once the import worked.
                    config = None
                    break
                res.transitions += 1
                if op[0] == "fault":
                    if config[op[1]] != op[2]:
                        w.set(op[1], op[2])
                        config = config[:op[1]] + (op[2],) + config[op[1] + 1:]
                elif op[0] == "obs":
                    outcome(w.observations()[op[1]][1])
                else:
                    got = outcome(w.failing()[op[1]][1])
                    if got == ("error", "AssertionError"):
                        msgs.append("%s: %s was not refused" % (case, op))
            if config is None or "recursive" in config:
                # That takes long, and recursive rules aren't supported.
                continue
            want = expected(config)
            obs = w.observations()
            for i, (name, f) in enumerate(obs):
                got = outcome(f)
                if got != want[i]:
                    names = [observations[o[1]] if o[0] == "obs" else
                             failing[o[1]] if o[0] == "fail" else
                             "%s=%s" % (cls.faults[o[1]][0], o[2]) for o in seq]
                    msgs.append("%s: after %s: %s gives %s instead of %s" % (
                        case, names, name, got, want[i]))
                    break
            res.traces += 1
        finally:
            w.close()
        if len(msgs) > 3:
            break
    return msgs


def fault_count(cls):
    return sum([len(f[1]) for f in cls.faults])


def reference_cases(ctx):
    x, y = Q(0), F(1)
    trees = [S(y), S(Q(1)), S(x, L("b")), A(S(x, L("b")), y), S(O(x), y), R(S(y)),
             S(A(x, L("c")), L("b")), S(L("a"), O(K(x)), L("b")), G(y, O(Q(1)))]
    for t in trees:
        for i in range(fault_count(ReferenceWorld)):
            parts = ctx.pick(4, 40)
            for k in range(parts):
                yield {"kind": "references", "tree": t, "ops": ctx.pick(1, 2),
                       "deep": not ctx.quick or t in trees[:1], "fault": i,
                       "part": (k, parts)}


def import_cases(ctx):
    for name, ref in (("f.p", "f.p"), ("f.*", "f.p"), ("f.p", "p"), ("f.*", "p")):
        for nested in (False, True):
            for i in range(fault_count(ImportWorld)):
                parts = ctx.pick(2, 10)
                for k in range(parts):
                    yield {"kind": "imports", "import": name, "name": ref,
                           "nested": nested, "ops": ctx.pick(1, 2),
                           "deep": not ctx.quick or name == ref and not nested,
                           "fault": i, "part": (k, parts)}


SPACES = [
    ("references", judge, reference_cases, "sequences of a fault, 1 (2) operations and a "
     "repair, in 9 worlds"),
    ("imports", judge, import_cases, "sequences of a fault, 1 (2) operations and a "
     "repair of imported files"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "match data after an operation that failed isn't judged, only that of later ones",
    ]
