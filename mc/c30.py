"""
C30: objects that share nothing don't affect each other, whatever the operations on them
interleave like, also in threads.
"""
import copy
import itertools
import json
import os
import pickle
import shutil
import sys
import tempfile
import threading

from . import core

PROP = "C30"

SRC = os.path.join(core.REPO, "jsgf") + os.sep


def error(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)


def data(e):
    """The match data and tags of every part of an expansion."""
    from jsgf.expansions import flat_map_expansion
    # Looking at results isn't interrupted.
    old = sys.gettrace()
    sys.settrace(None)
    try:
        return [str(e)] + [[type(x).__name__, x.current_match, str(x.matching_slice), x.tag]
                           for x in flat_map_expansion(e)]
    finally:
        sys.settrace(old)


# Programs: generators that yield what was observed in each step. The variant decides about
# the content; names are the same. No program uses objects of another one.

def p_expansions(v):
    import jsgf
    w = ("a", "b")[v]
    a = jsgf.Literal(w)
    e = jsgf.Sequence(a, jsgf.OptionalGrouping("x"), jsgf.AlternativeSet("c", "d" + w))
    yield e.compile(), hash(e) == hash(jsgf.Sequence()), str(e)
    yield e.matches("a x c"), data(e), e.matches("b db"), data(e)
    a.text = w + " z"
    e.tag = "t" + w
    yield e.compile(), e.matches(w + " z x c"), data(e)
    e.children.append(jsgf.Literal(w))
    yield e.compile(), e.matches(w + " z c " + w), data(e), [x.text for x in e.leaves]


def p_parse(v):
    import jsgf
    e = jsgf.parse_expansion_string("/2/ a [b] {t} (c|d)+ | /0.5/ <NULL>")
    yield e.compile(), data(e), sorted(e.weights.values())
    for x in e.leaves:
        x.tag = "u%d" % v
    yield e.compile(), data(e)
    yield str(error(jsgf.parse_expansion_string, ("a|b", "a /2/ b|c")[v]))
    yield jsgf.parse_expansion_string("a [b] {t} (c|d)+").compile()


def p_rule(v):
    import jsgf
    r = jsgf.parse_rule_string(("public <r> = (a {t1} | b {t2})+ [c] {t3};",
                                "public <r> = (a {u1} | c {u2}) [b] {u3};")[v])
    yield r.compile(), sorted(r.tags), r.name, r.visible
    for s in ("a b a", "a c", "a b", "c"):
        yield r.matches(s), r.matched_tags, data(r.expansion), r.was_matched
    yield r.find_matching_part("x a y b c"), data(r.expansion)
    r.disable()
    yield r.matches("a"), r.compile(), r.active, r.get_tags_matching("a")


def p_grammar(v):
    import jsgf
    g = jsgf.parse_grammar_string("#JSGF V1.0 UTF-8 en;\ngrammar g;\nimport <x.%s>;\n"
                                  "public <a> = %s <b>;\n<b> = /1/ y | /2/ z {t};\n" %
                                  ("pq"[v], "ac"[v]))
    yield g.compile(), [r.name for r in g.rules], [i.name for i in g.imports]
    yield [r.name for r in g.find_matching_rules("a y")], [
        r.name for r in g.find_matching_rules("c z")], g.compile_as_root_grammar()
    g.add_rule(jsgf.PublicRule("c", jsgf.NamedRuleRef("b")))
    g.disable_rule("a")
    yield g.compile(), [r.name for r in g.match_rules], g.get_rule("b").reference_count
    yield error(g.remove_rule, "b"), error(g.add_rule, jsgf.PublicRule("a", "x"))
    g.remove_rule("a")
    g.language_name = "l%d" % v
    yield g.compile(), g.jsgf_header, sorted([r.name for r in g.get_rule("b").dependent_rules])


def p_headers(v):
    import jsgf
    g = jsgf.Grammar("g")
    yield g.compile()
    h = jsgf.parse_grammar_string("#JSGF V1.%d %s;\ngrammar h;\n<r> = a;\n" % (
        v, ["de", "UTF-8"][v]))
    yield h.compile(), g.compile(), jsgf.Grammar("g").compile(), jsgf.RootGrammar(
        [jsgf.PublicRule("r", "a")]).compile()
    g.language_name = h.charset_name = "l%d" % v
    yield h.compile(), g.compile(), jsgf.Grammar("g").jsgf_header, h == g
    yield g.compile_grammar("c", "l", "2.%d" % v), jsgf.Grammar("g").compile()


def p_errors(v):
    import jsgf
    yield (error(jsgf.parse_expansion_string, ("a | | b", "(a")[v]),
           error(jsgf.parse_rule_string, "public <r = a;"))
    yield error(jsgf.parse_grammar_string, "grammar g;"), jsgf.valid_grammar(
        "#JSGF V1.0;\ngrammar g;\n<a> = b;\n"), jsgf.valid_grammar("#JSGF V1.0;\ngrammar;")
    yield error(jsgf.Literal, v), error(jsgf.Rule, "a b", True, "c"), error(
        jsgf.Import, "a"), error(jsgf.AlternativeSet("a").set_weight, 3, 1)
    yield str(jsgf.parse_expansion_string(("a | b", "(a)")[v]))


def p_references(v):
    import jsgf
    g = jsgf.Grammar("g")
    a = jsgf.PublicRule("a", jsgf.Sequence("x", jsgf.NamedRuleRef("b")))
    b = jsgf.PublicRule("b", jsgf.AlternativeSet(*["yz", "zy"][v]))
    yield error(lambda: a.dependencies)
    g.add_rules(a, b)
    yield a.matches("x " + "yz"[v]), a.matches("x " + "yz"[v] + " x"), data(b.expansion)
    c = jsgf.PublicRule("c", jsgf.Repeat(jsgf.RuleRef(b)))
    g.add_rule(c)
    yield c.matches("y z y"), data(c.expansion), b.reference_count, sorted(
        [x.name for x in c.dependencies]), b.fully_qualified_name
    b.expansion = jsgf.Literal("pq"[v])
    yield a.matches("x p"), c.matches("q q"), a.matches("x y"), g.compile()


def p_repeats(v):
    import jsgf
    lit = jsgf.Literal("a")
    e = jsgf.KleeneStar(jsgf.AlternativeSet(lit, "bc"[v]))
    for s in ("a b a", "a c c", "", "b", "c"):
        yield (e.matches(s), data(e), e.repetitions_matched, e.get_expansion_matches(lit),
               str(e.get_expansion_slices(lit)))


def p_dictation(v):
    import jsgf
    from jsgf.ext import Dictation
    r = jsgf.PublicRule("r", jsgf.Sequence("a", Dictation(), jsgf.OptionalGrouping(
        "bc"[v]), jsgf.OptionalGrouping(Dictation())))
    for s in ("a b c", "a x b y", "a x y c", "x", "a c b"):
        yield r.matches(s), data(r.expansion)


def p_sequences(v):
    from jsgf.ext import Dictation, PublicSequenceRule
    import jsgf
    r = PublicSequenceRule("r", jsgf.Sequence("ab"[v], Dictation(), "c"))
    yield r.compile(), len(r.expansion_sequence), r.current_is_dictation_only
    yield r.matches("a"), r.matches("b"), r.refuse_matches, data(r.original_expansion)
    r.set_next()
    yield r.matches("d%d e" % v), r.entire_match, data(r.original_expansion)
    r.set_next()
    yield r.matches("c"), r.entire_match, data(r.original_expansion)
    r.restart_sequence()
    yield r.compile(), r.matches("b"), r.entire_match


def p_dictation_grammar(v):
    from jsgf.ext import Dictation, DictationGrammar
    import jsgf
    g = DictationGrammar([jsgf.PublicRule("r", jsgf.Sequence("ab"[v], Dictation())),
                          jsgf.PublicRule("s", "cd"[v])], "g")
    yield error(g.compile), sorted([r.name for r in g.match_rules])
    yield [r.name for r in g.find_matching_rules("a")], error(g.compile)
    yield [r.name for r in g.find_matching_rules("x y")], [
        r.entire_match for r in g.match_rules if hasattr(r, "entire_match")]
    g.reset_sequence_rules()
    yield [r.name for r in g.find_matching_rules("d")], error(g.compile_as_root_grammar)


def p_expanding(v):
    from jsgf.ext import expansions as ext
    import jsgf
    e = jsgf.Sequence("a", jsgf.AlternativeSet("b", ext.Dictation()),
                      jsgf.OptionalGrouping("cd"[v]))
    xs = ext.expand_dictation_expansion(e)
    yield [x.compile() for x in xs], e.compile()
    yield [[y.compile() for y in ext.calculate_expansion_sequence(x)] for x in xs]
    yield [ext.only_dictation_in_expansion(x) for x in e.children], [
        x.matches("a b " + "cd"[v]) for x in xs], e.compile()


def p_copies(v):
    import jsgf
    r = jsgf.PublicRule("r", jsgf.Sequence("a", jsgf.OptionalGrouping("bc"[v])))
    r.expansion.tag = "t%d" % v
    r2, r3 = copy.deepcopy(r), pickle.loads(pickle.dumps(r))
    yield r2.compile(), r3.compile(), r2 == r, r3 == r, hash(r2) == hash(r)
    r2.expansion.children[0].text = "x"
    yield r.matches("a b"), r2.matches("x b"), r3.matches("a c"), data(r2.expansion)
    yield r == r2, r == r3, [x.compile() for x in (r, r2, r3)]


def p_case(v):
    import jsgf
    g = jsgf.Grammar("g", case_sensitive=bool(v))
    r = jsgf.PublicRule("r", "Ab C")
    g.add_rule(r)
    yield r.matches("ab c"), r.matches("Ab C"), r.compile()
    r.case_sensitive = not v
    yield r.matches("ab c"), r.matches("Ab C"), r.compile(), g.case_sensitive
    g.case_sensitive = bool(v)
    yield r.matches("ab c"), r.matches("Ab C"), r.compile(), r.case_sensitive


def p_imports(v):
    import jsgf
    g = jsgf.parse_grammar_string("#JSGF V1.0;\ngrammar main%d;\nimport <m.a>;\n"
                                  "public <r> = <a>;\n" % v)
    yield sorted([k for k in g.resolve_imports()]), g.get_rule("r").matches("x")
    a = g.get_rule("a")
    yield a.fully_qualified_name, a.grammar.compile(), a.grammar.name
    a.expansion = jsgf.Literal("yz"[v])
    yield g.get_rule("r").matches("y"), g.get_rule("r").matches("z"), g.get_rule(
        "r").matches("x"), a.compile()
    yield error(jsgf.Import("n.a").resolve), sorted(g.import_environment), jsgf.Import(
        "m.a").resolve().compile()
    b = jsgf.Import("m.*").resolve()
    b[0].grammar.get_rule("b").expansion = jsgf.Literal("pq"[v])
    yield [r.matches("pq"[v]) for r in b], jsgf.Import("m.a").resolve().matches("x"), [
        r.matches("x") for r in jsgf.Import("m.*").resolve()]


def p_weights(v):
    import jsgf
    e = jsgf.AlternativeSet("a", "b", "c")
    e.set_weight(0, 2)
    e.set_weight(1, v)
    yield error(e.compile), error(e.matches, "b"), error(e.matches, "a")
    e.weights = {0: 0, 1: 1 - v, 2: v}
    yield e.compile(), e.matches("b"), e.matches("a"), e.matches("c"), e.generate()
    yield sorted(e.weights.values()), jsgf.Rule("r", True, e).generate(), jsgf.Sequence(
        "x", "bc"[v]).generate()


def p_relations(v):
    import jsgf
    from jsgf.expansions import (JointTreeContext, restore_current_matches,
                                 save_current_matches)
    a = jsgf.Literal("ab"[v])
    r = jsgf.Rule("a", False, jsgf.OptionalGrouping(a) if v else jsgf.Sequence(a))
    ref = jsgf.RuleRef(r)
    e = jsgf.Repeat(jsgf.Sequence(ref, jsgf.AlternativeSet("x", "y")))
    yield a.is_optional, a.is_descendant_of(e), a.repetition_ancestor is None
    with JointTreeContext(e):
        yield (a.is_optional, a.repetition_ancestor is e, a.root_expansion is e,
               len(list(a.leaves_after)))
        yield a.mutually_exclusive_of(e.leaves[-1]), [str(x) for x in e.leaves]
    yield a.is_optional, a.repetition_ancestor is None, a.root_expansion is r.expansion
    e.matches("a x b y"), e.matches("b x")
    d = save_current_matches(e)
    m = data(e)
    e.reset_for_new_match()
    restore_current_matches(e, d)
    yield m, data(e)
    x, y = jsgf.Literal("x"), jsgf.Literal("y")
    e = [jsgf.AlternativeSet, jsgf.Sequence][v](x, y)
    yield x.mutually_exclusive_of(y), x.is_alternative, bool(x.is_descendant_of(e))
    e.children.remove(x)
    e.invalidate_calculations()
    x.invalidate_calculations()
    z = jsgf.Sequence(*[x, jsgf.Literal("z")][v:])
    yield bool(x.is_descendant_of(e)), bool(x.is_descendant_of(z)), y.is_alternative


def p_names(v):
    import jsgf
    names = ["a", "a.b", "a b", "NULL", "*", "a.*", "x%d" % v, ""]
    yield [[n, jsgf.Rule.valid(n), jsgf.Grammar.valid(n), jsgf.Import.valid(n)]
           for n in names]
    r = jsgf.Rule("r", True, "a")
    for n in names:
        yield error(setattr, r, "name", n), r.name, r.compile()


PROGRAMS = [p_expansions, p_parse, p_rule, p_grammar, p_errors, p_references, p_repeats,
            p_dictation, p_sequences, p_dictation_grammar, p_expanding, p_copies, p_case,
            p_imports, p_weights, p_relations, p_names, p_headers]
NAMES = dict([(p.__name__[2:], p) for p in PROGRAMS])
FILES = {"m.jsgf": "#JSGF V1.0;\ngrammar m;\npublic <a> = <b>;\n<b> = x;\n",
         "n.jsgf": "#JSGF V1.0;\ngrammar n;\npublic <b> = x;\n"}


def show(x):
    return json.dumps(x, sort_keys=True, default=str)


class Scratch(object):
    """A directory with grammar files."""

    def __enter__(self):
        self.old = os.getcwd()
        self.path = tempfile.mkdtemp()
        for name, text in FILES.items():
            with open(os.path.join(self.path, name), "w") as f:
                f.write(text)
        os.chdir(self.path)

    def __exit__(self, *_):
        os.chdir(self.old)
        shutil.rmtree(self.path)


def alone(name, v):
    return [show(x) for x in NAMES[name](v)]


EXPECTED = {}


def expected(name, v):
    # What a program does in a process of its own.
    key = name, v
    if key not in EXPECTED:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                with os.fdopen(w, "w") as f:
                    try:
                        result = alone(name, v)
                    except Exception as e:
                        result = ["raised %s: %s" % (type(e).__name__, e)]
                    json.dump(result, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            EXPECTED[key] = json.loads(f.read() or '["died"]')
        os.waitpid(pid, 0)
    return EXPECTED[key]


def all_expected():
    # This has to be done before any program runs in this process.
    if EXPECTED:
        return
    with Scratch():
        for name in NAMES:
            for v in (0, 1):
                expected(name, v)


def differences(name, v, got, what):
    want = expected(name, v)
    for i, (a, b) in enumerate(itertools.zip_longest(got, want)):
        if a != b:
            return ["%s (variant %d), step %d, %s: %s instead of %s" % (
                name, v, i, what, a, b)]
    return []


# Steps of two programs interleave.

def judge_steps(res, case):
    (n1, v1), (n2, v2), switches = case["p"], case["q"], case["switches"]
    msgs = []
    with Scratch():
        all_expected()
        want = [expected(n1, v1), expected(n2, v2)]
        for order in orders(len(want[0]), len(want[1]), switches):
            gens = [NAMES[n1](v1), NAMES[n2](v2)]
            got = [[], []]
            for i in order:
                res.transitions += 1
                try:
                    got[i].append(show(next(gens[i])))
                except StopIteration:
                    got[i].append("ended")
            for i, (n, v) in enumerate(((n1, v1), (n2, v2))):
                got[i].extend([show(x) for x in gens[i]])
                msgs += differences(n, v, got[i], "with steps %s" % (order,))
            res.states += 1
            res.traces += 1
            if len(msgs) > 3:
                break
    res.outcome("steps of different programs" if n1 != n2 else "steps of one program")
    return msgs[:5]


def orders(m, n, switches):
    """All orders of m steps of the first and n of the second with a bound of switches."""
    def more(done, last, i, j, k):
        if i == m and j == n:
            yield tuple(done)
            return
        for p, left in ((0, m - i), (1, n - j)):
            if left and (last in (None, p) or k):
                for x in more(done + [p], p, i + (p == 0), j + (p == 1),
                              k - (last not in (None, p))):
                    yield x
    return more([], None, 0, 0, switches)


def step_cases(ctx):
    for (p, q) in itertools.product(NAMES, repeat=2):
        yield {"p": (p, 0), "q": (q, 1), "switches": ctx.pick(3, 5)}


# One program is interrupted at some line of code of the package and another one (or several
# steps of it) runs there: schedules of two threads with one preemption.

class Stop(object):
    """
    Calls a function before a certain line, call or first call from a place (in a step) of
    the package's code.
    """

    def __init__(self, at, func, event):
        self.at, self.func, self.event, self.count = at, func, event, 0
        self.seen = set()

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(SRC):
            return None
        if self.event == "place" and event == "call":
            back = frame.f_back
            key = frame.f_code, back and (back.f_code, back.f_lineno)
            if key not in self.seen:
                self.seen.add(key)
                event = "place"
        if event == self.event:
            self.count += 1
            if self.count == self.at:
                self.func()
        return self.trace if self.event == "line" else None


def traced(stop, gen):
    old = sys.gettrace()
    result = []
    sys.settrace(stop.trace)
    try:
        for x in gen:
            # Only the package's code is traced anyway.
            result.append(x)
            stop.seen.clear()
    finally:
        sys.settrace(old)
    return [show(x) for x in result]


def judge_preempted(res, case):
    (n1, v1), (n2, v2), event = case["p"], case["q"], case["event"]
    msgs = []
    with Scratch():
        all_expected()
        for at in range(case["first"], 10 ** 9, case["step"]):
            got = []

            def other():
                # Trace functions aren't called in trace functions.
                got.append(alone(n2, v2))

            stop = Stop(at, other, event)
            g1 = traced(stop, NAMES[n1](v1))
            if not got:
                break
            res.transitions += 1
            res.states += 1
            what = "with %s %s %d" % (n2, event, at)
            msgs += differences(n1, v1, g1, what)
            msgs += differences(n2, v2, got[0], "in %s at %s %d" % (n1, event, at))
            if len(msgs) > 3:
                break
    res.traces += 1
    res.outcome("preempted at a " + event)
    return msgs[:5]


def preempted_cases(ctx):
    for p in NAMES:
        for q in NAMES:
            if q in (p, "relations") or not ctx.quick:
                n = ctx.pick(8, 64)
                event = ctx.pick("place", "line" if p == q else "call")
                for i in range(n):
                    yield {"p": (p, 0), "q": (q, 1), "event": event, "first": 1 + i,
                           "step": n}


# Two threads with two preemptions.

class Threads(object):
    """Two threads that run one at a time and switch at certain calls."""

    def __init__(self, programs, ats, event):
        self.programs, self.ats, self.event = programs, ats, event
        self.locks = [threading.Semaphore(0), threading.Semaphore(0)]
        self.results = [None, None]
        self.done = [False, False]
        self.counts = [0, 0]

    def switch(self, i):
        if not self.done[1 - i]:
            self.locks[1 - i].release()
            self.locks[i].acquire()

    def run_thread(self, i):
        self.locks[i].acquire()
        try:
            stop = Stop(self.ats[i], lambda: self.switch(i), self.event)
            sys.settrace(stop.trace)
            try:
                self.results[i] = [x for x in self.programs[i]]
            finally:
                sys.settrace(None)
                self.counts[i] = stop.count
        except BaseException as e:
            self.results[i] = ["raised %s: %s" % (type(e).__name__, e)]
        self.done[i] = True
        self.locks[1 - i].release()

    def run(self):
        ts = [threading.Thread(target=self.run_thread, args=(i,)) for i in (0, 1)]
        for t in ts:
            t.start()
        self.locks[0].release()
        for t in ts:
            t.join()
        return [[show(x) for x in r] for r in self.results]


def judge_threads(res, case):
    (n1, v1), (n2, v2), event = case["p"], case["q"], case["event"]
    msgs = []
    with Scratch():
        all_expected()
        for at1 in range(case["first"], 10 ** 9, case["step"]):
            for at2 in range(1, 10 ** 9, case["stride"]):
                t = Threads([NAMES[n1](v1), NAMES[n2](v2)], [at1, at2], event)
                g1, g2 = t.run()
                res.transitions += 1
                res.states += 1
                what = "with threads of %s and %s, switched at %s %d and %d" % (
                    n1, n2, event, at1, at2)
                msgs += differences(n1, v1, g1, what) + differences(n2, v2, g2, what)
                if t.counts[1] < at2 or len(msgs) > 3:
                    break
            if t.counts[0] < at1 or len(msgs) > 3:
                break
    res.traces += 1
    res.outcome("threads")
    return msgs[:5]


def thread_cases(ctx):
    # Interference is likeliest between the same steps.
    for p in NAMES:
        for i in range(16):
            yield {"p": (p, 0), "q": (p, 1), "event": "place", "first": 1 + i, "step": 16,
                   "stride": 1}


SPACES = [
    ("steps", judge_steps, step_cases, "all pairs of 17 programs of 3 to 9 steps, all "
     "interleavings of their steps with up to 3 (5) switches"),
    ("one preemption", judge_preempted, preempted_cases, "pairs of each program with "
     "itself and another (thorough: all pairs), one of them running before the first call "
     "from every place of the package's code in each step of the other one (thorough: "
     "before every line, or every call for pairs of different programs)"),
]
THOROUGH = [
    ("two preemptions", judge_threads, thread_cases, "two threads with each of the "
     "programs, switched before the first call from every place in both"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES + THOROUGH])


def run(ctx):
    all_expected()
    for name, j, cs, bound in SPACES + ([] if ctx.quick else THOROUGH):
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = ["the random module's state and the files are shared; programs don't "
                       "depend on random choices or change files"]
