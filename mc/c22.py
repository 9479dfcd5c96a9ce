"""
C22: dictation grammars keep original rules and the rules generated from them together.

A reference model of a dictation grammar (which rules were added, which were generated,
the part each generated sequence rule is at) is explored breadth first; every operation
is applied to a real grammar in every state and everything that can be observed of the
grammar, the original and the generated rules is compared with the model.
"""
import itertools

from . import model
from .model import A, D, F, L, O, S, with_tag

PROP = "C22"

B = L("Bb")
X = None        # A part of dictation.

# (name, visible, sequence rule, node, generated rules: (name, parts), tag), where parts
# are lists of alternatives and 0 is a reference to the first rule.
POOL = [
    ("e", False, False, L("ee"), [("e", [["ee"]])], None),
    ("a", True, False, S(L("a"), D()), [("a", [["a"], X])], None),
    ("b", True, False, B, [("b", [["Bb"]])], None),
    ("c", True, False, A(L("a", "t"), B, D()), [("c_0", [["a", "Bb"]]), ("c_1", [X])],
     "c_0"),
    ("d", True, False, S(D(), B), [("d", [X, ["Bb"]])], None),
    ("f", True, False, S(B, F(0)), [("f", [["Bb ee"]])], None),
    ("g", False, False, S(B, D()), [("g", [["Bb"], X])], None),
    ("s", True, True, S(B, D(), L("a", "t")), [("s", [["Bb"], X, ["a"]])], "s"),
    ("a", True, False, S(L("a"), D()), [("a", [["a"], X])], None),
    ("a", True, False, B, [("a", [["Bb"]])], None),
    ("c_1", True, False, B, [("c_1", [["Bb"]])], None),
    ("h", True, False, S(F(0), D()), [("h", [["ee"], X])], None),
    ("o", True, False, S(L("a"), O(D())), [("o_0", [["a"]]), ("o_1", [["a"], X])],
     None),
    ("m", True, False, A(S(L("a"), D()), S(B, D())),
     [("m_0", [["a"], X]), ("m_1", [["Bb"], X])], None),
    ("v", False, True, S(D(), B), [("v", [X, ["Bb"]])], None),
    ("d2", True, False, S(D(), D()), [("d2", [X, X])], None),
    ("p", True, False, D(), [("p", [X])], None),
    ("z", False, False, A(D(), L("a")), [("z_0", [["a"]]), ("z_1", [X])], None),
]
NAMES = {2: "bb", 1: "aa"}
REFS = {5: [0], 11: [0]}
COMPILED = {"Bb ee": "Bb <e>", "ee": "<e>"}
HEADERS = [("1.0", "", ""), ("1.1", "UTF-8", "en")]


def find(name):
    return [i for i, p in enumerate(POOL) if p[0] == name][0]


class Gen(object):
    """A generated rule (or an original one that is used as it is)."""

    def __init__(self, i, name, parts, active, cs, visible, sequence):
        self.i, self.name, self.parts = i, name, parts
        self.active, self.cs, self.visible = active, cs, visible
        self.sequence = sequence
        self.index, self.refuse = 0, False
        self.texts = [None] * len(parts)

    def key(self):
        return (self.i, self.name, self.active, self.cs, self.visible, self.index,
                self.refuse, tuple(self.texts))

    @property
    def part(self):
        return self.parts[self.index]

    def compiled(self):
        """The compiled expansion or None."""
        if not self.active or self.part is X or self.refuse:
            return None
        own = self.i != 0
        words = [COMPILED.get(w, w) if own else w for w in self.part]
        text = words[0] if len(words) == 1 else "(%s)" % "|".join(words)
        if len(words) > 1 and self.name == "c_0":
            text = "(a { t }|%s)" % words[1]
        elif self.name == "s" and self.index == 2:
            text += " { t }"
        return text if self.cs else text.replace("Bb", "bb")


class Model(object):
    def __init__(self):
        self.members = []       # originals
        self.gens = []
        self.name, self.header, self.imports, self.cs = "default", 0, (), False
        self.names = [p[0] for p in POOL]
        self.active = [True] * len(POOL)
        self.case = [False] * len(POOL)
        self.data = [frozenset([None])] * len(POOL)
        # Rules that are used as they are keep their state when they are removed.
        self.own = {}
        for i, p in enumerate(POOL):
            if p[2] or not any([x is X for _, parts in p[4] for x in parts]):
                self.own[i] = Gen(i, p[0], p[4][0][1], True, False, p[1], p[2])

    def key(self):
        return (tuple(self.members), tuple([g.key() for g in self.gens]), self.name,
                self.header, self.imports, self.cs, tuple(self.names),
                tuple(self.active), tuple(self.case),
                tuple([tuple(sorted(map(repr, d))) for d in self.data]),
                tuple([self.own[i].key() for i in sorted(self.own)]))

    def forget(self):
        """Deep copies have no match data."""
        self.data = [frozenset([None])] * len(POOL)
        for g in self.gens + list(self.own.values()):
            g.texts = [None] * len(g.parts)

    def taken(self):
        return [self.names[m] for m in self.members] + [g.name for g in self.gens]

    def same(self, i):
        return (self.names[i], POOL[i][1], POOL[i][3], self.case[i])

    def set_case(self, i, v):
        self.case[i] = v
        if i in self.own:
            self.own[i].cs = v
        for r in REFS.get(i, ()):
            self.set_case(r, v)

    def named(self, name):
        return [g for g in self.gens if g.name == name or
                self.names[g.i] == name]

    def do(self, op):
        """Returns 'ok', 'error' or the names of the rules that match."""
        k = op[0]
        if k == "add":
            i = op[1]
            if self.names[i] in self.taken():
                if self.same(i) in [self.same(m) for m in self.members]:
                    return "ok"
                return "error"
            if i not in self.own and any([n in self.taken() for n, _ in POOL[i][4]]):
                return "error"
            self.members.append(i)
            self.set_case(i, self.cs)
            if i in self.own:
                self.gens.append(self.own[i])
            else:
                for n, parts in POOL[i][4]:
                    name = n if len(POOL[i][4]) > 1 else self.names[i]
                    self.gens.append(Gen(i, name, parts, self.active[i], self.cs,
                                         POOL[i][1], X in parts))
            return "ok"
        if k in ("remove", "remove object"):
            if k == "remove":
                found = [m for m in self.members if self.names[m] == op[1]]
            else:
                found = [m for m in self.members if self.same(m) == self.same(op[1])]
            if not found:
                return "error"
            i = found[0]
            if not op[2] and any([i in REFS.get(m, ()) for m in self.members]):
                return "error"
            self.members.remove(i)
            self.gens = [g for g in self.gens if g.i != i]
            return "ok"
        if k in ("enable", "disable"):
            if op[1] not in self.taken():
                return "error"
            for m in self.members:
                if self.names[m] == op[1]:
                    self.active[m] = k == "enable"
            for g in self.named(op[1]):
                g.active = k == "enable"
                if g.i in self.own:
                    self.active[g.i] = g.active
            return "ok"
        if k == "case":
            self.cs = op[1]
            for m in self.members:
                self.set_case(m, op[1])
            for g in self.gens:
                g.cs = op[1]
            return "ok"
        if k == "rename":
            self.names[op[1]] = op[2]
            if op[1] in self.own:
                self.own[op[1]].name = op[2]
            return "ok"
        if k == "name":
            self.name = op[1]
            return "ok"
        if k == "header":
            self.header = op[1]
            return "ok"
        if k == "import":
            if op[1] not in self.imports:
                self.imports += (op[1],)
            return "ok"
        if k == "remove import":
            if op[1] not in self.imports:
                return "error"
            self.imports = tuple([x for x in self.imports if x != op[1]])
            return "ok"
        if k == "reset":
            for g in self.gens:
                g.index, g.refuse = 0, False
                g.texts = [None] * len(g.parts)
            return "ok"
        if k == "match":
            return self.match(op[1], op[2])
        # Sequence rules can be used directly.
        g = [g for g in self.gens if g.name == op[1]][0]
        if k == "next":
            if g.index + 1 < len(g.parts):
                g.index += 1
                g.refuse = False
        elif k == "restart":
            g.index, g.refuse = 0, False
            g.texts = [None] * len(g.parts)
        else:
            assert k == "refuse", op
            g.refuse = op[2]
        return "ok"

    def accepts(self, g, speech):
        if not g.active:
            return None
        if g.part is X:
            return speech or None
        for w in g.part:
            if w == speech or not g.cs and w.lower() == speech.lower():
                if "ee" in w and not self.active[0]:
                    return None
                return w
        return None

    def match(self, speech, advance):
        found = []
        # Attempts that fail may change the data of original rules or not.
        failed = {}
        for g in self.gens:
            if not g.visible or g.sequence and g.refuse:
                continue
            text = self.accepts(g, speech)
            if g.sequence:
                g.refuse = True
                g.texts[g.index] = text
            if g.i in self.own:
                if not g.sequence:
                    self.data[g.i] = frozenset([text])
                else:
                    self.data[g.i] = frozenset([self.joined(g)])
            if text is not None:
                found.append((g, text))
            elif g.sequence and g.i not in self.own:
                failed[g.i] = failed.get(g.i, self.data[g.i]) | {self.joined(g)}
        data = {}
        for g, text in found:
            if g.i not in self.own:
                if g.sequence:
                    value = self.joined(g)
                else:
                    value = text if self.active[g.i] else None
                data.setdefault(g.i, set()).add(value)
        self.data = list(self.data)
        for i, values in failed.items():
            self.data[i] = values
        for i, values in data.items():
            self.data[i] = frozenset(values)
        for g, _ in found:
            if g.sequence and advance and g.index + 1 < len(g.parts):
                g.index += 1
                g.refuse = False
        return sorted([g.name for g, _ in found])

    def joined(self, g):
        """What the original expansion matches."""
        if None not in g.texts:
            return " ".join(g.texts)
        # Only optional dictation is missing.
        if g.name == "o_1" and g.texts[0] is not None:
            return g.texts[0]
        return None


class Rules(object):
    """The real rules of the pool, made when they are used."""

    def __init__(self):
        self.made = {}

    def __getitem__(self, i):
        from jsgf.ext import SequenceRule
        import jsgf
        if i not in self.made:
            name, visible, sequence, node, _, _ = POOL[i]
            self.made[i] = (SequenceRule if sequence else jsgf.Rule)(
                name, visible, model.build(node, self))
        return self.made[i]


class Real(object):
    def __init__(self):
        from jsgf.ext import DictationGrammar
        self.grammar = DictationGrammar()
        self.rules = Rules()

    def do(self, op):
        import jsgf
        g, k = self.grammar, op[0]
        try:
            if k == "add":
                g.add_rule(self.rules[op[1]])
            elif k == "remove":
                g.remove_rule(op[1], op[2])
            elif k == "remove object":
                g.remove_rule(self.rules[op[1]], op[2])
            elif k == "enable":
                g.enable_rule(op[1])
            elif k == "disable":
                g.disable_rule(op[1])
            elif k == "case":
                g.case_sensitive = op[1]
            elif k == "rename":
                self.rules[op[1]].name = op[2]
            elif k == "name":
                g.name = op[1]
            elif k == "header":
                g.jsgf_version, g.charset_name, g.language_name = HEADERS[op[1]]
            elif k == "import":
                g.add_import(jsgf.Import(op[1]))
            elif k == "remove import":
                g.remove_import(jsgf.Import(op[1]))
            elif k == "reset":
                g.reset_sequence_rules()
            elif k in ("next", "restart", "refuse"):
                from jsgf.ext import SequenceRule
                rule = [x for x in g.rules if x.name == op[1] and
                        isinstance(x, SequenceRule)][0]
                if k == "next":
                    rule.set_next()
                elif k == "restart":
                    rule.restart_sequence()
                else:
                    rule.refuse_matches = op[2]
            elif k == "match":
                return sorted([r.name for r in g.find_matching_rules(op[1], op[2])])
            return "ok"
        except jsgf.GrammarError:
            return "error"


def wanted_text(m, root):
    lines = []
    for g in m.gens:
        c = g.compiled()
        if c is not None:
            lines.append((g, c))
    if root and not [g for g, _ in lines if g.visible] or not lines:
        return "", None
    version, charset, language = HEADERS[m.header]
    out = ["#JSGF V%s%s%s;" % (version, " " + charset if charset else "",
                               " " + language if language else ""),
           "grammar %s;" % m.name]
    out += ["import <%s>;" % x for x in m.imports]
    names = None
    if root:
        names = sorted(["<%s>" % g.name for g, _ in lines if g.visible])
        body = ["<%s> = %s;" % (g.name, c) for g, c in lines]
    else:
        body = ["%s<%s> = %s;" % ("public " if g.visible else "", g.name, c)
                for g, c in lines]
    return out + sorted(body), names


def got_text(text, root):
    if text == "":
        return "", None
    lines = text.splitlines()
    n = len([x for x in lines if x.startswith(("#", "grammar", "import"))])
    head, body = lines[:n], lines[n:]
    names = None
    if root and body:
        first = body.pop(0)
        if not (first.startswith("public <root> = (") and first.endswith(");")):
            return text, None
        names = sorted(first[len("public <root> = ("):-2].split("|"))
    return head + sorted(body), names


def data_of(rule):
    e = getattr(rule, "original_expansion", rule.expansion)
    return e.current_match


def inconsistent(e):
    """What's wrong with the match data of the parts of an original expansion."""
    import jsgf
    from jsgf.ext import Dictation
    own = e.current_match
    used = [c for c in e.children if c.current_match]
    if isinstance(e, jsgf.AlternativeSet) and len(used) > 1:
        # The original can also match dictated words as words of another alternative.
        used = [c for c in used
                if not isinstance(c, Dictation) or c.matching_slice is not None]
    if not own and used:
        return "%s matched %r but %s matched nothing" % (
            used[0], used[0].current_match, e)
    if own and isinstance(e, jsgf.AlternativeSet) and (
            [c.current_match for c in used] != [own]):
        return "%s matched %r and its alternatives %r" % (
            e, own, [c.current_match for c in used])
    if own and e.children and " ".join([c.current_match for c in used]) != own:
        return "%s matched %r and its parts %r" % (
            e, own, [c.current_match for c in used])
    for c in e.children:
        wrong = inconsistent(c)
        if wrong:
            return wrong
    return None


def tags_matched(e):
    result = []
    for c in e.children:
        result += tags_matched(c)
    return result + ([e.tag] if e.tag and e.current_match else [])


def compare(m, r, copied=False):
    from jsgf.ext import SequenceRule
    g = r.grammar
    msgs = []

    def check(what, got, want):
        if got != want:
            msgs.append("%s is %r instead of %r" % (what, got, want))
    gens = {}
    for x in m.gens:
        gens.setdefault(x.i, []).append(x)
    rules = g.rules
    names = [m.names[i] for i in m.members] + [
        x.name for x in m.gens if x.i not in m.own]
    check("rules", sorted([x.name for x in rules]), sorted(names))
    check("rule_names", sorted(g.rule_names), sorted(names))
    check("match_rules", sorted([x.name for x in g.match_rules]),
          sorted([x.name for x in m.gens if x.visible]))
    check("tagged", sorted([x.name for x in g.find_tagged_rules("t")]),
          sorted([x.name for x in m.gens if x.visible and x.name == POOL[x.i][5]]))
    check("case_sensitive", g.case_sensitive, m.cs)
    check("import_names", g.import_names, list(m.imports))
    check("name", g.name, m.name)
    for i in m.members:
        rule = r.rules[i]
        if not any([x is rule for x in rules]):
            msgs.append("%s is no rule of the grammar" % rule)
            continue
        if g.get_rule_from_name(m.names[i]) is not rule:
            msgs.append("%s is found by name as %s" % (
                m.names[i], g.get_rule_from_name(m.names[i])))
        generated = list(g.get_generated_rules(rule))
        check("generated from %s" % m.names[i], [x.name for x in generated],
              [x.name for x in gens[i]])
        check("%s is active" % m.names[i], rule.active, m.active[i])
        check("case_sensitive of %s" % m.names[i], rule.case_sensitive, m.case[i])
        if len(generated) != len(gens[i]):
            continue
        for x, want in zip(generated, gens[i]):
            name = want.name
            if g.get_original_rule(x) is not rule:
                msgs.append("original of %s is %s" % (name, g.get_original_rule(x)))
            if (x is rule) != (i in m.own):
                msgs.append("%s was not generated correctly" % name)
            check("%s is visible" % name, x.visible, want.visible)
            check("%s is active" % name, x.active, want.active)
            check("case_sensitive of %s" % name, x.case_sensitive, want.cs)
            check("%s is a sequence" % name, isinstance(x, SequenceRule),
                  want.sequence)
            text = want.compiled()
            if text is not None:
                text = "%s<%s> = %s;" % ("public " if want.visible else "", name, text)
            check("%s compiled" % name, x.compile(), text or "")
            if want.sequence:
                check("refuse_matches of %s" % name, x.refuse_matches, want.refuse)
                check("dictation only of %s" % name, x.current_is_dictation_only,
                      want.part is X)
                check("next of %s" % name, x.has_next_expansion,
                      want.index + 1 < len(want.parts))
                done = None not in want.texts
                check("match of %s" % name, x.entire_match,
                      " ".join(want.texts) if done else None)
    for i in r.rules.made:
        want = m.data[i]
        # Words of disabled rules might be dictation of the original one.
        want = [w and w.lower() for w in want]
        got = data_of(r.rules[i])
        if i and (got and got.lower()) not in want:
            msgs.append("%s matched %r instead of %s" % (
                m.names[i], data_of(r.rules[i]), sorted(map(repr, want))))
        rule = r.rules[i]
        e = getattr(rule, "original_expansion", rule.expansion)
        wrong = inconsistent(e)
        if wrong:
            msgs.append(wrong)
        if not POOL[i][2]:
            check("matched_tags of %s" % m.names[i], rule.matched_tags, tags_matched(e))
    for root in (False, True):
        text = g.compile_as_root_grammar() if root else g.compile()
        want = wanted_text(m, root)
        if got_text(text, root) != want:
            msgs.append("compiled%s to %r instead of %r" % (
                " as root" if root else "", text, want))
    return msgs


def step(m, r, op):
    want, got = m.do(op), r.do(op)
    if want != got:
        return ["%s gives %r instead of %r" % (op, got, want)]
    return []


def enabled(m, op):
    if op[0] == "rename":
        return op[2] not in m.taken()
    if op[0] in ("next", "restart", "refuse"):
        return op[1] in [g.name for g in m.gens if g.sequence]
    return True


def replay(ops):
    m, r = Model(), Real()
    for op in ops:
        m.do(op)
        r.do(op)
    return m, r


def judge_states(res, case):
    ops = [model.spec(o) for o in case["ops"]]
    first = [model.spec(o) for o in case["first"]]
    msgs, seen, todo = [], set(), [first]
    m, r = Model(), Real()
    for op in first:
        errors = step(m, r, op) or compare(m, r)
        if errors:
            return ["%s: %s" % (first, errors[0])]
    seen.add(m.key())
    while todo:
        seq = todo.pop(0)
        for op in ops:
            m, r = replay(seq)
            if not enabled(m, op):
                continue
            errors = step(m, r, op) or compare(m, r)
            res.transitions += 1
            if errors:
                msgs.append("%s: %s" % (seq + [op], errors[0]))
                if len(msgs) > 3:
                    return msgs
                continue
            if m.key() not in seen and len(seq) - len(first) + 1 < case["depth"] and \
                    len(seen) < case["states"]:
                seen.add(m.key())
                todo.append(seq + [op])
    res.states += len(seen)
    res.traces += len(seen)
    res.outcome("states %d" % (len(seen) // 10 * 10))
    return msgs


SPEECH = ["a", "bb", "Bb", "bb ee", "ee", "x"]
WORLDS = [[1], [2, 3], [4], [0, 5], [6, 1], [7], [0, 11], [12], [13], [14, 4], [15],
          [1, 2, 3, 4], [16, 10], [17, 2], [7, 1], [0, 5, 11, 3], [3, 12], [13, 15, 1]]


def matching(speech=SPEECH):
    return [("match", s, adv) for s in speech for adv in (True, False)]


def management(members):
    out = []
    names = []
    for i in members:
        names += [POOL[i][0]] + [n for n, _ in POOL[i][4] if n != POOL[i][0]]
    for n in names + ["zz"]:
        out += [("disable", n), ("enable", n), ("remove", n, False)]
    for i in members:
        out += [("remove", POOL[i][0], True), ("remove object", i, False), ("add", i)]
        if i in NAMES:
            out.append(("rename", i, NAMES[i]))
    return out


def direct(members):
    """Operations on generated sequence rules."""
    return [op for i in members for name, parts in POOL[i][4]
            if X in parts or POOL[i][2]
            for op in (("next", name), ("restart", name), ("refuse", name, True),
                       ("refuse", name, False))]


def state_cases(ctx):
    # Sequence rules used directly.
    for w in WORLDS:
        ops = direct(w) + [("match", "a", True), ("match", "bb", True), ("reset",),
                           ("match", "x", False)]
        for op in ops if direct(w) else ():
            yield {"first": [("add", i) for i in w] + [op], "ops": ops,
                   "depth": ctx.pick(3, 5), "states": ctx.pick(8, 100)}
    # Matching.
    for w in WORLDS:
        first = [("add", i) for i in w]
        for op in matching():
            yield {"first": first + [op], "ops": matching() + [("reset",)],
                   "depth": ctx.pick(4, 8), "states": ctx.pick(6, 200)}
    # Managing rules after some matches.
    for w in WORLDS:
        ops = management(w) + [("add", i) for i in (8, 9, 10)] + [
            ("case", True), ("case", False), ("reset",), ("match", "bb", True),
            ("match", "a", True), ("match", "x", True)]
        for op in ops:
            yield {"first": [("add", i) for i in w] + [op], "ops": ops,
                   "depth": ctx.pick(2, 4), "states": ctx.pick(3, 200)}
        yield {"first": [("case", True)] + [("add", i) for i in w], "ops": ops,
               "depth": ctx.pick(2, 3), "states": ctx.pick(30, 200)}
    # All pairs of rules.
    everything = [("add", i) for i in range(len(POOL))]
    for a, b in itertools.product(range(len(POOL)), repeat=2):
        yield {"first": [("add", a), ("add", b)],
               "ops": everything[::ctx.pick(2, 1)] + [("remove", POOL[a][0], False),
                                    ("remove object", b, False), ("match", "a", True),
                                    ("match", "bb", True), ("case", True),
                                    ("disable", POOL[a][0])],
               "depth": ctx.pick(1, 2), "states": ctx.pick(4, 200)}
    # Headers and imports.
    for w in ([], [2], [1], [16]):
        yield {"first": [("add", i) for i in w],
               "ops": [("name", "n"), ("name", "p.n"), ("header", 1), ("header", 0),
                       ("import", "p.q"), ("import", "r.*"), ("remove import", "p.q"),
                       ("remove import", "r.*"), ("match", "a", True), ("reset",),
                       ("add", 5)],
               "depth": ctx.pick(3, 6), "states": ctx.pick(200, 1000)}


def judge_copy(res, case):
    """Copied grammars go on with their own rules."""
    import copy
    import pickle
    msgs = []
    ops = [model.spec(o) for o in case["ops"]]
    for a, b in itertools.product(ops, repeat=2):
        for how in ("deepcopy", "pickle"):
            for which in ("copy", "original"):
                m, r = Model(), Real()
                seq = [("add", i) for i in case["members"]] + [a]
                for op in seq:
                    m.do(op)
                    r.do(op)
                # The originals and the grammar, so that they are found again.
                both = (r.grammar, r.rules)
                copied = copy.deepcopy(both) if how == "deepcopy" else \
                    pickle.loads(pickle.dumps(both))
                other = Real.__new__(Real)
                other.grammar, other.rules = copied
                if which == "original":
                    r, other = other, r
                if how == "deepcopy" and which == "original":
                    m.forget()
                # Change the other one; this one must not change.
                other.do(b)
                errors = compare(m, r) or step(m, r, b) or compare(m, r)
                res.transitions += 1
                if errors:
                    msgs.append("%s %s then %s: %s" % (how, seq, b, errors[0]))
                    if len(msgs) > 3:
                        return msgs
    res.states += 1
    res.traces += 1
    res.outcome("copied")
    return msgs


def copy_cases(ctx):
    for w in WORLDS:
        if 0 not in w:
            yield {"members": w, "ops": matching(["a", "Bb", "x"]) + management(w)[
                :ctx.pick(8, 40)] + [("case", True), ("reset",), ("import", "p.q")]}


SPACES = [
    ("states", judge_states, state_cases, "all operations in all states of the model "
     "up to a depth and number, for 18 sets of rules and all pairs of rules"),
    ("copies", judge_copy, copy_cases, "deep copies and unpickled grammars, an "
     "operation before and after"),
]
PARTS = dict([(s[0], s[1]) for s in SPACES])


def run(ctx):
    for name, j, cs, bound in SPACES:
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = [
        "compiled rules and matching rules are compared as sets",
        "rules with dictation use only references to rules without it",
    ]
