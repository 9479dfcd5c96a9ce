"""
C27: attributes hold what they are set to; refused values change nothing.

A transition system whose states are snapshots of every attribute of every expansion,
rule and the grammar of a world. Every sequence of settings, matches and constructions up
to a depth is run; every step is compared with a model that computes the snapshot after
the step from the snapshot before it.
"""
import itertools
import math

PROP = "C27"

NAN, INF = float("nan"), float("inf")


class Text(str):
    """A string."""


# Values by name (cases are JSON data).
VALUES = {
    "t": "t", "padded": " t  u ", "blank": "  ", "empty": "", "none": None,
    "brace": "a{b}\\", "text subclass": Text("t"), "upper": "Two  Words",
    "5": 5, "-1": -1, "1.5": 1.5, "list": ["t"], "tuple": ("t", "u"), "bytes": b"t",
    "dict": {"t": "u"}, "object": object(), "true": True, "int 0": 0,
    "slice": slice(0, 3), "open slice": slice(None), "nan": NAN, "inf": INF,
    "-inf": -INF, "2": 2, "0": 0, "0.25": 0.25, "-0.5": -0.5, "word": "much",
    "dotted": "p.q", "two words": "x y", "NULL": "NULL", "VOID": "VOID", "new": "new",
    "trailing": "new ", "newline": "new\n", "star": "p.*",
    "Zürich": u"Zürich", "semicolon": "a;b",
    "tabs": "a\tb \n c", "mixed": "Aa.b;C",
}
OBJECTS = ("S", "a", "O", "b", "A", "c", "d", "P", "N", "K", "e", "F", "0", "f", "V", "q",
           "sl", "z", "y", "D")


class World(object):
    """A grammar with expansions of all types and expansions outside of it."""

    def __init__(self):
        import jsgf
        from jsgf.ext import Dictation
        o = self.o = {}
        for n in "abcdefz":
            o[n] = jsgf.Literal(n)
        o["sl"] = jsgf.Literal("Sl", case_sensitive=True)
        self.rules = {"s": jsgf.Rule("s", False, o["sl"])}
        o["O"] = jsgf.OptionalGrouping(o["b"])
        o["A"] = jsgf.AlternativeSet(o["c"], o["d"])
        o["A"].set_weight(0, 1)
        o["A"].set_weight(1, 2)
        o["N"] = jsgf.NamedRuleRef("q")
        o["P"] = jsgf.RequiredGrouping(o["N"])
        o["K"] = jsgf.KleeneStar(o["e"])
        o["F"] = jsgf.RuleRef(self.rules["s"])
        o["0"] = jsgf.NullRef()
        o["S"] = jsgf.Sequence(o["a"], o["O"], o["A"], o["P"], o["K"], o["F"], o["0"])
        o["V"] = jsgf.VoidRef()
        o["q"] = jsgf.AlternativeSet(o["f"], o["V"])
        o["D"] = Dictation()
        o["y"] = jsgf.Sequence("y", o["D"])
        self.rules["r"] = jsgf.PublicRule("r", o["S"])
        self.rules["q"] = jsgf.Rule("q", False, o["q"])
        self.g = jsgf.Grammar("g")
        self.i = jsgf.Import("p.q")
        self.g.add_import(self.i)
        self.g.add_rules(self.rules["r"], self.rules["q"], self.rules["s"])
        o["ylit"] = o["y"].children[0]
        self.names = dict([(id(v), k) for k, v in o.items()])
        self.news = []

    def name(self, e):
        if e is None:
            return None
        if id(e) not in self.names:
            # A literal that was made from text.
            self.names[id(e)] = "new %s" % getattr(e, "text", type(e).__name__)
            self.o[self.names[id(e)]] = e
            self.news.append(e)
        return self.names[id(e)]

    def snapshot(self):
        import jsgf
        s = {}
        inverse = dict([(id(v), k) for k, v in self.rules.items()])
        for k in list(self.o):
            e = self.o[k]
            s[k, "tag"] = e.tag
            s[k, "match"] = e.current_match
            s[k, "slice"] = e.matching_slice
            s[k, "parent"] = self.name(e.parent)
            s[k, "children"] = tuple([self.name(c) for c in e.children])
            if isinstance(e, jsgf.Literal):
                s[k, "text"] = e.text
                s[k, "cs"] = e.case_sensitive
            if isinstance(e, jsgf.AlternativeSet):
                w = {}
                for c, x in e.weights.items():
                    w[self.name(c)] = x
                s[k, "weights"] = w
            if isinstance(e, (jsgf.NamedRuleRef, jsgf.RuleRef)):
                s[k, "name"] = e.name
        for k, r in self.rules.items():
            s[k, "rule name"] = r.name
            s[k, "visible"] = r.visible
            s[k, "expansion"] = self.name(r.expansion)
            s[k, "rule cs"] = r.case_sensitive
            s[k, "active"] = r.active
        # The rules that root expansions belong to.
        for k in ("S", "q", "sl", "z", "y"):
            r = self.o[k].rule
            s[k, "rule"] = None if r is None else inverse.get(id(r), repr(r))
        s["g", "name"] = self.g.name
        s["g", "cs"] = self.g.case_sensitive
        s["g", "rules"] = tuple([inverse.get(id(r), repr(r)) for r in self.g.rules])
        s["g", "imports"] = tuple([i.name for i in self.g.imports])
        s["g", "header"] = (self.g.jsgf_version, self.g.charset_name,
                            self.g.language_name)
        s["i", "name"] = self.i.name
        return s

    def behaviour(self):
        """What the world does (this changes match data, so it comes last)."""
        out = []
        for f in (self.g.compile, self.o["S"].compile, self.o["z"].compile,
                  lambda: [r.name for r in self.g.rules],
                  lambda: [r.name for r in self.g.find_matching_rules(
                      "a b c f e e Sl", advance=False)]
                  if hasattr(self.g, "rearrange_rules") else
                  [r.name for r in self.g.find_matching_rules("a b c f e e Sl")],
                  lambda: [r.name for r in self.g.find_matching_rules("a d f Sl")],
                  lambda: self.rules["r"].matched_tags):
            try:
                out.append(f())
            except Exception as e:
                out.append(type(e).__name__)
        return out


def optional(s, k):
    """is_optional, by the parents of a snapshot."""
    seen = 0
    while k is not None and seen < 50:
        if k in ("O", "K"):
            return True
        k = s.get((k, "parent"))
        seen += 1
    return False


# What a step does: the snapshot after it, or the errors it is refused with.

STRING_ERRORS = ("TypeError",)
NAME_ERRORS = ("GrammarError",)


def is_text(v):
    return isinstance(v, str)


def valid_name(kind, v):
    """Whether one of the names of VALUES is valid (C16 has all names)."""
    if not is_text(v) or v != v.strip() or not v or " " in v:
        return False
    if v in ("NULL", "VOID"):
        return kind == "ref"
    if kind == "rule":
        return "." not in v and "{" not in v
    if kind == "ref":
        return "*" not in v and "{" not in v
    if kind == "grammar":
        return ";" not in v and "*" not in v and "{" not in v
    if kind == "import":
        return "." in v
    raise ValueError(kind)


def value(op):
    """The value of an operation."""
    return VALUES[op[2]]


def expected(s, op):
    """(changes, errors): one of the two is None."""
    kind, k = op[0], op[1]
    if kind == "tag":
        v = value(op)
        if v is None or is_text(v):
            return {(k, "tag"): (v or "").strip()}, None
        return None, STRING_ERRORS
    if kind == "match":
        v = value(op)
        if v is not None and not is_text(v):
            return None, STRING_ERRORS
        v = " ".join(v.split()) if v else ""
        return {(k, "match"): v or ("" if optional(s, k) else None)}, None
    if kind == "slice":
        v = value(op)
        if v is None or isinstance(v, slice):
            return {(k, "slice"): v}, None
        return None, STRING_ERRORS
    if kind == "text":
        v = value(op)
        if not is_text(v):
            return None, STRING_ERRORS
        return {(k, "text"): v if s[k, "cs"] else v.lower()}, None
    if kind == "reset":
        return {(k, "match"): {"0": "", "V": None}.get(
            k, "" if optional(s, k) else None), (k, "slice"): None}, None
    if kind == "parent":
        if op[2] in OBJECTS:
            return {(k, "parent"): op[2]}, None
        if op[2] == "none":
            return {(k, "parent"): None}, None
        return None, STRING_ERRORS
    if kind == "weight":
        c, w = op[2], VALUES[op[3]]
        if isinstance(w, str):
            return None, ("ValueError", "TypeError")
        if isinstance(w, (int, float)):
            if not w >= 0 or math.isinf(w):
                return None, ("TypeError", "ValueError")
        else:
            return None, ("TypeError", "ValueError")
        child = resolve(s, k, c)
        if child is None:
            return None, ("IndexError",) if isinstance(c, int) else ("ValueError",)
        new = dict(s[k, "weights"])
        new[child] = float(w)
        return {(k, "weights"): new}, None
    if kind == "weights":
        new = {}
        for c, w in op[2]:
            changes, errors = expected(s, ("weight", k, c, w))
            if errors:
                return None, ("TypeError", "ValueError", "IndexError")
            new[resolve(s, k, c)] = float(VALUES[w])
        return {(k, "weights"): new}, None
    if kind == "weights of":
        return None, ("TypeError", "ValueError")
    if kind == "children":
        items = op[2]
        if not isinstance(items, (list, tuple)):
            return None, STRING_ERRORS
        if [x for x in items if x[0] == "!"]:
            return None, STRING_ERRORS
        changes = {}
        for c in s[k, "children"]:
            if s[c, "parent"] == k:
                changes[c, "parent"] = None
        for c in items:
            changes[c, "parent"] = k
        changes[k, "children"] = tuple(items)
        return changes, None
    if kind == "name":
        v = value(op)
        if valid_name({"g": "grammar", "i": "import", "r": "rule", "s": "rule",
                       "q": "rule"}.get(k, "ref"), v):
            what = "rule name" if k in ("r", "s") else "name"
            changes = {(k, what): v}
            if k == "i" and "i" not in s.get("hidden", ()):
                changes["g", "imports"] = (v,)
            return changes, None
        return None, NAME_ERRORS
    if kind == "expansion":
        if op[2].startswith("!"):
            return None, STRING_ERRORS
        changes = {(k, "expansion"): op[2]}
        old = s[k, "expansion"]
        if (old, "rule") in s:
            changes[old, "rule"] = None
        if (op[2], "rule") in s:
            changes[op[2], "rule"] = k
        return changes, None
    if kind == "header":
        h = list(s["g", "header"])
        h[op[1]] = op[2]
        return {("g", "header"): tuple(h)}, None
    if kind == "visible":
        return {(k, "visible"): op[2]}, None
    if kind == "make":
        return None, op[3]
    raise ValueError(op)


def resolve(s, k, c):
    """The child of a set that an index, text or expansion stands for."""
    children = s[k, "children"]
    if isinstance(c, int):
        return children[c] if -len(children) <= c < len(children) else None
    if c.startswith("text "):
        found = None
        for x in children:
            compiled = s[x, "text"]
            if s[x, "tag"]:
                t = s[x, "tag"].replace("\\", "\\\\").replace("{", "\\{").replace(
                    "}", "\\}")
                compiled += " { %s }" % t
            if compiled == c[5:]:
                found = x
        return found
    return c


def item(w, x):
    if x.startswith("!"):
        return VALUES[x[1:]]
    return w.o[x]


def child_key(w, c):
    if isinstance(c, int):
        return c
    return c[5:] if c.startswith("text ") else w.o[c]


def perform(w, op):
    import jsgf
    kind, k = op[0], op[1]
    if kind == "match speech":
        w.g.find_matching_rules(op[2])
    elif kind == "tag":
        w.o[k].tag = value(op)
    elif kind == "match":
        w.o[k].current_match = value(op)
    elif kind == "slice":
        w.o[k].matching_slice = value(op)
    elif kind == "text":
        w.o[k].text = value(op)
    elif kind == "reset":
        w.o[k].reset_match_data()
    elif kind == "parent":
        w.o[k].parent = w.o[op[2]] if op[2] in OBJECTS else VALUES[op[2]]
    elif kind == "weight":
        w.o[k].set_weight(child_key(w, op[2]), VALUES[op[3]])
    elif kind == "weights":
        w.o[k].weights = dict([(child_key(w, c), VALUES[x]) for c, x in op[2]])
    elif kind == "weights of":
        w.o[k].weights = VALUES[op[2]]
    elif kind == "children":
        if isinstance(op[2], (list, tuple)):
            w.o[k].children = [item(w, x) for x in op[2]]
        else:
            w.o[k].children = VALUES[op[2]]
    elif kind == "name":
        if k == "g":
            w.g.name = value(op)
        elif k == "i":
            w.i.name = value(op)
        elif k in ("r", "s"):
            w.rules[k].name = value(op)
        else:
            w.o[k].name = value(op)
    elif kind == "expansion":
        w.rules[k].expansion = item(w, op[2])
    elif kind == "header":
        setattr(w.g, ("jsgf_version", "charset_name", "language_name")[op[1]], op[2])
    elif kind == "visible":
        w.rules[k].visible = op[2]
    elif kind == "make":
        args = [item(w, x) for x in op[2]]
        if k == "Rule":
            jsgf.Rule(args[0], True, args[1])
        else:
            getattr(jsgf, k)(*args)
    else:
        raise ValueError(op)


def enabled(s, op):
    """
    Whether the result of a step is specified: expansions are only given children or a
    parent if they don't become their own ancestors and weights and texts are for sets of
    literals.
    """
    kind, k = op[0], op[1]
    if kind in ("weight", "weights"):
        return all([(c, "text") in s for c in s[k, "children"]]) and \
            len(set([s[c, "text"] for c in s[k, "children"]])) == len(s[k, "children"])
    if kind == "text":
        # Weights are compared by text.
        p = s[k, "parent"]
        return k in s and True if p is None else not (p, "weights") in s
    if kind == "parent" and op[2] in OBJECTS:
        x = op[2]
        while x is not None:
            if x == k:
                return False
            x = s[x, "parent"]
    if kind == "expansion" and not op[2].startswith("!"):
        # An expansion is only used by one rule at a time.
        return s[op[2], "parent"] is None and s[op[2], "rule"] in (None, k)
    if kind == "children" and isinstance(op[2], (list, tuple)):
        x = k
        while x is not None:
            if x in op[2]:
                return False
            x = s[x, "parent"]
        return not [c for c in op[2] if c[0] != "!" and s[c, "parent"] not in (None, k)]
    return True


def step(w, op, res):
    """Perform an operation: list of messages."""
    before = w.snapshot()
    if not enabled(before, op):
        return None
    res.transitions += 1
    w.refused = False
    if op[0] == "match speech":
        # Incomplete rules and unknown references raise errors.
        perform_quietly(w, op)
        return []
    changes, errors = expected(before, op)
    error = None
    try:
        perform(w, op)
    except Exception as e:
        error = e
    after = w.snapshot()
    w.refused = errors is not None
    if w.refused:
        if error is None:
            return ["%s is accepted" % (op,)]
        names = [c.__name__ for c in type(error).__mro__]
        if not [n for n in errors if n in names]:
            return ["%s raises %s: %s instead of %s" % (
                op, type(error).__name__, error, "/".join(errors))]
        want = dict(before)
    else:
        if error is not None:
            return ["%s raises %s: %s" % (op, type(error).__name__, error)]
        want = dict(before)
        want.update(changes)
    for k in ("S", "q", "sl", "z", "y"):
        # Only roots of trees are asked for their rules.
        if before[k, "parent"] is not None or after[k, "parent"] is not None:
            want[k, "rule"] = after[k, "rule"]
    res.outcome("%s %s" % (op[0], "refused" if errors else "done"))
    if after != want:
        return ["%s: %s is %r instead of %r" % (op, k, after.get(k), want.get(k))
                for k in want if after.get(k) != want[k]][:3] or ["%s: more" % (op,)]
    return []


SEEN = ("match speech", "weight", "weights", "expansion", "children")


def run_ops(ops, res, plain):
    w = World()
    refused = False
    for i, op in enumerate(ops):
        msgs = step(w, op, res)
        if msgs is None:
            return []
        if msgs:
            return ["after %s: %s" % (list(ops[:i]), m) for m in msgs]
        refused = len(msgs) == 0 and w.refused
    res.states += 1
    res.traces += 1
    if plain is not None and refused:
        # A refused operation changes nothing that can be seen.
        got = w.behaviour()
        if got != plain:
            return ["after %s: %r instead of %r, which it is without the refused last "
                    "operation" % (list(ops), g, x)
                    for g, x in zip(got, plain) if g != x]
    return []


def perform_quietly(w, op):
    try:
        perform(w, op)
    except Exception:
        pass


def judge(res, case):
    ops = all_ops() if case["last"] == "all" else first_ops()
    first = [tup(o) for o in case["first"]]
    plain = None
    if len(first) + case["depth"] == 1 or first[0][0] in SEEN:
        # What can be seen without a refused last operation.
        w = World()
        for op in first[:len(first) + case["depth"] - 1]:
            perform_quietly(w, op)
        plain = w.behaviour()
    for rest in itertools.product(ops, repeat=case["depth"]):
        msgs = run_ops(first + list(rest), res, plain)
        if msgs:
            return msgs
    return []


def tup(op):
    return tuple([tuple([tuple(y) if isinstance(y, list) else y for y in x])
                  if isinstance(x, list) else x for x in op])


STRINGS = ("t", "padded", "blank", "empty", "none", "brace", "text subclass", "upper",
           "tabs")
BAD = ("5", "list", "tuple", "bytes", "dict", "object", "true", "1.5")


def all_ops():
    ops = [("match speech", None, "a b c f e e Sl"), ("match speech", None, "a d f Sl"),
           ("match speech", None, "a b zz")]
    for k in ("a", "S", "O", "A", "N", "K", "F", "0", "V", "D", "z"):
        ops += [("tag", k, v) for v in STRINGS + BAD]
    for k in ("a", "b", "S", "O", "A", "N", "K", "e", "F", "sl", "D", "z", "y"):
        ops += [("match", k, v) for v in STRINGS + BAD]
        ops += [("reset", k)]
    ops += [("reset", "0"), ("reset", "V")]
    for k in ("a", "S", "O", "N", "0", "V", "D", "z"):
        ops += [("slice", k, v) for v in ("slice", "open slice", "none", "5", "tuple",
                                          "t", "empty", "int 0")]
    for k in ("a", "b", "sl", "z", "c"):
        ops += [("text", k, v) for v in STRINGS if v != "none"]
        ops += [("text", k, v) for v in BAD + ("none",)]
    for k in ("a", "z", "b", "y", "O"):
        ops += [("parent", k, v) for v in ("none", "O", "S", "y", "K", "5", "t", "list",
                                           "empty", "true") if v != k]
    for c in (0, 1, 2, -1, -2, -3, "c", "d", "text c", "text d", "text zz",
              "text d { t }"):
        ops += [("weight", "A", c, v) for v in ("0", "2", "0.25", "-1", "-0.5", "nan",
                                                "inf", "-inf", "word", "none", "list")]
    for pairs in ((), ((0, "2"),), ((0, "2"), (1, "0.25")), (("c", "2"), ("d", "0")),
                  (("text c", "0.25"),), ((0, "2"), (1, "-1")), ((1, "-1"), (0, "2")),
                  ((0, "2"), (5, "2")), ((0, "2"), ("text zz", "2")), ((1, "nan"),),
                  ((0, "2"), (1, "none"))):
        ops.append(("weights", "A", pairs))
    ops += [("weights of", "A", v) for v in ("5", "none")]
    for k in ("S", "A", "O", "y"):
        for items in (("z",), ("z", "!5"), ("!none",), ("!list", "z"), ("z", "!bytes"),
                      ()):
            if k != "S" or items not in ((), ("z",)):
                ops.append(("children", k, items))
        ops += [("children", k, v) for v in ("5", "none", "t", "dict", "slice")]
    names = ("new", "dotted", "two words", "NULL", "VOID", "trailing", "newline", "star",
             "empty", "blank", "Zürich", "semicolon", "mixed") + BAD + ("none",)
    for k in ("g", "i", "r", "N"):
        ops += [("name", k, v) for v in names]
    for k in ("r", "s"):
        ops += [("expansion", k, v) for v in ("z", "y", "S", "!5", "!none", "!list",
                                              "!bytes", "!true", "!dict")]
    ops += [("header", 0, "2.0"), ("header", 1, "UTF-8"), ("header", 2, "de"),
            ("header", 1, ""), ("visible", "r", False), ("visible", "s", True)]
    te, ge = ("TypeError",), ("GrammarError",)
    for bad in ("!5", "!none", "!list", "!bytes"):
        for t in ("Sequence", "AlternativeSet"):
            ops += [("make", t, ("z", bad), te), ("make", t, (bad, "z"), te),
                    ("make", t, ("a", bad), te)]
        for t in ("OptionalGrouping", "RequiredGrouping", "Repeat", "KleeneStar",
                  "Literal"):
            ops.append(("make", t, (bad,), te))
        for t in ("Grammar", "Import", "NamedRuleRef"):
            ops.append(("make", t, (bad,), ge))
        ops += [("make", "Rule", ("!new", bad), te), ("make", "Rule", (bad, "z"), ge)]
    for bad in ("!two words", "!NULL", "!dotted", "!empty"):
        ops.append(("make", "Rule", (bad, "z"), ge))
    return ops


def first_ops():
    """Operations that other operations could depend on (for longer histories)."""
    keep = []
    for op in all_ops():
        if op[0] == "match speech":
            keep.append(op)
        elif op[0] == "parent" and op[2] in ("none", "O", "y"):
            keep.append(op)
        elif op[0] in ("tag", "match", "slice", "text") and op[2] in (
                "padded", "none", "slice", "upper", "5") and op[1] in "abcSAz":
            keep.append(op)
        elif op[0] == "weight" and op[2] in (0, "d", "text zz") and op[3] in (
                "0", "0.25", "-1"):
            keep.append(op)
        elif op[0] in ("weights", "weights of", "children", "expansion"):
            keep.append(op)
        elif op[0] == "name" and op[2] in ("new", "5", "two words"):
            keep.append(op)
    return keep


def cases(ctx):
    for op in all_ops():
        yield {"first": [op], "last": "all", "depth": 0}
    # A sixth of the operations that are refused are enough in front of others.
    w = World()
    for i, op in enumerate(first_ops()):
        if not ctx.quick or op[0] in ("match speech",) or i % 6 == 0 or \
                expected(w.snapshot(), op)[1] is None:
            yield {"first": [op], "last": "all", "depth": 1}


def long_cases(ctx):
    w = World()
    ops = [op for op in first_ops() if op[0] == "match speech" or
           expected(w.snapshot(), op)[1] is None]
    for a in ops:
        for b in ops:
            yield {"first": [a, b], "last": "dependent", "depth": 1}


SPACES = [
    ("settings", judge, cases, "all sequences of up to 2 of 990 settings, "
     "constructions and matches, the first one of 170 that matter to others (quick: of "
     "90)"),
]
LONG = ("longer histories", judge, long_cases, "all sequences of 3 of about 170 settings "
        "and matches")
PARTS = dict([(s[0], s[1]) for s in SPACES + [LONG]])


def run(ctx):
    for name, j, cs, bound in SPACES + ([] if ctx.quick else [LONG]):
        ctx.explore(name, cs(ctx), j, bound)
    ctx.assumptions = ["expansions are not made their own ancestors, nor shared by rules",
                       "weights are set for sets of different literals"]
